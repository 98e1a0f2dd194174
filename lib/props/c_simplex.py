"""C21: the batch programs that integrate lists of integrand/simplex pairs."""
import math
from _common import *
from c_integrate import poly_text, lf_text, rcoef


def vint(rng, b):
    return [rng.choice([rng.randint(-b, b), rng.randint(-2, 2), 0, rng.randint(0, 1)]) for _ in range(1)][0]


def zero_poly(T):
    P = {}
    for a, e in T:
        P[tuple(e)] = P.get(tuple(e), 0) + F(*a)
    return not any(P.values())


class C21(Prop):
    ID = "C21"
    PROGRAMS = ["BurstIntegrate", "BlockIntegrate", "integrate_demo"]
    CASES = {"quick": 9000, "thorough": 150000}
    RULE = "at least one integral that is not zero over a simplex of positive volume; distinct by program, mode and list of pairs"

    def gen_simplex(self, rng, d):
        b = rng.choice([1, 2, 5, 30, 10 ** 6, 10 ** 15])
        S = [[vint(rng, b) for _ in range(d)] for _ in range(d + 1)]
        k = rng.random()
        if k < .15:
            S = [[0] * d] + [[rng.choice([1, 1, 2, b]) if i == j else 0 for j in range(d)] for i in range(d)]
        elif k < .3:
            S[0] = [0] * d
        rng.shuffle(S)
        return S

    def gen(self, rng, tier):
        mode = rng.choice(["polynomial", "polynomial", "linear", "linear", "linear"])
        pairs = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            d = rng.choice([1, 1, 2, 2, 2, 3, 3, 3, 4, 5])
            S = self.gen_simplex(rng, d)
            top = {1: 30, 2: 12, 3: 8, 4: 5, 5: 4}[d]
            T = []
            for _ in range(rng.choice([1, 1, 2, 3, 6])):
                c = rcoef(rng)
                if mode == "linear":
                    k = rng.choice([0, 1, 2, 3, rng.randint(0, top), rng.randint(0, 30)])
                    big = 10 ** rng.choice([6, 12, 25]) if rng.random() < .08 else 50
                    l = [rng.choice([0, 1, -1, rng.randint(-3, 3), rng.randint(-big, big)]) for _ in range(d)]
                    if rng.random() < .3:       # vanishes along an edge
                        i, j = rng.randrange(d + 1), rng.randrange(d + 1)
                        w = [x - y for x, y in zip(S[i], S[j])]
                        a, e = rng.randrange(d), rng.randrange(d)
                        if a != e and max(map(abs, w)) < 10 ** 3:
                            l = [0] * d
                            l[a], l[e] = w[e], -w[a]
                    T.append([c, k, l])
                else:
                    e = [0] * d
                    for _ in range(rng.choice([0, 1, 2, rng.randint(0, top)])):
                        e[rng.randrange(d)] += 1
                    T.append([c, e])
            if rng.random() < .15:
                T.append([[-T[0][0][0], T[0][0][1]]] + T[0][1:])
            if rng.random() < .15:
                T.append([rcoef(rng)] + T[0][1:])
            pairs.append([T, S])
        # integrate_demo refuses an identically zero polynomial with a message
        refused = mode != "linear" and any(zero_poly(T) for T, S in pairs)
        return {"mode": mode, "pairs": pairs, "space": rng.random() < .3, "program": "BlockIntegrate" if refused else rng.choice(["BurstIntegrate", "BlockIntegrate", "integrate_demo"]),
                "io": rng.choice(["files", "files", "print", "pipe"])}

    def valid(self, c):
        if not c["pairs"]:
            return False
        for T, S in c["pairs"]:
            d = len(S) - 1
            if d < 1 or any(len(v) != d for v in S) or not T:
                return False
            for t in T:
                if len(t) != (3 if c["mode"] == "linear" else 2) or len(t[0]) != 2 or t[0][1] < 1 or len(t[-1]) != d:
                    return False
                if c["mode"] == "linear" and not 0 <= t[1] <= 60 or c["mode"] != "linear" and min(t[1]) < 0:
                    return False
        return not (c["program"] == "integrate_demo" and c["mode"] != "linear" and any(zero_poly(T) for T, S in c["pairs"]))

    def shrinks(self, c):
        for i in range(len(c["pairs"])):
            yield dict(c, pairs=c["pairs"][:i] + c["pairs"][i + 1:])
        for i, (T, S) in enumerate(c["pairs"]):
            put = lambda x: dict(c, pairs=c["pairs"][:i] + [x] + c["pairs"][i + 1:])
            for j in range(len(T)):
                yield put([T[:j] + T[j + 1:], S])
            d = len(S) - 1
            if d > 1:
                for j in range(d):
                    yield put([[t[:-1] + [t[-1][:j] + t[-1][j + 1:]] for t in T], [v[:j] + v[j + 1:] for v in S[:-1]]])
            yield put([T, [[0] * d] + [[int(a == b) for b in range(d)] for a in range(d)]])
            for j, t in enumerate(T):
                if t[0] != [1, 1]:
                    yield put([T[:j] + [[[1, 1]] + t[1:]] + T[j + 1:], S])

    def check(self, c, env):
        text = "".join("%s\n[%s]\n" % ((lf_text if c["mode"] == "linear" else poly_text)([[F(*t[0])] + t[1:] for t in T]),
                                       ",".join("[" + ",".join(map(str, v)) + "]" for v in S)) for T, S in c["pairs"])
        if c["space"]:
            text = text.replace(",", ", ")
        demo = c["program"] == "integrate_demo"
        with Scratch({"in": text}) as s:
            if demo:
                io = c.get("io", "files")
                r = guard(s.run(env.exe(c["program"]), (["-m"] if c["mode"] != "linear" else []) + {"files": ["in", "out"], "print": ["in"], "pipe": []}[io],
                                stdin=text if io == "pipe" else None))
                t = s.get("out") if io == "files" else r.out
            else:
                r = guard(s.run(env.exe(c["program"]), ["in", "out", c["mode"]]))
                t = s.get("out")
        if r.rc != 0 or t is None:
            raise Fail("%s failed (status %d): %s" % (c["program"], r.rc, tail(r.err or r.out)))
        if demo:
            L = [x for m in re.findall(r"^Calculated integral is \\frac\{(.*)\}\{(.*)\}$", t, re.M) for x in m]
        else:
            L = t.split()
        if len(L) != 2 * len(c["pairs"]) or not all(re.fullmatch(r"-?\d+", x) for x in L):
            raise Fail("%s wrote %d numbers for %d pairs: %s" % (c["program"], len(L), len(c["pairs"]), t[:200]))
        live = False
        for i, (T, S) in enumerate(c["pairs"]):
            S = [[F(x) for x in v] for v in S]
            if c["mode"] == "linear":
                want = sum(F(*a) * geom.integrate_lf_simplex(S, l, k) for a, k, l in T)
            else:
                P = {}
                for a, e in T:
                    P[tuple(e)] = P.get(tuple(e), 0) + F(*a)
                want = geom.integrate_simplex(S, P)
            a, b = int(L[2 * i]), int(L[2 * i + 1])
            if b == 0 or F(a, b) != want:
                raise Fail("%s: integral %d of %s over %s is %d/%d, should be %s" % (c["program"], i, T, c["pairs"][i][1], a, b, want))
            live |= want != 0
        return (jhash(c) if live else None), [c["program"], c["mode"], "pairs=%d" % len(c["pairs"])] + ["d=%d" % (len(S) - 1) for T, S in c["pairs"]]
