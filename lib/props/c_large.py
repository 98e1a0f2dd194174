"""C19: counts of polytopes far beyond enumeration: closed formulas and relations."""
import math, random
from _common import *


def floor_sum(n, m, a, b):
    """sum of floor((a*i+b)/m), i = 0..n-1, m > 0, any integers a, b."""
    r = 0
    while n > 0:
        r += (n - 1) * n // 2 * (a // m) + n * (b // m)
        a, b = a % m, b % m
        y = a * n + b
        if y < m:
            break
        n, b, m, a = y // m, y % m, a, m
    return r


def count_polygon(V):
    """Integer points of a convex polygon (segments and points included) with vertices V."""
    V = sorted(set(map(tuple, V)))
    cr = lambda o, a, b: (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])

    def chain(s):
        c = []
        for P in V:
            while len(c) >= 2 and s * cr(c[-2], c[-1], P) <= 0:
                c.pop()
            c.append(P)
        return c
    if V[0][0] == V[-1][0]:
        if V[0][0].denominator != 1:
            return 0
        return geom.fl(V[-1][1]) - geom.ceil(V[0][1]) + 1
    lo, hi = chain(1), chain(-1)

    def total(c, f, up):
        # the last point of a vertical edge is the extreme one in each chain
        s = 0
        for (x0, y0), (x1, y1) in zip(c, c[1:]):
            if x0 == x1:
                continue
            a = geom.ceil(x0)
            b = geom.ceil(x1) - 1 if (x1, y1) != f else geom.fl(x1)
            if b < a:
                continue
            m = (y1 - y0) / (x1 - x0)
            q = m.denominator * y0.denominator * x0.denominator
            A = m * q
            B = (y0 + m * (a - x0)) * q
            k = B.denominator
            A, B, q = A * k, B * k, q * k
            if up:
                s += floor_sum(b - a + 1, int(q), int(A), int(B))
            else:
                s -= floor_sum(b - a + 1, int(q), int(-A), int(-B))
        return s
    # restrict each chain to its monotone part
    xm, xM = V[0][0], V[-1][0]
    L = [p for p in lo]
    while len(L) > 1 and L[-2][0] == xM:
        L.pop()
    H = [p for p in hi]
    while len(H) > 1 and H[1][0] == xm:
        H.pop(0)
    n = geom.fl(xM) - geom.ceil(xm) + 1
    return total(H, H[-1], True) - total(L, L[-1], False) + max(0, n)


def big(rng, hi=None):
    k = rng.choice([1, 2, 3, 6, 9, 10, 18, 19, 20, 30, 45, 60])
    return rng.choice([10 ** k, 2 ** rng.choice([15, 16, 31, 32, 53, 62, 63, 64, 127, 128]), rng.randint(1, 10 ** k)]) + rng.choice([-1, 0, 1])


def rows_of(p, t):
    return [[t * r[0]] + r[1:] for r in p["ineqs"]], [[t * r[0]] + r[1:] for r in p["eqs"]]


def transform(R, E, U, s):
    d = len(s)
    f = lambda r: [r[0]] + [sum(r[1 + i] * U[i][j] for i in range(d)) for j in range(d)]
    R, E = [f(r) for r in R], [f(r) for r in E]
    return gens.translate(R, s), gens.translate(E, s)


def quasi(p, V, dim, t, limit=250_000):
    q = 1
    for v in V:
        for x in v:
            q = math.lcm(q, x.denominator)
    t0 = t % q
    if (t - t0) // q <= dim:
        n = geom.count_polytope(p["ineqs"], p["eqs"], V, scale=t, limit=limit)
        if n is None:
            raise Inconclusive("oracle box too large")
        return n
    ys = []
    for j in range(dim + 1):
        n = geom.count_polytope(p["ineqs"], p["eqs"], V, scale=t0 + q * j, limit=limit)
        if n is None:
            raise Inconclusive("oracle box too large")
        ys.append(n)
    r = geom.interp(ys, F(t - t0, q))
    assert r.denominator == 1
    return int(r)


def feasible(p, limit=250_000):
    V, dim = gens.oracle(p)
    if dim < 0:
        return False
    q = math.lcm(*[x.denominator for v in V for x in v])
    return geom.boxsize(*geom.bbox([[(dim + 1) * q * x for x in v] for v in V])) <= limit


def birkhoff3(r):
    c = lambda n: math.comb(n, 4) if n >= 4 else 0
    return c(r + 4) + c(r + 3) + c(r + 2)


class C19(Prop):
    ID = "C19"
    PROGRAMS = ["count"]
    RANDOM = True
    CASES = {"quick": 12000, "thorough": 100000}
    RULE = "nonempty polytope with more than a million integer points; distinct by (polytope, transformation, mode, options)"

    def gen(self, rng, tier):
        mode = rng.choice(["dilate"] * 4 + ["cut", "cut", "faces", "product", "product", "polygon", "polygon", "embed", "embed", "birkhoff", "box"])
        c = {"mode": mode, "t": big(rng), "key": rng.randint(1, 10 ** 9), "opts": [], "p": None, "q": None, "u": 1, "shear": rng.choice([0, 0, 1, 2, 4])}
        if mode == "birkhoff":
            c["t"] = abs(c["t"])
            c["opts"] = [x for x in config(rng) if not x.startswith(("--maxdet", "--no-dec"))]
            return c
        if mode == "polygon":
            n = rng.randint(3, 6)
            B = abs(big(rng)) + 2
            C = rng.choice([9, 100, 10 ** 5, 10 ** 12])
            R = [[rng.randint(0, B), rng.randint(-C, C), rng.randint(-C, C)] for _ in range(n)]
            R += rng.choice([[], [[0, 1, 0], [0, 0, 1]]])
            c["p"] = {"d": 2, "ineqs": R, "eqs": [], "tags": []}
            o = [x for x in config(rng) if not x.startswith(("--maxdet", "--no-dec"))]
            if rng.random() < .2:
                o.append("--maxdet=%d" % rng.choice([2, 10, 100]))
            c["opts"] = [x for x in o if x != "--homog"] + ["--maxdet=1"] * 0
            return c
        dmax = 3 if mode in ("product", "embed") else 4
        kinds = [k for k in gens.KINDS if k[1] is not gens.p_simplexrows] if rng.random() < .5 else None
        p = gens.polytope(rng, dmax, dims=rng.choice([2, 2, 3, 3, 4][:dmax + 1]) if mode != "product" else rng.choice([1, 2, 3]), kinds=kinds)
        if p is None:
            return None
        if mode != "box" and not feasible(p):
            return None
        c["p"] = p
        if mode == "box":
            c["p"] = {"d": p["d"], "ineqs": gens.box_rows([0] * p["d"], [1] * p["d"]), "eqs": [], "tags": []}
        if mode == "product":
            q = gens.polytope(rng, 2)
            if q is None or not feasible(q):
                return None
            c["q"] = q
            c["u"] = abs(big(rng))
        o = config(rng)
        if mode in ("cut", "faces", "product"):
            o = [x for x in o if not x.startswith("--no-dec")]
            o = ["--maxdet=%d" % min(10, int(x[9:])) if x.startswith("--maxdet") else x for x in o]
        c["opts"] = tame(o, p)
        return c

    def valid(self, c):
        if c["t"] < 1 or c["u"] < 1 or c["shear"] not in range(6):
            return False
        if c["mode"] == "birkhoff":
            return True
        if not gens.poly_valid(c["p"], maxcoef=10 ** 70):
            return False
        if c["mode"] == "polygon" and (c["p"]["d"] != 2 or c["p"]["eqs"]):
            return False
        return c["mode"] != "product" or gens.poly_valid(c["q"])

    def shrinks(self, c):
        for i in range(len(c["opts"])):
            yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:])
        if c["shear"]:
            yield dict(c, shear=0)
        for t in (1, 2, 10, 1000, c["t"] // 10 ** 6, c["t"] // 10):
            if 0 < t < c["t"]:
                yield dict(c, t=t)
        if c["p"]:
            for q in gens.poly_shrinks(c["p"]):
                yield dict(c, p=q)
        if c["q"]:
            for q in gens.poly_shrinks(c["q"]):
                yield dict(c, q=q)

    def check(self, c, env):
        rng = random.Random(c["key"])
        mode, t, opts = c["mode"], c["t"], c["opts"]

        def run(R, E, d, U=None, s=None):
            if U:
                R, E = transform(R, E, U, s)
            R = [list(r) for r in R]
            rng.shuffle(R)
            return count(env, {"in": gens.hrep_text({"d": d, "ineqs": R, "eqs": E})}, opts + ["in"])

        def frame(d):
            if not c["shear"] or d < 2:
                U = [[int(i == j) for j in range(d)] for i in range(d)]
            else:
                U = geom.random_unimodular(rng, d, steps=c["shear"], size=rng.choice([1, 2, 50, 10 ** 4]))
            s = [rng.choice([0, rng.randint(-5, 5), rng.choice([-1, 1]) * abs(big(rng))]) for _ in range(d)]
            return U, s
        if mode == "birkhoff":
            R = [[0] + [int(i == j) for j in range(9)] for i in range(9)]
            E = [[t] + [-int(j // 3 == i) for j in range(9)] for i in range(3)] + [[t] + [-int(j % 3 == i) for j in range(9)] for i in range(3)]
            if rng.random() < .5:
                del E[rng.randrange(6)]
            rng.shuffle(E)
            want, dim, V, d = birkhoff3(t), 4, [], 9
            got = run(R, E, 9)
            desc = "3x3 semi-magic squares of sum %d" % t
        elif mode == "polygon":
            p = c["p"]
            V = geom.vertices(p["ineqs"], [], 2)
            dim = geom.affdim(V)
            if dim < 0:
                raise Discard("empty")
            want, d = count_polygon(V), 2
            got = run(p["ineqs"], [], 2, *frame(2))
            desc = "polygon"
        else:
            p = c["p"]
            d = p["d"]
            V, dim = gens.oracle(p)
            if dim < 0:
                raise Discard("empty")
            want = quasi(p, V, dim, t)
            R, E = rows_of(p, t)
            U, s = frame(d)
            desc = "dilate by %d" % t
            if mode in ("dilate", "box"):
                if mode == "box":
                    L = [abs(big(rng)) for _ in range(d)]
                    R = gens.box_rows([0] * d, L)
                    want = math.prod(x + 1 for x in L)
                if rng.random() < .3:       # implied constraints
                    for _ in range(rng.randint(1, 3)):
                        i, j = rng.randrange(len(R)), rng.randrange(len(R))
                        a, b = rng.randint(1, 5), rng.randint(0, 5)
                        R.append([a * x + b * y for x, y in zip(R[i], R[j])])
                        R[-1][0] += rng.choice([0, 1, abs(big(rng))])
                        if not any(R[-1][1:]):
                            R.pop()
                got = run(R, E, d, U, s)
            elif mode in ("cut", "faces"):
                a = [rng.randint(-3, 3) for _ in range(d)]
                if not any(a):
                    a[0] = 1
                vals = sorted(t * sum(x * y for x, y in zip(a, v)) for v in V)
                x = F(rng.randint(0, 1000), 1000)
                b = geom.fl(vals[0] * x + vals[-1] * (1 - x)) + rng.choice([0, 0, 1, -1])
                lo = run(R + [[b] + [-y for y in a]], E, d, U, s)
                if mode == "cut":
                    got = lo + run(R + [[-b - 1] + a], E, d, U, s)
                else:
                    got = lo + run(R + [[-b] + a], E, d, U, s) - run(R, E + [[-b] + a], d, U, s)
                desc += ", %s at %s <= %d" % (mode, a, b)
            elif mode == "embed":
                k = rng.randint(1, 2)
                D = d + k
                R = [r + [0] * k for r in R]
                E = [r + [0] * k for r in E]
                for j in range(k):
                    m = rng.choice([1, 1, 2, 3, 7])
                    v = rng.choice([rng.randint(-9, 9), big(rng)])
                    w = [rng.randint(-2, 2) for _ in range(d)] if m == 1 else [0] * d
                    if rng.random() < .9:
                        v *= m
                    E.append([-v] + w + [m * int(i == j) for i in range(k)])
                    if v % m:
                        want = 0
                got = run(R, E, D, *frame(D))
                desc += " in dimension %d" % D
            else:
                q = c["q"]
                W, qd = gens.oracle(q)
                if qd < 0:
                    raise Discard("empty")
                e = q["d"]
                want *= quasi(q, W, qd, c["u"])
                R2, E2 = rows_of(q, c["u"])
                R = [r + [0] * e for r in R] + [[r[0]] + [0] * d + r[1:] for r in R2]
                E = [r + [0] * e for r in E] + [[r[0]] + [0] * d + r[1:] for r in E2]
                got = run(R, E, d + e, *frame(d + e))
                desc += " times dilate by %d" % c["u"]
        if got != want:
            raise Fail("count %s (%s): %d reported, exact value %d" % (" ".join(opts), desc, got, want))
        return (jhash([c["p"], c["q"], mode, t, c["u"], opts, c["shear"]]) if want > 10 ** 6 else None), \
            ["mode=" + mode, "d=%d" % d, "dim=%d" % dim, "digits=%d" % (len(str(want)) // 20 * 20), "shear=%d" % c["shear"]] + opts
