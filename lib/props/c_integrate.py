"""C08 volume, C09 polynomial integrals, C10 integrals of powers / products of linear forms (exact rationals)."""
import random
from _common import *
from c_formats import cdd_ine, cdd_ext, vrows, fr


def simplices(p, V):
    H = geom.hull_hrep(V, p["d"]) if len(V) <= 24 else p["ineqs"]
    return [[V[i] for i in s] for s in geom.triangulate(V, H)]


FORMATS = ["h", "h", "h", "ine", "vrep", "ext"]


def write_input(p, V, fmt, key=1):
    d = p["d"]
    if fmt == "h":
        return "in", gens.hrep_text(p), ["in"]
    if fmt == "ine":
        return "in.ine", cdd_ine(p, range(len(p["ineqs"]))), ["--cdd", "in.ine"]
    W = [V[i] for i in sorted(range(len(V)), key=lambda i: key * (i + 1) % 101)]
    if fmt == "vrep":
        return "in", "%d %d\n" % (len(W), d + 1) + vrows(W, "scaled"), ["--vrep", "in"]
    return "in.ext", cdd_ext(W, d, "integer", "scaled"), ["--cdd", "in.ext"]


def answers(r, name):
    """[(method, value)] as printed; checks the decimal rendering."""
    out = []
    for m in re.finditer(r"^([A-Z][^\n]*\))\n\s+Answer: (-?\d+(?:/\d+)?)\n\s+Decimal: (\S+)", r.out, re.M):
        v = F(m.group(2))
        try:
            dec = F(m.group(3))
        except ValueError:
            raise Fail("%s: unreadable decimal %r" % (name, m.group(3)))
        if abs(dec - v) > abs(v) / 10 ** 12:
            raise Fail("%s: decimal %s does not represent %s" % (name, m.group(3), v))
        out.append((m.group(1), v))
    return out


def poly_text(P):
    return "[" + ",".join("[%s,[%s]]" % (fr(c), ",".join(map(str, e))) for c, e in P) + "]"


def lf_text(L):
    return "[" + ",".join("[%s,[%d,[%s]]]" % (fr(c), k, ",".join(map(str, l))) for c, k, l in L) + "]"


def plf_text(L):
    return "[" + ",".join("[%s,[%s]]" % (fr(c), ",".join("[%d,[%s]]" % (k, ",".join(map(str, l))) for k, l in fs))
                          for c, fs in L) + "]"


def rcoef(rng):
    n = rng.choice([1, 1, -1, 2, -3, 5, rng.randint(-50, 50), rng.randint(-10 ** 12, 10 ** 12)])
    if rng.random() < .02:
        return [0, 1]
    return [n or 1, rng.choice([1, 1, 1, 2, 3, 7, rng.randint(1, 60)])]


class _Int(Prop):
    PROGRAMS = ["integrate"]
    RANDOM = True
    DMAX = 4

    def poly(self, rng):
        for _ in range(50):
            p = gens.polytope(rng, self.DMAX, eqs=False)
            if p is None or p["eqs"]:
                continue
            V, dim = gens.oracle(p)
            if dim == p["d"] and len(V) <= 16 and p["ineqs"]:
                if rng.random() < .08:      # blown up
                    k = rng.randint(2, 10 ** rng.choice([2, 5, 9, 12, 20]))
                    p = dict(p, ineqs=[[r[0] * k] + list(r[1:]) for r in p["ineqs"]], tags=list(p.get("tags", [])) + ["blownup"])
                return p
        return None

    def options(self, rng, methods, p=None):
        o = []
        m = rng.choice(methods)
        if m:
            o.append(m)
        if rng.random() < .3:
            o.append("--triangulation=" + rng.choice(["cddlib", "4ti2", "topcom", "cdd", "delone"]))
        if rng.random() < .15:
            o.append("--compute-vertex-cones=" + rng.choice(["cdd", "lrs", "4ti2"]))
        if rng.random() < .1:
            o.append("--redundancy-check=full-cddlib")
        elif rng.random() < .15 and p is not None:
            o.append("--redundancy-check=" + ("none" if gens.irredundant(p) else "cddlib"))
        return o

    def style(self, rng, c):
        """How the integrand is given: in a file or on standard input, and with which spacing."""
        if rng.random() < .25:
            c["stdin"] = 1
        if rng.random() < .3:
            c["space"] = rng.randint(1, 1000)
        return c

    def valid(self, c):
        if not gens.poly_valid(c["p"]) or c["p"]["eqs"]:
            return False
        if "--redundancy-check=none" in c["opts"] and (c["fmt"] not in ("h", "ine") or not gens.irredundant(c["p"])):
            return False
        return self.valid_integrand(c)

    def valid_integrand(self, c):
        return True

    def shrinks(self, c):
        for i in range(len(c["opts"])):
            yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:])
        if c["fmt"] != "h":
            yield dict(c, fmt="h")
        for k in ("stdin", "space"):
            if c.get(k):
                yield {x: y for x, y in c.items() if x != k}
        for q in gens.poly_shrinks(c["p"]):
            if q["d"] == c["p"]["d"]:
                yield dict(c, p=q)

    def run(self, c, env, extra_args, files, exact, mult):
        stdin = None
        if c.get("space"):
            rng = random.Random(c["space"])
            files = {k: "".join(x + " " * (x in ",[]" and rng.random() < .3) for x in v[:-1]).rstrip() + "\n" for k, v in files.items()}
        if c.get("stdin"):
            kind = {"monomials": "p", "linear-forms": "l", "product-linear-forms": "d"}[extra_args[1][2:].split("=")[0]]
            stdin = kind + "\n" + files["f"]
            files, extra_args = {}, extra_args[:1]
        p = c["p"]
        V, dim = gens.oracle(p)
        if dim < p["d"] or len(V) > 24:
            raise Discard("not full-dimensional")
        name, text, args = write_input(p, V, c["fmt"], c.get("key", 1))
        cmd = extra_args + c["opts"] + args
        label = "integrate " + " ".join(cmd)
        want = exact(p, V)
        with Scratch(dict(files, **{name: text})) as s:
            r = guard(s.run(env.exe("integrate"), cmd, stdin=stdin))
            a = answers(r, label)
            if r.rc != 0 or not a:
                raise Fail("%s failed (status %d) on valid input: %s" % (label, r.rc, tail(r.err)))
        for m, v in a:
            if v != want:
                raise Fail("%s: %s gives %s, exact value %s" % (label, m, v, want))
        if len(a) < mult:
            raise Fail("%s: only %d of %d methods reported" % (label, len(a), mult))
        return jhash(c), polylabels(p, V, dim) + ["fmt=" + c["fmt"]] + c["opts"] + [k for k in ("stdin", "space") if c.get(k)]

    def hd_run(self, c, S, env, args, files, want, mult):
        """The same in higher dimension, with the exact value given."""
        cmd = args + c["opts"] + ["in"]
        label = "integrate " + " ".join(cmd)
        with Scratch(dict(files, **{"in": gens.hrep_text(S.p)})) as s:
            r = guard(s.run(env.exe("integrate"), cmd))
        a = answers(r, label)
        if r.rc != 0 or not a:
            raise Fail("%s failed (status %d) on valid input: %s" % (label, r.rc, tail(r.err)))
        for m, v in a:
            if v != want:
                raise Fail("%s: %s gives %s, exact value %s" % (label, m, v, want))
        if len(a) < mult:
            raise Fail("%s: only %d of %d methods reported" % (label, len(a), mult))
        return (jhash(c) if want else None), c["opts"]


@high_dim(.1, full=True, dims=(5, 5, 6, 7, 8, 9))
class C08(_Int):
    ID = "C08"
    DMAX = 5
    CASES = {"quick": 1200, "thorough": 20000}
    RULE = "full-dimensional polytope; distinct by (H-rep, input format, options)"

    def gen(self, rng, tier):
        p = self.poly(rng)
        if p is None:
            return None
        return {"p": p, "fmt": rng.choice(FORMATS), "key": rng.randint(1, 100),
                "opts": self.options(rng, ["", "--all", "--triangulate", "--cone-decompose"], p)}

    def hd_gen(self, rng, h):
        o = rng.choice(["", "--all", "--triangulate", "--cone-decompose"])
        h = h(dims=(5, 5, 6, 7, 8, 9) if o == "--cone-decompose" else (5, 5, 6, 7), maxverts=100 if o == "--cone-decompose" else 50)
        return {"hd": h, "opts": [o] if o else []}

    def hd_check(self, c, S, env):
        n = 1 if ("--triangulate" in c["opts"] or "--cone-decompose" in c["opts"]) else 2
        return self.hd_run(c, S, env, ["--valuation=volume"], {}, S.integral_of({(0,) * S.d: 1}), n)

    def check(self, c, env):
        n = 1 if ("--triangulate" in c["opts"] or "--cone-decompose" in c["opts"]) else 2
        return self.run(c, env, ["--valuation=volume"], {},
                        lambda p, V: sum(geom.simplex_vol(s) for s in simplices(p, V)), n)


@high_dim(.04, full=True, dims=(5, 5, 5, 6, 6, 7), maxverts=50)
class C09(_Int):
    ID = "C09"
    CASES = {"quick": 6000, "thorough": 60000}
    RULE = "full-dimensional polytope and non-zero polynomial; distinct by (H-rep, polynomial, format, options)"

    def gen(self, rng, tier):
        p = self.poly(rng)
        if p is None:
            return None
        d = p["d"]
        P = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            deg = rng.choice([0, 1, 2, 3, 4, 5, 6] if d > 2 else [0, 1, 2, 4, 7, 9])
            e = [0] * d
            for _ in range(deg):
                e[rng.randrange(d)] += 1
            P.append([rcoef(rng), e])
        if rng.random() < .05:      # terms which cancel, wholly or in part
            P.append([[-P[0][0][0], P[0][0][1] * rng.choice([1, 1, 2])], list(P[0][1])])
        if rng.random() < .2:       # a high power, or a product of high powers
            e = [0] * d
            for i in rng.sample(range(d), min(d, rng.choice([1, 1, 2]))):
                e[i] = rng.randint(8, 45 if sum(e) == 0 else 16)
            P = P[:1] + [[rcoef(rng), e]] if rng.random() < .5 else [[rcoef(rng), e]]
        return self.style(rng, {"p": p, "P": P, "fmt": rng.choice(FORMATS), "key": rng.randint(1, 100),
                "opts": self.options(rng, ["", "--all", "--triangulate", "--cone-decompose", "--polynomial-as-plf"], p)})

    def hd_gen(self, rng, h):
        h = h()
        d = len(h["s"])
        P = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            e = [0] * d
            for _ in range(rng.randint(0, 4)):
                e[rng.randrange(d)] += 1
            P.append([rcoef(rng), e])
        o = rng.choice(["", "--all", "--triangulate", "--cone-decompose", "--polynomial-as-plf"])
        return {"hd": h, "P": P, "opts": [o] if o else []}

    def hd_valid(self, c):
        d = sum(len(a) for a, _, _ in c["hd"]["f"])
        return len(c["P"]) >= 1 and all(len(t[1]) == d and t[0][1] >= 1 and sum(t[1]) <= 6 for t in c["P"])

    def hd_check(self, c, S, env):
        P = [(F(*t[0]), tuple(t[1])) for t in c["P"]]
        poly = {}
        for a, e in P:
            poly[e] = poly.get(e, 0) + a
        n = 1 if any(o in c["opts"] for o in ("--triangulate", "--cone-decompose", "--polynomial-as-plf")) else 2
        return self.hd_run(c, S, env, ["--valuation=integrate", "--monomials=f"], {"f": poly_text(P) + "\n"}, S.integral_of(poly), n)

    def valid_integrand(self, c):
        d = c["p"]["d"]
        return len(c["P"]) >= 1 and all(len(t) == 2 and len(t[0]) == 2 and t[0][1] >= 1 and len(t[1]) == d and
                                        all(type(e) is int and 0 <= e <= 45 for e in t[1]) and sum(t[1]) <= 61 for t in c["P"])

    def check(self, c, env):
        P = [(F(*t[0]), tuple(t[1])) for t in c["P"]]
        poly = {}
        for a, e in P:
            poly[e] = poly.get(e, 0) + a
        n = 1 if any(o in c["opts"] for o in ("--triangulate", "--cone-decompose", "--polynomial-as-plf")) else 2
        k, l = self.run(c, env, ["--valuation=integrate", "--monomials=f"], {"f": poly_text(P) + "\n"},
                        lambda p, V: sum(geom.integrate_simplex(s, poly) for s in simplices(p, V)), n)
        return (k if any(poly.values()) else None), l + ["terms=%d" % len(P), "deg=%d" % max(sum(e) for _, e in P)]


@high_dim(.04, full=True, dims=(5, 5, 5, 6, 6, 7), maxverts=50)
class C10(_Int):
    ID = "C10"
    CASES = {"quick": 6000, "thorough": 60000}
    RULE = "full-dimensional polytope, sum of (products of) powers of linear forms; distinct by all inputs"

    def gen(self, rng, tier):
        p = self.poly(rng)
        if p is None:
            return None
        d = p["d"]
        size = rng.choice([10 ** 3, 10 ** 6, 10 ** 10, 10 ** 20]) if rng.random() < .08 else 5
        lf = lambda: [0 if rng.random() < .25 else rng.randint(-size, size) for _ in range(d)]
        prod = rng.random() < .45
        top = 5 if rng.random() < .9 else {1: 24, 2: 14, 3: 9}.get(d, 7)
        L = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if prod:
                fs = [[rng.randint(0, 3 if top == 5 else 8), lf()] for _ in range(rng.choice([1, 2, 2, 3] if top == 5 else [1, 2, 3, 4, 5]))]
                while sum(k for k, _ in fs) > top and len(fs) > 1:
                    fs.pop()
                if rng.random() < .1:       # a repeated factor
                    fs.append([rng.randint(0, 2), list(fs[0][1])])
                L.append([rcoef(rng), fs])
            else:
                L.append([rcoef(rng), rng.choice([0, 1, 2, 3, 4, 5, 7]) if rng.random() < .9 else rng.randint(8, 30 if d < 4 else 14), lf()])
        if rng.random() < .05:
            L.append([[-L[0][0][0], L[0][0][1] * rng.choice([1, 1, 2])]] + L[0][1:])
        return self.style(rng, {"p": p, "L": L, "prod": prod, "fmt": rng.choice(FORMATS), "key": rng.randint(1, 100),
                                "opts": self.options(rng, ["", "--triangulate"] if prod else
                                                     ["", "--all", "--triangulate", "--cone-decompose"], p)})

    def hd_gen(self, rng, h):
        h = h()
        d = len(h["s"])
        lf = lambda: [rng.choice([0, 1, -1, rng.randint(-3, 3)]) if rng.random() < .5 else 0 for _ in range(d)]
        prod = rng.random() < .4
        L = []
        for _ in range(rng.choice([1, 1, 2])):
            L.append([rcoef(rng), [[rng.randint(0, 2), lf()] for _ in range(rng.choice([1, 2]))]] if prod else [rcoef(rng), rng.randint(0, 5 if d < 7 else 3), lf()])
        o = rng.choice(["", "--triangulate"] if prod else ["", "--all", "--triangulate", "--cone-decompose"])
        return {"hd": h, "L": L, "prod": prod, "opts": [o] if o else []}

    def hd_valid(self, c):
        d = sum(len(a) for a, _, _ in c["hd"]["f"])
        return bool(c["L"]) and all(len(l) == d for t in c["L"] for l in ([f[1] for f in t[1]] if c["prod"] else [t[2]]))

    def hd_check(self, c, S, env):
        poly = {}
        for t in c["L"]:
            q = None
            for k, l in (t[1] if c["prod"] else [t[1:]]):
                x = geom.lf_poly(l, k)
                q = x if q is None else geom.pmul(q, x)
            for e, x in q.items():
                poly[e] = poly.get(e, 0) + x * F(*t[0])
        if c["prod"]:
            n, arg, text = 1, "--product-linear-forms=f", plf_text([(F(*a), fs) for a, fs in c["L"]])
        else:
            n = 1 if ("--triangulate" in c["opts"] or "--cone-decompose" in c["opts"]) else 2
            arg, text = "--linear-forms=f", lf_text([(F(*a), k, l) for a, k, l in c["L"]])
        return self.hd_run(c, S, env, ["--valuation=integrate", arg], {"f": text + "\n"}, S.integral_of(poly), n)

    def valid_integrand(self, c):
        d = c["p"]["d"]
        okf = lambda l: len(l) == d and all(type(x) is int for x in l)
        okc = lambda q: len(q) == 2 and q[1] >= 1
        if not c["L"]:
            return False
        if c["prod"]:
            return all(len(t) == 2 and okc(t[0]) and t[1] and all(len(f) == 2 and 0 <= f[0] <= 8 and okf(f[1]) for f in t[1]) for t in c["L"])
        return all(len(t) == 3 and okc(t[0]) and 0 <= t[1] <= 30 and okf(t[2]) for t in c["L"])

    def check(self, c, env):
        poly = {}

        def add(q, coef):
            for e, x in q.items():
                poly[e] = poly.get(e, 0) + x * coef
        if c["prod"]:
            for a, fs in c["L"]:
                q = None
                for k, l in fs:
                    t = geom.lf_poly(l, k)
                    q = t if q is None else geom.pmul(q, t)
                add(q, F(*a))
            text = plf_text([(F(*a), fs) for a, fs in c["L"]])
            arg = "--product-linear-forms=f"
            n = 1
        else:
            text = lf_text([(F(*a), k, l) for a, k, l in c["L"]])
            arg = "--linear-forms=f"
            n = 1 if ("--triangulate" in c["opts"] or "--cone-decompose" in c["opts"]) else 2
        if c["prod"]:
            nz = any(poly.values())
            exact = lambda p, V: sum(geom.integrate_simplex(s, poly) for s in simplices(p, V))
        else:
            nz = any(a[0] and (k == 0 or any(l)) for a, k, l in c["L"])
            exact = lambda p, V: sum(F(*a) * geom.integrate_lf_simplex(s, l, k) for s in simplices(p, V) for a, k, l in c["L"])
        k, l = self.run(c, env, ["--valuation=integrate", arg], {"f": text + "\n"}, exact, n)
        return (k if nz else None), l + ["products" if c["prod"] else "powers", "terms=%d" % len(c["L"])]
