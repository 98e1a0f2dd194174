from _common import *
import expr, random
from c_formats import cdd_ine, cdd_ext, vrows
from expr import Mod, Laurent, P as PR


def input_form(p, V, dim, fmt):
    """(file contents, arguments) for one of the documented input forms; V-representations only in full dimension."""
    d = p["d"]
    if fmt in ("vrep", "ext") and dim < d:
        raise Discard("V-representation of a lower-dimensional polytope")
    if fmt == "ine":
        return cdd_ine(p, range(len(p["ineqs"]) + len(p["eqs"]))), ["--cdd"]
    if fmt == "vrep":
        return "%d %d\n" % (len(V), d + 1) + vrows(V, "scaled"), ["--vrep"]
    if fmt == "ext":
        return cdd_ext(V, d, "integer", "scaled"), ["--cdd"]
    return gens.hrep_text(p), []


def pick_form(rng, p, V=None, dim=None):
    if rng.random() < .7:
        return "h"
    if dim is None:
        V, dim = gens.oracle(p)
    if dim < 0:
        return "h"
    return rng.choice(["ine", "ine", "vrep", "ext"] if dim == p["d"] else ["ine"])


def gf_check(text, d, pts, where):
    """The rational function text equals sum over pts of x^pt (identity test at random points of F_p)."""
    rng = random.Random("gf" + str(d))
    for attempt in range(3):
        xs = [rng.randrange(2, PR - 1) for _ in range(d)]
        try:
            got = expr.evaluate(text, Mod, lambda n, i: Mod(xs[i])).v
        except expr.Pole:
            continue
        except expr.ParseError as e:
            raise Fail("%s: unparsable generating function (%s)" % (where, e))
        except IndexError:
            raise Fail("%s: generating function refers to a variable that does not exist" % where)
        want = 0
        pw = [{} for _ in range(d)]
        for p in pts:
            m = 1
            for i in range(d):
                e = int(p[i])
                if e not in pw[i]:
                    pw[i][e] = pow(xs[i], e % (PR - 1), PR)
                m = m * pw[i][e] % PR
            want += m
        if got != want % PR:
            raise Fail("%s: generating function differs from the sum over the %d lattice points" % (where, len(pts)))
        return
    # the sample points are random elements of a field of 2^61 - 1 elements
    raise Fail("%s: a denominator of the generating function is identically zero" % where)


@high_dim(.1)
class C05(Prop):
    ID = "C05"
    PROGRAMS = ["count"]
    RANDOM = True
    CASES = {"quick": 1800, "thorough": 15000}
    RULE = "polytope with at least two integer points; distinct by (H-rep, options)"

    def gen(self, rng, tier):
        p = gens.polytope(rng, 4)
        if p is None:
            return None
        o = []
        if rng.random() < .5:
            o = [x for x in config(rng, redundancy=True) if x not in ("--polynomial", "--exponential", "--homog", "--count-lattice-points")]
        return {"p": p, "opts": tame(o, p, 20000), "form": pick_form(rng, p)}

    def hd_gen(self, rng, h):
        return {"hd": h(maxverts=50), "opts": rng.choice([[], [], ["--irrational-primal"], ["--irrational-all-primal"], ["--triangulation=4ti2"], ["--compute-vertex-cones=4ti2"]])}

    def hd_check(self, c, S, env):
        n = S.count()
        with Scratch({"in": gens.hrep_text(S.p)}) as s:
            r = guard(s.run(env.exe("count"), ["--multivariate-generating-function"] + c["opts"] + ["in"]))
            t = s.get("in.rat")
        if t is None or not t.strip():
            if n == 0 or S.dim == 0:
                return None, ["no-gf-file"]
            raise Fail("no generating function written (status %d): %s" % (r.rc, tail(r.err)))
        rng = random.Random("gf" + str(S.d))
        z = [rng.randrange(2, PR - 1) for _ in range(S.d)]
        name = "count --multivariate-generating-function " + " ".join(c["opts"])
        try:
            got = expr.evaluate(t, Mod, lambda k, i: Mod(z[i])).v
        except expr.Pole:
            raise Fail("%s: a denominator of the generating function is identically zero" % name)
        except (expr.ParseError, IndexError) as e:
            raise Fail("%s: unparsable generating function (%s)" % (name, e))
        if got != S.gf(z, PR):
            raise Fail("%s: generating function differs from the sum over the %d lattice points" % (name, n))
        return (jhash(c) if n > 1 else None), c["opts"]

    def valid(self, c):
        return gens.poly_valid(c["p"])

    def shrinks(self, c):
        for i in range(len(c["opts"])):
            yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:])
        for q in gens.poly_shrinks(c["p"]):
            yield dict(c, p=q)

    def check(self, c, env):
        p = c["p"]
        V, dim = gens.oracle(p)
        if not V:
            raise Discard("empty")
        lo, hi = geom.bbox(V)
        if geom.boxsize(lo, hi) > 200000:
            raise Inconclusive("oracle box too large")
        pts = geom.lattice_points(p["ineqs"], p["eqs"], lo, hi)
        if len(pts) > 20000:
            raise Inconclusive("too many points")
        text, args = input_form(p, V, dim, c.get("form"))
        with Scratch({"in": text}) as s:
            r = guard(s.run(env.exe("count"), ["--multivariate-generating-function"] + args + c["opts"] + ["in"]))
            t = s.get("in.rat")
            if t is None or not t.strip():
                if len(pts) == 0 or dim == 0:
                    return None, ["no-gf-file", "dim=%d" % dim]
                raise Fail("no generating function written (status %d): %s" % (r.rc, tail(r.err)))
            gf_check(t, p["d"], pts, "count --multivariate-generating-function " + " ".join(c["opts"]))
        return (jhash(c) if len(pts) > 1 else None), polylabels(p, V, dim) + c["opts"] + ["form=" + c.get("form", "h")]


def integral_polytope(rng, dmax=4):
    d = gens.wd(rng, [(1, 1), (4, 2), (5, 3), (3, 4)][:dmax])
    for _ in range(20):
        k = rng.random()
        if k < .3:
            n = d + 1 + rng.randint(0, 3 if d < 4 else 1)
            B = {1: 9, 2: 4, 3: 2, 4: 1}[d]
            pts = [[rng.randint(-B, B) for _ in range(d)] for _ in range(n)]
        elif k < .5:
            B = {1: 9, 2: 6, 3: 4, 4: 2}[d]
            pts = [[rng.randint(-B, B) for _ in range(d)] for _ in range(d + 1)]
        elif k < .65:   # cube
            pts = [list(x) for x in gens.product(*[(0, rng.randint(1, 3)) for _ in range(d)])]
        elif k < .8:    # cross polytope
            pts = []
            for i in range(d):
                for s in (1, -1):
                    e = [0] * d
                    e[i] = s * rng.randint(1, 2)
                    pts.append(e)
        else:           # pyramid / prism over polygons
            if d < 2:
                continue
            b = [list(x) for x in gens.product(*[(0, 1)] * (d - 1))]
            pts = [x + [0] for x in b] + [[rng.randint(-1, 2) for _ in range(d - 1)] + [rng.randint(1, 3)]]
        if rng.random() < .4 and d > 1:
            U = geom.random_unimodular(rng, d, steps=rng.randint(1, d), size=1)
            pts = [geom.matvec(U, x) for x in pts]
        t = [rng.randint(-3, 3) for _ in range(d)] if rng.random() < .3 else [0] * d
        pts = [tuple(a + b for a, b in zip(x, t)) for x in pts]
        pts = list(dict.fromkeys(pts))
        if geom.affdim(pts) == d and len(pts) <= 16:
            return d, [list(x) for x in pts]
    return None


def ehr_counts(H, E, V, ns, limit=600_000):
    out = []
    for n in ns:
        k = 1 if n == 0 else geom.count_polytope(H, E, V, n, limit)
        if k is None:
            return None
        out.append(k)
    return out


@high_dim(.1, full=True, integral=True, dims=(5, 5, 5, 6, 6, 7, 8))
class C06(Prop):
    ID = "C06"
    PROGRAMS = ["count"]
    RANDOM = True
    CASES = {"quick": 2500, "thorough": 20000}
    RULE = "integral polytope of dimension >= 1 (Ehrhart polynomial), or rational one (clean refusal); distinct by input"

    def gen(self, rng, tier):
        if rng.random() < .08:
            p = gens.polytope(rng, 3, eqs=False)
            return p and {"p": p, "opts": [], "v": None, "fmt": "h"}
        r = integral_polytope(rng)
        if r is None:
            return None
        d, pts = r
        o = [x for x in config(rng, redundancy=True) if x not in ("--polynomial", "--exponential", "--homog", "--count-lattice-points")]
        o = o if rng.random() < .5 else []
        p = {"d": d, "ineqs": geom.hull_hrep(pts, d), "eqs": [], "tags": ["integral"]}
        fmt = rng.choice(["h", "h", "h", "v", "v", "ext", "ine"])
        if fmt in ("v", "ext"):      # a V-representation lists exactly the vertices
            pts = [list(map(int, x)) for x in geom.hull_vertices([tuple(map(F, x)) for x in pts])]
        if rng.random() < .25 and d < 4:
            # embed in one more dimension by an integral affine map: lower-dimensional lattice polytope
            a = [rng.randint(-2, 2) for _ in range(d)]
            b = rng.randint(-3, 3)
            p = {"d": d + 1, "ineqs": [r_ + [0] for r_ in p["ineqs"]], "eqs": [[b] + a + [-1]], "tags": ["integral", "embedded"]}
            fmt = "h"
        return {"p": p, "opts": tame(o, p), "v": pts if fmt in ("v", "ext") else None, "fmt": fmt}

    def hd_gen(self, rng, h):
        h = h()
        return {"hd": h, "opts": [], "fmt": rng.choice(["h", "h", "v"]) if len(h["s"]) <= 7 else "h"}

    def hd_check(self, c, S, env):
        opts = list(c["opts"])
        if c["fmt"] == "v":
            V = S.vertices()
            body = "%d %d\n" % (len(V), S.d + 1) + "".join("1 " + " ".join(map(str, x)) + "\n" for x in V)
            opts.append("--vrep")
        else:
            body = gens.hrep_text(S.p)
        name = "count --ehrhart-polynomial " + " ".join(opts)
        got = self.printed(name, {"in": body}, opts, env)
        if got is None:
            raise Fail("%s prints no polynomial for an integral polytope" % name)
        want = geom.interp_coeffs(list(range(S.d + 1)), [S.count(t) for t in range(S.d + 1)])
        while len(got) > len(want) and got[-1] == 0:
            got.pop()
        if got != want:
            raise Fail("%s: polynomial %s, exact %s" % (name, [str(x) for x in got], [str(x) for x in want]))
        return jhash(c), ["fmt=" + c["fmt"]]

    def printed(self, name, files, opts, env):
        with Scratch(files) as s:
            r = guard(s.run(env.exe("count"), ["--ehrhart-polynomial"] + opts + ["in"]))
        m = [l for l in r.out.splitlines() if re.search(r"\* t\^\d+", l)]
        if r.rc != 0 or not m:
            raise Fail("%s failed (status %d) on an integral polytope: %s" % (name, r.rc, tail(r.err)))
        co = {}
        for sg, q, e in re.findall(r"([+-])\s*(-?\d+(?:/\d+)?) \* t\^(\d+)", m[-1]):
            co[int(e)] = F(q) if sg == "+" else -F(q)
        return [co.get(k, F(0)) for k in range(max(co) + 1)]

    def valid(self, c):
        if c["fmt"] in ("v", "ext"):
            d = c["p"]["d"]
            if not (all(len(x) == d for x in c["v"]) and len(c["v"]) >= d + 1):
                return False
            pts = [tuple(map(F, x)) for x in c["v"]]
            return geom.affdim(pts) == d and len(geom.hull_vertices(pts)) == len(pts)
        return gens.poly_valid(c["p"])

    def shrinks(self, c):
        for i in range(len(c["opts"])):
            yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:])
        if c["fmt"] in ("h", "ine"):
            if c["fmt"] == "ine":
                yield dict(c, fmt="h")
            for q in gens.poly_shrinks(c["p"]):
                yield dict(c, p=q)

    def check(self, c, env):
        p = c["p"]
        if c["fmt"] in ("v", "ext"):
            p = dict(p, ineqs=geom.hull_hrep(c["v"], p["d"]), eqs=[])
        V, dim = gens.oracle(p)
        if dim < 1:
            raise Discard("empty or a point")
        integral = all(x.denominator == 1 for v in V for x in v)
        opts = list(c["opts"])
        if c["fmt"] == "v":
            body = "%d %d\n" % (len(c["v"]), p["d"] + 1) + "".join("1 " + " ".join(map(str, x)) + "\n" for x in c["v"])
            opts = opts + ["--vrep"]
        elif c["fmt"] in ("ext", "ine"):
            body, a = input_form(p, [tuple(map(F, x)) for x in c["v"] or []], p["d"], c["fmt"])
            opts = opts + a
        else:
            body = gens.hrep_text(p)
        name = "count --ehrhart-polynomial " + " ".join(opts)
        with Scratch({"in": body}) as s:
            r = guard(s.run(env.exe("count"), ["--ehrhart-polynomial"] + opts + ["in"]))
            m = [l for l in r.out.splitlines() if re.search(r"\* t\^\d+", l)]
            if not integral:
                if r.rc == 0 and m:
                    raise Fail("%s: prints a polynomial for a polytope that is not integral" % name)
                return jhash(c), ["refused-rational"]
            if r.rc != 0 or not m:
                raise Fail("%s failed (status %d) on an integral polytope: %s" % (name, r.rc, tail(r.err)))
            co = {}
            for sg, q, e in re.findall(r"([+-])\s*(-?\d+(?:/\d+)?) \* t\^(\d+)", m[-1]):
                co[int(e)] = F(q) if sg == "+" else -F(q)
            got = [co.get(k, F(0)) for k in range(max(co) + 1)]
        ys = ehr_counts(p["ineqs"], p["eqs"], V, range(dim + 1))
        if ys is None:
            raise Inconclusive("oracle box too large")
        want = geom.interp_coeffs(list(range(dim + 1)), ys)
        while len(got) > len(want) and got[-1] == 0:
            got.pop()
        if got != want:
            raise Fail("%s: polynomial %s, exact %s" % (name, [str(x) for x in got], [str(x) for x in want]))
        return jhash(c), ["dim=%d" % dim, "fmt=" + c["fmt"]] + p["tags"] + c["opts"]


@high_dim(.1, dims=(4, 5, 5, 6), bmax=3, weights=2, maxverts=40)
class C07(Prop):
    ID = "C07"
    PROGRAMS = ["count"]
    RANDOM = True
    CASES = {"quick": 900, "thorough": 8000}
    RULE = "polytope of dimension >= 1 whose first dilations are counted exactly; distinct by (H-rep, mode)"

    def gen(self, rng, tier):
        for _ in range(50):
            p = gens.polytope(rng, 3)
            if p is None:
                continue
            V, dim = gens.oracle(p)
            if dim < 1:
                continue
            lo, hi = geom.bbox([[x for x in v] for v in V])
            if geom.boxsize(lo, hi) > 3000:
                continue
            mode = rng.choice(["taylor", "taylor", "series"])
            o = []
            if mode == "taylor" and rng.random() < .3:
                o.append("--redundancy-check=full-cddlib")
            return {"p": p, "mode": mode, "n": rng.randint(2, 9), "opts": o, "form": pick_form(rng, p, V, dim)}
        return None

    def hd_gen(self, rng, h):
        return {"hd": h(), "n": rng.randint(2, 9)}

    def hd_valid(self, c):
        return 2 <= c["n"] <= 12

    def hd_check(self, c, S, env):
        if S.dim < 1 or not S.lattice_hull():
            raise Discard("a point, or affine hull without integer points (listed finding)")
        N = c["n"]
        want = [S.count(t) for t in range(N + 1)]
        name = "count --ehrhart-taylor=%d" % N
        with Scratch({"in": gens.hrep_text(S.p)}) as s:
            r = guard(s.run(env.exe("count"), ["--ehrhart-taylor=%d" % N, "in"]))
        if r.rc != 0:
            raise Fail("%s failed (status %d): %s" % (name, r.rc, tail(r.err)))
        got = {}
        for a, e in re.findall(r"^(-?\d+)(?:\s*\*?\s*t\^(\d+))?\s*$", r.out, re.M):
            got.setdefault(int(e or 0), int(a))
        g = [got.get(k, 0) for k in range(N + 1)]
        if g != want:
            raise Fail("%s: coefficients %s, exact counts %s" % (name, g, want))
        return jhash(c), ["taylor"]

    def valid(self, c):
        # excluded (listed findings): --ehrhart-taylor=1 acts as a plain count; affine hull without integer points
        return gens.poly_valid(c["p"]) and (2 <= c["n"] <= 12 or "_known" in c)

    def shrinks(self, c):
        for q in gens.poly_shrinks(c["p"]):
            yield dict(c, p=q)

    def check(self, c, env):
        p = c["p"]
        V, dim = gens.oracle(p)
        if dim < 1:
            raise Discard("empty or a point")
        if "_known" not in c and not geom.int_solvable(geom.affine_hull(V)):
            raise Discard("affine hull without integer points (listed finding)")
        N = c["n"]
        want = ehr_counts(p["ineqs"], p["eqs"], V, range(N + 1))
        if want is None:
            raise Inconclusive("oracle box too large")
        text, args = input_form(p, V, dim, c.get("form"))
        args = args + c["opts"]
        with Scratch({"in": text}) as s:
            if c["mode"] == "taylor":
                r = guard(s.run(env.exe("count"), ["--ehrhart-taylor=%d" % N] + args + ["in"]))
                name = "count --ehrhart-taylor=%d %s" % (N, " ".join(args))
                if r.rc != 0:
                    raise Fail("%s failed (status %d): %s" % (name, r.rc, tail(r.err)))
                got = {}
                for a, e in re.findall(r"^(-?\d+)(?:\s*\*?\s*t\^(\d+))?\s*$", r.out, re.M):
                    got.setdefault(int(e or 0), int(a))
                g = [got.get(k, 0) for k in range(N + 1)]
                if g != want:
                    raise Fail("%s: coefficients %s, exact counts %s" % (name, g, want))
            else:
                r = guard(s.run(env.exe("count"), ["--ehrhart-series"] + args + ["in"]))
                t = s.get("in.rat")
                if r.rc != 0 or not t:
                    raise Fail("count --ehrhart-series failed (status %d): %s" % (r.rc, tail(r.err)))
                t = t.strip()
                t = re.sub(r"^\s*x\s*:=", "", t).rstrip(":; \n")
                try:
                    S = expr.evaluate(t, Laurent.const, lambda n, i: Laurent.t())
                except expr.ParseError as e:
                    raise Fail("count --ehrhart-series: unparsable rational function (%s)" % e)
                except expr.Pole:
                    raise Fail("count --ehrhart-series: rational function divides by zero")
                K = min(N + 1, S.val + len(S.c)) if S.c else N + 1
                if K < 1:
                    raise Inconclusive("lost all series precision")
                g = [(S.c[k - S.val] if S.c and 0 <= k - S.val < len(S.c) else 0) for k in range(K)]
                if (S.c and S.val < 0) or g != [w % PR for w in want[:K]]:
                    raise Fail("count --ehrhart-series: series starts %s (valuation %d), exact counts %s" % (
                        [x if x < PR // 2 else x - PR for x in g], S.val, want[:K]))
        return jhash(c), polylabels(p, V, dim) + [c["mode"], "form=" + c.get("form", "h")]
