"""C15: cone files and computations continued from them."""
import math
from _common import *
import cones
from cones import dot, prim
from c_formats import cdd_ext, vrows, fr
from c_triangulate import ext_text


def homog_rays(V):
    out = []
    for v in V:
        q = math.lcm(*[x.denominator for x in v])
        out.append([int(x * q) for x in v] + [q])
    return out


def random_triangulation(rng, rays):
    """Index tuples of a placing-like triangulation with random order (pulling in a random vertex order)."""
    R = [tuple(r) for r in rays]
    perm = list(range(len(R)))
    rng.shuffle(perm)
    S = [R[i] for i in perm]
    return [tuple(sorted(perm[i] for i in t)) for t in cones.triangulate(S, cones.facets(S))]


HOMOG_BAD = ("--irrational", "--exponential", "--maxdet", "--no-decomposition", "--homog", "--compute-vertex", "--redundancy", "--polynomial")


class C15(Prop):
    ID = "C15"
    PROGRAMS = ["polyhedron-to-cones", "count"]
    RANDOM = True
    CASES = {"quick": 2400, "thorough": 20000}
    RULE = "polytope with at least one integer point; distinct by (H-rep, mode, options)"

    def gen(self, rng, tier):
        mode = rng.choice(["cones", "cones", "staged", "staged", "staged-homog", "primal", "dual", "dual-sub", "dual-sub", "dual-list"])
        full = mode in ("primal", "dual", "dual-sub", "dual-list")
        p = gens.polytope(rng, 4, eqs=not full)
        if p is None:
            return None
        c = {"p": p, "mode": mode, "key": rng.randint(1, 10 ** 9), "opts": [], "copts": [], "inp": "h"}
        if mode in ("cones", "staged"):
            if rng.random() < .7:
                c["copts"].append("--compute-vertex-cones=" + rng.choice(["cdd", "lrs", "4ti2"]))
            if rng.random() < .25:
                c["copts"].append("--redundancy-check=full-cddlib")
            c["inp"] = rng.choice(["h", "h", "h", "vrep", "ext"])
        if mode == "staged-homog":
            c["inp"] = rng.choice(["h", "h", "ext"])
        if mode == "staged":
            o = [x for x in config(rng, False) if not x.startswith(("--homog", "--compute-vertex", "--redundancy"))]
            c["opts"] = tame(o, p)
        elif mode != "cones":
            c["opts"] = [x for x in config(rng, False) if not x.startswith(HOMOG_BAD)]
        return c

    def valid(self, c):
        return gens.poly_valid(c["p"]) and (c["mode"] not in ("primal", "dual", "dual-sub", "dual-list") or not c["p"]["eqs"])

    def shrinks(self, c):
        for k in ("opts", "copts"):
            for i in range(len(c[k])):
                yield dict(c, **{k: c[k][:i] + c[k][i + 1:]})
        for q in gens.poly_shrinks(c["p"]):
            yield dict(c, p=q)

    def check(self, c, env):
        import random
        rng = random.Random(c["key"])
        p, d, mode = c["p"], c["p"]["d"], c["mode"]
        V, dim = gens.oracle(p)
        if dim < 0:
            raise Discard("empty")
        if dim < d and (mode in ("primal", "dual", "dual-sub", "dual-list") or c["inp"] != "h"):
            raise Discard("lower-dimensional")
        want = geom.count_polytope(p["ineqs"], p["eqs"], V)
        if want is None:
            raise Inconclusive("oracle box too large")
        extra = []
        if mode in ("cones", "staged", "staged-homog"):
            name, args = "in", []
            if c["inp"] == "h":
                text = gens.hrep_text(p)
            elif c["inp"] == "vrep":
                text, args = "%d %d\n" % (len(V), d + 1) + vrows(V, "scaled"), ["--vrep"]
            else:
                name, text, args = "in.ext", cdd_ext(V, d, "integer", "scaled"), ["--cdd"]
            if mode == "staged-homog":
                args.append("--homog")
            with Scratch({name: text}) as s:
                r = guard(s.run(env.exe("polyhedron-to-cones"), args + c["copts"] + ["--output-cones=c", name]))
                t = s.get("c")
                m = re.findall(r"homogenized: (true|false), dualized: (true|false)", r.err)
                n = re.findall(r"number of lattice points(?: is|:)\s*(\d+)", r.err + r.out)
                if r.rc == 0 and t is None and n:
                    # a single point or an affine hull without integer points is settled on reading, without cones
                    if int(n[-1]) != want:
                        raise Fail("polyhedron-to-cones reports %s lattice points, there are %d" % (n[-1], want))
                    return None, ["settled-on-reading"]
                if r.rc != 0 or t is None or not m:
                    raise Fail("polyhedron-to-cones failed (status %d) on valid input: %s" % (r.rc, tail(r.err)))
                if (m[-1][0] == "true") != (mode == "staged-homog"):
                    raise Fail("polyhedron-to-cones says homogenized: %s" % m[-1][0])
                if mode != "staged-homog" and m[-1][1] == "true":
                    raise Fail("polyhedron-to-cones says the vertex cones are dualized")
                C = cones.read_cones(t)
                if dim == d:
                    (self.check_homog if mode == "staged-homog" else self.check_cones)(C, p, V, dim, m[-1][1] == "true")
                if mode == "cones":
                    got = want
                else:
                    a = "--input-vertex-cones=c" if mode == "staged" else "--input-%s-homog-cones=c" % ("dual" if m[-1][1] == "true" else "primal")
                    got = count(env, None, c["opts"] + [a], s=s)
                    extra = [a]
        else:
            H = homog_rays(V)
            N = [[-x for x in f] for f in cones.facets([tuple(h) for h in H])]
            rng.shuffle(H)
            rng.shuffle(N)
            files = {}
            if mode == "primal":
                if rng.random() < .3:
                    a, text = "--input-primal-homog-cones=c", cones.cone_text(H)
                else:
                    a, text = "--input-primal-homog-cone=c", ext_text(H, rng.random() < .3)
            elif mode == "dual":
                a, text = "--input-dual-homog-cone=c", ext_text(N, rng.random() < .3)
            else:
                T = random_triangulation(rng, N)
                if mode == "dual-sub":
                    files["sub"] = "%d %d\n" % (len(T), len(N)) + "".join(
                        " ".join(str(int(i in t)) for i in range(len(N))) + "\n" for t in T)
                    if rng.random() < .5:
                        a, text = "--input-dual-homog-cone=c", ext_text(N)
                    else:
                        a, text = "--input-dual-homog-cones=c", cones.cone_text(N)
                    extra = ["--subcones=sub"]
                else:
                    a, text = "--input-dual-homog-cones=c", "".join(cones.cone_text([N[i] for i in t]) for t in T)
            files["c"] = text
            extra = extra + [a]
            got = count(env, files, c["opts"] + extra)
        if got != want:
            raise Fail("count %s (%s): %d lattice points reported, %d by enumeration" % (" ".join(c["opts"] + extra), mode, got, want))
        return (jhash([c["p"]["ineqs"], c["p"]["eqs"], mode, c["opts"], c["copts"], c["inp"]]) if want else None), \
            polylabels(p, V, dim) + ["mode=" + mode, "input=" + c["inp"]] + c["opts"] + c["copts"]

    def check_cones(self, C, p, V, dim, dual):
        key = lambda c: tuple(c["vertex"])
        want = {tuple(v): i for i, v in enumerate(V)}
        got = [key(c) for c in C]
        if sorted(got) != sorted(want):
            raise Fail("polyhedron-to-cones writes cones at %s, the vertices are %s" % (
                [list(map(str, g)) for g in sorted(got)], [list(map(str, g)) for g in sorted(want)]))
        rays = cones_rays_of(V, p, dim)
        for c in C:
            i = want[key(c)]
            R = sorted(rays[i])
            if c["coef"] != 1:
                raise Fail("polyhedron-to-cones writes the coefficient %d" % c["coef"])
            if not c["rays"] and not c["facets"]:
                raise Fail("polyhedron-to-cones writes a cone without rays and facets")
            if c["rays"] and sorted(map(tuple, c["rays"])) != R:
                raise Fail("vertex %s: rays %s written, the edges are %s" % (list(map(str, key(c))), c["rays"], R))
            if c["facets"]:
                f = sorted(tuple(-x for x in y) for y in c["facets"])
                w = cones.facets(R)
                if f != w:
                    raise Fail("vertex %s: facets %s written, should be the negatives of %s" % (list(map(str, key(c))), c["facets"], w))

    def check_homog(self, C, p, V, dim, dual):
        H = sorted(map(tuple, homog_rays(V)))
        if len(C) != 1:
            raise Fail("polyhedron-to-cones --homog writes %d cones" % len(C))
        c = C[0]
        if any(c["vertex"]):
            raise Fail("polyhedron-to-cones --homog writes the apex %s" % c["vertex"])
        want = sorted(tuple(-x for x in f) for f in cones.facets(H)) if dual else H
        if c["rays"] and sorted(cones.extreme([prim(r) for r in c["rays"]], cones.facets([prim(r) for r in c["rays"]]))) != sorted(want):
            raise Fail("polyhedron-to-cones --homog writes the rays %s, should be %s" % (c["rays"], want))


def cones_rays_of(V, p, dim):
    d = len(V[0])
    if d == 1:
        return [[(1,)] if v == min(V) else [(-1,)] for v in V]
    return geom.cone_rays(V, p["ineqs"], p["eqs"], dim)
