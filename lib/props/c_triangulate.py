"""C14: triangulations are checked by exact volumes and by locating points."""
import random
from _common import *
import cones
from cones import dot
from c_formats import fr


def ext_text(rays, comments=False):
    return ("* generated\n" if comments else "") + "V-representation\nbegin\n%d %d integer\n" % (len(rays), len(rays[0]) + 1) + \
        "".join(" 0 " + " ".join(map(str, r)) + "\n" for r in rays) + "end\n"


def check_subdivision(what, R, parts, key, simplicial=True):
    """parts: lists of rays.  They must use the rays R, be full-dimensional, have disjoint interiors and cover cone(R)."""
    d = len(R[0])
    S = {tuple(r) for r in R}
    fac = cones.facets([tuple(r) for r in R])
    w = cones.grading(fac)
    total = cones.volume([tuple(r) for r in R], fac, w)
    vol = F(0)
    pf = []
    for P in parts:
        P = [tuple(r) for r in P]
        for r in P:
            if r not in S:
                raise Fail("%s: a part has the ray %s, which the cone is not given by" % (what, list(r)))
        if simplicial and len(P) != d or len(set(P)) != len(P):
            raise Fail("%s: part %s is not simplicial" % (what, P))
        if geom.rank([list(r) for r in P]) < d:
            raise Fail("%s: part %s is not full-dimensional" % (what, P))
        f = cones.facets(P)
        pf.append(f)
        vol += cones.volume(P, f, w) if len(P) > d else cones.simplicial_volume(P, w)
    if vol != total:
        raise Fail("%s: the parts have volume %s, the cone has %s\ncone %s\nparts %s" % (what, vol, total, R, parts))
    rng = random.Random(key)
    pts = [[sum(c) for c in zip(*P)] for P in parts]
    for _ in range(30):
        lam = [rng.randint(1, 10 ** 6) for _ in R]
        pts.append([sum(l * r[j] for l, r in zip(lam, R)) for j in range(d)])
    for x in pts:
        n = sum(cones.inside(f, x, True) for f in pf)
        if n != 1 and not (n == 0 and any(cones.inside(f, x) for f in pf)):
            raise Fail("%s: the point %s of the cone is interior to %d parts\ncone %s\nparts %s" % (what, x, n, R, parts))


class C14(Prop):
    ID = "C14"
    PROGRAMS = ["triangulate", "triangulate-boundary"]
    RANDOM = True
    CASES = {"quick": 10000, "thorough": 80000}
    RULE = "cone with more generators than its dimension; distinct by (generators, options)"

    def gen(self, rng, tier):
        big = rng.random() < .15
        R = cones.random_cone(rng, 6 if big else 5, maxrays=12 if big else 9, size=rng.choice([50, 1000, 10 ** 9]) if rng.random() < .1 else None)
        if R is None:
            return None
        if rng.random() < .15 and len(R[0]) >= 3:
            return {"rays": R, "boundary": rng.choice(["cones", "subcones"]), "opts": [], "ext": rng.random() < .5, "vertex": None, "key": rng.randint(1, 10 ** 9)}
        tool = rng.choice([None, "cddlib", "4ti2", "4ti2", "topcom", "cdd", "delone", "delaunay"])
        o = ["--triangulation=" + tool] if tool else []
        if rng.random() < .2:
            o.append("--triangulation-bias=%d" % rng.choice([0, 1, 10, 50, 90, 100]))
        if rng.random() < .4:
            o.append("--triangulation-max-height=%d" % rng.choice([2, 2, 3, 5, 10, 100, 20000, 10 ** 6]))
        if tool in (None, "cddlib", "4ti2", "delone", "delaunay") and rng.random() < .2:
            o.append("--nonsimplicial-subdivision")
        ext = rng.random() < .5
        return {"rays": R, "opts": o, "ext": ext, "vertex": None if ext or rng.random() < .4 else
                [fr(F(rng.randint(-20, 20), rng.choice([1, 1, 2, 3, 7]))) for _ in R[0]], "key": rng.randint(1, 10 ** 9)}

    def valid(self, c):
        return cones.cone_valid(c["rays"]) and not (c.get("boundary") and len(c["rays"][0]) < 3)

    def shrinks(self, c):
        for i in range(len(c["opts"])):
            yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:])
        for R in cones.cone_shrinks(c["rays"]):
            yield dict(c, rays=R)

    def check_boundary(self, c, env):
        """triangulate-boundary writes a triangulation of every facet."""
        R = [tuple(r) for r in c["rays"]]
        d = len(R[0])
        name = "in.ext" if c["ext"] else "in.cone"
        with Scratch({name: ext_text(R) if c["ext"] else cones.cone_text(R, None)}) as s:
            r = guard(s.run(env.exe("triangulate-boundary"), ["--output-%s=out" % c["boundary"],
                                                              ("--input-primal-homog-cone=" if c["ext"] else "--input-primal-homog-cones=") + name]))
            t = s.get("out")
        what = "triangulate-boundary --output-" + c["boundary"]
        if r.rc != 0 or t is None:
            raise Fail("%s failed (status %d) on the cone %s: %s" % (what, r.rc, R, tail(r.err)))
        if c["boundary"] == "cones":
            parts = []
            for x in cones.read_cones(t):
                if x["coef"] != 1 or any(x["vertex"]):
                    raise Fail("%s: part with coefficient %s and vertex %s" % (what, x["coef"], x["vertex"]))
                parts.append([tuple(v) for v in x["rays"]])
        else:
            M = [[int(x) for x in l.split()] for l in t.splitlines() if l.strip()]
            if M[0] != [len(M) - 1, len(R)] or any(len(l) != len(R) or not set(l) <= {0, 1} for l in M[1:]):
                raise Fail("%s wrote %s" % (what, t[:500]))
            parts = [[r for r, x in zip(R, l) if x] for l in M[1:]]
        fac = cones.facets(R)
        per = {f: [] for f in fac}
        for P in parts:
            fs = [f for f in fac if all(dot(f, v) == 0 for v in P)]
            if len(fs) != 1:
                raise Fail("%s: the part %s lies in %d facets of %s" % (what, P, len(fs), R))
            per[fs[0]].append(P)
        for f, Ps in per.items():
            j = next(i for i in range(d) if f[i])
            proj = lambda v: v[:j] + v[j + 1:]
            # a bijection of the facet's hyperplane with R^(d-1)
            check_subdivision(what + ", facet %s of %s" % (list(f), R), [proj(v) for v in R if dot(f, v) == 0], [[proj(v) for v in P] for P in Ps], c["key"])
        nt = len(parts) > len(fac)
        return (jhash([R, c["boundary"]]) if nt else None), ["boundary", "d=%d" % d, "boundary-parts=%d" % min(len(parts), 20)]

    def check(self, c, env):
        if c.get("boundary"):
            return self.check_boundary(c, env)
        R = c["rays"]
        d = len(R[0])
        name = "in.ext" if c["ext"] else "in.cone"
        v = [F(x) for x in c["vertex"]] if c["vertex"] and len(c["vertex"]) == d else None
        with Scratch({name: ext_text(R) if c["ext"] else cones.cone_text(R, v)}) as s:
            r = guard(s.run(env.exe("triangulate"), c["opts"] + [name]))
            t = s.get("triangulation")
        what = "triangulate " + " ".join(c["opts"])
        if r.rc != 0 or t is None:
            raise Fail("%s failed (status %d) on the cone %s: %s" % (what, r.rc, R, tail(r.err)))
        P = cones.read_cones(t)
        if not P:
            raise Fail("%s returns no cone for %s" % (what, R))
        simp = "--nonsimplicial-subdivision" not in c["opts"]
        check_subdivision(what, R, [x["rays"] for x in P], c["key"], simp)
        for x in P:
            if x["coef"] != 1 or x["vertex"] != (v or [0] * d):
                raise Fail("%s: part with coefficient %s and vertex %s" % (what, x["coef"], x["vertex"]))
            f = sorted(tuple(-y for y in v) for v in x["facets"])
            if f != sorted(cones.facets([tuple(v) for v in x["rays"]])):
                raise Fail("%s: part %s has the facets %s" % (what, x["rays"], x["facets"]))
            if len(x["rays"]) == d and abs(x["det"]) != abs(int(geom.det([list(v) for v in x["rays"]]))):
                raise Fail("%s: part %s is given determinant %d" % (what, x["rays"], x["det"]))
        nt = len(R) > d
        return (jhash([R, c["opts"]]) if nt else None), ["d=%d" % d, "rays=%d" % len(R), "parts=%d" % min(len(P), 10),
            "ext" if c["ext"] else "cone-file"] + (c["opts"] or ["default"])
