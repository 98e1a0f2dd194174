"""C16: Hilbert bases against brute-force irreducibles."""
import random
from itertools import product
from _common import *
import cones
from cones import dot
from c_cones import random_triangulation
from c_triangulate import check_subdivision, ext_text


def residues(S):
    """The integer points of the half-open parallelepiped of the linearly independent rays S (d of them)."""
    d = len(S)
    inv = geom.inverse([[F(S[j][i]) for j in range(d)] for i in range(d)])
    H = hnf_diag(S)
    for x in product(*[range(h) for h in H]):
        lam = [sum(inv[j][i] * x[i] for i in range(d)) for j in range(d)]
        lam = [l - geom.fl(l) for l in lam]
        yield tuple(int(sum(l * r[i] for l, r in zip(lam, S))) for i in range(d))


def hnf_diag(S):
    """Diagonal of a triangular basis of the lattice spanned by the rows S: the box below it is a set of residues."""
    M = [list(r) for r in S]
    d = len(M)
    for c in range(d):
        while True:
            nz = [i for i in range(c, d) if M[i][c]]
            if len(nz) <= 1:
                break
            p = min(nz, key=lambda i: abs(M[i][c]))
            for i in nz:
                if i != p:
                    q = M[i][c] // M[p][c]
                    M[i] = [a - q * b for a, b in zip(M[i], M[p])]
        p = [i for i in range(c, d) if M[i][c]][0]
        M[c], M[p] = M[p], M[c]
    return [abs(M[i][i]) for i in range(d)]


def irreducibles(cand, fac):
    w = cones.grading(fac)
    out = []
    for x in sorted(cand, key=lambda x: dot(w, x)):
        if not any(2 * dot(w, y) <= dot(w, x) and all(dot(f, x) >= dot(f, y) for f in fac) for y in out):
            out.append(x)
    return set(out)


def hilbert_basis(R, limit=3000):
    R = [tuple(cones.prim(r)) for r in R]
    R = list(dict.fromkeys(R))
    fac = cones.facets(R)
    T = [[R[i] for i in t] for t in cones.triangulate(R, fac)]
    if sum(abs(int(geom.det([list(r) for r in t]))) for t in T) > limit:
        raise Inconclusive("too many candidates")
    cand = set(R)
    for t in T:
        cand.update(residues(t))
    cand.discard((0,) * len(R[0]))
    return irreducibles(cand, fac)


def regular_subdivision(R, h):
    """Index sets of the cells: the faces of the cone over the lifted rays that are seen from below."""
    d = len(R[0])
    lift = [tuple(r) + (x,) for r, x in zip(R, h)]
    if geom.rank([list(v) for v in lift]) == d:
        return [frozenset(range(len(R)))]
    return [frozenset(i for i, v in enumerate(lift) if dot(f, v) == 0) for f in cones.facets(lift) if f[d] > 0]


def matrix_file(t, name):
    """4ti2 matrix: rows, checked against its header."""
    try:
        x = [int(y) for y in t.split()]
        n, d = x[:2]
    except ValueError:
        raise Fail("%s is not a matrix file: %r" % (name, t[:200]))
    if len(x) != 2 + n * d:
        raise Fail("%s announces %d rows of %d but holds %d numbers" % (name, n, d, len(x) - 2))
    return [tuple(x[2 + i * d:2 + (i + 1) * d]) for i in range(n)], d


class C16(Prop):
    ID = "C16"
    PROGRAMS = ["hilbert-from-rays"]
    RANDOM = True
    CASES = {"quick": 4000, "thorough": 30000}
    RULE = "cone whose Hilbert basis has an element that is no generator; distinct by (generators, options, input form)"

    def gen(self, rng, tier):
        k = rng.choice([2, 2, 3, 3, 3, 4, 4, 5])
        if k <= 3 and rng.random() < .08:       # few rays, large coordinates
            R = cones.random_cone(rng, dims=k, size=rng.choice([20, 35, 60]), maxrays=4)
        else:
            R = cones.random_cone(rng, dims=k, size=rng.choice([None, None, 2, 4, 7, 12 if k < 4 else 3]), maxrays=7)
        if R is None:
            return None
        c = {"rays": R, "embed": [], "key": rng.randint(1, 10 ** 9)}
        if k <= 4 and rng.random() < .25:
            n = k + rng.randint(1, 2)
            U = geom.random_unimodular(rng, n, steps=rng.randint(0, 3), size=1)
            c["embed"] = [u[:k] for u in U]
        c["mode"] = rng.choice(["plain"] * 6 + ["whole"] * 4 + ["triang", "triang", "subcones", "subcones", "staged", "staged", "refine", "heights", "heights"])
        if c["mode"] in ("refine", "heights"):
            c["embed"] = []
            c["form"] = rng.choice(["ext", "rays"])
            B = rng.choice([1, 1, 2, 5, 100, 10 ** 6])
            c["heights"] = [rng.randint(-B, B) for _ in R]
            c["opts"] = ["--quiet"] * rng.randint(0, 1) + ["--triangulation=4ti2"] * rng.randint(0, 1)
            if c["mode"] == "refine" and rng.random() < .5:
                c["opts"] = ["--triangulation=" + rng.choice(["cddlib", "delone"])]
            return c
        c["form"] = rng.choice(["ext", "ext", "rays", "rays-scaled"])
        if c["mode"] == "triang" and (c["embed"]):
            c["mode"] = "plain"
        o = []
        if rng.random() < .4:
            o.append("--dualization=" + rng.choice(["cdd", "4ti2"]))
        if rng.random() < .5:
            o.append("--triangulation=" + rng.choice(["4ti2"] if c["embed"] else ["cddlib", "4ti2", "4ti2", "delone", "topcom", "cdd"]))
        if rng.random() < .2:
            o.append("--triangulation-max-height=%d" % rng.choice([2, 3, 10, 10000]))
        if rng.random() < .3:
            o.append("--max-determinant-for-enumeration=%d" % rng.choice([2, 3, 5, 10, 100, 10 ** 6]))
        pull = c["mode"] in ("plain", "staged") and rng.random() < .15
        # heights that do not change from one attempt to the next may leave a cone whole forever
        if rng.random() < .3 and not pull and "--triangulation=delone" not in o:
            o.append("--max-facets=%d" % rng.choice([k, k + 1, k + 1, k + 2, k + 3]))
        if rng.random() < .1:
            o.append("--reduction=none")
        if pull:
            o.append("--triangulation-pull-rays=%d" % rng.randint(1, len(R)))
        if rng.random() < .3:
            o.append("--nonsimplicial-subdivision")
        if rng.random() < .3:
            o.append("--no-triang-file")
        if rng.random() < .5:
            o.append("--quiet")
        c["opts"] = o
        return c

    def valid(self, c):
        R = c["rays"]
        if not cones.cone_valid(R, 5, 9):
            return False
        k = len(R[0])
        for x in c["opts"]:
            if x.startswith("--triangulation-pull-rays=") and not 1 <= int(x[26:]) <= len(R):
                return False
            if x.startswith("--max-facets=") and int(x[13:]) < k:
                return False
        E = c["embed"]
        if c["mode"] in ("refine", "heights") and (E or len(c.get("heights", [])) != len(R)):
            return False
        if E:
            if any(len(e) != k for e in E) or len(E) > k + 2 or len(E) < k:
                return False
            if geom.rank([list(e) for e in E]) < k or geom.lattice_index([list(x) for x in zip(*E)]) != 1:
                return False
        return True

    def shrinks(self, c):
        for i in range(len(c["opts"])):
            yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:])
        if c["embed"]:
            yield dict(c, embed=[])
        for i in range(len(c["rays"])):
            if "heights" in c:
                yield dict(c, rays=c["rays"][:i] + c["rays"][i + 1:], heights=c["heights"][:i] + c["heights"][i + 1:])
        for R in cones.cone_shrinks(c["rays"]):
            if not c["embed"] or len(R[0]) == len(c["embed"][0]):
                yield dict(c, rays=R)

    def check_subcones(self, c, env):
        """--only-triangulate: subdivide the listed subcones further, or by given heights."""
        R = [tuple(r) for r in c["rays"]]
        d = len(R[0])
        cells = regular_subdivision(R, c["heights"])
        name = "in.ext" if c["form"] == "ext" else "in.rays"
        files = {name: ext_text(R) if c["form"] == "ext" else "%d %d\n" % (len(R), d) + "".join(" ".join(map(str, r)) + "\n" for r in R)}
        opts = list(c["opts"])
        if c["mode"] == "heights":
            files["h"] = "1 %d\n%s\n" % (len(R), " ".join(map(str, c["heights"])))
            opts.append("--triangulation-height-vector=h")
        else:
            files["sub"] = "%d %d\n" % (len(cells), len(R)) + "".join(" ".join(str(int(i in t)) for i in range(len(R))) + "\n" for t in cells)
            opts += ["--subcones=sub", "--output-trivial-subcones=B"]
        what = "hilbert-from-rays " + " ".join(opts) + " --only-triangulate --output-subcones=A"
        with Scratch(files) as s:
            r = guard(s.run(env.exe("hilbert-from-rays"), opts + ["--only-triangulate", "--output-subcones=A", name]))
            out = [s.get(n) for n in (["A", "B"] if c["mode"] == "refine" else ["A"])]
        if r.rc != 0 or None in out:
            raise Fail("%s failed (status %d) on the cone %s: %s" % (what, r.rc, R, tail(r.err)))
        got = []
        for t in out:
            I, n = matrix_file(t, "the subcones file")
            if n != len(R) or any(v not in (0, 1) for row in I for v in row):
                raise Fail("%s: the subcones file is not made of indicators of %d rays: %s" % (what, len(R), t[:300]))
            got.append([frozenset(i for i, b in enumerate(row) if b) for row in I])
        if c["mode"] == "heights":
            if sorted(map(sorted, got[0])) != sorted(map(sorted, cells)):
                raise Fail("%s: the heights %s subdivide the cone %s into %s, not %s" % (what, c["heights"], R, list(map(sorted, cells)), list(map(sorted, got[0]))))
        else:
            for x in got[0]:
                if not any(x <= y for y in cells):
                    raise Fail("%s: the part %s lies in no subcone" % (what, sorted(x)))
            for x in got[1]:
                if x not in cells:
                    raise Fail("%s: %s, in the file of subcones left as they are, is no subcone" % (what, sorted(x)))
            check_subdivision(what, R, [[list(R[i]) for i in x] for x in got[0] + got[1]], c["key"], False)
        nt = len(cells) > 1 or sum(map(len, got)) > 1
        return (jhash([R, c["heights"], opts, c["form"]]) if nt else None), ["mode=" + c["mode"], "cells=%d" % len(cells)] + \
            (["left-whole"] if c["mode"] == "refine" and got[1] else []) + (["refined"] if c["mode"] == "refine" and got[0] else [])

    def check(self, c, env):
        if c["mode"] in ("refine", "heights"):
            return self.check_subcones(c, env)
        rng = random.Random(c["key"])
        R = c["rays"]
        k = len(R[0])
        HB = hilbert_basis(R)
        emb = (lambda x: tuple(dot(e, x) for e in c["embed"])) if c["embed"] else tuple
        G = [emb(r) for r in R]
        d = len(G[0])
        back = {}
        fac = cones.facets([tuple(r) for r in R])
        if c["embed"]:
            cols = [list(x) for x in zip(*c["embed"])]
            N = geom.nullspace(cols, d)
            gi = geom.inverse([[F(dot(a, b)) for a in cols] for b in cols])
            L = [[sum(gi[i][j] * cols[j][t] for j in range(k)) for t in range(d)] for i in range(k)]
            def pre(x):
                if any(sum(a * b for a, b in zip(n, x)) for n in N):
                    return None
                return [dot(l, x) for l in L]
        else:
            pre = lambda x: x

        def member(x):
            y = pre(x)
            return y is not None and cones.inside(fac, y)
        HBe = {emb(x) for x in HB}
        form, mode, opts = c["form"], c["mode"], list(c["opts"])
        T = [[G[i] for i in t] for t in random_triangulation(rng, R)]
        files = {}
        if mode == "triang":
            name = "in.triang"
            files[name] = "".join(cones.cone_text([list(r) for r in t]) for t in T)
        elif form == "ext":
            name = "in.ext"
            files[name] = ext_text(G, rng.random() < .3)
        else:
            name = "in.rays"
            files[name] = "%d %d\n" % (len(G), d) + "".join(
                " ".join(str(s * x) for x in g) + "\n" for g in G for s in [rng.choice([1, 1, 2, 3]) if form == "rays-scaled" else 1])
        out = name + ".hil"
        if mode == "whole":
            opts.append("--no-initial-triangulation")
        if mode == "subcones":
            files["sub"] = "%d %d\n" % (len(T), len(R)) + "".join(
                " ".join(str(int(g in t)) for g in G) + "\n" for t in T)
            opts.append("--subcones=sub")
            out = name + "--subcones-sub.hil"
        what = "hilbert-from-rays " + " ".join(opts)
        with Scratch(files) as s:
            if mode == "staged":
                r = guard(s.run(env.exe("hilbert-from-rays"), opts + ["--output-subcones=sub", "--only-triangulate", name]))
                t = s.get("sub")
                if r.rc != 0 or t is None:
                    raise Fail("%s --output-subcones failed (status %d): %s" % (what, r.rc, tail(r.err)))
                I, n = matrix_file(t, "the subcones file")
                if n != len(R):
                    raise Fail("%s: the subcones file has %d columns for %d rays" % (what, n, len(R)))
                if any(v not in (0, 1) for row in I for v in row):
                    raise Fail("%s: the subcones file is not made of indicators: %s" % (what, I))
                parts = [[list(x) for x, b in zip(R, row) if b] for row in I]
                check_subdivision(what, R, parts, c["key"], False)
                opts = [x for x in opts if not x.startswith("--triangulation-pull")] + ["--subcones=sub"] + ["--no-initial-triangulation"] * rng.randint(0, 1)
                out = name + "--subcones-sub.hil"
            r = guard(s.run(env.exe("hilbert-from-rays"), opts + [name]))
            t = s.get(out)
            tri = s.get(name + ".triang") if mode in ("plain", "subcones") and "--no-triang-file" not in opts else None
        if r.rc != 0 or t is None:
            raise Fail("%s failed (status %d) on the cone %s: %s" % (what, r.rc, G, tail(r.err)))
        pts, n = matrix_file(t, out)
        if n != d:
            raise Fail("%s writes vectors of length %d, the cone has dimension %d" % (what, n, d))
        if len(set(pts)) != len(pts):
            raise Fail("%s writes a vector twice: %s" % (what, sorted(pts)))
        enum = any(x.startswith("--max-det") for x in opts)
        for x in pts:
            if not any(x) and not enum:
                raise Fail("%s writes the zero vector" % what)
            if not member(x):
                raise Fail("%s writes %s, which is not in the cone %s" % (what, x, G))
        lost = HBe - set(pts) - set(G)
        if lost:
            raise Fail("%s does not find the irreducible points %s of the cone %s" % (what, sorted(lost), G))
        exact = mode == "whole" and not enum and not any(x.startswith("--max-facets") for x in opts)
        simp = len(set(R[i] and tuple(R[i]) for i in range(len(R)))) == k
        if exact and not (simp and abs(int(geom.det([list(r) for r in R]))) == 1) and set(pts) != HBe:
            raise Fail("%s writes %s, the Hilbert basis of %s is %s" % (what, sorted(pts), G, sorted(HBe)))
        if tri is not None and not c["embed"]:
            C = cones.read_cones(tri)
            check_subdivision(what, R, [[list(cones.prim(r)) for r in x["rays"]] for x in C], c["key"], False)
            if not enum and not any(x.startswith("--max-facets") for x in opts):
                want = set()
                for x in C:
                    if len(x["rays"]) == d and abs(int(geom.det(x["rays"]))) == 1:
                        continue
                    want |= hilbert_basis(x["rays"])
                if set(pts) != want:
                    raise Fail("%s writes %s, the Hilbert bases of the cones it triangulates into have %s" % (what, sorted(pts), sorted(want)))
        nt = HBe - set(G)
        return (jhash([c["rays"], c["embed"], opts, form, mode]) if nt else None), \
            ["d=%d" % d, "rays=%d" % len(R), "mode=" + mode, "form=" + form, "basis=%d" % min(len(HB), 30)] + \
            (["lower-dim"] if d > k else []) + opts
