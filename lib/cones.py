"""Exact reference operations on rational polyhedral cones given by rays (independent of LattE)."""
from fractions import Fraction as F
from itertools import combinations, product
from math import gcd, factorial
import geom


def prim(v):
    g = 0
    for x in v:
        g = gcd(g, x)
    return tuple(x // g for x in v) if g else tuple(v)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def facets(rays):
    """Primitive inner facet normals of the full-dimensional cone spanned by rays."""
    d = len(rays[0])
    out = {}
    if d == 1:
        return [(1,)] if rays[0][0] > 0 else [(-1,)]
    for S in combinations(range(len(rays)), d - 1):
        N = geom.nullspace([list(rays[i]) for i in S], d)
        if len(N) != 1:
            continue
        n = geom.primitive(N[0])
        v = [dot(n, r) for r in rays]
        if all(x >= 0 for x in v):
            out[tuple(n)] = 1
        elif all(x <= 0 for x in v):
            out[tuple(-x for x in n)] = 1
    return sorted(out)


def is_pointed(rays, fac=None):
    d = len(rays[0])
    fac = fac if fac is not None else facets(rays)
    return bool(fac) and geom.rank([list(f) for f in fac]) == d


def extreme(rays, fac):
    d = len(rays[0])
    return [r for r in rays if geom.rank([list(f) for f in fac if dot(f, r) == 0]) == d - 1] if d > 1 else list(rays)[:1]


def inside(fac, x, strict=False):
    return all(dot(f, x) > 0 if strict else dot(f, x) >= 0 for f in fac)


def grading(fac):
    """A functional that is positive on every nonzero point of the pointed cone."""
    return [sum(c) for c in zip(*fac)]


def simplicial_volume(rays, w):
    """d! times the volume of {x in cone : w.x <= 1}."""
    v = F(abs(int(geom.det([list(r) for r in rays]))))
    for r in rays:
        v /= dot(w, r)
    return v


def triangulate(rays, fac):
    """Pulling triangulation of the cone into index tuples."""
    inc = [frozenset(i for i, r in enumerate(rays) if dot(f, r) == 0) for f in fac]
    d = len(rays[0])

    def rec(face, dim):
        if len(face) == dim:
            return [tuple(sorted(face))]
        v = min(face)
        subs = set()
        for f in inc:
            g = face & f
            if v in g or len(g) < dim - 1 or g == face:
                continue
            if geom.rank([list(rays[i]) for i in g]) == dim - 1:
                subs.add(g)
        return [tuple(sorted(s + (v,))) for g in subs for s in rec(g, dim - 1)]
    ext = extreme(rays, fac)
    idx = {r: i for i, r in enumerate(rays)}
    return rec(frozenset(idx[r] for r in ext), d)


def volume(rays, fac, w):
    return sum(simplicial_volume([rays[i] for i in s], w) for s in triangulate(rays, fac))


def random_cone(rng, dmax=5, dims=None, maxrays=9, size=None, extra=True):
    """A pointed full-dimensional cone: (list of distinct primitive integer rays), or None."""
    d = dims or rng.choice([2, 3, 3, 3, 4, 4, 5][:max(1, dmax + (2 if dmax >= 5 else 1))])
    d = min(d, dmax)
    B = size or rng.choice([1, 1, 2, 2, 3, 5, 9])
    kind = rng.choice(["random", "random", "random", "simplicial", "lifted", "cube", "cross", "cyclic"])
    if kind == "simplicial":
        R = [[rng.randint(-B, B) for _ in range(d)] for _ in range(d)]
    elif kind == "random":
        R = [[rng.randint(-B, B) for _ in range(d - 1)] + [rng.randint(1, max(1, B))] for _ in range(rng.randint(d, min(maxrays, d + 4)))]
    elif kind == "lifted":
        R = [[rng.randint(0, B) for _ in range(d - 1)] + [1] for _ in range(rng.randint(d, maxrays))]
    elif kind == "cube" and d <= 4:
        k = rng.randint(1, 2)
        R = [list(x) + [k] for x in product((0, 1), repeat=d - 1)]
    elif kind == "cross":
        R = [[s * int(j == i) for j in range(d - 1)] + [rng.choice([1, 1, 2])] for i in range(d - 1) for s in (1, -1)]
    else:
        ts = rng.sample(range(-4, 5), min(9, rng.randint(d, d + 2)))
        R = [[t ** i for i in range(1, d)] + [1] for t in ts]
    if d >= 2 and rng.random() < .5:
        U = geom.random_unimodular(rng, d)
        R = [[dot(u, r) for u in U] for r in R]
    R = [prim(r) for r in R if any(r)]
    if extra and R and rng.random() < .3:
        for _ in range(rng.randint(1, 2)):
            k = rng.randint(2, max(2, min(len(R), 3)))
            s = [rng.choice(R) for _ in range(k)]
            v = [sum(c) for c in zip(*s)]
            if any(v):
                R.append(prim(v))
    R = list(dict.fromkeys(R))
    if len(R) > maxrays or len(R) < d or geom.rank([list(r) for r in R]) < d:
        return None
    f = facets(R)
    if not is_pointed(R, f):
        return None
    rng.shuffle(R)
    return [list(r) for r in R]


def cone_valid(rays, dmax=6, maxrays=12):
    if not rays or not isinstance(rays[0], list):
        return False
    d = len(rays[0])
    if not 1 <= d <= dmax or len(rays) > maxrays or any(len(r) != d or not any(r) for r in rays):
        return False
    R = [prim(r) for r in rays]
    if [list(r) for r in R] != [list(r) for r in rays] or len(set(R)) < len(R):
        return False
    if geom.rank([list(r) for r in R]) < d:
        return False
    return is_pointed(R)


def cone_shrinks(rays):
    for i in range(len(rays)):
        yield rays[:i] + rays[i + 1:]
    d = len(rays[0])
    for j in range(d):
        if d > 1:
            yield [list(prim(r[:j] + r[j + 1:])) for r in rays]
    for i, r in enumerate(rays):
        for j, x in enumerate(r):
            for y in (0, 1, -1, x // 2):
                if abs(y) < abs(x):
                    yield rays[:i] + [list(prim(r[:j] + [y] + r[j + 1:]))] + rays[i + 1:]


def cone_text(rays, vertex=None, facets_=None, coefficient=1):
    """LattE cone format."""
    d = len(rays[0])
    v = vertex or [0] * d
    fs = lambda x: str(x) if F(x).denominator == 1 else "%d/%d" % (F(x).numerator, F(x).denominator)
    s = "==========\nCone.\nCoefficient: %d\nVertex: [%s]\nExtreme rays:\n" % (coefficient, " ".join(fs(x) for x in v))
    s += "".join("[%s]\n" % " ".join(map(str, r)) for r in rays)
    s += "Determinant:0\nFacets:\n"
    s += "".join("[%s]\n" % " ".join(map(str, r)) for r in facets_) if facets_ else "[]\n"
    return s + "Dual determinant:0\nLattice points in parallelepiped:\n[]\n==========\n\n"


def read_cones(t):
    """Cones of a file in LattE cone format: list of dicts."""
    import re
    out = []
    vec = lambda s: [F(x) for x in s.strip()[1:-1].split()]
    for blk in t.split("Cone.\n")[1:]:
        L = blk.split("\n")
        c = {"rays": [], "facets": [], "points": []}
        key = None
        for x in L:
            x = x.strip()
            if x.startswith("Coefficient:"):
                c["coef"] = int(x[12:])
            elif x.startswith("Vertex:"):
                c["vertex"] = vec(x[7:])
            elif x == "Extreme rays:":
                key = "rays"
            elif x.startswith("Determinant:"):
                c["det"] = int(x[12:])
            elif x == "Facets:":
                key = "facets"
            elif x.startswith("Dual determinant:"):
                c["dualdet"] = int(x[17:])
            elif x.startswith("Lattice points"):
                key = "points"
            elif x.startswith("[") and key:
                v = vec(x)
                if v:
                    c[key].append([int(y) if y.denominator == 1 else y for y in v])
            elif x.startswith("==="):
                key = None
        out.append(c)
    return out
