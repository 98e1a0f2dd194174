"""Structured generators of polytopes (bounded, small enough for the exact oracle)."""
from fractions import Fraction as F
from itertools import product
import geom


def ri(rng, a, b):
    return rng.randint(a, b)


def wd(rng, table):
    """weighted choice: [(weight, value), ...]"""
    t = rng.random() * sum(w for w, _ in table)
    for w, v in table:
        t -= w
        if t < 0:
            return v
    return table[-1][1]


def box_rows(lo, hi):
    d = len(lo)
    R = []
    for i in range(d):
        e = [0] * d
        e[i] = 1
        R.append([-lo[i]] + e)
        R.append([hi[i]] + [-x for x in e])
    return R


def p_boxcut(rng, d):
    """Random half-spaces (possibly cutting everything away) inside a small box."""
    B = {1: 30, 2: 12, 3: 6, 4: 4, 5: 2}[d]
    lo = [ri(rng, -B, B) for _ in range(d)]
    hi = [l + ri(rng, 0 if rng.random() < .2 else 1, B) for l in lo]
    R = box_rows(lo, hi)
    c = [F(l + h, 2) for l, h in zip(lo, hi)]
    for _ in range(ri(rng, 0, 4)):
        a = [ri(rng, -4, 4) for _ in range(d)]
        v = geom.fl(sum(x * y for x, y in zip(a, c)))
        R.append([ri(rng, -1, 6) - v + (0 if rng.random() < .85 else -4)] + a)
    return R, []


def p_vpoly(rng, d):
    """Convex hull of a few random integer (or rational) points, given by its facets."""
    n = d + 1 + (ri(rng, 0, 3) if d < 4 else ri(rng, 0, 2) if d < 5 else 0)
    B = {1: 20, 2: 8, 3: 5, 4: 3, 5: 2}[d]
    q = 1 if rng.random() < .5 or d > 4 else ri(rng, 2, 5)
    for _ in range(50):
        pts = [tuple(F(ri(rng, -B * q, B * q), q) for _ in range(d)) for _ in range(n)]
        if geom.affdim(pts) == d:
            break
    else:
        return None
    return [list(r) for r in geom.hull_hrep(pts, d)], []


def p_knap(rng, d):
    """{x >= 0, a.x <= b}: rational simplices, sometimes doubled."""
    a = [ri(rng, 1, 9 if d > 1 else 40) for _ in range(d)]
    b = ri(rng, 0, {1: 60, 2: 40, 3: 25, 4: 18, 5: 12}[d])
    R = [[0] + [1 if i == j else 0 for j in range(d)] for i in range(d)]
    R.append([b] + [-x for x in a])
    if rng.random() < .4:
        a = [ri(rng, -3, 7) for _ in range(d)]
        R.append([ri(rng, 0, 20)] + [-x for x in a])
    return R, []


def p_cross(rng, d):
    """Cross polytopes / their translates: highly non-simple vertices."""
    r = ri(rng, 1, {1: 9, 2: 7, 3: 5, 4: 3, 5: 2}[d])
    c = [ri(rng, -3, 3) for _ in range(d)]
    k = rng.choice([1, 1, 1, 2, 3])
    R = []
    for s in product((1, -1), repeat=d):
        R.append([k * (0) + r - sum(x * y * -1 for x, y in zip(s, c)) * 1] + [-x for x in s])
    if k > 1:
        R = [[x[0] * k + ri(rng, 0, k - 1)] + [y * k for y in x[1:]] for x in R]
    return R, []


def p_pyr(rng, d):
    """Pyramid / bipyramid over a cube of dimension d-1."""
    if d == 1:
        return p_boxcut(rng, 1)
    h = ri(rng, 1, 4)
    w = ri(rng, 1, {2: 6, 3: 4, 4: 3, 5: 2}[d])
    R = []
    for i in range(d - 1):
        e = [0] * d
        e[i] = h
        e[-1] = w
        R.append([w * h] + [-x for x in e])
        e2 = [0] * d
        e2[i] = -h
        e2[-1] = w
        R.append([w * h] + [-x for x in e2])
    e = [0] * d
    e[-1] = 1
    if rng.random() < .7:
        R.append([0] + e)
    else:
        R2 = [r[:-1] + [-r[-1]] for r in R]
        R = R + R2
    return R, []


def p_simplexrows(rng, d):
    """Simplex with random integer vertices (big determinants)."""
    B = {1: 30, 2: 14, 3: 9, 4: 6, 5: 3}[d]
    for _ in range(50):
        pts = [tuple(F(ri(rng, -B, B)) for _ in range(d)) for _ in range(d + 1)]
        if geom.affdim(pts) == d:
            return [list(r) for r in geom.hull_hrep(pts, d)], []
    return None


def p_transport(rng, d):
    """Flow/transportation-like: nonneg variables with equations."""
    if d < 2:
        return p_knap(rng, d)
    E = []
    k = ri(rng, 1, max(1, d - 2))
    for _ in range(k):
        a = [ri(rng, 0, 3) for _ in range(d)]
        if not any(a):
            a[0] = 1
        E.append([ri(rng, 0, 14)] + [-x for x in a])
    E[0] = [ri(rng, 1, 14)] + [-ri(rng, 1, 3) for _ in range(d)]
    R = [[0] + [1 if i == j else 0 for j in range(d)] for i in range(d)]
    return R, E


KINDS = [(4, p_boxcut), (3, p_vpoly), (3, p_knap), (1, p_cross), (1, p_pyr), (2, p_simplexrows), (2, p_transport)]


def translate(R, t):
    return [[r[0] - sum(a * b for a, b in zip(r[1:], t))] + list(r[1:]) for r in R]


def far(rng):
    """A large coordinate, around machine-word limits or of arbitrary size."""
    s = rng.choice((1, -1))
    if rng.random() < .5:
        return s * ((1 << rng.choice([15, 16, 31, 32, 53, 62, 63, 64])) + ri(rng, -2, 2))
    return s * rng.randint(1, 10 ** rng.choice([3, 5, 7, 9, 12, 18, 25]))


def polytope(rng, dmax=4, kinds=None, dims=None, eqs=True, decorate=True):
    """A bounded polytope {ineqs, eqs, d} with integer data.  May be empty or lower-dimensional."""
    d = dims or wd(rng, [(2, 1), (5, 2), (6, 3), (4, 4), (1, 5)][:dmax])
    kind = wd(rng, kinds or KINDS)
    r = kind(rng, d)
    if r is None:
        return None
    R, E = [list(x) for x in r[0]], [list(x) for x in r[1]]
    tags = [kind.__name__[2:]]
    if eqs and not E and d >= 2 and rng.random() < .22:
        # intersect with a random hyperplane (through an integer point most of the time)
        for _ in range(ri(rng, 1, min(2, d - 1))):
            a = [ri(rng, -3, 3) for _ in range(d)]
            if not any(a):
                continue
            V = geom.vertices(R, E, d) if len(R) <= 14 else None
            if V:
                c = [sum(v[i] for v in V) / len(V) for i in range(d)]
            else:
                c = [0] * d
            c = [geom.fl(x) for x in c]
            b = -sum(x * y for x, y in zip(a, c))
            if rng.random() < .25:
                b += ri(rng, -3, 3)
            E.append([b] + a)
        tags.append("cut-by-equation")
    if rng.random() < .35 and d >= 2:
        U = geom.random_unimodular(rng, d, steps=ri(rng, 1, d), size=2)
        # x = U^-1 y: rows transform by inverse; use U directly as the row transform (also unimodular)
        R = [[x[0]] + [sum(x[1 + i] * U[i][j] for i in range(d)) for j in range(d)] for x in R]
        E = [[x[0]] + [sum(x[1 + i] * U[i][j] for i in range(d)) for j in range(d)] for x in E]
        tags.append("sheared")
    if rng.random() < .3:
        t = [ri(rng, -20, 20) for _ in range(d)]
        R, E = translate(R, t), translate(E, t)
        tags.append("translated")
    elif decorate and rng.random() < .08:
        t = [far(rng) if rng.random() < .7 else 0 for _ in range(d)]
        R, E = translate(R, t), translate(E, t)
        tags.append("far")
    if decorate:
        x = rng.random()
        if x < .12:
            R.append(list(rng.choice(R)))
            tags.append("duplicate-row")
        elif x < .22:
            q = list(rng.choice(R))
            R.append([q[0] + ri(rng, 1, 5)] + q[1:])
            tags.append("redundant-row")
        elif x < .25 and d > 1:
            q = list(rng.choice(R))          # an implicit equation: a facet and its opposite
            R.append([-v for v in q])
            tags.append("implicit-equation")
        elif x < .33:
            k = ri(rng, 2, 4)
            i = ri(rng, 0, len(R) - 1)
            R[i] = [k * v for v in R[i]]
            tags.append("scaled-row")
        rng.shuffle(R)
    return {"d": d, "ineqs": R, "eqs": E, "tags": tags}


def hrep_text(p, rng=None, order=None, nonneg=(), omit_nonneg=True):
    """LattE H-representation.  order: permutation of all rows (equations marked by 'linearity')."""
    rows = [(r, 0) for r in p["ineqs"]] + [(r, 1) for r in p["eqs"]]
    if order:
        rows = [rows[i] for i in order]
    lin = [i + 1 for i, (r, e) in enumerate(rows) if e]
    s = "%d %d\n" % (len(rows), p["d"] + 1)
    s += "".join(" ".join(map(str, r)) + "\n" for r, _ in rows)
    if lin:
        s += "linearity %d %s\n" % (len(lin), " ".join(map(str, lin)))
    if nonneg:
        s += "nonnegative %d %s\n" % (len(nonneg), " ".join(map(str, nonneg)))
    return s


def drop_var(p, j):
    """p with variable j fixed to 0 and removed (for shrinking)."""
    return {"d": p["d"] - 1, "ineqs": [r[:1 + j] + r[2 + j:] for r in p["ineqs"]],
            "eqs": [r[:1 + j] + r[2 + j:] for r in p["eqs"]], "tags": p.get("tags", [])}


def poly_valid(p, dmax=6, maxcoef=10 ** 60, maxrows=22, bounded=True):
    try:
        d = p["d"]
        if not (1 <= d <= dmax) or len(p["ineqs"]) > maxrows or len(p["eqs"]) > 6:
            return False
        for r in p["ineqs"] + p["eqs"]:
            if len(r) != d + 1 or any(type(x) is not int or abs(x) > maxcoef for x in r):
                return False
        if len(p["ineqs"]) + len(p["eqs"]) < 1:
            return False
        if bounded and not geom.is_bounded(p["ineqs"], p["eqs"], d):
            return False
        return True
    except (KeyError, TypeError):
        return False


def poly_shrinks(p):
    V = geom.vertices(p["ineqs"], p["eqs"], p["d"]) if len(p["ineqs"]) <= 14 else None
    if V:
        for j in range(p["d"]):
            x = geom.fl(min(v[j] for v in V))
            for y in (x, x - (x // 2 if x > 0 else -((-x) // 2))):
                if y and abs(x) > 30:
                    t = [0] * p["d"]
                    t[j] = -y
                    yield dict(p, ineqs=translate(p["ineqs"], t), eqs=translate(p["eqs"], t))
    for j in range(p["d"]):
        if p["d"] > 1:
            yield drop_var(p, j)
    for i in range(len(p["ineqs"])):
        yield dict(p, ineqs=p["ineqs"][:i] + p["ineqs"][i + 1:])
    for i in range(len(p["eqs"])):
        yield dict(p, eqs=p["eqs"][:i] + p["eqs"][i + 1:])


def oracle(p, limit=400_000):
    """Exact vertices, dimension, bounding box of p."""
    V = geom.vertices(p["ineqs"], p["eqs"], p["d"])
    return V, geom.affdim(V)


def tight(p, V, row):
    return [v for v in V if geom.ev(row, v) == 0]


def irredundant(p, V=None):
    """Are all inequalities facet-defining and different, and all implied equations given (possibly dependent ones)?"""
    V = geom.vertices(p["ineqs"], p["eqs"], p["d"]) if V is None else V
    dim = geom.affdim(V)
    if dim < 1 or len(p["eqs"]) < p["d"] - dim or (p["eqs"] and geom.rank(p["eqs"]) != p["d"] - dim):
        return False
    seen = set()
    for r in p["ineqs"]:
        t = tight(p, V, r)
        if not t or geom.affdim(t) != dim - 1 or tuple(t) in seen:
            return False
        seen.add(tuple(t))
    return True


def dependent_equations(rng, p):
    """The same polytope with equations inserted that follow from the given ones."""
    E = [list(r) for r in p["eqs"]]
    for _ in range(rng.choice([1, 1, 2])):
        m = [rng.choice([0, 1, -1, rng.randint(-3, 3)]) for _ in E]
        r = [sum(a * x for a, x in zip(m, c)) for c in zip(*E)]
        if any(r[1:]):
            E.insert(rng.randint(0, len(E)), r)
    return dict(p, eqs=E)


def irredundant_form(p):
    """The same polytope without redundant rows (None if it is a point or empty)."""
    V = geom.vertices(p["ineqs"], p["eqs"], p["d"])
    dim = geom.affdim(V)
    if dim < 1:
        return None
    eqs = [list(map(int, r)) for r in geom.affine_hull(V)] if dim < p["d"] else []
    keep, seen = [], set()
    for r in p["ineqs"]:
        t = tight(p, V, r)
        if t and len(t) < len(V) and geom.affdim(t) == dim - 1 and tuple(t) not in seen:
            seen.add(tuple(t))
            keep.append(r)
    if len(p["eqs"]) == len(eqs):
        eqs = p["eqs"]
    return dict(p, ineqs=keep, eqs=eqs)
