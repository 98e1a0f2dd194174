"""Exact reference geometry (pure integers / Fractions): the independent oracle.

A polyhedron is {x : b + a.x >= 0 for (b,a) in ineqs, b + a.x == 0 for (b,a) in eqs}, each row a
list [b, a1..ad] -- the row convention of LattE H-representation files."""
from fractions import Fraction as F
from itertools import combinations, product
from math import gcd, lcm, factorial, comb
import numpy as np


# ---------------------------------------------------------------- linear algebra
def rref(M):
    M = [[F(x) for x in r] for r in M]
    piv, r = [], 0
    ncol = len(M[0]) if M else 0
    for c in range(ncol):
        p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        iv = M[r][c]
        M[r] = [x / iv for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        piv.append(c)
        r += 1
    return M[:r], piv


def rank(M):
    return len(rref(M)[1]) if M else 0


def det(M):
    """Bareiss fraction-free determinant of an integer (or Fraction) matrix."""
    M = [list(r) for r in M]
    n = len(M)
    if n == 0:
        return 1
    if any(isinstance(x, F) for r in M for x in r):
        s = F(1)
        M = [[F(x) for x in r] for r in M]
        for c in range(n):
            p = next((i for i in range(c, n) if M[i][c] != 0), None)
            if p is None:
                return F(0)
            if p != c:
                M[c], M[p] = M[p], M[c]
                s = -s
            s *= M[c][c]
            for i in range(c + 1, n):
                if M[i][c] != 0:
                    f = M[i][c] / M[c][c]
                    M[i] = [a - f * b for a, b in zip(M[i], M[c])]
        return s
    sign, prev = 1, 1
    for k in range(n - 1):
        if M[k][k] == 0:
            p = next((i for i in range(k + 1, n) if M[i][k] != 0), None)
            if p is None:
                return 0
            M[k], M[p] = M[p], M[k]
            sign = -sign
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                M[i][j] = (M[i][j] * M[k][k] - M[i][k] * M[k][j]) // prev
        prev = M[k][k]
    return sign * M[n - 1][n - 1]


def solve(A, b):
    """Unique solution of the square system A x = b, or None if singular."""
    n = len(A)
    R, piv = rref([list(r) + [c] for r, c in zip(A, b)])
    if piv != list(range(n)):
        return None
    return tuple(R[i][n] for i in range(n))


def inverse(M):
    n = len(M)
    R, piv = rref([list(r) + [1 if i == j else 0 for j in range(n)] for i, r in enumerate(M)])
    if piv != list(range(n)):
        return None
    return [r[n:] for r in R]


def nullspace(M, n):
    R, piv = rref(M) if M else ([], [])
    free = [c for c in range(n) if c not in piv]
    out = []
    for f in free:
        v = [F(0)] * n
        v[f] = F(1)
        for r, p in zip(R, piv):
            v[p] = -r[f]
        out.append(v)
    return out


def primitive(v):
    d = 1
    for x in v:
        d = d * F(x).denominator // gcd(d, F(x).denominator)
    w = [int(F(x) * d) for x in v]
    g = 0
    for x in w:
        g = gcd(g, x)
    return tuple(x // g for x in w) if g else tuple(w)


def random_unimodular(rng, n, steps=None, size=2):
    U = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    perm = list(range(n))
    rng.shuffle(perm)
    U = [U[p] for p in perm]
    for i in range(n):
        if rng.random() < .4:
            U[i] = [-x for x in U[i]]
    if n > 1:
        for _ in range(steps if steps is not None else n + 1):
            i, j = rng.sample(range(n), 2)
            k = rng.choice([x for x in range(-size, size + 1) if x]) if size < 1000 else rng.choice([-1, 1]) * rng.randint(1, size)
            U[i] = [a + k * b for a, b in zip(U[i], U[j])]
    return U


def matvec(M, v):
    return [sum(a * b for a, b in zip(r, v)) for r in M]


def matmul(A, B):
    return [[sum(a * b for a, b in zip(r, c)) for c in zip(*B)] for r in A]


# ---------------------------------------------------------------- polyhedra
def ev(row, x):
    return row[0] + sum(a * b for a, b in zip(row[1:], x))


def contains(ineqs, eqs, x):
    return all(ev(r, x) >= 0 for r in ineqs) and all(ev(r, x) == 0 for r in eqs)


def vertices(ineqs, eqs, d):
    """All vertices, exact, by enumerating bases."""
    if d == 0:
        return [()]
    E, piv = rref([r[1:] + [-r[0]] for r in eqs]) if eqs else ([], [])
    if piv and piv[-1] == d:
        return []
    k = d - len(piv)
    base = [list(r) for r in E]
    out = {}
    rows = [list(r) for r in ineqs]
    for S in combinations(range(len(rows)), k):
        M = base + [[F(a) for a in rows[i][1:]] + [F(-rows[i][0])] for i in S]
        R, p = rref(M)
        if p != list(range(d)):
            continue
        x = tuple(R[i][d] for i in range(d))
        if x not in out and contains(ineqs, eqs, x):
            out[x] = 1
    return sorted(out)


def lattice_points(ineqs, eqs, lo, hi):
    """Integer points inside the box [lo,hi] satisfying the rows, as a numpy array (n,d)."""
    d = len(lo)
    if any(l > h for l, h in zip(lo, hi)):
        return np.zeros((0, d), dtype=np.int64)
    # coordinates relative to lo, so that far-away boxes stay within machine integers
    grids = np.meshgrid(*[np.arange(0, h - l + 1, dtype=np.int64) for l, h in zip(lo, hi)], indexing="ij")
    P = np.stack([g.ravel() for g in grids], axis=1) if d else np.zeros((1, 0), dtype=np.int64)
    m = np.ones(len(P), dtype=bool)
    span = max([h - l for l, h in zip(lo, hi)] or [0]) + 1
    for rows, eq in ((ineqs, False), (eqs, True)):
        for r in rows:
            b = int(r[0]) + sum(int(x) * int(l) for x, l in zip(r[1:], lo))
            reach = sum(abs(int(x)) for x in r[1:]) * span
            if b > reach and not eq:        # holds on the whole box
                continue
            if b < -reach or (eq and b > reach):
                m &= False
                continue
            if reach < 2 ** 61:
                v = P @ np.array(r[1:], dtype=np.int64) + b
            else:
                v = P.astype(object) @ np.array([int(x) for x in r[1:]], dtype=object) + b
            m &= (v == 0) if eq else (v >= 0)
    P = P[m]
    if d and max(abs(x) for x in list(lo) + list(hi)) >= 2 ** 62:
        return P.astype(object) + np.array([int(x) for x in lo], dtype=object)
    return P + np.array(lo, dtype=np.int64)


def fl(x):
    x = F(x)
    return x.numerator // x.denominator


def ceil(x):
    return -fl(-F(x))


def bbox(verts):
    d = len(verts[0])
    return ([ceil(min(v[i] for v in verts)) for i in range(d)],
            [fl(max(v[i] for v in verts)) for i in range(d)])


def boxsize(lo, hi):
    n = 1
    for l, h in zip(lo, hi):
        n *= max(0, h - l + 1)
    return n


def count_polytope(ineqs, eqs, verts, scale=1, limit=3_000_000):
    """Number of integer points of scale*P given P's exact vertices; None when the box is too large."""
    if not verts:
        return 0
    lo, hi = bbox([[scale * c for c in v] for v in verts])
    if boxsize(lo, hi) > limit:
        return None
    return len(lattice_points([[r[0] * scale] + list(r[1:]) for r in ineqs],
                              [[r[0] * scale] + list(r[1:]) for r in eqs], lo, hi))


def affdim(points):
    if not points:
        return -1
    p0 = points[0]
    return rank([[a - b for a, b in zip(p, p0)] for p in points[1:]]) if len(points) > 1 else 0


def is_bounded(ineqs, eqs, d):
    """No nonzero recession direction (assumes nothing about emptiness): checked by vertices of
    the recession cone cut with the cross-polytope faces."""
    R = [[0] + list(r[1:]) for r in ineqs]
    Q = [[0] + list(r[1:]) for r in eqs]
    if rank([r[1:] for r in R + Q]) < d:
        return False
    # pointed cone: bounded iff no extreme ray
    for s in product((1, -1), repeat=d) if d <= 6 else ():
        pass
    k = d - 1 - (rank([r[1:] for r in Q]) if Q else 0)
    if k < 0:
        return True
    for S in combinations(range(len(R)), k):
        N = nullspace([r[1:] for r in Q] + [R[i][1:] for i in S], d)
        if len(N) != 1:
            continue
        v = N[0]
        for w in (v, [-x for x in v]):
            if all(ev(r, w) >= 0 for r in R) and all(ev(r, w) == 0 for r in Q):
                return False
    return True


def hull_hrep(points, d):
    """Facet rows (primitive integer) of conv(points), assumed full-dimensional in R^d."""
    pts = [tuple(F(c) for c in p) for p in points]
    out = {}
    for S in combinations(range(len(pts)), d):
        p0 = pts[S[0]]
        N = nullspace([[a - b for a, b in zip(pts[i], p0)] for i in S[1:]], d)
        if len(N) != 1:
            continue
        n = N[0]
        b = -sum(a * c for a, c in zip(n, p0))
        vals = [b + sum(a * c for a, c in zip(n, p)) for p in pts]
        if all(v >= 0 for v in vals):
            out[primitive([b] + list(n))] = 1
        elif all(v <= 0 for v in vals):
            out[primitive([-b] + [-x for x in n])] = 1
    return [list(r) for r in sorted(out)]


def hull_vertices(points):
    """The extreme points among the given full-dimensional point set (via facets)."""
    d = len(points[0])
    H = hull_hrep(points, d)
    out = []
    for p in points:
        tight = [r[1:] for r in H if ev(r, p) == 0]
        if rank(tight) == d and tuple(p) not in out:
            out.append(tuple(p))
    return out


def triangulate(verts, facets):
    """Pulling triangulation of a full-dimensional polytope from its vertex list and facet rows.
    Returns simplices as tuples of vertex indices."""
    d = len(verts[0])
    inc = [frozenset(i for i, v in enumerate(verts) if ev(f, v) == 0) for f in facets]

    def rec(face, dim):
        if len(face) == dim + 1:
            return [tuple(sorted(face))]
        v = min(face)
        subs = set()
        for f in inc:
            g = face & f
            if v in g or len(g) < dim or g == face:
                continue
            if affdim([verts[i] for i in sorted(g)]) == dim - 1:
                subs.add(g)
        out = []
        for g in subs:
            for s in rec(g, dim - 1):
                out.append(tuple(sorted(s + (v,))))
        return out
    return rec(frozenset(range(len(verts))), d)


def simplex_vol(vs):
    d = len(vs) - 1
    return abs(F(det([[F(a - b) for a, b in zip(v, vs[0])] for v in vs[1:]]))) / factorial(d)


# ---------------------------------------------------------------- polynomial integrals over simplices
def pmul(p, q):
    out = {}
    for a, c in p.items():
        for b, e in q.items():
            k = tuple(x + y for x, y in zip(a, b))
            out[k] = out.get(k, 0) + c * e
    return out


def integrate_simplex(vs, poly):
    """Exact integral of poly {exponents: coeff} over conv(vs) (Lebesgue): the integral of x^e is
    e! d! vol / (d+|e|)! times the coefficient of t^e in prod_i 1/(1 - <v_i, t>)."""
    d = len(vs) - 1
    n = len(vs[0])
    V = simplex_vol(vs)
    if V == 0:
        return F(0)
    L = 1
    for v in vs:
        for x in v:
            L = lcm(L, F(x).denominator)
    W = [[int(F(x) * L) for x in v] for v in vs]
    total = F(0)
    for ex, c in poly.items():
        if c == 0:
            continue
        S = [1] * n
        for j in range(n - 2, -1, -1):
            S[j] = S[j + 1] * (ex[j + 1] + 1)
        size = S[0] * (ex[0] + 1)
        A = [0] * size
        A[0] = 1
        idx = list(product(*[range(e + 1) for e in ex]))
        for w in W:
            for k, e in enumerate(idx):
                t = A[k]
                for j in range(n):
                    if e[j] and w[j]:
                        t += w[j] * A[k - S[j]]
                A[k] = t
        m = sum(ex)
        num = factorial(d)
        for e in ex:
            num *= factorial(e)
        total += F(c) * F(A[-1] * num, factorial(d + m) * L ** m)
    return total * V


def integrate_lf_simplex(vs, l, m):
    """Exact integral of <l,x>^m over conv(vs): vol d! m!/(d+m)! times the complete homogeneous symmetric polynomial."""
    d = len(vs) - 1
    h = [F(1)] + [F(0)] * m
    for v in vs:
        y = sum(F(a) * b for a, b in zip(l, v))
        for k in range(1, m + 1):
            h[k] += y * h[k - 1]
    return simplex_vol(vs) * h[m] * F(factorial(d) * factorial(m), factorial(d + m))


def lf_poly(coeffs, power):
    n = len(coeffs)
    p = {tuple([0] * n): F(1)}
    l = {tuple(1 if i == j else 0 for i in range(n)): F(c) for j, c in enumerate(coeffs) if c != 0}
    for _ in range(power):
        p = pmul(p, l)
    return p


def interp(ys, x):
    """Value at x of the polynomial through (0,ys[0]),(1,ys[1]),..."""
    n = len(ys)
    t = F(0)
    for i in range(n):
        c = F(ys[i])
        for j in range(n):
            if j != i:
                c *= F(x - j, i - j)
        t += c
    return t


def interp_coeffs(xs, ys):
    n = len(xs)
    return list(solve([[F(x) ** k for k in range(n)] for x in xs], ys))


def affine_hull(points):
    """Integer equations [b, a...] (b + a.x = 0) of the affine hull of rational points."""
    p0 = points[0]
    M = [[F(x) - F(y) for x, y in zip(p, p0)] for p in points[1:]]
    M = [r for r in M if any(r)]
    N = nullspace(M, len(p0)) if M else [[F(int(i == j)) for j in range(len(p0))] for i in range(len(p0))]
    out = []
    for a in N:
        out.append(primitive([-sum(F(x) * F(y) for x, y in zip(a, p0))] + list(a)))
    return out


def int_solvable(E):
    """Do the equations b + a.x = 0 have a common integer solution?  (column Hermite normal form)"""
    A = [list(map(int, r[1:])) for r in E]
    b = [-int(r[0]) for r in E]
    if not A:
        return True
    n = len(A[0])
    col = 0
    piv = []
    for i in range(len(A)):
        while True:
            nz = [j for j in range(col, n) if A[i][j]]
            if not nz:
                break
            m = min(nz, key=lambda j: abs(A[i][j]))
            for r in A:
                r[col], r[m] = r[m], r[col]
            done = True
            for j in range(col + 1, n):
                q = A[i][j] // A[i][col]
                if q:
                    for r in A:
                        r[j] -= q * r[col]
                if A[i][j]:
                    done = False
            if done:
                break
        if col < n and A[i][col]:
            piv.append((i, col))
            col += 1
    y = [0] * n
    k = 0
    for i in range(len(A)):
        rest = b[i] - sum(A[i][j] * y[j] for j in range(n))
        if k < len(piv) and piv[k][0] == i:
            c = piv[k][1]
            if rest % A[i][c]:
                return False
            y[c] = rest // A[i][c]
            k += 1
        elif rest:
            return False
    return True


def cone_rays(V, ineqs, eqs, dim):
    """Per vertex: primitive integer directions of the edges leaving it."""
    tight = [frozenset(i for i, r in enumerate(ineqs) if ev(r, v) == 0) for v in V]
    er = [list(r[1:]) for r in eqs]
    out = [[] for _ in V]
    d = len(V[0])
    for a in range(len(V)):
        for b in range(a + 1, len(V)):
            c = tight[a] & tight[b]
            if len(c) < dim - 1:
                continue
            if rank([ineqs[i][1:] for i in c] + er) == d - 1:
                w = primitive([y - x for x, y in zip(V[a], V[b])])
                out[a].append(tuple(w))
                out[b].append(tuple(-x for x in w))
    return [list(dict.fromkeys(o)) for o in out]


def lattice_index(rows):
    """Index of the lattice spanned by independent integer rows in its saturation (product of elementary divisors)."""
    k = len(rows)
    if k == 0:
        return 1
    g = 0
    for cols in combinations(range(len(rows[0])), k):
        g = gcd(g, abs(int(det([[r[c] for c in cols] for r in rows]))))
        if g == 1:
            break
    return g


def cone_cost(ineqs, eqs, V, dim):
    """Rough number of lattice points in the fundamental parallelepipeds of the (triangulated) vertex cones."""
    tot = 0
    for rays in cone_rays(V, ineqs, eqs, dim):
        if len(rays) < dim:
            continue
        best, n = 0, 0
        for s in combinations(rays, dim):
            best = max(best, lattice_index(s))
            n += 1
            if n > 60:
                break
        tot += best * max(1, len(rays) - dim + 1)
    return tot
