"""Higher-dimensional polytopes with closed-form oracles: products of weighted simplices {x >= 0, a.x <= b} (or = b) in dimension 5 to 9,
moved by a unimodular map and a translation.  Counts, sums of monomials, optima by dynamic programming, integrals by Dirichlet's formula."""
import itertools, math
from fractions import Fraction as F


class Spec:
    """c: {"f": [[a, b, eq], ...], "ops": [[i, j, k], ...], "s": [...], "order": [...]}"""

    def __init__(self, c):
        self.f = [(tuple(a), b, bool(e)) for a, b, e in c["f"]]
        self.d = d = sum(len(a) for a, _, _ in self.f)
        self.U = [[int(i == j) for j in range(d)] for i in range(d)]       # y = U x + s
        self.W = [[int(i == j) for j in range(d)] for i in range(d)]       # the inverse of U
        for i, j, k in c["ops"]:
            self.U[i] = [x + k * y for x, y in zip(self.U[i], self.U[j])]
            for r in self.W:
                r[j] -= k * r[i]
        self.s = c["s"]
        R, E, o = [], [], 0
        for a, b, eq in self.f:
            r = [b] + [0] * d
            for i, x in enumerate(a):
                r[1 + o + i] = -x
                e = [0] * (d + 1)
                e[1 + o + i] = 1
                R.append(e)
            (E if eq else R).append(r)
            o += len(a)

        def move(r):
            l = [sum(r[1 + i] * self.W[i][j] for i in range(d)) for j in range(d)]
            return [r[0] - sum(x * y for x, y in zip(l, self.s))] + l
        R, E = [move(r) for r in R], [move(r) for r in E]
        self.p = {"d": d, "ineqs": [R[i] for i in c["order"]] if c.get("order") else R, "eqs": E, "tags": ["hd"]}
        self.dim = sum((len(a) - eq) if b else 0 for a, b, eq in self.f)

    def vertices(self):
        """Vertices in y (Fractions)."""
        L = []
        for a, b, eq in self.f:
            v = [] if eq or not b else [[F(0)] * len(a)]
            if not b:
                v = [[F(0)] * len(a)]
            else:
                v += [[F(b, x) if i == j else F(0) for j in range(len(a))] for i, x in enumerate(a)]
            L.append(v)
        out = []
        for t in itertools.product(*L):
            x = [z for v in t for z in v]
            out.append([sum(u * z for u, z in zip(r, x)) + t0 for r, t0 in zip(self.U, self.s)])
        return out

    def integral(self):
        return all(b % x == 0 for a, b, _ in self.f for x in a)

    def lattice_hull(self):
        """Does the affine hull contain integer points?"""
        return all(b % math.gcd(*a) == 0 for a, b, eq in self.f if eq)

    def count(self, t=1):
        n = 1
        for a, b, eq in self.f:
            b *= t
            if set(a) == {1}:
                n *= math.comb(b + len(a) - eq, len(a) - eq)
                continue
            D = [1] + [0] * b
            for x in a + (() if eq else (1,)):
                for c in range(x, b + 1):
                    D[c] += D[c - x]
            n *= D[b]
        return n

    def gf(self, z, P):
        """Sum of z^y over the integer points y, mod P."""
        pw = lambda e: math.prod(pow(x, k % (P - 1), P) for x, k in zip(z, e)) % P
        n, o = pw(self.s), 0
        for a, b, eq in self.f:
            D = [1] + [0] * b
            for i, x in enumerate(a):
                w = pw([r[o + i] for r in self.U])
                for c in range(x, b + 1):
                    D[c] = (D[c] + w * D[c - x]) % P
            n = n * (D[b] if eq else sum(D)) % P
            o += len(a)
        return n

    def maximum(self, c):
        """max c.y over the integer points."""
        l = [sum(c[i] * self.U[i][j] for i in range(self.d)) for j in range(self.d)]
        v, o = sum(x * y for x, y in zip(c, self.s)), 0
        for a, b, eq in self.f:
            D = [0] + [None] * b
            for q in range(1, b + 1):
                for i, x in enumerate(a):
                    if q >= x and D[q - x] is not None and (D[q] is None or D[q - x] + l[o + i] > D[q]):
                        D[q] = D[q - x] + l[o + i]
            v += D[b] if eq else max(x for x in D if x is not None)
            o += len(a)
        return v

    def integral_of(self, poly):
        """The integral over the (full-dimensional) polytope of poly: {exponents in y: coefficient}."""
        d = self.d
        lin = []
        for r, t in zip(self.U, self.s):
            q = {tuple(int(i == j) for i in range(d)): F(x) for j, x in enumerate(r) if x}
            if t:
                q[(0,) * d] = F(t)
            lin.append(q)
        tot = F(0)
        memo = {}

        def mono(e):
            if e not in memo:
                v, o = F(1), 0
                for a, b, _ in self.f:
                    k = len(a)
                    n = sum(e[o:o + k])
                    v *= F(b) ** (n + k) / math.factorial(n + k)
                    for x, y in zip(a, e[o:o + k]):
                        v *= F(math.factorial(y), x ** (y + 1))
                    o += k
                memo[e] = v
            return memo[e]
        for e, c in poly.items():
            q = {(0,) * d: F(c)}
            for i, k in enumerate(e):
                for _ in range(k):
                    n = {}
                    for m, x in q.items():
                        for m2, y in lin[i].items():
                            s = tuple(map(int.__add__, m, m2))
                            n[s] = n.get(s, 0) + x * y
                    q = n
            tot += sum(x * mono(m) for m, x in q.items())
        return tot

    def back(self, l):
        """The linear form l.y as (form in x, constant)."""
        return [sum(l[i] * self.U[i][j] for i in range(self.d)) for j in range(self.d)], sum(x * y for x, y in zip(l, self.s))


PARTS = {4: [[4], [2, 2], [3, 1], [1] * 4], 5: [[5], [4, 1], [3, 2], [2, 2, 1], [1] * 5, [3, 1, 1]], 6: [[6], [5, 1], [4, 2], [3, 3], [2, 2, 2], [3, 2, 1], [2, 2, 1, 1], [1] * 6],
         7: [[7], [6, 1], [4, 3], [3, 2, 2], [3, 3, 1], [2, 2, 2, 1]], 8: [[8], [7, 1], [5, 3], [4, 4], [3, 3, 2], [2, 2, 2, 2]],
         9: [[9], [8, 1], [5, 4], [3, 3, 3], [6, 3]], 10: [[10], [5, 5]], 12: [[12]]}


def gen(rng, dims=(5, 5, 6, 6, 7, 8, 9, 10), full=False, integral=False, bmax=6, huge=.0, maxverts=100, weights=3):
    while True:
        d = rng.choice(dims)
        parts = list(rng.choice(PARTS[d]))
        rng.shuffle(parts)
        n, f = 1, []
        for k in parts:
            eq = not full and k > 1 and rng.random() < .15
            unit = rng.random() < .5 or k > 4
            a = [1] * k if unit else [rng.choice([1, 1, 1, 2, rng.randint(1, weights)]) for _ in range(k)]
            b = rng.randint(1 if full else 0, bmax)
            if rng.random() < huge and set(a) == {1}:
                b = rng.randint(1, 10 ** rng.choice([2, 5, 9, 10, 19, 20, 30]))
            if integral:
                b = math.lcm(*a) * rng.choice([1, 1, 2])
            f.append([a, b, int(eq)])
            n *= (k + 1 - eq) if b else 1
        if n <= maxverts:
            break
    ops = []
    if rng.random() < .6:
        for _ in range(rng.randint(1, 4)):
            i, j = rng.sample(range(d), 2)
            ops.append([i, j, rng.choice([1, -1])])
    s = [rng.choice([0, 0, 0, 1, -1, 5]) for _ in range(d)] if rng.random() < .4 else [0] * d
    m = d + sum(not e for _, _, e in f)
    order = list(range(m))
    if rng.random() < .5:
        rng.shuffle(order)
    return {"f": f, "ops": ops, "s": s, "order": order}


def valid(h, full=False, integral=False):
    if not h["f"]:
        return False
    d = sum(len(a) for a, _, _ in h["f"])
    m = d + sum(not e for _, _, e in h["f"])
    if not (1 <= d <= 12 and len(h["s"]) == d and sorted(h["order"]) == list(range(m))):
        return False
    for a, b, e in h["f"]:
        if not a or min(a) < 1 or max(a) > 9 or b < 0 or e not in (0, 1) or (full and (e or b < 1)) or (b > 5000 and set(a) != {1}):
            return False
        if integral and any(b % x for x in a):
            return False
    return all(len(o) == 3 and 0 <= o[0] < d and 0 <= o[1] < d and o[0] != o[1] for o in h["ops"])


def shrinks(h):
    for i in range(len(h["ops"])):
        yield dict(h, ops=h["ops"][:i] + h["ops"][i + 1:])
    if any(h["s"]):
        yield dict(h, s=[0] * len(h["s"]))
    base = lambda f: dict(f=f, ops=[], s=[0] * sum(len(x[0]) for x in f), order=list(range(sum(len(x[0]) + (not x[2]) for x in f))))
    if not h["ops"] and not any(h["s"]):
        for i, (a, b, e) in enumerate(h["f"]):
            if len(h["f"]) > 1:
                yield base(h["f"][:i] + h["f"][i + 1:])
            for j in range(len(a)):
                if len(a) > 1:
                    yield base(h["f"][:i] + [[a[:j] + a[j + 1:], b, e]] + h["f"][i + 1:])
                if a[j] > 1:
                    yield base(h["f"][:i] + [[a[:j] + [1] + a[j + 1:], b, e]] + h["f"][i + 1:])
            if b > 1:
                yield base(h["f"][:i] + [[a, b // 2, e]] + h["f"][i + 1:])
                yield base(h["f"][:i] + [[a, b - 1, e]] + h["f"][i + 1:])
    elif h["order"] != sorted(h["order"]):
        yield dict(h, order=sorted(h["order"]))


def selftest():
    import random, geom
    rng = random.Random(5)
    for _ in range(60):
        h = gen(rng, dims=(5,), bmax=3)
        h["f"] = h["f"][:2]
        f = [[x[0][:2], x[1], x[2] if len(x[0][:2]) > 1 else 0] for x in h["f"]]
        d = sum(len(x[0]) for x in f)
        h = {"f": f, "ops": [o for o in [[0, 1, 1], [1, 0, -1]] if d > 1], "s": [1, -2, 3, 0][:d], "order": list(range(d + sum(not x[2] for x in f)))}
        S = Spec(h)
        p = S.p
        V = geom.vertices(p["ineqs"], p["eqs"], d)
        assert sorted(map(tuple, V)) == sorted(map(tuple, S.vertices())), (h, V, S.vertices())
        assert geom.affdim(V) == S.dim
        for t in (1, 2):
            assert geom.count_polytope(p["ineqs"], p["eqs"], V, t) == (S.count(t)), (h, t)
        pts = geom.lattice_points(p["ineqs"], p["eqs"], *geom.bbox(V))
        z = [rng.randint(2, 10 ** 6) for _ in range(d)]
        P = 2 ** 61 - 1
        assert S.gf(z, P) == sum(math.prod(pow(x, int(e) % (P - 1), P) for x, e in zip(z, q)) for q in pts) % P
        c = [rng.randint(-3, 3) for _ in range(d)]
        if len(pts):
            assert S.maximum(c) == max(sum(int(x) * y for x, y in zip(q, c)) for q in pts)
        if S.dim == d:
            poly = {tuple(rng.randint(0, 2) for _ in range(d)): F(rng.randint(1, 5)) for _ in range(2)}
            H = geom.hull_hrep(V, d)
            w = sum(geom.integrate_simplex([V[i] for i in s], poly) for s in geom.triangulate(V, H))
            assert w == S.integral_of(poly), h
    print("hd ok")


if __name__ == "__main__":
    selftest()
