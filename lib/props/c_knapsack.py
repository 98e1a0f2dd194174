from _common import *
import math, random
import numpy as np
import expr


def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def factor(n):
    f = []
    p = 2
    while p * p <= n:
        if n % p == 0:
            f.append(p)
            while n % p == 0:
                n //= p
        p += 1
    if n > 1:
        f.append(n)
    return f


def orders(a, need):
    """All f such that at least `need` of the entries are multiples of f."""
    out = set()
    div = {}
    for x in a:
        for f in range(1, math.isqrt(x) + 1):
            if x % f == 0:
                for g in {f, x // f}:
                    div[g] = div.get(g, 0) + 1
    return sorted(f for f, c in div.items() if c >= need)


def smul(A, B, n, P):
    C = [0] * n
    for i, x in enumerate(A):
        if x:
            for j in range(n - i):
                C[i + j] += x * B[j]
    return [c % P for c in C]


def sinv(A, n, P):
    i0 = pow(A[0], -1, P)
    B = [i0]
    for k in range(1, n):
        B.append(-i0 * sum(A[j] * B[k - j] for j in range(1, k + 1)) % P)
    return B


def by_poles(a, ks, ts):
    """Coefficient of t^(N-k) of the quasi-polynomial, modulo a prime with all needed roots of unity:
    -sum over roots of unity z of z^-t (-1)^m/m! Res_{s=0} s^m / prod(1 - z^a_i e^(a_i s)), m = N-k."""
    N = len(a) - 1
    need = N + 1 - max(ks)
    fs = orders(a, need)
    L = math.lcm(*fs)
    P = (1 << 61) // L * L + 1 + L
    while not is_prime(P):
        P += L
    inv_fact = [1]
    for i in range(1, N + 5):
        inv_fact.append(inv_fact[-1] * pow(i, -1, P) % P)
    res = {k: [0] * len(ts) for k in ks}
    rng = random.Random(5)
    for f in fs:
        q = factor(f)
        while True:
            z1 = pow(rng.randrange(2, P), (P - 1) // f, P)
            if all(pow(z1, f // x, P) != 1 for x in q):
                break
        p = sum(x % f == 0 for x in a)
        n = p - need + 1               # series terms needed: coefficients of s^-p .. s^-(N-kmax+1)
        for e in range(f):
            if math.gcd(e, f) != 1 and f > 1:
                continue
            z = pow(z1, e, P)
            den = [1] + [0] * (n - 1)
            for x in a:
                w = pow(z, x, P)
                ex = [pow(x, j, P) * inv_fact[j] % P for j in range(n + 1)]
                if x % f == 0:
                    fac = [-ex[j + 1] % P for j in range(n)]
                else:
                    fac = [-w * ex[j] % P for j in range(n)]
                    fac[0] = (fac[0] + 1) % P
                den = smul(den, fac, n, P)
            ser = sinv(den, n, P)      # 1/prod = s^-p * ser
            for k in ks:
                m = N - k
                j = p - 1 - m          # s^m * s^-p * s^j = s^-1
                if j < 0:
                    continue
                c = -ser[j] * (-1) ** m * inv_fact[m] % P
                for i, t in enumerate(ts):
                    res[k][i] = (res[k][i] + c * pow(z, -t % f, P)) % P
    return P, res


def by_counting(a, ks, ts):
    """The same, exactly, by counting the combinations and interpolating on each residue class."""
    N = len(a) - 1
    L = math.lcm(*a)
    size = L * (N + 1)
    dp = np.zeros(size, dtype=object)
    dp[0] = 1
    for x in a:
        for r in range(x):
            dp[r::x] = np.cumsum(dp[r::x])
    out = {k: [] for k in ks}
    for t in ts:
        xs = [t % L + L * i for i in range(N + 1)]
        co = list(geom.interp_coeffs([F(x) for x in xs], [F(int(dp[x])) for x in xs]))
        co += [F(0)] * (N + 1 - len(co))
        for k in ks:
            out[k].append(co[N - k])
    return out


class C12(Prop):
    ID = "C12"
    PROGRAMS = ["top-ehrhart-knapsack"]
    RANDOM = True
    CASES = {"quick": 6000, "thorough": 40000}
    RULE = "at least two entries greater than one, or a requested coefficient below the leading one; distinct by (list, coefficients, options)"

    def gen(self, rng, tier):
        n = rng.choice([2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 10, 12])
        style = rng.choice(["small", "divisors", "divisors", "repeat", "big", "twogroup"]) if rng.random() < .95 else "huge"
        if style == "small":
            a = [rng.randint(1, 12) for _ in range(n)]
        elif style == "divisors":
            M = rng.choice([6, 8, 12, 16, 18, 24, 30, 36, 60, 120, 210])
            D = [x for x in range(1, M + 1) if M % x == 0]
            a = [rng.choice(D) for _ in range(n)]
        elif style == "repeat":
            D = [rng.randint(1, 15) for _ in range(rng.randint(1, 3))]
            a = [rng.choice(D) for _ in range(n)]
        elif style == "twogroup":
            f, g = rng.randint(2, 7), rng.randint(2, 7)
            a = [f * rng.randint(1, 6) if rng.random() < .5 else g * rng.randint(1, 6) for _ in range(n)]
        elif style == "huge":
            n = min(n, 6)
            a = [rng.randint(1, rng.choice([10 ** 4, 10 ** 6, 10 ** 9, 2 ** 31 + 9])) for _ in range(n)]
        else:
            a = [rng.randint(1, rng.choice([50, 300, 2000])) for _ in range(n)]
        if math.gcd(*a) != 1:
            a[rng.randrange(n)] = rng.choice([1, 1, 2, 3, 5, 7, 11])
        if math.gcd(*a) != 1:
            return None
        rng.shuffle(a)
        big = max(a) > 120 or n > 6
        k = rng.randint(1, min(n, (4 if n < 9 else 3) if big else n))
        if style == "huge":
            k = max([j for j in range(1, min(n, 4) + 1) if max(orders(a, n + 1 - j)) <= 300])
        c = {"a": a, "k": k, "all": rng.random() < .6, "gcdpoly": rng.choice([None, 0, 1]),
             "seed": rng.choice([None, None, 1, rng.randint(2, 10 ** 6)]), "ts": [rng.randint(0, 5000) for _ in range(6)] + list(range(6))}
        if rng.random() < .1:
            c["ts"] += [rng.randint(0, 10 ** 25) for _ in range(3)]
        return c

    def valid(self, c):
        return len(c["a"]) >= 2 and all(isinstance(x, int) and x > 0 for x in c["a"]) and math.gcd(*c["a"]) == 1 \
            and 1 <= c["k"] <= len(c["a"])

    def shrinks(self, c):
        for i in range(len(c["a"])):
            if len(c["a"]) > 2:
                yield dict(c, a=c["a"][:i] + c["a"][i + 1:], k=min(c["k"], len(c["a"]) - 1))
            for y in (1, 2, 3, c["a"][i] // 2, c["a"][i] - 1):
                if 0 < y < c["a"][i]:
                    yield dict(c, a=c["a"][:i] + [y] + c["a"][i + 1:])
        if c["k"] > 1:
            yield dict(c, k=c["k"] - 1)

    def check(self, c, env):
        a, N = c["a"], len(c["a"]) - 1
        k = c["k"] - 1
        ks = list(range(k + 1)) if c["all"] else [k]
        o = ["--file", "in", "--out", "out.mpl", "--all-k" if c["all"] else "-k", str(c["k"])]
        if c["gcdpoly"] is not None:
            o += ["--gcd-polynomial", str(c["gcdpoly"])]
        if c["seed"] is not None:
            o += ["--random", str(c["seed"])]
        ts = sorted(set(c["ts"]))
        with Scratch({"in": "%d %s\n" % (len(a), " ".join(map(str, a)))}) as s:
            r = guard(s.run(env.exe("top-ehrhart-knapsack"), o))
            t = s.get("out.mpl")
        if r.rc != 0 or t is None:
            raise Fail("top-ehrhart-knapsack %s failed (status %d) for %s: %s" % (" ".join(o), r.rc, a, tail(r.err)))
        if len(t) > 3_000_000:
            raise Inconclusive("output too large for the oracle")
        defs = dict(re.findall(r"^\s*(\w+):=\s*(.*);\s*$", t, re.M))
        tv = np.array([F(x) for x in ts], dtype=object)

        def call(name, args):
            if name != "MOD" or len(args) != 2:
                raise expr.ParseError(name)
            x, y = args
            fl = lambda u: F(u) - (F(u) // y) * y
            return np.array([fl(u) for u in x], dtype=object) if isinstance(x, np.ndarray) else fl(x)

        def var(name, i):
            if name != "t":
                raise expr.ParseError(name)
            return tv
        got = {}
        try:
            for j in ks:
                e = defs.get("coeff%dminus%d" % (N, j))
                if e is None:
                    raise Fail("coefficient of t^(N-%d) missing from the output for %s" % (j, a))
                v = expr.evaluate(e, F, var, call)
                got[j] = list(v) if isinstance(v, np.ndarray) else [F(v)] * len(ts)
        except expr.ParseError as e:
            raise Fail("unreadable output: %s" % e)
        if c["all"]:
            want = " + ".join("(coeff%dminus%d)*T^(%d)" % (N, j, N - j) for j in ks)
            if re.sub(r"\s", "", defs.get("topKPolynomial", "")) != re.sub(r"\s", "", want):
                raise Fail("the polynomial is assembled as %r" % defs.get("topKPolynomial"))
        L = math.lcm(*a)
        if L * (N + 1) <= 60000:
            ref = by_counting(a, ks, ts)
            same = lambda x, y: x == y
            oracle = "counting"
        else:
            P, ref = by_poles(a, ks, ts)
            same = lambda x, y: (x.numerator - y * x.denominator) % P == 0
            oracle = "poles"
        for j in ks:
            for i, x in enumerate(ts):
                if not same(got[j][i], ref[j][i]):
                    raise Fail("%s: coefficient of t^%d at t=%d is %s%s" % (
                        a, N - j, x, got[j][i], ", should be %s" % ref[j][i] if oracle == "counting" else " (wrong)"))
        nt = k > 0 or sum(x > 1 for x in a) > 1
        per = any(len(set(v)) > 1 for v in got.values())
        return (jhash([a, ks, o]) if nt else None), ["n=%d" % len(a), oracle, "all" if c["all"] else "single",
                                                      "periodic" if per else "constant", "k=%d" % c["k"], "max>120" if max(a) > 120 else "small"]
