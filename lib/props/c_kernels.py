"""C17: library kernels, called one at a time through native/kernels.cpp, against reference algebra."""
import math, random
from itertools import product
from _common import *
import cones
from c_hilbert import residues, hnf_diag

P61 = (1 << 61) - 1


def out_of(r, what):
    guard(r)
    m = re.match(r"BEGIN\n(.*)END\n$", r.out, re.S)
    i = r.out.find("BEGIN\n")
    if i >= 0 and not m:
        m = re.match(r"BEGIN\n(.*)END\n$", r.out[i:], re.S)
    if r.rc != 0 or not m:
        raise Fail("%s failed (status %d): %s" % (what, r.rc, tail(r.err or r.out)))
    return m.group(1)


def big(rng, s=None):
    k = s or rng.choice([1, 1, 1, 2, 3, 6, 10, 19, 20, 40])
    return rng.choice((1, -1)) * rng.randint(0, 10 ** k)


def frac(rng, s=None):
    return F(big(rng, s), abs(big(rng, s)) or 1)


def word(rng):
    return rng.choice((1, -1)) * ((1 << rng.choice([15, 16, 31, 32, 53, 62, 63, 64, 65])) + rng.randint(-2, 2))


def num(rng):
    return word(rng) if rng.random() < .2 else big(rng)


# ------------------------------------------------------------------ cones
def vec(x):
    return [int(y) for y in x.split()]


def parse_cones(t):
    out, c = [], None
    for ln in t.splitlines():
        k, _, rest = ln.partition(" ")
        if k == "cone":
            c = {"head": vec(rest), "rays": [], "facets": [], "points": [], "products": None}
            out.append(c)
        elif c is None and k != "products":
            continue
        elif k == "vertex":
            c["v"] = [F(x) for x in rest.split()]
        elif k == "ray":
            c["rays"].append(vec(rest))
        elif k == "facet":
            c["facets"].append(vec(rest))
        elif k == "divisors":
            c["div"] = vec(rest)
        elif k == "point":
            c["points"].append(tuple(vec(rest)))
    return out


def residue_points(v, rays, opened=None):
    """Integer points v + sum l_i r_i with l_i in [0,1) (or (0,1] where opened)."""
    d = len(rays)
    inv = geom.inverse([[F(rays[j][i]) for j in range(d)] for i in range(d)])
    pts = []
    for x in product(*[range(h) for h in hnf_diag(rays)]):
        lam = [sum(inv[j][i] * (x[i] - v[i]) for i in range(d)) for j in range(d)]
        lam = [l - geom.fl(l) for l in lam]
        if opened:
            lam = [F(1) if o and l == 0 else l for l, o in zip(lam, opened)]
        p = [v[i] + sum(l * r[i] for l, r in zip(lam, rays)) for i in range(d)]
        pts.append(tuple(int(y) for y in p))
    return pts


def gf(pts, rays, z, p=P61):
    """sum of z^pt / prod(1 - z^ray) mod p; None at a pole."""
    m = lambda e: math.prod(pow(x, k, p) for x, k in zip(z, e)) % p
    den = 1
    for r in rays:
        den = den * (1 - m(r)) % p
    if den == 0:
        return None
    return sum(m(q) for q in pts) * pow(den, -1, p) % p


def cone_gf(v, R, z):
    fac = cones.facets(R)
    rng = random.Random(17)
    T = [[R[i] for i in t] for t in cones.triangulate(R, fac)]
    d = len(R[0])
    if sum(abs(int(geom.det([list(r) for r in t]))) for t in T) > 1500:
        raise Inconclusive("too many parallelepiped points")
    while True:     # half-open decomposition: shifting by an interior direction leaves exactly the closed cone
        a = [rng.randint(1, 10 ** 6) for _ in R]
        w = [sum(x * r[i] for x, r in zip(a, R)) for i in range(d)]
        ok = []
        for t in T:
            inv = geom.inverse([[F(t[j][i]) for j in range(d)] for i in range(d)])
            mu = [sum(inv[j][i] * w[i] for i in range(d)) for j in range(d)]
            if any(m == 0 for m in mu):
                break
            ok.append([m < 0 for m in mu])
        else:
            break
    s = 0
    for t, o in zip(T, ok):
        g = gf(residue_points(v, t, o), t, z)
        if g is None:
            return None
        s += g
    return s % P61


def cone_in(rays, v):
    return "%d %s\n" % (len(rays), " ".join("%d %d" % (F(x).numerator, F(x).denominator) for x in v)) + \
        "\n".join(" ".join(map(str, r)) for r in rays) + "\n"


# ------------------------------------------------------------------ polynomials as dicts
def ptext(P):
    return "[" + ",".join("[%s,[%s]]" % (a, ",".join(map(str, e))) for a, e in P) + "]"


def pdict(P):
    d = {}
    for a, e in P:
        d[tuple(e)] = d.get(tuple(e), 0) + F(a)
    return {e: a for e, a in d.items() if a}


def pread(t):
    out = {}
    t = t.strip()
    if not re.fullmatch(r"\[(\[-?\d+(/\d+)?, ?\[-?\d+(, ?-?\d+)*\]\](, ?)?)*\]", t):
        raise Fail("unreadable list of monomials: %r" % t[:300])
    for a, e in re.findall(r"\[(-?\d+(?:/\d+)?), ?\[([^\]]*)\]\]", t):
        e = tuple(int(x) for x in e.split(","))
        if e in out:
            raise Fail("exponent %s is listed twice in %s" % (e, t[:300]))
        out[e] = F(a)
    return {e: a for e, a in out.items() if a}


def lread(t):
    out = {}
    for a, m, e in re.findall(r"\[(-?\d+(?:/\d+)?), ?\[(\d+), ?\[([^\]]*)\]\]\]", t):
        k = (int(m), tuple(int(x) for x in e.split(",")))
        if k in out:
            raise Fail("linear form %s is listed twice in %s" % (k, t[:300]))
        out[k] = F(a)
    return {e: a for e, a in out.items() if a}


def rpoly(rng, n, terms=None):
    out = []
    for _ in range(terms or rng.randint(1, rng.choice([2, 4, 8, 15]))):
        e = [rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, 9)]) for _ in range(n)]
        out.append([str(frac(rng, rng.choice([1, 1, 3, 20])) or F(1)), e])
    return out


class C17(Prop):
    ID = "C17"
    PROGRAMS = []
    HARNESSES = ["kernels"]
    CASES = {"quick": 9000, "thorough": 120000}
    RULE = "kernel called on arguments with more than one cone, term, row or step; distinct by all arguments"
    OPS = [(6, "decomp"), (2, "dualize"), (4, "piped"), (2, "smith"), (3, "rational"), (2, "ratvec"), (5, "trie"),
           (3, "todd"), (1, "interpolate"), (3, "periodic"), (1, "combos")]

    def gen(self, rng, tier):
        op = gens.wd(rng, self.OPS)
        return getattr(self, "g_" + op)(rng, {"op": op})

    def valid(self, c):
        if c.get("op") not in dict((b, a) for a, b in self.OPS):
            return False
        f = getattr(self, "v_" + c["op"], None)
        return f is None or bool(f(c))

    def shrinks(self, c):
        f = getattr(self, "s_" + c["op"], None)
        if f:
            yield from f(c)
        for k, x in c.items():
            if isinstance(x, list) and k in ("prog", "P", "Q"):
                for i in range(len(x)):
                    yield dict(c, **{k: x[:i] + x[i + 1:]})

    def run(self, env, op, text):
        with Scratch({"stdin": text}) as s:
            r = s.run(env.exe("kernels"), [op], stdin=text)
        return out_of(r, "the library routine %s on %r" % (op, text[:200]))

    def check(self, c, env):
        n, labels = getattr(self, "c_" + c["op"])(c, lambda t: self.run(env, c["op"], t))
        return (jhash(c) if n else None), [c["op"]] + labels

    # ---- cone decomposition
    def g_cone(self, rng, c, simplicial, dmax=4):
        k = rng.choice([1, 2, 2, 3, 3, 3, 4, 4][:8 if dmax >= 4 else 6])
        R = cones.random_cone(rng, dims=k, size=rng.choice([None, 2, 4, 9, 20] if k < 4 else [None, 1, 2, 3]), maxrays=k if simplicial else 7)
        if R is None:
            return None
        R = [list(cones.prim(r)) for r in R]
        if simplicial:
            while len(R) > k:
                R.pop()
            if len(R) < k or geom.rank(R) < k:
                return None
        else:
            R = [list(r) for r in cones.extreme(R, cones.facets(R))]
        rng.shuffle(R)
        v = [frac(rng, rng.choice([1, 1, 2])) if rng.random() < .7 else F(big(rng, rng.choice([1, 2, 12, 25]))) for _ in range(k)]
        c["rays"], c["v"] = R, [str(x) for x in v]
        return c

    def v_cone(self, c):
        R = c["rays"]
        return R and all(len(r) == len(c["v"]) and any(r) and math.gcd(*r) == 1 for r in R) and geom.rank(R) == len(c["v"]) and cones.is_pointed(R)

    def s_cone(self, c):
        d = len(c["v"])
        for i in range(len(c["rays"])):
            if len(c["rays"]) > d:
                yield dict(c, rays=c["rays"][:i] + c["rays"][i + 1:])
        for i in range(d):
            for y in ("0", str(geom.fl(F(c["v"][i]))), "1/2"):
                if c["v"][i] != y:
                    yield dict(c, v=c["v"][:i] + [y] + c["v"][i + 1:])
        for i, r in enumerate(c["rays"]):
            for j in range(d):
                if r[j]:
                    yield dict(c, rays=c["rays"][:i] + [r[:j] + [r[j] - (1 if r[j] > 0 else -1)] + r[j + 1:]] + c["rays"][i + 1:])

    def g_decomp(self, rng, c):
        c["mode"] = rng.choice(["dual", "dual", "primal", "primal", "all"])
        c["maxdet"] = rng.choice([1, 1, 1, 2, 3, 5, 10, 50])
        c["points"] = rng.random() < .6
        return self.g_cone(rng, c, c["mode"] == "all" or rng.random() < .5)

    def v_decomp(self, c):
        return self.v_cone(c) and (c["mode"] != "all" or len(c["rays"]) == len(c["v"]))
    s_decomp = s_cone

    def c_decomp(self, c, run):
        d, v, R = len(c["v"]), [F(x) for x in c["v"]], c["rays"]
        zr = random.Random(jhash(c))
        z = [zr.randrange(2, P61 - 1) for i in range(d)]
        want = cone_gf(v, [tuple(r) for r in R], z)
        t = run("%s %d %d %d\n" % (c["mode"], c["maxdet"], d, c["points"]) + cone_in(R, v))
        out = parse_cones(t)
        tot = 0
        maxdet = 0
        for o in out:
            S = o["rays"]
            coef, det, ddet = o["head"]
            if len(S) != d:
                raise Fail("decomposition into a cone with %d rays in dimension %d" % (len(S), d))
            D = abs(int(geom.det(S)))
            if D == 0:
                raise Fail("decomposition into a degenerate cone %s" % S)
            if coef not in (1, -1):
                raise Fail("coefficient %d" % coef)
            if abs(det) != D:
                raise Fail("cone %s is given the determinant %d, not %d" % (S, det, D))
            maxdet = max(maxdet, D)
            if len(o["facets"]) == d:
                G = [[sum(x * y for x, y in zip(r, f)) for f in o["facets"]] for r in S]
                if any(G[i][j] != (-o["div"][i] if i == j else 0) for i in range(d) for j in range(d)) and \
                        any(sorted(abs(x) for x in g)[:-1] != [0] * (d - 1) or sum(g) >= 0 for g in G):
                    raise Fail("rays %s and facets %s are not dual (products %s, divisors %s)" % (S, o["facets"], G, o["div"]))
            if D > c["maxdet"]:
                raise Fail("%s decomposition with maximal determinant %d leaves %s of determinant %d" % (c["mode"], c["maxdet"], S, D))
            if D > 3000:
                raise Inconclusive("too many parallelepiped points")
            pts = residue_points(o["v"], S)
            if c["points"] and sorted(o["points"]) != sorted(pts):
                raise Fail("parallelepiped of vertex %s, rays %s: %d points listed, should be %d: %s instead of %s" % (
                    list(map(str, o["v"])), S, len(o["points"]), len(pts), sorted(o["points"])[:4], sorted(pts)[:4]))
            if want is not None:
                g = gf(pts, S, z)
                if g is None:
                    want = None
                else:
                    tot += coef * g
        if want is None:
            raise Inconclusive("pole at the test point")
        if tot % P61 != want:
            raise Fail("%s decomposition (maximal determinant %d) of the cone %s at %s into %d cones has another generating function" % (
                c["mode"], c["maxdet"], R, c["v"], len(out)))
        return len(out) > 1, [c["mode"], "d=%d" % d, "simplicial" if len(R) == d else "non-simplicial", "maxdet=%d" % c["maxdet"],
                              "into-many" if len(out) > 5 else "into-few"]

    # ---- duality
    def g_dualize(self, rng, c):
        c["how"] = rng.choice(["cdd", "4ti2"])
        return self.g_cone(rng, c, rng.random() < .3)
    v_dualize, s_dualize = v_cone, s_cone

    def c_dualize(self, c, run):
        d, R = len(c["v"]), c["rays"]
        o = parse_cones(run("%d %s\n" % (d, c["how"]) + cone_in(R, [F(x) for x in c["v"]])))
        fac = sorted(tuple(cones.prim(f)) for f in cones.facets([tuple(r) for r in R]))
        got = sorted(tuple(-x for x in r) for r in o[0]["rays"])
        if len(o) != 1 or got != fac:
            raise Fail("dual of the cone over %s (%s): inner facet normals %s, should be %s" % (R, c["how"], got, fac))
        if sorted(tuple(f) for f in o[0]["facets"]) not in (sorted(tuple(r) for r in R), sorted(tuple(-x for x in r) for r in R)):
            raise Fail("the dual cone of %s keeps %s as its facets" % (R, o[0]["facets"]))
        return len(R) > 1, [c["how"], "d=%d" % d]

    # ---- parallelepipeds
    def g_piped(self, rng, c):
        c["scalar"] = rng.choice([0, 1, 2])
        c = self.g_cone(rng, c, True)
        if c:
            c["g"] = [big(rng, rng.choice([1, 2, 12])) for _ in c["v"]]
            if rng.random() < .2:       # a far-away vertex
                c["v"] = [str(F(x) + word(rng)) for x in c["v"]]
        return c

    def v_piped(self, c):
        return self.v_cone(c) and len(c["rays"]) == len(c["v"]) == len(c["g"])
    s_piped = s_cone

    def c_piped(self, c, run):
        d, v, R, g = len(c["v"]), [F(x) for x in c["v"]], c["rays"], c["g"]
        D = abs(int(geom.det(R)))
        if D > 4000:
            raise Inconclusive("too many parallelepiped points")
        t = run("%d %d %s\n" % (d, c["scalar"], " ".join(map(str, g))) + cone_in(R, v))
        o = parse_cones(t)[0]
        want = sorted(residue_points(v, R))
        m = re.search(r"^products (.*)$", t, re.M)
        if c["scalar"] != 1 and sorted(o["points"]) != want:
            raise Fail("parallelepiped at %s of %s: %d points listed, should be %d: %s instead of %s" % (c["v"], R, len(o["points"]), len(want), sorted(o["points"])[:5], want[:5]))
        if c["scalar"]:
            got = vec(m.group(1))
            dots = [sum(a * b for a, b in zip(g, x)) for x in want]
            if sorted(got) != sorted(dots):
                raise Fail("products of %s with the parallelepiped points at %s of %s: %s, should be %s" % (g, c["v"], R, sorted(got)[:5], sorted(dots)[:5]))
            if c["scalar"] == 2 and got != [sum(a * b for a, b in zip(g, x)) for x in o["points"]]:
                raise Fail("products are not in the order of the points for %s at %s" % (R, c["v"]))
        return D > 1, ["d=%d" % d, "scalar=%d" % c["scalar"], "det>100" if D > 100 else "det<=100"]

    # ---- Smith normal form
    def g_smith(self, rng, c):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        B = rng.choice([2, 5, 20, 10 ** 6, 10 ** 20])
        c["A"] = [[rng.randint(-B, B) for _ in range(n)] for _ in range(n)]
        if rng.random() < .4:
            k = rng.randint(2, 6)
            c["A"][0] = [k * x for x in c["A"][0]]
        return c if geom.rank(c["A"]) == n else None

    def v_smith(self, c):
        return c["A"] and all(len(r) == len(c["A"]) for r in c["A"]) and geom.rank(c["A"]) == len(c["A"])

    def s_smith(self, c):
        A = c["A"]
        for k in range(len(A)):
            if len(A) > 1:
                yield dict(c, A=[r[:k] + r[k + 1:] for i, r in enumerate(A) if i != k])
        for i in range(len(A)):
            for j in range(len(A)):
                for y in (0, A[i][j] // 2):
                    if y != A[i][j]:
                        yield dict(c, A=[r if t != i else r[:j] + [y] + r[j + 1:] for t, r in enumerate(A)])

    def c_smith(self, c, run):
        A, n = c["A"], len(c["A"])
        t = run("%d\n" % n + "\n".join(" ".join(map(str, r)) for r in A) + "\n")
        M = {k: [vec(x) for x in re.findall(r"^%s (.*)$" % k, t, re.M)] for k in "SLR"}
        S, L, R = M["S"], M["L"], M["R"]
        if any(len(x) != n for x in M.values()):
            raise Fail("Smith normal form of %s: unreadable %s" % (A, t[:300]))
        mul = lambda X, Y: [[sum(a * b for a, b in zip(r, col)) for col in zip(*Y)] for r in X]
        if abs(geom.det(L)) != 1 or abs(geom.det(R)) != 1:
            raise Fail("Smith transformations of %s are not unimodular" % A)
        if any(S[i][j] for i in range(n) for j in range(n) if i != j):
            raise Fail("Smith normal form of %s is not diagonal: %s" % (A, S))
        if mul(mul(L, A), R) != S:
            raise Fail("Smith normal form of %s: L A R is not S" % A)
        return n > 1, ["n=%d" % n]

    # ---- rational numbers
    def g_rational(self, rng, c):
        prog, depth = [], 0
        for _ in range(rng.randint(3, 25)):
            k = rng.random()
            if depth == 0 or (k < .3 and depth < 4):
                w = rng.choice(["push", "push", "push2", "push2", "pushi", "pushz", "read"])
                if w == "push":
                    a = frac(rng) if rng.random() < .8 else F(num(rng))
                    prog.append([w, str(a)])
                elif w == "read":
                    prog.append([w, str(frac(rng))])
                elif w == "push2":
                    prog.append([w, num(rng), num(rng) or 1])
                elif w == "pushi":
                    prog.append([w, rng.randint(-10 ** 6, 10 ** 6), rng.choice([1, -1]) * rng.randint(1, 10 ** 6)])
                else:
                    prog.append([w, num(rng)])
                depth += 1
            elif k < .55 and depth >= 2:
                prog.append([rng.choice(["+", "-", "*", "/", "+=", "-=", "*=", "add", "mult", "div", "=="])])
                depth -= 1
            elif k < .6:
                prog.append(["dup"])
                depth += 1
            else:
                w = rng.choice(["pow", "spow", "neg", "mulz", "mulz2", "mulz3", "muli", "muli2", "divz", "divz2", "addz", "mulzz", "out", "eqz", "eql"])
                if w in ("pow", "spow"):
                    prog.append([w, rng.randint(-4, 5) if w == "pow" else rng.randint(0, 5)])
                elif w in ("mulz", "mulz2", "mulz3", "eqz"):
                    prog.append([w, num(rng)])
                elif w in ("muli", "muli2"):
                    prog.append([w, rng.randint(-10 ** 5, 10 ** 5)])
                elif w in ("divz", "divz2"):
                    prog.append([w, num(rng) or 3])
                elif w in ("addz", "mulzz"):
                    prog.append([w, num(rng), num(rng) or 1])
                elif w == "eql":
                    prog.append([w, rng.choice([0, 1, -1, rng.randint(-10 ** 9, 10 ** 9)])])
                else:
                    prog.append([w])
        return dict(c, prog=prog + [["out"]])

    def model_rational(self, prog):
        st, out = [], []
        for ins in prog:
            w, a = ins[0], ins[1:]
            if w in ("push", "read"):
                st.append(F(a[0]))
            elif w in ("push2", "pushi"):
                st.append(F(a[0], a[1]))
            elif w == "pushz":
                st.append(F(a[0]))
            elif not st:
                return None
            elif w == "dup":
                st.append(st[-1])
            elif w in ("pow", "spow"):
                if a[0] < 0 and (st[-1] == 0):
                    return None
                st[-1] = st[-1] ** a[0]
            elif w == "neg":
                st[-1] = -st[-1]
            elif w in ("mulz", "mulz2", "mulz3", "muli", "muli2"):
                st[-1] *= a[0]
            elif w in ("divz", "divz2"):
                if a[0] == 0:
                    return None
                st[-1] /= a[0]
            elif w == "addz":
                st[-1] += F(a[0], a[1])
            elif w == "mulzz":
                st[-1] *= F(a[0], a[1])
            elif w == "out":
                x = st[-1]
                out.append("%s %s %d %d" % (x, x, x.numerator, x.denominator))
            elif w == "eqz":
                out.append("%d" % (st[-1] == a[0]))
            elif w == "eql":
                out.append("%d%d" % (st[-1] == a[0], st[-1] != a[0]))
            else:
                if len(st) < 2:
                    return None
                b = st.pop()
                x = st[-1]
                if w == "==":
                    out.append("%d%d" % (x == b, x != b))
                elif w[0] in "+a":
                    x += b
                elif w[0] == "-":
                    x -= b
                elif w[0] in "*m":
                    x *= b
                else:
                    if b == 0:
                        return None
                    x /= b
                st[-1] = x
            if any(max(x.numerator.bit_length(), x.denominator.bit_length()) > 20000 for x in st):
                return None
        return out

    def v_rational(self, c):
        return self.model_rational(c["prog"]) is not None

    def c_rational(self, c, run):
        want = self.model_rational(c["prog"])
        if want is None:
            raise Discard("division by zero")
        got = run("\n".join(" ".join(map(str, i)) for i in c["prog"]) + "\n").splitlines()
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), -1)
            raise Fail("rational arithmetic %s: output %d is %s, should be %s" % (c["prog"], i, got[i:i + 1], want[i:i + 1]))
        return len(c["prog"]) > 2, []

    # ---- rational vectors
    def g_ratvec(self, rng, c):
        n = rng.randint(1, 4)
        c["v"] = [[big(rng), abs(big(rng)) or 1] for _ in range(n)]
        c["prog"] = []
        for _ in range(rng.randint(1, 8)):
            w = rng.choice(["scale", "canon", "mult", "set", "lazy", "copy", "out"])
            a = {"mult": [big(rng), abs(big(rng)) or 1], "set": [rng.randrange(n), big(rng), abs(big(rng)) or 1],
                 "lazy": [rng.randrange(n), big(rng), abs(big(rng)) or 1]}.get(w, [])
            c["prog"].append([w] + a)
        return c

    def v_ratvec(self, c):
        return bool(c["v"]) and all(len(x) == 2 and x[1] > 0 for x in c["v"]) and all(len(x) == dict(mult=3, set=4, lazy=4).get(x[0], 1) and (len(x) == 1 or x[-1] > 0) for x in c["prog"])

    def c_ratvec(self, c, run):
        n = len(c["v"])
        t = run("%d %s\n" % (n, " ".join("%d %d" % tuple(x) for x in c["v"])) + "\n".join(" ".join(map(str, i)) for i in c["prog"] + [["out"]]) + "\n")
        got = t.splitlines()
        v = [list(x) for x in c["v"]]      # representation (numerator, denominator): the value is what counts
        i = 0
        for ins in c["prog"] + [["out"]]:
            w, a = ins[0], ins[1:]
            if w == "scale":
                q = [F(*x) for x in v]
                m = re.match(r"scaled (-?\d+) (.*)$", got[i])
                i += 1
                if not m:
                    raise Fail("unreadable %r" % got[i - 1])
                k, r = int(m.group(1)), vec(m.group(2))
                if k <= 0 or [x * k for x in q] != r:
                    raise Fail("scaling %s to an integer vector gives %s with factor %d" % (list(map(str, q)), r, k))
            elif w == "mult":
                v = [[F(*x).numerator * a[0], F(*x).denominator * a[1]] for x in v]
            elif w in ("set", "lazy"):
                v[a[0]] = [a[1], a[2]]
            elif w == "out":
                m = re.match(r"vector (.*) / (.*)$", got[i])
                i += 1
                if not m:
                    raise Fail("unreadable %r" % got[i - 1])
                A, B = vec(m.group(1)), vec(m.group(2))
                if any(b <= 0 for b in B) or [F(x, y) for x, y in zip(A, B)] != [F(*x) for x in v]:
                    raise Fail("rational vector is %s / %s, should have the values %s" % (A, B, [str(F(*x)) for x in v]))
        return len(c["prog"]) > 1, []

    # ---- sparse polynomials
    def g_trie(self, rng, c):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        c["n"] = n
        c["kind"] = rng.choice(["load", "block", "mul", "mul", "mulbound", "forms", "decompose", "products"])
        c["P"] = rpoly(rng, n, rng.randint(1, 40) if c["kind"] == "load" and rng.random() < .3 else None)
        if c["kind"] == "load" and rng.random() < .4:
            c["P"] += [[rng.choice([a, "-" + a if a[0] != "-" else a[1:], "1"]), list(e)] for a, e in rng.sample(c["P"], min(3, len(c["P"])))]
        if c["kind"].startswith("mul"):
            c["Q"] = rpoly(rng, n)
            c["lo"] = [rng.choice([0, 0, 0, 1, 2]) for _ in range(n)]
            c["hi"] = [rng.randint(0, 14) for _ in range(n)]
        if c["kind"] == "decompose":
            c["P"] = [[a, [min(x, 4) for x in e]] for a, e in c["P"][:4]]
        if c["kind"] in ("forms", "products"):
            # the trie keeps one list node per integer between the smallest and the largest entry
            wide = 10 ** rng.choice([6, 10, 20]) if rng.random() < .1 else 500
            lf = lambda: [rng.choice([0, rng.randint(-4, 4), rng.randint(-wide, wide)]) for _ in range(n)]
            if c["kind"] == "forms":
                c["P"] = [[str(frac(rng, 3) or F(1)), rng.randint(0, 14), lf()] for _ in range(rng.randint(1, 12))]
                if rng.random() < .4:
                    c["P"].append([str(frac(rng, 2) or F(1))] + c["P"][0][1:])
            else:
                c["P"] = [[str(frac(rng, 3) or F(1)), [[rng.randint(0, 5), lf()] for _ in range(rng.randint(1, 3))]] for _ in range(rng.randint(1, 4))]
        return c

    def v_trie(self, c):
        n = c["n"]
        if not c["P"]:
            return False
        if c["kind"].startswith("mul") and not (c["Q"] and pdict(c["Q"]) and pdict(c["P"])):
            return False
        if c["kind"] == "products":
            return all(len(t) == 2 and t[1] and all(len(f[1]) == n for f in t[1]) for t in c["P"])
        if c["kind"] == "forms":
            return all(len(t) == 3 and len(t[2]) == n for t in c["P"])
        return all(len(t) == 2 and len(t[1]) == n for t in c["P"])

    def c_trie(self, c, run):
        k, n, P = c["kind"], c["n"], c["P"]
        if k in ("load", "block"):
            got, want = pread(run("%s\n%s\n" % (k, ptext(P)))), pdict(P)
            if k == "block" and len(want) != len(P):
                raise Discard("repeated monomials are kept apart in the block representation")
        elif k.startswith("mul"):
            A, B, want = pdict(P), pdict(c["Q"]), {}
            for e, a in A.items():
                for f, b in B.items():
                    g = tuple(x + y for x, y in zip(e, f))
                    if k == "mul" or all(l <= x <= h for l, x, h in zip(c["lo"], g, c["hi"])):
                        want[g] = want.get(g, 0) + a * b
            want = {e: a for e, a in want.items() if a}
            if not want:
                raise Discard("the product vanishes")
            t = run("%s\n%s\n%s\n" % (k, ptext(P), ptext(c["Q"])) + (" ".join(map(str, c["lo"])) + "\n" + " ".join(map(str, c["hi"])) + "\n" if k == "mulbound" else ""))
            got = pread(t)
        elif k == "forms":
            want = {}
            for a, m, l in P:
                key = (m, tuple(l))
                want[key] = want.get(key, 0) + F(a) * math.factorial(m)
            want = {e: a for e, a in want.items() if a}
            got = lread(run("forms\n[%s]\n" % ",".join("[%s,[%d,[%s]]]" % (a, m, ",".join(map(str, l))) for a, m, l in P)))
        elif k == "products":
            t = run("products\n[%s]\n" % ",".join("[%s,[%s]]" % (a, ",".join("[%d,[%s]]" % (m, ",".join(map(str, l))) for m, l in fs)) for a, fs in P))
            rows = [lread(x) for x in t.splitlines()]
            rng = random.Random(5)
            x = [F(rng.randint(1, 999)) for _ in range(n)]
            dot = lambda l: sum(a * b for a, b in zip(l, x))
            want = sum(F(a) * math.prod(dot(l) ** m for m, l in fs) for a, fs in P)
            got = F(0)
            for r in rows:
                q = F(1)
                for (m, l), a in r.items():
                    q *= a / math.factorial(m) * dot(l) ** m
                got += q if r else 0
            if got != want:
                raise Fail("products of linear forms %s are stored as %s" % (P, t[:400]))
            return True, ["products"]
        else:
            L = lread(run("decompose\n%s\n" % ptext(P)))
            want = pdict(P)
            rng = random.Random(5)
            for _ in range(2):
                x = [F(rng.randint(-999, 999)) for _ in range(n)]
                w = sum(a * math.prod(y ** e for y, e in zip(x, ex)) for ex, a in want.items())
                g = sum(a / math.factorial(m) * (sum(p * q for p, q in zip(l, x)) ** m) for (m, l), a in L.items())
                if w != g:
                    raise Fail("decomposition of %s into powers of linear forms has another value at %s" % (P, [str(y) for y in x]))
            return len(want) > 0, ["decompose"]
        if got != want:
            diff = sorted(set(got.items()) ^ set(want.items()), key=str)[:4]
            raise Fail("%s of %s%s: differs in %s" % (k, P, " and %s" % c["Q"] if "Q" in c else "", [(e, str(a)) for e, a in diff]))
        return len(P) > 1, [k]

    # ---- series
    def g_todd(self, rng, c):
        c["kind"] = rng.choice(["exp", "todd", "recip", "prod", "eval", "pow", "conv"])
        n = c["k"] = rng.randint(0, 8) if rng.random() < .85 else rng.randint(9, 40)
        q = lambda: str(frac(rng, rng.choice([1, 1, 2, 6] if n < 9 else [1, 1, 2])))
        if c["kind"] == "recip":
            c["a"] = [str(frac(rng, 2) or F(1))] + [q() for _ in range(n)]
        elif c["kind"] == "prod":
            c["a"] = [[q() for _ in range(n + 1)] for _ in range(rng.randint(1, 4))]
        elif c["kind"] == "eval":
            c["k"] = rng.randint(1, 5) if rng.random() < .85 else rng.randint(6, 24)
            c["a"] = [big(rng, rng.choice([1, 3, 20])) or 1 for _ in range(c["k"])]
        elif c["kind"] == "pow":
            c["k"] = rng.randint(0, 40)
            c["a"] = [q(), num(rng)]
        elif c["kind"] == "conv":
            c["a"] = [num(rng) for _ in range(rng.randint(1, 5))]
            c["k"] = len(c["a"])
        return c

    def v_todd(self, c):
        return True

    def c_todd(self, c, run):
        k, n = c["kind"], c["k"]
        mul = lambda x, y: [sum(x[i] * y[j - i] for i in range(j + 1)) for j in range(len(x))]
        ex = [F(1, math.factorial(i)) for i in range(n + 2)]

        def recip(a):
            r = [1 / a[0]]
            for j in range(1, len(a)):
                r.append(-sum(a[i] * r[j - i] for i in range(1, j + 1)) / a[0])
            return r
        tt = [-x for x in recip([F(1, math.factorial(i + 1)) for i in range(n + 1)])]     # x/(1-e^x)
        if k == "exp":
            want, args = ex[:n + 1], ""
        elif k == "todd":
            want, args = tt, ""
        elif k == "recip":
            want, args = recip([F(x) for x in c["a"]]), " ".join(c["a"])
        elif k == "prod":
            want = [F(x) for x in c["a"][0]]
            for b in c["a"][1:]:
                want = mul(want, [F(x) for x in b])
            args = "%d %s" % (len(c["a"]), " ".join(" ".join(b) for b in c["a"]))
        elif k == "eval":
            want = None
            for x in c["a"]:
                y = [t * F(x) ** i for i, t in enumerate(tt)]
                want = y if want is None else mul(want, y)
            args = " ".join(map(str, c["a"]))
        elif k == "pow":
            want, args = [F(c["a"][0]) ** n, F(c["a"][1]) ** n], "%s %d" % tuple(c["a"])
        else:
            want, args = [F(x) for x in c["a"] for _ in range(3)], " ".join(map(str, c["a"]))
        t = run("%s %d %s\n" % (k, n, args))
        got = [F(x) for x in t.split()]
        if k == "eval" and len(got) != len(want):
            want = want[:len(got)] if len(got) > 0 else want
        if got != want:
            raise Fail("%s of order %d on %s: %s, should be %s" % (k, n, c.get("a"), t.strip()[:300], " ".join(map(str, want))[:300]))
        return n > 1, [k]

    # ---- interpolation
    def g_interpolate(self, rng, c):
        n = rng.randint(1, 8) if rng.random() < .85 else rng.randint(9, 24)
        xs = set()
        while len(xs) < n + 1:
            xs.add(frac(rng, rng.choice([1, 1, 2])) if rng.random() < .5 else F(rng.randint(-10, 20 + n)))
        xs = list(xs)
        rng.shuffle(xs)
        poly = [frac(rng, rng.choice([1, 2, 15])) if rng.random() < .8 else F(0) for _ in range(n + 1)]
        return dict(c, xs=[str(x) for x in xs], poly=[str(x) for x in poly], at=[str(frac(rng, 2)) for _ in range(3)])

    def v_interpolate(self, c):
        return len(set(c["xs"])) == len(c["xs"]) == len(c["poly"]) >= 2

    def s_interpolate(self, c):
        n = len(c["xs"])
        for i in range(n):
            if n > 2:
                yield dict(c, xs=c["xs"][:i] + c["xs"][i + 1:], poly=c["poly"][:-1])
            yield dict(c, poly=c["poly"][:i] + ["1"] + c["poly"][i + 1:]) if c["poly"][i] != "1" else c

    def c_interpolate(self, c, run):
        xs, a = [F(x) for x in c["xs"]], [F(x) for x in c["poly"]]
        ev = lambda x: sum(q * x ** i for i, q in enumerate(a))
        t = run("%d\n" % (len(xs) - 1) + "".join("%s %s\n" % (x, ev(x)) for x in xs) + "%d %s\n" % (len(c["at"]), " ".join(c["at"])))
        L = [[F(x) for x in ln.split()] for ln in t.splitlines() if re.fullmatch(r"[-\d/ ]+", ln)]
        if len(L) != 2 or L[0] != a or L[1] != [ev(F(x)) for x in c["at"]]:
            raise Fail("interpolation of %s at %s gives %s" % (c["poly"], c["xs"], t[:300]))
        return True, ["degree=%d" % (len(xs) - 1)]

    # ---- periodic functions
    def g_periodic(self, rng, c):
        prog, depth = [], 0
        q = lambda: str(F(rng.randint(-9, 9), rng.randint(1, 7))) if rng.random() < .95 else str(frac(rng, rng.choice([6, 12, 25])))
        for _ in range(rng.randint(2, 14)):
            k = rng.random()
            if depth == 0 or (k < .4 and depth < 4):
                w = rng.choice(["num", "mod", "mod", "mod", "zero", "const", "constq"])
                prog.append({"num": ["num", q()], "mod": ["mod", q()], "zero": ["zero"], "const": ["const", rng.randint(-5, 5)], "constq": ["constq", q()]}[w])
                depth += 1
            elif k < .75 and depth >= 2:
                prog.append([rng.choice(["add", "+=", "sub", "times", "*="])])
                depth -= 1
            else:
                w = rng.choice(["dup", "pow", "div", "scale"])
                if w == "dup":
                    depth += 1
                prog.append({"dup": ["dup"], "pow": ["pow", rng.randint(0, 3)], "div": ["div", rng.choice([1, -1, 2, 7, -12])], "scale": ["scale", q()]}[w])
        return dict(c, prog=prog)

    def model_periodic(self, prog, t):
        st = []
        for ins in prog:
            w, a = ins[0], ins[1:]
            if w == "num" or w == "constq":
                st.append(F(a[0]))
            elif w == "const":
                st.append(F(a[0]))
            elif w == "zero":
                st.append(F(0))
            elif w == "mod":
                x = F(a[0]) * t
                st.append(x - geom.fl(x))
            elif not st:
                return None
            elif w == "dup":
                st.append(st[-1])
            elif w == "pow":
                st[-1] = st[-1] ** a[0]
            elif w == "div":
                st[-1] /= a[0]
            elif w == "scale":
                st[-1] *= F(a[0])
            else:
                if len(st) < 2:
                    return None
                b = st.pop()
                st[-1] = st[-1] + b if w in ("add", "+=") else st[-1] - b if w == "sub" else st[-1] * b
        return st[-1] if st else None

    def v_periodic(self, c):
        return self.model_periodic(c["prog"], 1) is not None

    def c_periodic(self, c, run):
        import expr
        t = run("\n".join(" ".join(map(str, i)) for i in c["prog"] + [["out"]]) + "\n").strip()
        for x in list(range(-3, 14)) + [101, 2520]:
            def call(name, args):
                if name != "MOD" or len(args) != 2:
                    raise Fail("unreadable periodic function %r" % t[:200])
                return args[0] - geom.fl(args[0] / args[1]) * args[1]
            try:
                got = expr.evaluate(t, F, lambda n, i: F(x), call)
            except (expr.ParseError, IndexError) as e:
                raise Fail("unreadable periodic function %r (%s)" % (t[:200], e))
            want = self.model_periodic(c["prog"], x)
            if got != want:
                raise Fail("periodic function %s at t=%d: %s is %s, should be %s" % (c["prog"], x, t[:200], got, want))
        return len(c["prog"]) > 1, []

    # ---- enumeration of integer combinations
    def g_combos(self, rng, c):
        return dict(c, u=[rng.randint(1, 5) for _ in range(rng.randint(1, 5))])

    def v_combos(self, c):
        return c["u"] and all(x >= 1 for x in c["u"])

    def s_combos(self, c):
        for i in range(len(c["u"])):
            if len(c["u"]) > 1:
                yield dict(c, u=c["u"][:i] + c["u"][i + 1:])

    def c_combos(self, c, run):
        got = [tuple(vec(x)) for x in run("%d %s\n" % (len(c["u"]), " ".join(map(str, c["u"])))).splitlines()]
        want = sorted(product(*[range(x) for x in c["u"]]))
        if sorted(got) != want:
            raise Fail("combinations below %s: %d listed, should be %d" % (c["u"], len(got), len(want)))
        return len(want) > 1, []
