"""C13: the converters keep the described set: rows are compared with an independent reader of both formats."""
import math
from _common import *
from c_formats import fr


def norm(row, eq):
    """Canonical form of a constraint (or generator) up to positive (equations: any nonzero) scaling."""
    row = [F(x) for x in row]
    if not any(row):
        return tuple(0 for _ in row)
    m = math.lcm(*[x.denominator for x in row])
    v = [int(x * m) for x in row]
    g = math.gcd(*v)
    v = [x // g for x in v]
    if eq and next(x for x in v if x) < 0:
        v = [-x for x in v]
    return tuple(v)


def canon(rows, lin):
    return sorted((i in lin, norm(r, i in lin)) for i, r in enumerate(rows))


def num(s):
    if not re.fullmatch(r"[-+]?\d+(/\d+)?", s):
        raise Fail("entry %r in the converted file" % s)
    return F(s)


def read_cdd(t, rep, name):
    L = [x.strip() for x in t.splitlines() if x.strip() and not x.startswith("*")]
    lin = set()
    seen = False
    for i, x in enumerate(L):
        w = x.split()
        if w[0] in ("H-representation", "V-representation"):
            if w[0][0] != rep:
                raise Fail("%s writes a %s" % (name, w[0]))
            seen = True
        elif w[0] == "linearity":
            k = int(w[1])
            if len(w) != k + 2:
                raise Fail("%s writes the linearity section %r" % (name, x))
            lin = {int(y) - 1 for y in w[2:]}
        elif w[0] == "begin":
            break
        else:
            raise Fail("%s writes %r before begin" % (name, x))
    else:
        raise Fail("%s writes no begin: %r" % (name, t[:200]))
    if not seen and rep == "V":
        raise Fail("%s does not mark the V-representation" % name)
    h = L[i + 1].split()
    m, n, kind = int(h[0]), int(h[1]), h[2]
    rows = [[num(y) for y in x.split()] for x in L[i + 2:i + 2 + m]]
    if len(L) <= i + 2 + m or L[i + 2 + m] != "end" or len(rows) != m or any(len(r) != n for r in rows):
        raise Fail("%s writes a matrix of the wrong shape: %r" % (name, t[-300:]))
    if kind == "integer" and any(x.denominator != 1 for r in rows for x in r):
        raise Fail("%s declares a fractional matrix as integer" % name)
    return n, rows, lin


def read_latte(t, name, integer=True):
    L = [x.split() for x in t.splitlines() if x.strip()]
    m, n = map(int, L[0])
    rows = [[num(y) for y in x] for x in L[1:1 + m]]
    if len(rows) != m or any(len(r) != n for r in rows):
        raise Fail("%s writes a matrix of the wrong shape: %r" % (name, t[-300:]))
    if integer and any(x.denominator != 1 for r in rows for x in r):
        raise Fail("%s writes fractional constraints, which LattE does not read" % name)
    lin = set()
    for w in L[1 + m:]:
        if w[0] == "linearity":
            lin |= {int(y) - 1 for y in w[2:]}
            if len(w) != 2 + int(w[1]):
                raise Fail("%s writes the section %r" % (name, w))
        elif w[0] == "nonnegative":
            for y in w[2:]:
                rows.append([F(0)] + [F(int(j == int(y) - 1)) for j in range(n - 1)])
        else:
            raise Fail("%s writes the section %r" % (name, w))
    return n, rows, lin


class C13(Prop):
    ID = "C13"
    PROGRAMS = ["latte2ine", "latte2ext", "ConvertCDDineToLatte", "count"]
    CASES = {"quick": 8000, "thorough": 60000}
    RULE = "matrix with at least two different rows; distinct by (input text, conversion)"

    def gen(self, rng, tier):
        mode = rng.choice(["latte2ine", "latte2ine", "ConvertCDDineToLatte", "ConvertCDDineToLatte", "round", "latte2ext"])
        if rng.random() < .5:
            p = gens.polytope(rng, 5)
            if p is None:
                return None
            rows = [list(r) for r in p["ineqs"] + p["eqs"]]
            lin = list(range(len(p["ineqs"]), len(rows)))
            bounded = True
        else:
            d, m = rng.randint(1, 7), rng.randint(1, 9)
            B = rng.choice([1, 2, 10, 1000, 10 ** 12, 10 ** 45])
            rows = [[rng.randint(-B, B) if rng.random() < .8 else 0 for _ in range(d + 1)] for _ in range(m)]
            lin = [i for i in range(m) if rng.random() < rng.choice([0, .2, .5])]
            bounded = False
        rng_perm = list(range(len(rows)))
        rng.shuffle(rng_perm)
        lin = sorted(rng_perm.index(i) for i in lin)
        rows = [rows[i] for i in rng_perm]
        d = len(rows[0]) - 1
        c = {"mode": mode, "rows": rows, "lin": lin, "nonneg": [], "kwfirst": 0, "den": None, "bounded": bounded}
        if mode in ("latte2ine", "round"):
            c["nonneg"] = sorted(rng.sample(range(1, d + 1), rng.randint(0, d))) if rng.random() < .5 else []
            c["kwfirst"] = rng.randint(0, 1)
        if mode == "ConvertCDDineToLatte" or mode == "latte2ext":
            c["den"] = [[rng.choice([1, 1, 2, 3, 6, 10, 35, 10 ** 9 + 7]) if rng.random() < .5 else 1 for _ in r] for r in rows]
            c["rat"] = rng.random() < .7
            c["unred"] = rng.choice([1, 1, 2, 3, 10])
        c["ws"] = rng.choice([" ", " ", "  ", "\t", "\n"])
        c["comment"] = rng.random() < .3
        c["count"] = mode == "round" and bounded and d <= 4 and rng.random() < .3
        return c

    def valid(self, c):
        R = c["rows"]
        if c.get("unred", 1) < 1:
            return False
        if not R or not R[0] or any(len(r) != len(R[0]) for r in R) or len(R[0]) < 2:
            return False
        if any(not 0 <= i < len(R) for i in c["lin"]) or any(not 1 <= j < len(R[0]) for j in c["nonneg"]):
            return False
        if c["den"] and (len(c["den"]) < len(R) or any(len(x) < len(y) or any(z < 1 for z in x) for x, y in zip(c["den"], R))):
            return False
        return all(isinstance(x, int) for r in R for x in r)

    def shrinks(self, c):
        for i in range(len(c["rows"])):
            yield dict(c, rows=c["rows"][:i] + c["rows"][i + 1:], lin=[j - (j > i) for j in c["lin"] if j != i],
                       den=c["den"] and c["den"][:i] + c["den"][i + 1:])
        for j in range(1, len(c["rows"][0])):
            yield dict(c, rows=[r[:j] + r[j + 1:] for r in c["rows"]], nonneg=[k - (k > j) for k in c["nonneg"] if k != j],
                       den=c["den"] and [r[:j] + r[j + 1:] for r in c["den"]])
        if c["nonneg"]:
            yield dict(c, nonneg=c["nonneg"][1:])
        if c["lin"]:
            yield dict(c, lin=c["lin"][1:])
        for i, r in enumerate(c["rows"]):
            for j, x in enumerate(r):
                for y in (0, 1, -1, x // 10):
                    if abs(y) < abs(x):
                        yield dict(c, rows=c["rows"][:i] + [r[:j] + [y] + r[j + 1:]] + c["rows"][i + 1:])

    def check(self, c, env):
        rows, lin = c["rows"], c["lin"]
        d = len(rows[0]) - 1
        if c["den"] and c["rat"]:
            rows = [[F(x, y) for x, y in zip(r, q)] for r, q in zip(rows, c["den"])]
        want = canon(rows + [[0] + [int(j == i - 1) for j in range(d)] for i in c["nonneg"]], set(lin))
        kw = []
        if lin:
            kw.append("linearity %d %s\n" % (len(lin), " ".join(str(i + 1) for i in lin)))
        if c["nonneg"]:
            kw.append("nonnegative %d %s\n" % (len(c["nonneg"]), " ".join(map(str, c["nonneg"]))))
        if c["kwfirst"]:
            kw.reverse()
        k = c.get("unred", 1)
        w = lambda x: fr(x) if k == 1 or F(x).denominator == 1 else "%d/%d" % (F(x).numerator * k, F(x).denominator * k)
        body = "".join(c["ws"].join(w(x) for x in r) + "\n" for r in rows)
        mode = c["mode"]
        frac = any(F(x).denominator != 1 for r in rows for x in r)
        if mode == "ConvertCDDineToLatte":
            text = ("* a comment\n" if c["comment"] else "") + "H-representation\n" + (kw[0] if lin else "") + "begin\n%d %d %s\n%send\n%s" % (
                len(rows), d + 1, "rational" if frac or c["den"][0][0] > 1 else "integer", body, "* more\n" if c["comment"] else "")
        else:
            text = "%d %d\n%s%s" % (len(rows), d + 1, body, "".join(kw))
        with Scratch({"in": text}) as s:
            if mode == "ConvertCDDineToLatte":
                r = guard(s.run(env.exe(mode), ["in", "out"]))
                out = s.get("out")
            else:
                r = guard(s.run(env.exe("latte2ine" if mode == "round" else mode), [], stdin=text))
                out = r.out
            if r.rc != 0 or not out:
                raise Fail("%s failed (status %d) on valid input: %s" % (mode, r.rc, tail(r.err)))
            try:
                if mode == "ConvertCDDineToLatte":
                    n, R, l = read_latte(out, mode)
                else:
                    n, R, l = read_cdd(out, "V" if mode == "latte2ext" else "H", mode)
                if n != d + 1 or canon(R, l) != want:
                    raise Fail("%s changes the polyhedron:\n%s\nbecomes\n%s" % (mode, text, out))
                if mode == "round":
                    s.put("mid.ine", out)
                    r = guard(s.run(env.exe("ConvertCDDineToLatte"), ["mid.ine", "back"]))
                    back = s.get("back")
                    if r.rc != 0 or not back:
                        raise Fail("ConvertCDDineToLatte fails on the output of latte2ine: %s" % tail(r.err))
                    n, R, l = read_latte(back, "the round trip")
                    if n != d + 1 or canon(R, l) != want:
                        raise Fail("the round trip changes the polyhedron:\n%s\nbecomes\n%s" % (text, back))
                    if c["count"]:
                        a, b, e = count(env, None, ["in"], s=s), count(env, None, ["back"], s=s), count(env, None, ["--cdd", "mid.ine"], s=s)
                        if not a == b == e:
                            raise Fail("the file, its round trip and its .ine form have %d, %d and %d lattice points\n%s" % (a, b, e, text))
            except (ValueError, IndexError) as e:
                raise Fail("%s writes an unreadable file (%s): %r" % (mode, e, out[:300]))
        return (jhash([mode, text]) if len(set(want)) > 1 else None), [
            mode, "fractions" if frac else "integers", "d=%d" % d, "linearity" if lin else "no-linearity",
            "nonnegative" if c["nonneg"] else "", "counted" if c["count"] else ""]
