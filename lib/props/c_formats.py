"""C03: every documented way of writing down the same polytope yields the same number of lattice points."""
import math, random
from _common import *


def fr(x):
    x = F(x)
    return str(x.numerator) if x.denominator == 1 else "%d/%d" % (x.numerator, x.denominator)


def cdd_ine(p, order, kind="integer", comments=False, scale=None):
    rows = [(r, 0) for r in p["ineqs"]] + [(r, 1) for r in p["eqs"]]
    rows = [rows[i] for i in order]
    lin = [i + 1 for i, (r, e) in enumerate(rows) if e]
    s = "* generated\n" if comments else ""
    s += "H-representation\n"
    if lin:
        s += "linearity %d %s\n" % (len(lin), " ".join(map(str, lin)))
    s += "begin\n%d %d %s\n" % (len(rows), p["d"] + 1, kind)
    for i, (r, _) in enumerate(rows):
        k = scale[i] if scale else 1
        s += " " + " ".join(fr(F(x) / k) for x in r) + "\n"
    return s + "end\n"


def relayout(text, key):
    """The same numbers with other white space; one space stays after a keyword."""
    rng = random.Random(key)
    out = ""
    for t in text.split():
        sep = rng.choice([" ", " ", " ", "  ", "\t", "\n", "\n\n", " \n"])
        out += t + (" " if t[0].isalpha() else sep)
    return (rng.choice(["", "\n", " "]) if key % 2 else "") + out.rstrip() + rng.choice(["", "\n", "\n\n", " ", " \n"])


def unreduced(x, k):
    x = F(x)
    return "%d/%d" % (x.numerator * k, x.denominator * k)


def vrows(V, how, k=1):
    """how = 'scaled': homogenized vertices scaled to integers (manual); 'rational': written with fractions, which need not be in lowest terms."""
    s = ""
    for v in V:
        if k > 1 and how == "rational":
            s += "1 " + " ".join(unreduced(x, k) if x else "0" for x in v) + "\n"
            continue
        q = 1
        if how == "scaled":
            for x in v:
                q = q * x.denominator // math.gcd(q, x.denominator)
        s += fr(q) + " " + " ".join(fr(x * q) for x in v) + "\n"
    return s


def cdd_ext(V, d, kind, how, k=1):
    return "V-representation\nbegin\n%d %d %s\n" % (len(V), d + 1, kind) + vrows(V, how, k) + "end\n"


@high_dim(.1, dims=(5, 5, 6, 7, 9))
class C03(Prop):
    ID = "C03"
    PROGRAMS = ["count"]
    RANDOM = True
    CASES = {"quick": 2500, "thorough": 25000}
    RULE = "polytope with at least one integer point written in a non-canonical way; distinct by text of the input file"

    def gen(self, rng, tier):
        p = gens.polytope(rng, 4)
        if p is None:
            return None
        n = len(p["ineqs"]) + len(p["eqs"])
        fmt = rng.choice(["latte", "latte", "ine", "ine", "vrep", "ext", "pairs", "plus"])
        order = list(range(n))
        rng.shuffle(order)
        c = {"p": p, "fmt": fmt, "order": order, "opts": []}
        if rng.random() < .3:
            c["opts"] = tame([x for x in config(rng) if not x.startswith("--homog")], p)
        if fmt in ("latte", "vrep") and rng.random() < .5:
            c["layout"] = rng.randint(1, 10 ** 6)
        if fmt == "latte":
            c["nonneg"] = sorted(rng.sample(range(1, p["d"] + 1), rng.randint(0, p["d"])))
            c["kwfirst"] = rng.choice(["linearity", "nonnegative"])
        elif fmt in ("vrep", "ext"):
            c["how"] = rng.choice(["scaled", "rational"])
            c["vkey"] = rng.randint(1, 100)
            if c["how"] == "rational" and rng.random() < .4:
                c["unred"] = rng.choice([2, 3, 6, 10])
        elif fmt == "ine":
            c["kind"] = rng.choice(["integer", "rational"])
            c["comments"] = rng.random() < .5
        return c

    def hd_gen(self, rng, h):
        fmt = rng.choice(["latte", "latte", "plus", "ine", "vrep", "ext", "pairs"])
        h = h(full=fmt in ("vrep", "ext"), dims=(5, 5, 6) if fmt in ("vrep", "ext") else (5, 6, 7, 9))
        if fmt in ("latte", "plus"):
            h["ops"], h["s"] = [], [0] * len(h["s"])
        return {"hd": h, "fmt": fmt, "key": rng.randint(1, 10 ** 6), "opts": []}

    def hd_valid(self, c):
        if c["fmt"] in ("latte", "plus") and (c["hd"]["ops"] or any(c["hd"]["s"])):
            return False
        return c["fmt"] not in ("vrep", "ext") or all(b and not e for _, b, e in c["hd"]["f"])

    def hd_check(self, c, S, env):
        rng = random.Random(c["key"])
        p, d, fmt = S.p, S.d, c["fmt"]
        n = len(p["ineqs"]) + len(p["eqs"])
        name, args = "in", []
        if fmt in ("latte", "plus"):
            # the rows x_i >= 0 are left to the keyword, all or some of them
            drop = list(range(1, d + 1)) if fmt == "plus" else sorted(rng.sample(range(1, d + 1), rng.randint(0, d)))
            unit = [[0] + [int(j == i - 1) for j in range(d)] for i in drop]
            p = dict(p, ineqs=[r for r in p["ineqs"] if r not in unit])
            n = len(p["ineqs"]) + len(p["eqs"])
            if n == 0:
                raise Discard("no rows left")
            text = gens.hrep_text(p, order=rng.sample(range(n), n), nonneg=drop if fmt == "latte" else ())
            args = ["+"] if fmt == "plus" else []
        elif fmt == "pairs":
            text = gens.hrep_text(dict(p, ineqs=p["ineqs"] + p["eqs"] + [[-x for x in r] for r in p["eqs"]], eqs=[]))
        elif fmt == "ine":
            text, name, args = cdd_ine(p, rng.sample(range(n), n), "integer"), "in.ine", ["--cdd"]
        else:
            V = S.vertices()
            rng.shuffle(V)
            how = rng.choice(["scaled", "rational"])
            if fmt == "ext":
                text, name, args = cdd_ext(V, d, "integer" if how == "scaled" else "rational", how), "in.ext", ["--cdd"]
            else:
                text, args = "%d %d\n" % (len(V), d + 1) + vrows(V, how), ["--vrep"]
        args = args + c["opts"]
        got, want = count(env, {name: text}, args + [name]), S.count()
        if got != want:
            raise Fail("count %s: %d lattice points reported, there are %d" % (" ".join(args), got, want))
        return (jhash(text) if want else None), ["fmt=" + fmt]

    def valid(self, c):
        n = len(c["p"]["ineqs"]) + len(c["p"]["eqs"])
        if sorted(c["order"]) != list(range(n)):
            c["order"] = list(range(n))
        return gens.poly_valid(c["p"])

    def shrinks(self, c):
        for k in ("layout", "unred"):
            if k in c:
                yield {a: b for a, b in c.items() if a != k}
        for i in range(len(c["opts"])):
            yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:])
        for q in gens.poly_shrinks(c["p"]):
            yield dict(c, p=q, order=list(range(len(q["ineqs"]) + len(q["eqs"]))),
                       **({"nonneg": [i for i in c["nonneg"] if i <= q["d"]]} if "nonneg" in c else {}))

    def check(self, c, env):
        p = dict(c["p"])
        d = p["d"]
        fmt = c["fmt"]
        args = list(c["opts"])
        name = "in"
        if fmt in ("latte", "plus"):
            idx = c["nonneg"] if fmt == "latte" else range(1, d + 1)
            add = [[0] + [int(j == i - 1) for j in range(d)] for i in idx]
            base = p
            p = dict(p, ineqs=p["ineqs"] + add)
        V, dim = gens.oracle(p)
        if dim < 0:
            raise Discard("empty")
        integral = all(x.denominator == 1 for v in V for x in v)
        if fmt == "latte":
            rows = [(r, 0) for r in base["ineqs"]] + [(r, 1) for r in base["eqs"]]
            rows = [rows[i] for i in c["order"]]
            lin = [i + 1 for i, (r, e) in enumerate(rows) if e]
            kw = []
            if lin:
                kw.append("linearity %d %s\n" % (len(lin), " ".join(map(str, lin))))
            if c["nonneg"]:
                kw.append("nonnegative %d %s\n" % (len(c["nonneg"]), " ".join(map(str, c["nonneg"]))))
            if c["kwfirst"] == "nonnegative":
                kw.reverse()
            text = "%d %d\n" % (len(rows), d + 1) + "".join(" ".join(map(str, r)) + "\n" for r, _ in rows) + "".join(kw)
        elif fmt == "plus":
            text = gens.hrep_text(base, order=c["order"])
            args = ["+"] + args
        elif fmt == "pairs":
            R = p["ineqs"] + p["eqs"] + [[-x for x in r] for r in p["eqs"]]
            text = gens.hrep_text(dict(p, ineqs=R, eqs=[]))
        elif fmt == "ine":
            text = cdd_ine(p, c["order"], c["kind"], c["comments"])
            args = ["--cdd"] + args
            name = "in.ine"
        elif fmt == "ext":
            if dim < d:
                raise Discard("V-representation of a lower-dimensional polytope")
            V = [V[i % len(V)] for i in sorted(range(len(V)), key=lambda i: c["vkey"] * (i + 1) % 101)]
            text = cdd_ext(V, d, "integer" if integral and "unred" not in c or c["how"] == "scaled" else "rational", c["how"], c.get("unred", 1))
            args = ["--cdd"] + args
            name = "in.ext"
        elif fmt == "vrep":
            if dim < d:
                raise Discard("V-representation of a lower-dimensional polytope")
            V = [V[i % len(V)] for i in sorted(range(len(V)), key=lambda i: c["vkey"] * (i + 1) % 101)]
            text = "%d %d\n" % (len(V), d + 1) + vrows(V, c["how"], c.get("unred", 1))
            args = ["--vrep"] + args
        want = geom.count_polytope(p["ineqs"], p["eqs"], V)
        if want is None:
            raise Inconclusive("oracle box too large")
        if "layout" in c:
            text = relayout(text, c["layout"])
        got = count(env, {name: text}, args + [name])
        if got != want:
            raise Fail("count %s: %d lattice points reported, %d by enumeration" % (" ".join(args), got, want))
        return (jhash(text) if want else None), polylabels(p, V, dim) + ["fmt=" + fmt] + (["layout"] if "layout" in c else []) + (["unreduced"] if "unred" in c else []) + c["opts"]
