from _common import *
from c_formats import cdd_ext


@high_dim(.1, huge=.3)
class C01(Prop):
    ID = "C01"
    PROGRAMS = ["count"]
    RANDOM = True
    CASES = {"quick": 2500, "thorough": 30000}
    RULE = ("polytope with at least one integer point, or an empty/integer-free one of dimension >= 1, or a non-empty unbounded "
            "polyhedron; distinct by H-rep, translation and row factors")

    def gen(self, rng, tier):
        x = rng.random()
        p = gens.polytope(rng, 5 if x < .8 else 3)
        if p is None:
            return None
        n = len(p["ineqs"]) + len(p["eqs"])
        order = list(range(n))
        if rng.random() < .4:
            rng.shuffle(order)
        c = {"p": p, "order": order, "t": [0] * p["d"], "k": [1] * n, "drop": [], "vc": rng.choice(["", "", "", "cdd", "lrs", "4ti2"])}
        if x > .88:
            B = 10 ** rng.choice([5, 9, 10, 18, 19, 20, 30])
            c["t"] = [rng.randint(-B, B) if rng.random() < .7 else 0 for _ in range(p["d"])]
            if rng.random() < .4:
                c["k"] = [rng.randint(1, B) if rng.random() < .5 else 1 for _ in range(n)]
        elif x > .78:
            m = len(p["ineqs"])
            c["drop"] = sorted(rng.sample(range(m), rng.randint(1, max(1, m - 1))))
            c["order"] = list(range(n))
            c["t"] = [0] * p["d"]
            if not self.unbounded(c):
                c["drop"] = []
        return c

    def hd_gen(self, rng, h):
        return {"hd": h(), "opts": []}

    def hd_check(self, c, S, env):
        want = S.count()
        got = count(env, {"in": gens.hrep_text(S.p)}, c["opts"] + ["in"])
        if got != want:
            raise Fail("count %s reports %d, true number of integer points is %d" % (" ".join(c["opts"]), got, want))
        return jhash(c), ["zero"] if want == 0 else []

    def unbounded(self, c):
        p = c["p"]
        R = [r for i, r in enumerate(p["ineqs"]) if i not in c["drop"]]
        if len(R) + len(p["eqs"]) == 0:
            return False
        V, dim = gens.oracle(p)
        return bool(V) and not geom.is_bounded(R, p["eqs"], p["d"]) and bool(geom.count_polytope(p["ineqs"], p["eqs"], V, 1, 100000))

    def valid(self, c):
        p = c["p"]
        n = len(p["ineqs"]) + len(p["eqs"])
        if not (gens.poly_valid(p) and sorted(c["order"]) == list(range(n)) and len(c["t"]) == p["d"] and len(c["k"]) == n
                and all(k > 0 for k in c["k"]) and all(type(i) is int and 0 <= i < len(p["ineqs"]) for i in c["drop"])
                and c["vc"] in ("", "cdd", "lrs", "4ti2")):
            return False
        return not c["drop"] or self.unbounded(c)

    def shrinks(self, c):
        for q in gens.poly_shrinks(c["p"]):
            n = len(q["ineqs"]) + len(q["eqs"])
            t = c["t"][:q["d"]]
            yield dict(c, p=q, order=list(range(n)), k=[1] * n, t=t)
            yield dict(c, p=q, order=list(range(n)), k=[1] * n, t=t, drop=[i for i in c["drop"] if i < len(q["ineqs"])])

    def check(self, c, env):
        p = c["p"]
        opts = ["--compute-vertex-cones=" + c["vc"]] if c["vc"] else []
        if c["drop"]:
            q = dict(p, ineqs=[r for i, r in enumerate(p["ineqs"]) if i not in c["drop"]])
            with Scratch({"in": gens.hrep_text(q)}) as s:
                r = guard(s.run(env.exe("count"), opts + ["in"]))
                n = number_file(s) if s.written("numOfLatticePoints") else None
                if r.rc == 0 or n not in (None, ""):
                    raise Fail("count %s of an unbounded polyhedron with integer points ends with status %d and the number %s"
                               % (" ".join(opts), r.rc, n))
                if not re.search("unbounded|not bounded", r.err, re.I):
                    raise Fail("count does not report the unbounded polyhedron as unbounded: " + tail(r.err))
            return jhash([q, c["vc"]]), ["unbounded", "vc=" + c["vc"], "d=%d" % q["d"]]
        V, dim = gens.oracle(p)
        want = geom.count_polytope(p["ineqs"], p["eqs"], V)
        if want is None:
            raise Inconclusive("oracle box too large")
        q = dict(p, ineqs=gens.translate(p["ineqs"], c["t"]), eqs=gens.translate(p["eqs"], c["t"]))
        m = len(q["ineqs"])
        q["ineqs"] = [[k * x for x in r] for k, r in zip(c["k"], q["ineqs"])]
        q["eqs"] = [[k * x for x in r] for k, r in zip(c["k"][m:], q["eqs"])]
        got = count(env, {"in": gens.hrep_text(q, order=c["order"])}, opts + ["in"])
        if got != want:
            raise Fail("count %s reports %d, true number of integer points is %d" % (" ".join(opts), got, want))
        return (jhash(q) if dim >= 1 or want else None), polylabels(p, V, dim) + ["zero" if want == 0 else "nonzero", "vc=" + c["vc"]] + (
            ["translated-far"] if any(abs(x) > 10 ** 4 for x in c["t"]) else [])


@high_dim(.1, huge=.2)
class C02(Prop):
    ID = "C02"
    PROGRAMS = ["count"]
    RANDOM = True
    CASES = {"quick": 2200, "thorough": 20000}
    RULE = "polytope with at least one integer point counted under a non-default configuration; distinct by (H-rep, options)"

    def gen(self, rng, tier):
        p = gens.polytope(rng, 4)
        if p is None:
            return None
        o = config(rng, redundancy=True)
        if "--redundancy-check=none" in o and rng.random() < .8:
            if rng.random() < .5:           # more equations
                for _ in range(20):
                    q = gens.polytope(rng, 4, dims=rng.choice([3, 4, 4]))
                    if q and len(q["eqs"]) >= 2 and gens.oracle(q)[1] >= 1:
                        p = q
                        break
            p = gens.irredundant_form(p) or p
            if p["eqs"] and rng.random() < .6:
                p = gens.dependent_equations(rng, p)
        return {"p": p, "opts": tame(o, p, 100000)}

    def hd_gen(self, rng, h):
        o = [x for x in config(rng, redundancy=True) if x != "--no-decomposition" and not x.startswith("--maxdet")]
        if "--homog" not in o and rng.random() < .3:
            o.append("--maxdet=%d" % rng.choice([1, 2, 3, 5, 10]))
        x = h()
        return {"hd": x, "opts": o if all(b for _, b, _ in x["f"]) else [y for y in o if not y.startswith("--redundancy") or y.endswith("full-cddlib")]}

    hd_check = C01.hd_check

    def valid(self, c):
        return gens.poly_valid(c["p"]) and redundancy(c["opts"], c["p"]) == c["opts"]

    def shrinks(self, c):
        for i in range(len(c["opts"])):
            yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:])
        for q in gens.poly_shrinks(c["p"]):
            yield dict(c, p=q)

    def check(self, c, env):
        p = c["p"]
        V, dim = gens.oracle(p)
        want = geom.count_polytope(p["ineqs"], p["eqs"], V)
        if want is None:
            raise Inconclusive("oracle box too large")
        got = count(env, {"in": gens.hrep_text(p)}, c["opts"] + ["in"])
        if got != want:
            raise Fail("count %s reports %d, true number of integer points is %d" % (" ".join(c["opts"]), got, want))
        return (jhash(c) if want and c["opts"] else None), polylabels(p, V, dim) + c["opts"]


@high_dim(.1, huge=.2)
class C04(Prop):
    ID = "C04"
    PROGRAMS = ["count"]
    RANDOM = True
    CASES = {"quick": 2200, "thorough": 20000}
    RULE = "polytope and factor >= 2 with a nonempty dilation; distinct by (H-rep, factor, options)"

    def hd_gen(self, rng, h):
        h = h()
        k = rng.choice([1, 2, 3, 5, 10, 1000])
        if all(set(a) == {1} for a, _, _ in h["f"]) and rng.random() < .5:
            k = rng.choice([10 ** 6, 2 ** 31 - 1, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 3 * 10 ** 9, 2 ** 32 + 2, 2 ** 63, 2 ** 64 + 1, 10 ** 30])
        return {"hd": h, "k": k, "opts": []}

    def hd_valid(self, c):
        return c["k"] >= 1 and (c["k"] <= 1000 or all(set(a) == {1} for a, _, _ in c["hd"]["f"]))

    def hd_check(self, c, S, env):
        want = S.count(c["k"])
        if c["k"] >= 2 ** 31:       # to be refused, or counted
            with Scratch({"in": gens.hrep_text(S.p)}) as s:
                r = guard(s.run(env.exe("count"), ["--dilation=%d" % c["k"], "in"]))
                n = number_file(s) if s.written("numOfLatticePoints") else None
            if r.rc != 0 and n in (None, "") and re.search("factor", r.err):
                return jhash(c), ["factor-refused"]
            if n != want:
                raise Fail("count --dilation=%d reports %s (status %d), the dilation has %d integer points" % (c["k"], n, r.rc, want))
            return jhash(c), ["factor-huge"]
        o = ["--dilation=%d" % c["k"]] + c["opts"]
        got = count(env, {"in": gens.hrep_text(S.p)}, o + ["in"])
        if got != want:
            raise Fail("count %s reports %d, the dilation has %d integer points" % (" ".join(o), got, want))
        return (jhash(c) if want and c["k"] > 1 else None), ["k=%d" % c["k"]]

    def gen(self, rng, tier):
        for _ in range(30):
            p = gens.polytope(rng, 4)
            if p is None:
                continue
            V, dim = gens.oracle(p)
            if not V:
                continue
            k = rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 10])
            while k > 1 and geom.boxsize(*geom.bbox([[k * x for x in v] for v in V])) > 400000:
                k -= 1
            o = tame(config(rng, redundancy=True), p, 100000) if rng.random() < .4 else []
            c = {"p": p, "k": k, "opts": o}
            if dim == p["d"] and rng.random() < .25:
                c["ext"] = rng.choice(["scaled", "rational"])
                c["opts"] = [x for x in o if not x.startswith("--redundancy")]
            if rng.random() < .1:
                c["dil"] = 1
            return c

    def valid(self, c):
        return gens.poly_valid(c["p"]) and 1 <= c["k"] <= 20 and redundancy(c["opts"], c["p"]) == c["opts"]

    def shrinks(self, c):
        for i in range(len(c["opts"])):
            yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:])
        for q in gens.poly_shrinks(c["p"]):
            yield dict(c, p=q)

    def check(self, c, env):
        p = c["p"]
        V, dim = gens.oracle(p)
        want = geom.count_polytope(p["ineqs"], p["eqs"], V, c["k"])
        if want is None:
            raise Inconclusive("oracle box too large")
        o = ["--dilation=%d" % c["k"]] + c["opts"]
        if c.get("dil"):
            o = ["dil", str(c["k"])] + c["opts"]
        text = gens.hrep_text(p)
        if c.get("ext"):
            if dim < p["d"]:
                raise Discard("V-representation of a lower-dimensional polytope")
            whole = c["ext"] == "scaled" or all(x.denominator == 1 for v in V for x in v)
            text = cdd_ext(V, p["d"], "integer" if whole else "rational", c["ext"])
            o.append("--cdd")
        got = count(env, {"in": text}, o + ["in"])
        if got != want:
            raise Fail("count %s reports %d, the dilation has %d integer points" % (" ".join(o), got, want))
        return (jhash(c) if want and c["k"] > 1 else None), polylabels(p, V, dim) + ["k=%d" % c["k"]] + (["ext"] if c.get("ext") else [])
