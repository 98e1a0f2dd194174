from _common import *


@high_dim(.1, dims=(5, 5, 6, 7, 8), bmax=4, maxverts=40)
class C11(Prop):
    ID = "C11"
    PROGRAMS = ["latte-maximize", "latte-minimize", "count"]
    RANDOM = True
    CASES = {"quick": 1500, "thorough": 15000}
    RULE = "polytope with at least two integer points and a cost vector that separates them; distinct by (H-rep, cost, algorithm, direction)"

    def gen(self, rng, tier):
        for _ in range(60):
            p = gens.polytope(rng, 4)
            if p is None:
                continue
            V, dim = gens.oracle(p)
            if not V or (geom.count_polytope(p["ineqs"], p["eqs"], V, 1, 60000) or 0) < 1:
                continue
            B = rng.choice([1, 3, 10, 10, 100, 10 ** 6])
            cost = [rng.randint(-B, B) if rng.random() < .85 else 0 for _ in range(p["d"])]
            k = rng.random()
            E = geom.affine_hull(V)
            if k < .12 and dim >= 1 and len(E):     # constant, or nearly so, on the polytope
                m = [rng.randint(-3, 3) for _ in E]
                cost = [sum(a * int(r[j + 1]) for a, r in zip(m, E)) for j in range(p["d"])]
                if rng.random() < .3:
                    cost[rng.randrange(p["d"])] += rng.choice([1, -1])
            elif k < .16 and dim <= 2:
                cost = [rng.randint(-10 ** 50, 10 ** 50) for _ in cost]
            if "far" in p["tags"] and rng.random() < .8:
                k = .15        # digging gets slow far from the origin
            return {"p": p, "cost": cost, "bbs": (.12 <= k < .16 and (dim <= 2 or "far" in p["tags"])) or rng.random() < .35, "dir": rng.choice(["maximize", "minimize"]),
                    "opts": []}
        return None

    def hd_gen(self, rng, h):
        h = h()
        B = rng.choice([1, 3, 10, 1000])
        return {"hd": h, "cost": [rng.randint(-B, B) if rng.random() < .85 else 0 for _ in h["s"]], "bbs": rng.random() < .5,
                "dir": rng.choice(["maximize", "minimize"]), "opts": []}

    def hd_valid(self, c):
        return len(c["cost"]) == sum(len(a) for a, _, _ in c["hd"]["f"])

    def hd_check(self, c, S, env):
        if S.dim < 1 or not S.count():
            raise Discard("a point or no integer point")
        p = S.p
        best = S.maximum(c["cost"]) if c["dir"] == "maximize" else -S.maximum([-x for x in c["cost"]])
        name = "latte-%s%s" % (c["dir"], " bbs" if c["bbs"] else "")
        with Scratch({"in": gens.hrep_text(p), "in.cost": "1 %d\n%s\n" % (p["d"], " ".join(map(str, c["cost"])))}) as s:
            r = guard(s.run(env.exe("latte-" + c["dir"]), (["bbs"] if c["bbs"] else []) + c["opts"] + ["in"]))
        t = r.out + "\n" + r.err
        if r.rc != 0 and "terminated by signal 24" in r.err:
            raise Inconclusive("time limit: count under " + name)
        m = re.findall(r"The optimal value(?: is)?: (-?\d+)", t)
        if r.rc != 0 or not m:
            raise Fail("%s failed (status %d) on a feasible integer program: %s" % (name, r.rc, tail(r.err)))
        if int(m[-1]) != best:
            raise Fail("%s reports the optimal value %s, the optimum is %d" % (name, m[-1], best))
        if not c["bbs"]:
            m = re.findall(r"An optimal solution for +\[([-\d ]*)\] is: \[([-\d ]*)\]", t)
            sol = [int(x) for x in m[-1][1].split()] if m else []
            if len(sol) != p["d"] or not geom.contains(p["ineqs"], p["eqs"], sol) or sum(x * y for x, y in zip(sol, c["cost"])) != best:
                raise Fail("%s reports the solution %s, which is infeasible or does not attain %d" % (name, sol, best))
        return (jhash(c) if any(c["cost"]) else None), [name]

    def valid(self, c):
        return gens.poly_valid(c["p"]) and len(c["cost"]) == c["p"]["d"]

    def shrinks(self, c):
        for j in range(c["p"]["d"]):
            if c["p"]["d"] > 1:
                yield dict(c, p=gens.drop_var(c["p"], j), cost=c["cost"][:j] + c["cost"][j + 1:])
        for q in gens.poly_shrinks(c["p"]):
            if q["d"] == c["p"]["d"]:
                yield dict(c, p=q)

    def check(self, c, env):
        p = c["p"]
        V, dim = gens.oracle(p)
        if not V:
            raise Discard("empty")
        if dim < 1 and not c.get("_known"):
            raise Discard("single point")
        lo, hi = geom.bbox(V)
        if geom.boxsize(lo, hi) > 200000:
            raise Inconclusive("oracle box too large")
        pts = geom.lattice_points(p["ineqs"], p["eqs"], lo, hi)
        if not len(pts):
            raise Discard("no integer point")
        vals = [sum(int(x) * y for x, y in zip(q, c["cost"])) for q in pts]
        best = max(vals) if c["dir"] == "maximize" else min(vals)
        nbest = vals.count(best)
        name = "latte-%s%s" % (c["dir"], " bbs" if c["bbs"] else "")
        with Scratch({"in": gens.hrep_text(p), "in.cost": "1 %d\n%s\n" % (p["d"], " ".join(map(str, c["cost"])))}) as s:
            r = guard(s.run(env.exe("latte-" + c["dir"]), (["bbs"] if c["bbs"] else []) + c["opts"] + ["in"]))
        t = r.out + "\n" + r.err
        if r.rc != 0 and "terminated by signal 24" in r.err:
            raise Inconclusive("time limit: count under " + name)
        if r.rc != 0:
            raise Fail("%s failed (status %d) on a feasible integer program: %s" % (name, r.rc, tail(r.err)))
        m = re.findall(r"The optimal value(?: is)?: (-?\d+)", t)
        if not m:
            raise Fail("%s reports no optimal value: %s" % (name, tail(r.err)))
        if int(m[-1]) != best:
            raise Fail("%s reports the optimal value %s, the optimum is %d" % (name, m[-1], best))
        if c["bbs"]:
            m = re.findall(r"The number of optimal solutions: (\d+)", t)
            if not m:
                m = re.findall(r"^(\d+)\s*$", r.err, re.M)
            if m and int(m[-1]) != nbest:
                raise Fail("%s reports %s optimal solutions, there are %d" % (name, m[-1], nbest))
        else:
            m = re.findall(r"An optimal solution for +\[([-\d ]*)\] is: \[([-\d ]*)\]", t)
            if not m:
                raise Fail("%s reports no optimal solution" % name)
            sol = [int(x) for x in m[-1][1].split()]
            if len(sol) != p["d"] or not geom.contains(p["ineqs"], p["eqs"], sol):
                raise Fail("%s reports the infeasible solution %s" % (name, sol))
            m = re.findall(r"There (?:are|is) (\S+) optimal solution", t)
            if m and m[-1] != ("one" if nbest == 1 else str(nbest)):
                raise Fail("%s reports %s optimal solutions, there are %d" % (name, m[-1], nbest))
            if sum(x * y for x, y in zip(sol, c["cost"])) != best:
                raise Fail("%s reports the solution %s, which does not attain the optimum %d" % (name, sol, best))
        return (jhash(c) if len(set(vals)) > 1 else None), polylabels(p, V, dim) + [name, "ties" if nbest > 1 else "unique"]
