"""C22: the stand-alone programs ehrhart and ehrhart3.  C23: aggregate."""
import itertools, math
from _common import *
import expr
from expr import Laurent, P as PR
from c_ehrhart import ehr_counts, integral_polytope


@high_dim(.1, dims=(4, 5, 5, 6), bmax=3, weights=2, maxverts=40)
class C22(Prop):
    ID = "C22"
    PROGRAMS = ["ehrhart", "ehrhart3"]
    RANDOM = True
    CASES = {"quick": 1500, "thorough": 12000}
    RULE = "polytope of dimension >= 1 whose first dilations are counted exactly, or a polynomial of degree >= 1 through given values; distinct by input and mode"

    def gen(self, rng, tier):
        for _ in range(50):
            mode = rng.choice(["terms", "terms", "series", "pipe", "values"])
            if mode == "values":
                d = rng.choice([1, 2, 3, 4, 5, 8, 12, 16, 20, 30, rng.randint(6, 60)])
                den = rng.choice([1, 1, 2, 6, 24, 10 ** 6])
                b = rng.choice([1, 3, 100, 10 ** 20])
                co = [[1, 1]] + [[rng.randint(-b, b), den] for _ in range(d)]
                return {"mode": mode, "co": co, "extra": 0}
            if mode == "pipe":
                r = integral_polytope(rng)
                if r is None:
                    continue
                d, pts = r
                p = {"d": d, "ineqs": geom.hull_hrep(pts, d), "eqs": [], "tags": ["integral"]}
            else:
                p = gens.polytope(rng, 3)
                if p is None:
                    continue
            V, dim = gens.oracle(p)
            if dim < 1 or geom.boxsize(*geom.bbox(V)) > 3000:
                continue
            return {"mode": mode, "p": p, "n": rng.randint(2, 9), "cdd": rng.random() < .2 and not p["eqs"] and mode == "terms"}
        return None

    def hd_gen(self, rng, h):
        return {"hd": h(), "n": rng.randint(2, 9), "cdd": rng.random() < .2}

    def hd_valid(self, c):
        return 2 <= c["n"] <= 12

    def hd_check(self, c, S, env):
        if S.dim < 1 or not S.lattice_hull():
            raise Discard("a point, or affine hull without integer points (listed finding of C07)")
        p, N, args = S.p, c["n"], []
        text = gens.hrep_text(p)
        if c["cdd"] and not p["eqs"]:
            text = "H-representation\nbegin\n%d %d integer\n" % (len(p["ineqs"]), p["d"] + 1) + \
                "".join(" ".join(map(str, r)) + "\n" for r in p["ineqs"]) + "end\n"
            args = ["cdd"]
        g, out = self.terms(env, {"in": text}, args + [str(N)], N)
        want = [S.count(t) for t in range(N + 1)]
        if g != want:
            raise Fail("ehrhart %d: terms %s, exact counts %s" % (N, g, want))
        return jhash(c), ["terms"] + args

    def valid(self, c):
        if c["mode"] == "values":
            return len(c["co"]) >= 2 and c["co"][0] == [1, 1] and all(len(x) == 2 and x[1] > 0 for x in c["co"]) and len(c["co"]) <= 80
        return gens.poly_valid(c["p"]) and 2 <= c["n"] <= 12

    def shrinks(self, c):
        if c["mode"] == "values":
            for i in range(1, len(c["co"])):
                yield dict(c, co=c["co"][:i] + c["co"][i + 1:])
                yield dict(c, co=c["co"][:i] + [[c["co"][i][0] // 2, 1]] + c["co"][i + 1:])
            return
        for q in gens.poly_shrinks(c["p"]):
            yield dict(c, p=q)
        if c["n"] > 2:
            yield dict(c, n=c["n"] - 1)

    def terms(self, env, files, args, N):
        with Scratch(files) as s:
            r = guard(s.run(env.exe("ehrhart"), args + ["in"]))
        if r.rc != 0:
            raise Fail("ehrhart %s failed (status %d): %s" % (" ".join(args), r.rc, tail(r.err)))
        got = {}
        for a, e in re.findall(r"^(-?\d+)(?:t\^(\d+))?\s*$", r.out, re.M):
            if int(e or 0) in got:
                raise Fail("ehrhart %s prints the term of degree %s twice" % (" ".join(args), e or 0))
            got[int(e or 0)] = int(a)
        if max(got, default=0) > N:
            raise Fail("ehrhart %s prints a term of degree %d" % (" ".join(args), max(got)))
        return [got.get(k, 0) for k in range(N + 1)], r.out

    def poly(self, env, text, want):
        with Scratch({}) as s:
            r = guard(s.run(env.exe("ehrhart3"), [], stdin=text))
        if r.rc != 0:
            raise Fail("ehrhart3 failed (status %d): %s" % (r.rc, tail(r.out + r.err)))
        L = r.out.splitlines()
        m = re.findall(r"\+ (-?\d+(?:/\d+)?)(?:\*t\^(\d+))?", L[0]) if L else []
        got = {int(e or 0): F(q) for q, e in m}
        if len(got) != len(m) or got != {k: v for k, v in enumerate(want)}:
            raise Fail("ehrhart3 prints %r, the polynomial is %s" % (L[:1], [str(x) for x in want]))
        neg = re.findall(r"Number of negative coefficients: (\d+)", r.out)
        if neg != [str(sum(x < 0 for x in want))]:
            raise Fail("ehrhart3 counts %s negative coefficients of %s" % (neg, [str(x) for x in want]))

    def check(self, c, env):
        if c["mode"] == "values":
            co = [F(*x) for x in c["co"]]
            d = len(co) - 1
            vals = [sum(a * k ** i for i, a in enumerate(co)) for k in range(d + 1)]
            self.poly(env, "%d\n" % d + "".join("%s\n" % v for v in vals), co)
            return jhash(c), ["values", "degree=%d" % d]
        p = c["p"]
        V, dim = gens.oracle(p)
        if dim < 1:
            raise Discard("empty or a point")
        if not geom.int_solvable(geom.affine_hull(V)):
            raise Discard("affine hull without integer points (listed finding of C07)")
        N = max(2, dim) if c["mode"] == "pipe" else c["n"]
        want = ehr_counts(p["ineqs"], p["eqs"], V, range(N + 1))
        if want is None:
            raise Inconclusive("oracle box too large")
        if c["mode"] == "series":
            with Scratch({"in": gens.hrep_text(p)}) as s:
                r = guard(s.run(env.exe("ehrhart"), ["in"]))
                t = s.get("in.rat")
            if r.rc != 0 or not t:
                raise Fail("ehrhart failed (status %d): %s" % (r.rc, tail(r.err)))
            t = re.sub(r"^\s*x\s*:=", "", t.strip()).rstrip(":; \n")
            try:
                S = expr.evaluate(t, Laurent.const, lambda n, i: Laurent.t())
            except expr.ParseError as e:
                raise Fail("ehrhart: unparsable rational function (%s)" % e)
            except expr.Pole:
                raise Fail("ehrhart: rational function divides by zero")
            K = min(N + 1, S.val + len(S.c)) if S.c else N + 1
            if K < 1:
                raise Inconclusive("lost all series precision")
            g = [(S.c[k - S.val] if S.c and 0 <= k - S.val < len(S.c) else 0) for k in range(K)]
            if (S.c and S.val < 0) or g != [w % PR for w in want[:K]]:
                raise Fail("ehrhart: series starts %s (valuation %d), exact counts %s" % (
                    [x if x < PR // 2 else x - PR for x in g], S.val, want[:K]))
        else:
            text, args = gens.hrep_text(p), []
            if c["cdd"]:
                text = "H-representation\nbegin\n%d %d integer\n" % (len(p["ineqs"]), p["d"] + 1) + \
                    "".join(" ".join(map(str, r)) + "\n" for r in p["ineqs"]) + "end\n"
                args = ["cdd"]
            g, out = self.terms(env, {"in": text}, args + [str(N)], N)
            if g != want:
                raise Fail("ehrhart %d: terms %s, exact counts %s" % (N, g, want))
            if c["mode"] == "pipe":
                vals = [l.split("t")[0] for l in out.splitlines()]
                self.poly(env, "%d\n" % dim + "".join(v + "\n" for v in vals[:dim + 1]),
                          geom.interp_coeffs(list(range(dim + 1)), want[:dim + 1]))
        return jhash(c), polylabels(p, V, dim) + [c["mode"]] + (["cdd"] if c["cdd"] else [])


class C23(Prop):
    ID = "C23"
    PROGRAMS = ["aggregate"]
    RANDOM = True
    CASES = {"quick": 9000, "thorough": 90000}
    RULE = "at least two rows aggregated, with at least one solution and at least one non-solution in the tested box; distinct by input"

    def gen(self, rng, tier):
        d = rng.choice([1, 2, 2, 3, 3, 4])
        m = rng.choice([1, 2, 2, 3, 4, 5])
        b = rng.choice([1, 2, 3, 5, 50]) if rng.random() < .9 else 10 ** rng.choice([5, 10, 19, 30])
        S = rng.choice([3, 3, 3, 100, 10 ** 4, 10 ** 7]) if rng.random() < .9 else 10 ** rng.choice([10, 19, 30])   # large values: too small multipliers let wrong points in
        x0 = [rng.choice([0, 1, rng.randint(0, S)]) for _ in range(d)]
        rows, lin, agg = [], [], []
        for i in range(m):
            a = [rng.choice([0, 1, 1, rng.randint(0, b)]) for _ in range(d)]
            eq = rng.random() < .5
            v = sum(x * y for x, y in zip(a, x0))
            if eq:
                v += rng.choice([0] * 9 + [1])
            else:
                v += rng.choice([0, 0, 1, 2, rng.randint(0, b), rng.randint(0, S)])
            if rng.random() < .1:
                v = 0
            rows.append([v] + [-x for x in a])
            lin += [i] if eq else []
            agg.append(i)
        for j in range(d):
            rows.append([0] + [int(k == j) for k in range(d)])
        for _ in range(rng.choice([0, 0, 1])):
            rows.append([rng.randint(0, 6)] + [rng.randint(-2, 2) for _ in range(d)])
            if rng.random() < .3:
                lin.append(len(rows) - 1)
        perm = list(range(len(rows)))
        rng.shuffle(perm)
        inv = {o: n for n, o in enumerate(perm)}
        c = {"rows": [rows[o] for o in perm], "lin": sorted(inv[i] for i in lin),
             "agg": sorted(inv[i] for i in agg if rng.random() < .85), "seed": rng.randrange(10 ** 9), "x0": x0}
        if not c["agg"]:
            c["agg"] = [inv[0]]
        if rng.random() < .5:
            rng.shuffle(c["agg"])
        return c

    def valid(self, c):
        if not c["rows"] or not c["agg"] or len(set(c["agg"])) != len(c["agg"]):
            return False
        n = len(c["rows"][0])
        if n < 2 or any(len(r) != n for r in c["rows"]) or max(c["agg"] + c["lin"]) >= len(c["rows"]):
            return False
        # every variable is nonnegative by a row of its own, as the method requires
        for j in range(1, n):
            if not any(i not in c["agg"] and r[j] > 0 and not any(r[:j] + r[j + 1:]) for i, r in enumerate(c["rows"])):
                return False
        return all(c["rows"][i][0] >= 0 and max(c["rows"][i][1:]) <= 0 for i in c["agg"])

    def shrinks(self, c):
        for i in range(len(c["rows"])):
            f = lambda L: [j - (j > i) for j in L if j != i]
            yield dict(c, rows=c["rows"][:i] + c["rows"][i + 1:], lin=f(c["lin"]), agg=f(c["agg"]))
        for i in range(len(c["agg"])):
            yield dict(c, agg=c["agg"][:i] + c["agg"][i + 1:])
        for i in range(len(c["lin"])):
            yield dict(c, lin=c["lin"][:i] + c["lin"][i + 1:])
        for i, r in enumerate(c["rows"]):
            for j, v in enumerate(r):
                if abs(v) > 1:
                    yield dict(c, rows=c["rows"][:i] + [r[:j] + [v // 2 if v > 0 else -(-v // 2)] + r[j + 1:]] + c["rows"][i + 1:])

    def check(self, c, env):
        import random
        rows, lin, agg = c["rows"], set(c["lin"]), c["agg"]
        n = len(rows[0])
        text = "%d %d\n" % (len(rows), n) + "".join(" ".join(map(str, r)) + "\n" for r in rows)
        if lin:
            text += "linearity %d %s\n" % (len(lin), " ".join(str(i + 1) for i in sorted(lin)))
        with Scratch({}) as s:
            r = guard(s.run(env.exe("aggregate"), [str(i + 1) for i in agg], stdin=text))
        if r.rc != 0:
            raise Fail("aggregate failed (status %d): %s" % (r.rc, tail(r.err)))
        from c_convert import read_latte
        N, R, L = read_latte(r.out, "aggregate")
        slack = [i for i in sorted(agg) if i not in lin]
        if N != n + len(slack) or len(R) != len(rows) - len(agg) + len(slack) + 1:
            raise Fail("aggregate writes %d rows in %d columns for %d of %d rows (%d inequalities)" % (len(R), N, len(agg), len(rows), len(slack)))
        # The new system, at a point with the slacks determined by the old rows, must hold exactly when the old one does;
        # and with other slacks it must not hold.
        rng = random.Random(c["seed"])
        hi = [0] * (n - 1)
        for j in range(1, n):
            hi[j - 1] = min([rows[i][0] // -rows[i][j] for i in agg if rows[i][j] < 0] + [4]) + 1
        if math.prod(h + 2 for h in hi) <= 4000:
            pts = list(itertools.product(*[range(-1, h + 1) for h in hi]))
        else:
            pts = sorted(set(tuple(rng.choice([rng.randint(-1, h), rng.randint(-1, min(h, 3))]) for h in hi) for _ in range(200)))
        if len(pts) > 200:
            pts = rng.sample(pts, 200)
        if len(c.get("x0", [])) == n - 1 and all(abs(x) < 10 ** 8 for x in c["x0"]):
            pts.append(tuple(c["x0"]))
        (e,) = [i for i in L if any(R[i][j] for j in range(n, N)) or not slack][-1:] or [-1]
        sat = lambda rr, ll, x: all((v == 0 if i in ll else v >= 0) for i, v in enumerate(r[0] + sum(a * b for a, b in zip(r[1:], x)) for r in rr))
        yes = no = 0
        for x in pts:
            ok = sat(rows, lin, x)
            yes += ok
            no += not ok
            sl = [rows[i][0] + sum(a * b for a, b in zip(rows[i][1:], x)) for i in slack]
            if sat(R, L, list(x) + sl) != ok:
                raise Fail("aggregate %s of %s (equations %s): the point %s with slacks %s %s, but the aggregated system says otherwise" % (
                    [i + 1 for i in agg], rows, sorted(lin), x, sl, "is a solution" if ok else "is no solution"))
            if ok and e >= 0 and min(x) >= 0 and yes <= 40:
                # from a solution along every exchange of two variables which the aggregated equation does not notice
                y, co = list(x) + sl, R[e][1:]
                if any(v.denominator != 1 for v in map(F, co)):
                    raise Fail("aggregate writes the fractional row %s" % R[e])
                co = [int(v) for v in co]
                for k in range(N - 1):
                    for l in range(N - 1):
                        if k == l or not co[k] or not co[l]:
                            continue
                        g = math.gcd(co[k], co[l])
                        for t in (1, -1):
                            z = list(y)
                            z[k] += t * co[l] // g
                            z[l] -= t * co[k] // g
                            if min(z) < 0 or not sat(R, L, z):
                                continue
                            sz = [rows[i][0] + sum(a * b for a, b in zip(rows[i][1:], z)) for i in slack]
                            if z[n - 1:] != sz or not sat(rows, lin, z[:n - 1]):
                                raise Fail("aggregate %s of %s (equations %s): %s with slacks %s is accepted by the aggregated system (from %s, %s)" % (
                                    [i + 1 for i in agg], rows, sorted(lin), z[:n - 1], z[n - 1:], x, sl))
            for _ in range(3 if slack else 0):
                s2 = [max(0, v + rng.choice([-1, 1, 0, rng.randint(-9, 9)])) for v in sl]
                if s2 != sl and sat(R, L, list(x) + s2):
                    raise Fail("aggregate %s of %s (equations %s): wrong slacks %s accepted at %s (right ones: %s)" % (
                        [i + 1 for i in agg], rows, sorted(lin), s2, x, sl))
        return (jhash(c) if len(agg) > 1 and yes and no else None), ["agg=%d" % len(agg), "slacks=%d" % len(slack), "d=%d" % (n - 1)]
