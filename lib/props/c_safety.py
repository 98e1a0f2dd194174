"""C20: sanitizer runs and histories of runs in one directory, over the generators and oracles of the other properties."""
import random
import cli, build
from _common import *
from pbt import evaluate
import c_count, c_formats, c_ehrhart, c_integrate, c_optimize, c_knapsack, c_convert, c_triangulate, c_cones, c_hilbert

SOURCES = {}
for _m in (c_count, c_formats, c_ehrhart, c_integrate, c_optimize, c_knapsack, c_convert, c_triangulate, c_cones, c_hilbert):
    for _x in vars(_m).values():
        if isinstance(_x, type) and issubclass(_x, Prop) and _x.ID and _x.__module__ == _m.__name__:
            SOURCES[_x.ID] = _x()
WEIGHTS = {"C01": 2, "C02": 4, "C03": 2, "C04": 1, "C05": 2, "C06": 1, "C07": 2, "C08": 2, "C09": 2, "C10": 2, "C11": 2, "C12": 1, "C13": 2,
           "C14": 2, "C15": 2, "C16": 2}
# names of the temporary and result files of the programs, left behind by an interrupted or different run
GARBAGE = ["Check_emp.lp", "Check_emp.lps", "Check_emp.out", "Check_red", "Check_red.ine", "Check_red.out", "latte_cdd.ine", "latte_cdd.ext", "latte_cdd.out",
           "latte_cdd.ead", "latte_cdd.jd", "latte_cdd.ecd", "latte_cdd.icd", "latte_cdd.ddl", "latte_cdd.dex", "latte_lrs.ine", "latte_lrs.ext", "latte.topcom.in",
           "latte_dec", "numOfLatticePoints", "numOfUnimodularCones", "in.cdd", "in.ext.tmp", "latte_nonredundant_input", "Check_emp.ine", "IntegerHull",
           "tri.in", "tri.out", "latte-boundary.ine", "temp", "totalTime"]


class AsanEnv:
    def __init__(self, env, flavour):
        self.bins, self.seed, self.tier, self.flavour = env.bins, env.seed, env.tier, flavour

    def exe(self, name, flavour="plain"):
        return os.path.join(self.bins[self.flavour], name)


def draw(rng, tier, ids=None):
    ids = ids or list(WEIGHTS)
    pid = gens.wd(rng, [(WEIGHTS[i], i) for i in ids])
    P = SOURCES[pid]
    for _ in range(100):
        c = P.gen(rng, tier)
        if c is not None and P.valid(c):
            return [pid, c]
    return None


class C20(Prop):
    ID = "C20"
    PROGRAMS = sorted({p for P in SOURCES.values() for p in P.PROGRAMS})
    RANDOM = True
    ASAN = True
    CASES = {"quick": 2500, "thorough": 30000}
    RULE = "run of a program on valid input under sanitizers, with perturbed fresh memory, or as part of a history in one directory; distinct by input and mode"

    def gen(self, rng, tier):
        mode = rng.choice(["asan", "asan", "asan", "perturb", "history", "history"])
        n = rng.randint(2, 4) if mode == "history" else 1
        ids = [i for i in WEIGHTS if i != "C15"] if mode == "history" else None
        steps = [draw(rng, tier, ids) for _ in range(n)]
        if None in steps:
            return None
        g = [[f, rng.choice(["empty", "text", "number", "truncated"])] for f in GARBAGE if rng.random() < .3] if mode == "history" and rng.random() < .6 else []
        return {"mode": mode, "steps": steps, "garbage": g, "perturb": rng.choice([1, 85, 170, 254])}

    def valid(self, c):
        return c["mode"] in ("asan", "perturb", "history") and 1 <= len(c["steps"]) <= 5 and all(
            len(s) == 2 and SOURCES[s[0]].valid(s[1]) for s in c["steps"]) and 0 <= c["perturb"] < 256 and (c["mode"] == "history" or len(c["steps"]) == 1) and \
            all(g[0] in GARBAGE and g[1] in ("empty", "text", "number", "truncated") for g in c["garbage"])

    def shrinks(self, c):
        S = c["steps"]
        for i in range(len(S)):
            if len(S) > 1:
                yield dict(c, steps=S[:i] + S[i + 1:])
        for i in range(len(c["garbage"])):
            yield dict(c, garbage=c["garbage"][:i] + c["garbage"][i + 1:])
        for i, (pid, x) in enumerate(S):
            for y in SOURCES[pid].shrinks(x):
                yield dict(c, steps=S[:i] + [[pid, y]] + S[i + 1:])

    def step(self, pid, x, env):
        """Runs the check of another property; returns its failure message, or None."""
        try:
            SOURCES[pid].check(x, env)
        except Fail as e:
            return str(e)
        except (Inconclusive, Discard):
            return ""
        except Exception:       # output that cannot be interpreted: that property's business
            return ""
        return None

    def check(self, c, env):
        mode = c["mode"]
        try:
            cli.OVERRIDE.clear()
            if mode == "asan":
                cli.OVERRIDE.update(asan=True)
                e = AsanEnv(env, "asan")
            else:
                e = env
            if mode == "perturb":
                cli.OVERRIDE.update(env={"MALLOC_PERTURB_": str(c["perturb"])})
            if mode == "history":
                base = cli.Scratch()
                for f, kind in c["garbage"]:
                    base.put(f, {"empty": "", "text": "H-representation\nbegin\n 3 3 integer\n 1 2", "number": "17\n", "truncated": "==========\nCone.\nCoef"}[kind])
            seen = []
            for i, (pid, x) in enumerate(c["steps"]):
                if mode == "history":
                    cli.OVERRIDE["dir"] = base.dir
                    for f in ("in.rat", "sub", "c"):      # results that a run need not write
                        try:
                            os.unlink(os.path.join(base.dir, f))
                        except OSError:
                            pass
                m = self.step(pid, x, e)
                cli.OVERRIDE.pop("dir", None)
                if m == "":
                    seen.append(pid + "?")
                    continue
                seen.append(pid)
                if m is None:
                    continue
                if mode == "asan":
                    if "Sanitizer" in m or "runtime error" in m or "crashed" in m:
                        raise Fail("[%s] %s" % (pid, m))
                    continue        # a wrong answer is that property's business
                # does it also fail in a fresh directory with fresh memory as it comes?
                save = dict(cli.OVERRIDE)
                cli.OVERRIDE.clear()
                again = self.step(pid, x, env)
                cli.OVERRIDE.update(save)
                if again is None:
                    raise Fail("[%s] only %s: %s" % (pid, "after the earlier runs in the same directory" if mode == "history" else
                                                    "with MALLOC_PERTURB_=%d" % c["perturb"], m))
        finally:
            cli.OVERRIDE.clear()
            if mode == "history":
                base.__exit__()
        if all(s.endswith("?") for s in seen):
            raise Discard("outside the domains")
        return jhash(c), ["mode=" + mode] + seen + (["leftover-files"] if c["garbage"] else [])
