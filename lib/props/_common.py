import re, os, sys
from fractions import Fraction as F
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import Prop, Fail, Inconclusive, Discard, jhash
from cli import Scratch
import geom, gens


def tail(s, n=400):
    i = max(s.find("ERROR: AddressSanitizer"), s.find("runtime error:") - 120)
    if i >= 0:      # a sanitizer report: its head and its first frames
        return s[i:i + 300].replace("\n", " | ") + " ... " + " ".join(re.findall(r"#\d+ 0x\w+ in ([\w:~]+)[^\n]*?(?:/latte/)?([\w.]+:\d+)?\n", s[i:])[0:0]) + \
            " ".join(re.findall(r" in ([^\s(]+)", s[i:])[:8])
    return s[-n:].replace("\n", " | ")


def guard(r, what=None):
    """Crashes and CPU exhaustion on valid input."""
    name = what or " ".join(r.cmd)
    if r.timeout:
        if r.rc == -9 and "hard rss" in r.err:
            raise Inconclusive("memory limit")
        raise Inconclusive("time limit: " + name)
    if r.rc == -25:
        raise Inconclusive("output size limit")
    if r.rc < 0 or r.rc == 99:
        if "bad_alloc" in r.err or "out of memory" in r.err.lower():
            raise Inconclusive("memory limit")
        if "Implementation restriction hit" in r.err:
            raise Inconclusive("stated implementation restriction")
        raise Fail("%s crashed (status %d): %s" % (name, r.rc, tail(r.err)))
    return r


def number_file(s, name="numOfLatticePoints"):
    t = s.get(name)
    if t is None:
        return None
    t = t.strip()
    if re.fullmatch(r"-?\d+", t):
        return int(t)
    return t


def count(env, files, args, s=None, flavour="plain", expect_fail=False):
    """Runs count; returns the number it reports (an int), or raises Fail."""
    own = s is None
    s = s or Scratch(files)
    try:
        r = guard(s.run(env.exe("count", flavour), args, asan=flavour == "asan"))
        n = number_file(s)
        if r.rc != 0 and not (n == 0 and "mpty" in r.err):
            raise Fail("count %s failed (status %d) on valid input: %s" % (" ".join(args), r.rc, tail(r.err)))
        if not isinstance(n, int):
            raise Fail("count %s reported no number (%r)" % (" ".join(args), n))
        if r.rc == 0:
            m = re.findall(r"^(-?\d+)\s*$", r.out, re.M)
            if m and int(m[-1]) != n:
                raise Fail("count %s prints %s but writes %d" % (" ".join(args), m[-1], n))
        return n
    finally:
        if own:
            s.__exit__()


def polylabels(p, V, dim):
    L = ["d=%d" % p["d"], "codim=%d" % (p["d"] - dim) if dim >= 0 else "empty"] + list(p["tags"])
    if V and any(x.denominator != 1 for v in V for x in v):
        L.append("rational-vertex")
    if p["eqs"]:
        L.append("has-equations")
    return L


def config(rng, full=True, redundancy=False):
    """A random documented configuration of count, as a list of options (redundancy: pass the result through tame)."""
    o = []
    ch = lambda *xs: rng.choice(xs)
    dec = ch("", "", "--dual", "--irrational-primal", "--irrational-all-primal")
    if dec:
        o.append(dec)
    x = rng.random()
    if x < .3:
        o.append("--maxdet=%d" % ch(1, 2, 3, 5, 10, 100, 1000))
    elif x < .4:
        o.append("--no-decomposition")
    sub = ch("", "--polynomial", "--exponential", "--exponential")
    if sub:
        o.append(sub)
    if rng.random() < .3:
        o.append("--compute-vertex-cones=" + ch("cdd", "lrs", "4ti2"))
    if rng.random() < .3:
        o.append("--redundancy-check=" + (ch("full-cddlib", "cddlib", "none") if redundancy else "full-cddlib"))
    if rng.random() < .4:
        o.append("--triangulation=" + ch("cddlib", "4ti2", "topcom", "cdd", "delone"))
        if rng.random() < .3:
            o.append("--triangulation-max-height=%d" % ch(2, 3, 10, 100, 5000, 10000, 50000))
        if rng.random() < .2:
            o.append("--triangulation-bias=%d" % ch(0, 10, 50, 100))
    if rng.random() < .3:
        o.append("--dualization=" + ch("cdd", "4ti2"))
    if rng.random() < .2 and full and "primal" not in dec and sub != "--exponential" \
            and not any(y == "--no-decomposition" or y.startswith("--maxdet=") and y != "--maxdet=1" for y in o):
        o.append("--homog")
    if rng.random() < .15:
        o.append("--smith-form=ilio")
    if rng.random() < .2:
        o.append("--random-seed=%d" % rng.randint(1, 10 ** 6))
    if rng.random() < .1:
        o.append("--count-lattice-points")
    rng.shuffle(o)
    return o


def redundancy(o, p):
    """Weaker redundancy checks only for the inputs that the manual allows them for."""
    if "--redundancy-check=none" in o and not gens.irredundant(p):
        o = [x for x in o if x != "--redundancy-check=none"] + ["--redundancy-check=cddlib"]
    if "--redundancy-check=cddlib" in o and any("primal" in x for x in o) and not gens.irredundant(p):
        o = [x for x in o if x != "--redundancy-check=cddlib"]
    # the installed topcom crashes on the one-dimensional configurations that redundant rows of a segment lead to
    if "--triangulation=topcom" in o and "--redundancy-check=cddlib" in o and gens.oracle(p)[1] <= 1 and not gens.irredundant(p):
        o = [x for x in o if x != "--triangulation=topcom"]
    return o


def tame(o, p, limit=30000):
    """Options that enumerate parallelepipeds, limited to inputs where that is a small enumeration."""
    o = redundancy(o, p)
    if not any(x == "--no-decomposition" or x.startswith("--maxdet=") for x in o):
        return o
    V, dim = gens.oracle(p)
    if dim < 1 or geom.cone_cost(p["ineqs"], p["eqs"], V, dim) <= limit:
        return o
    m = {1: 1000, 2: 100, 3: 8}.get(dim, 3)
    out = []
    for x in o:
        if x == "--no-decomposition":
            continue
        if x.startswith("--maxdet="):
            x = "--maxdet=%d" % min(m, int(x[9:]))
        out.append(x)
    return out


def high_dim(share, **kw):
    """Adds cases in dimension 5 to 12 with closed-form oracles (hd.py): the class defines hd_gen, hd_check and, if needed, hd_valid."""
    import hd

    def deco(cls):
        gen, valid, shrinks, check = cls.gen, cls.valid, cls.shrinks, cls.check
        need = {k: kw[k] for k in ("full", "integral") if k in kw}

        def gen2(self, rng, tier):
            if rng.random() >= share:
                return gen(self, rng, tier)
            c = self.hd_gen(rng, lambda **k2: hd.gen(rng, **dict(kw, **k2)))
            return c

        def valid2(self, c):
            if "hd" not in c:
                return valid(self, c)
            return hd.valid(c["hd"], **need) and (not hasattr(self, "hd_valid") or self.hd_valid(c))

        def shrinks2(self, c):
            if "hd" not in c:
                yield from shrinks(self, c)
                return
            for i in range(len(c.get("opts", []))):
                yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:])
            for h in hd.shrinks(c["hd"]):
                yield dict(c, hd=h)

        def check2(self, c, env):
            if "hd" not in c:
                return check(self, c, env)
            S = hd.Spec(c["hd"])
            k, l = self.hd_check(c, S, env)
            return k, ["hd-dim=%d" % S.d, "hd-factors=%d" % len(S.f)] + (["hd-lower"] if S.dim < S.d else []) + l
        cls.gen, cls.valid, cls.shrinks, cls.check = gen2, valid2, shrinks2, check2
        return cls
    return deco
