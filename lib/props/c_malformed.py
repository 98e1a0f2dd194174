"""C18: corrupted input files are rejected: no number, no crash, no hang."""
import random, string
from _common import *
import c_formats, c_count

NUM = re.compile(r"-?\d+\Z")
FRAC = re.compile(r"-?\d+/\d+\Z")
BAD_TOKENS = ["x", "a1", "--3", "-", "/", "1.5", ".5", "1e3", "1,", "#", "*", "3/", "/2", "linearity", "nonnegative", "end", "begin", "NaN", "inf", "0x1", "\x00", "\xff", "1;2",
              "?", "(1)", "\x1b"]
INTS = ["0", "-1", "2147483647", "1000000", "20000", "-2147483648", "2147483648", "4294967296", "99999999999999999999", "-99999999999999999999", "x", "1.5", "a", "-"]


def classify(text, vrep, fractions=False):
    """'valid', 'malformed' or 'unclear', by the file format of the manual: a header with two integers, that many
    numbers, then keyword lines."""
    t = re.findall(r"[^ \t\n\r\v\f]+", text)

    # a plus sign, a sign after "/", or a number or keyword with no space before it: readers may differ
    if any(re.match(r"\+|.*\d[-+lLnN]|.*/-", x) for x in t):
        return "unclear"

    def integer(s):
        return int(s) if NUM.match(s) else None
    if len(t) < 2:
        return "malformed"
    m, n = integer(t[0]), integer(t[1])
    if m is None or n is None or m < 1 or n < 2:
        return "malformed"
    if m * n > len(t) - 2:
        return "malformed"
    for s in t[2:2 + m * n]:
        if NUM.match(s):
            continue
        if FRAC.match(s):
            p, q = s.split("/")
            if int(q) == 0 or not vrep and not fractions and int(p) % int(q):
                return "malformed"
            continue
        return "malformed"
    if not vrep:
        pass
    elif any(F(t[2 + i * n]) <= 0 for i in range(m)):
        return "unclear"
    i = 2 + m * n
    while i < len(t):
        if t[i] not in ("linearity", "nonnegative") or t[i] == "nonnegative" and vrep:
            return "malformed"
        top = m if t[i] == "linearity" else n - 1
        if i + 1 >= len(t):
            return "malformed"
        k = integer(t[i + 1])
        if k is None:
            return "malformed"
        if k < 0 or i + 2 + k > len(t):
            return "malformed"
        for s in t[i + 2:i + 2 + k]:
            x = integer(s)
            if x is None or not 1 <= x <= top:
                return "malformed"
        i += 2 + k
    return "valid"


def base_text(c):
    p = c["p"]
    if c["fmt"] == "vrep":
        V, dim = gens.oracle(p)
        return "%d %d\n" % (len(V), p["d"] + 1) + c_formats.vrows(V, "rational" if c["vrat"] else "scaled")
    s = gens.hrep_text(p)
    if c["nonneg"]:
        s += "nonnegative %d %s\n" % (len(c["nonneg"]), " ".join(map(str, c["nonneg"])))
    return s


def mutate(rng, text, p, vrep):
    """One structured or byte-level corruption; returns (kind, text)."""
    lines = text.split("\n")
    t = [x.split() for x in lines if x.strip()]
    m, n = len(p["ineqs"]) + len(p["eqs"]), p["d"] + 1
    if vrep:
        m = int(t[0][0])
    out = lambda: "\n".join(" ".join(x) for x in t) + "\n"
    kind = rng.choice(["truncate", "cut", "token", "token", "fraction", "drop", "insert", "header", "header", "linearity", "linearity", "nonnegative", "keyword", "trailing", "bytes",
                       "bytes", "deleterow", "empty", "row"])
    i = rng.randint(1, m)
    j = rng.randint(0, n - 1)
    if kind == "truncate":      # whole tokens
        flat = text.split()
        k = rng.randint(0, 1 + m * n)
        s = " ".join(flat[:k])
        return kind, s + rng.choice(["", "\n"])
    if kind == "cut":           # bytes
        return kind, text[:rng.randint(0, len(text) - 1)]
    if kind == "token":
        t[i][j] = rng.choice(BAD_TOKENS)
    elif kind == "fraction":
        t[i][j] = rng.choice(["1/0", "0/0", "-3/0"] + ([] if vrep else ["1/2", "-7/3", "3/2", "22/7"]))
    elif kind == "drop":
        del t[i][j]
    elif kind == "insert":
        t[i].insert(j, rng.choice(["0", "1", "-5", "7"]))
    elif kind == "header":
        h = list(t[0])
        x = rng.randint(0, 5)
        if x == 0:
            h = h[:1]
        elif x == 1:
            h = [rng.choice(INTS), h[1]]
        elif x == 2:
            h = [h[0], rng.choice(INTS + ["1"])]
        elif x == 3:
            h = [str(m + rng.choice([-2, -1, 1, 2, 3, 10])), h[1]]
        elif x == 4:
            h = [h[0], str(n + rng.choice([-2, -1, 1, 2, 3, 10]))]
        else:
            h = [h[1], h[0]] if rng.random() < .5 else []
        t[0] = h
    elif kind in ("linearity", "nonnegative"):
        top = m if kind == "linearity" else n - 1
        x = rng.randint(0, 5)
        good = [str(rng.randint(1, top)) for _ in range(rng.randint(1, 3))]
        if x == 0:
            l = [str(len(good))] + good
            l[rng.randint(1, len(good))] = rng.choice(["0", "-1", str(top + 1), str(top + 2), str(top + 100)] + INTS)
        elif x == 1:
            l = [str(len(good) + rng.randint(1, 5))] + good
        elif x == 2:
            l = [str(rng.randint(0, len(good) - 1))] + good
        elif x == 3:
            l = [rng.choice(INTS[1:])] + good
        elif x == 4:
            l = []
        else:
            l = good
        t.append([kind] + l)
    elif kind == "keyword":
        t.append([rng.choice(["linearty", "Linearity", "LINEARITY", "linearities", "nonneg", "NonNegative", "equality", "lin", "l", "linearityx", "dimension", "n" * 40, "linearity" * 5]), "1", "1"])
    elif kind == "trailing":
        t.append([rng.choice(["0", "1 2", "7 8 9", "x", "1 1 linearity", "\x00", ";"])])
    elif kind == "deleterow":
        del t[i]
    elif kind == "row":
        t.insert(i, [str(rng.randint(-3, 3)) for _ in range(n)])
    elif kind == "empty":
        return kind, rng.choice(["", " ", "\n", "\n\n", "\t", "0", "0 0", "\x00"])
    elif kind == "bytes":
        s = list(text)
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            k = rng.randrange(len(s))
            y = rng.random()
            ch = rng.choice(string.printable + "\x00\x01\x7f\xe9" + "----////   ")
            if y < .4:
                s[k] = ch
            elif y < .7:
                s.insert(k, ch)
            else:
                del s[k:k + rng.randint(1, 3)]
            if not s:
                s = ["\n"]
        return kind, "".join(s)
    return kind, out()


PROGRAM = {"count": ["count"], "count-asan": ["count"], "integrate": ["integrate", "--valuation=volume"], "ehrhart": ["count", "--ehrhart-polynomial"],
           "convert": None}


class C18(Prop):
    ID = "C18"
    PROGRAMS = ["count", "integrate", "latte2ine", "latte2ext"]
    ASAN = True
    CASES = {"quick": 20000, "thorough": 250000}
    RULE = "file that the manual's format rules out, made from a valid one; distinct by text and program"

    def gen(self, rng, tier):
        fmt = rng.choice(["latte", "latte", "latte", "vrep"])
        p = gens.polytope(rng, 4)
        if p is None:
            return None
        c = {"p": p, "fmt": fmt, "nonneg": [], "vrat": rng.random() < .5}
        if fmt == "vrep":
            V, dim = gens.oracle(p)
            if dim < p["d"]:
                return None
        elif rng.random() < .3:
            c["nonneg"] = sorted(rng.sample(range(1, p["d"] + 1), rng.randint(1, p["d"])))
        for _ in range(30):
            kind, text = mutate(rng, base_text(c), p, fmt == "vrep")
            if classify(text, fmt == "vrep") == "malformed":
                break
        else:
            return None
        prog = rng.choice(["count"] * 4 + ["count-asan", "integrate", "ehrhart", "convert"])
        opts = []
        if prog == "count" and rng.random() < .6:
            opts = config(rng)
        return {"fmt": fmt, "kind": kind, "text": text, "prog": prog, "opts": opts, "stale": rng.random() < .2}

    def valid(self, c):
        return classify(c["text"], c["fmt"] == "vrep") == "malformed"

    def shrinks(self, c):
        for i in range(len(c["opts"])):
            yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:])
        if c["stale"]:
            yield dict(c, stale=False)
        L = c["text"].split("\n")
        for i in range(len(L)):
            yield dict(c, text="\n".join(L[:i] + L[i + 1:]))
        T = c["text"].split(" ")
        for i in range(len(T)):
            yield dict(c, text=" ".join(T[:i] + T[i + 1:]))
            if NUM.match(T[i]) and T[i] not in ("0", "1"):
                for y in ("0", "1"):
                    yield dict(c, text=" ".join(T[:i] + [y] + T[i + 1:]))

    def check(self, c, env):
        vrep = c["fmt"] == "vrep"
        if classify(c["text"], vrep) != "malformed":
            raise Discard("not malformed")
        prog = c["prog"]
        asan = prog == "count-asan"
        data = c["text"].encode("utf-8")
        with Scratch({"in": data}) as s:
            if c["stale"] and prog != "convert":        # what an earlier run on another file left behind
                for f in ("Check_emp.lps", "latte_cdd.ead", "latte_cdd.ine"):
                    s.put(f, "primal_solution\nH-representation\nbegin\n 2 2 integer\n 1 1\n 1 -1\nend\n")
            if prog == "convert":
                cmd = ["latte2ext" if vrep else "latte2ine"]
                r = s.run(env.exe(cmd[0]), [], stdin=c["text"])
                if classify(c["text"], vrep, True) != "malformed":
                    raise Discard("fractions are allowed here")
                m = re.match(r"\s*(\d+)\s+(\d+)", c["text"])
                if m and (m.group(1).strip("0") == "" or m.group(2) == "1"):
                    raise Discard("converters accept degenerate sizes")
            else:
                cmd = list(PROGRAM["count" if asan else prog])
                r = s.run(env.exe(cmd[0], "asan" if asan else "plain"), cmd[1:] + (["--vrep"] if vrep else []) + c["opts"] + ["in"], asan=asan)
            what = " ".join(cmd + (["--vrep"] if vrep and prog != "convert" else []) + c["opts"])
            show = " on the malformed file (%s)\n%s" % (c["kind"], c["text"][:600])
            if r.timeout:
                raise Fail(what + " does not stop" + show)
            if (r.rc < 0 or r.rc == 99 or r.rc >= 128) and not (prog == "convert" and r.rc == -6 and "LattException" in r.err):
                raise Fail("%s crashes (status %d)%s\n%s" % (what, r.rc, show, tail(r.err)))
            if r.rc == 0:
                raise Fail("%s succeeds%s\n%s" % (what, show, tail(r.out, 200)))
            if prog == "convert":
                if "end" in r.out:
                    raise Fail("%s writes a file%s" % (what, show))
            else:
                n = s.get("numOfLatticePoints")
                if n is not None or re.search(r"^-?\d+\s*$", r.out, re.M) or "Answer" in r.out:
                    raise Fail("%s reports the number %r%s" % (what, n if n is not None else tail(r.out, 100), show))
            if not (r.err + r.out).strip():
                raise Fail("%s gives no diagnostic%s" % (what, show))
        return jhash([prog, c["text"], c["opts"]]), ["kind=" + c["kind"], "fmt=" + c["fmt"], prog] + (["options"] if c["opts"] else [])
