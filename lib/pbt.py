"""Small property-based testing engine: seeded generation in parallel, verdict replay, shrinking,
known-finding replay, evidence.  A run is a pure function of the code under test and VERIF_SEED
(case i of property P uses Random("P:seed:i")); time only bounds how many cases are tried."""
import argparse, hashlib, json, multiprocessing as mp, os, random, re, resource, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# results given up because of what the code under test produced
OVERSIZE = ("memory limit", "output size limit", "lost all series precision", "output too large for the oracle",
            "stated implementation restriction", "pole at the test point")


class Fail(Exception):
    """The property is violated by this case."""


class Inconclusive(Exception):
    """This case settles nothing (oracle too big, wall-clock limit, ...)."""


class Discard(Exception):
    """The case is outside the property's domain."""


class Prop:
    ID = None
    PROGRAMS = []
    HARNESSES = []
    RANDOM = False      # control the random numbers of the programs
    ASAN = False
    CASES = {"quick": 300, "thorough": 3000}
    SECONDS = {"quick": 150, "thorough": 600}
    RULE = ""
    ASSUMPTIONS = []
    LEVEL = "exploration"

    def gen(self, rng, tier):
        raise NotImplementedError

    def check(self, case, env):
        """Returns (key, labels): key hashes the distinct non-trivial case, or None when trivial.
        Raises Fail / Inconclusive / Discard."""
        raise NotImplementedError

    def valid(self, case):
        return True

    def shrinks(self, case):
        return ()


class Env:
    def __init__(self, bins, seed=0, tier="quick"):
        self.bins = bins
        self.seed = seed
        self.tier = tier

    def exe(self, name, flavour="plain"):
        return os.path.join(self.bins[flavour], name)


def jhash(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


CASE_SECONDS = 200
MEMORY = 3 << 30


class TimeLimit(BaseException):
    pass


def _alarm(*a):
    raise TimeLimit()


NOISE = r"\s*(size = [\d x]+|Number Type = \w+|free\(\)[^|]*|munmap_chunk[^|]*|double free[^|]*|corrupted [^|]*|malloc[^|]*|realloc[^|]*|)\s*"


def outside(message, case):
    """The installed cddlib itself (not part of LattE) writes before its arrays in its floating-point phase on some
    matrices that are nearly singular in double precision.  A crash in the middle of a cddlib call, on a case with
    an integer of at least eight digits, says nothing about LattE."""
    if not re.search(r"\d{8}", json.dumps(case)):
        return False
    if "scdd_gmp" in message and re.search("exit status (34304|35584)", message):
        return True
    m = re.search(r"crashed \(status -(?:6|11)\)", message) and \
        re.search(r".*(?:hidden equalities using cddlib|edges with cddlib)\.\.\.(.*)$", message, re.S)
    if m:
        return all(re.fullmatch(NOISE, x) for x in m.group(1).split("|"))
    # the redundancy check of V-representations announces nothing before it calls cddlib
    m = re.search(r"crashed \(status -(?:6|11)\).*(?:Invocation: |Not performing check for empty)[^|]*((?:\|[^|]*)*)$", message, re.S)
    return bool(m) and all(re.fullmatch(NOISE, x) or "Not performing check for empty" in x for x in m.group(1).split("|"))


def evaluate(prop, case, env):
    """-> (status, info, labels); status in ok/fail/inconclusive/discard/error"""
    import cli
    saved = cli.RAND
    if "_rand" in case:
        m, x = case["_rand"]
        cli.RAND = {"LV_RAND": "%d:%d" % (m, x)} if m else {}
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_SECONDS)
        key, labels = prop.check(case, env)
        if case.get("_rand", [0])[0]:
            labels = list(labels) + ["controlled random numbers, mode %d" % case["_rand"][0]]
        return ("ok", key, labels)
    except Fail as e:
        if outside(str(e), case):
            return ("inconclusive", "the installed cddlib crashed", [])
        return ("fail", str(e), [])
    except Inconclusive as e:
        return ("inconclusive", str(e), [])
    except Discard as e:
        return ("discard", str(e), [])
    except MemoryError:
        return ("inconclusive", "memory limit of the check", [])
    except TimeLimit:
        return ("inconclusive", "oracle time limit", [])
    except OSError as e:
        return ("inconclusive", "system error: %s" % e, [])
    except Exception:
        return ("error", traceback.format_exc(), [])
    finally:
        signal.alarm(0)
        cli.RAND = saved


_P = _E = None


def _init(prop, env, base):
    global _P, _E
    _P, _E = prop, env
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    import cli
    cli._base = tempfile.mkdtemp(prefix="w", dir=base)
    os.chmod(cli._base, 0o711)


def case_of(prop, seed, tier, i):
    rng = random.Random("%s:%s:%d" % (prop.ID, seed, i))
    for _ in range(200):
        c = prop.gen(rng, tier)
        if c is not None and prop.valid(c):
            if prop.RANDOM:     # what the programs' random generator returns (mode 0: the C library's)
                r = random.Random("%s:%s:%d:rand" % (prop.ID, seed, i))
                c["_rand"] = [r.choice([0, 1, 1, 2, 2, 3, 4]), r.randint(0, 10 ** 9)]
            return json.loads(json.dumps(c))
    return None


def _one(a):
    seed, tier, i, deadline = a
    if time.time() > deadline:
        return (i, None, "skipped", None, [])
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_SECONDS)
        c = case_of(_P, seed, tier, i)
        signal.alarm(0)
    except (TimeLimit, MemoryError):
        return (i, None, "inconclusive", "generator limit", [])
    except Exception:
        return (i, None, "error", "generator: " + traceback.format_exc(), [])
    if c is None:
        return (i, None, "discard", "generator gave up", [])
    t = time.time()
    s, info, labels = evaluate(_P, c, _E)
    return (i, c, s, info, labels, time.time() - t)


def generic_shrinks(x):
    """Smaller variants of a JSON value."""
    if isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        for y in (0, 1, -1, x // 2, -x, x - 1 if x > 0 else x + 1):
            if y != x and (abs(y) < abs(x) or (y == -x and x < 0)):
                yield y
    elif isinstance(x, list):
        n = len(x)
        k = n // 2
        while k >= 1:
            for i in range(0, n, k):
                yield x[:i] + x[i + k:]
            k //= 2
        for i, e in enumerate(x):
            for y in generic_shrinks(e):
                yield x[:i] + [y] + x[i + 1:]
    elif isinstance(x, dict):
        for k, v in x.items():
            if k[:1] == "_":
                continue
            for y in generic_shrinks(v):
                z = dict(x)
                z[k] = y
                yield z


def size(x):
    return len(json.dumps(x))


def shrink(prop, case, env, seconds=75):
    end = time.time() + seconds
    best = case
    improved = True
    evals = 0
    seen = set()
    while improved and time.time() < end:
        improved = False
        import itertools
        norand = [{k: v for k, v in best.items() if k != "_rand"}] if "_rand" in best else []
        for c in itertools.chain(norand, prop.shrinks(best), generic_shrinks(best)):
            if time.time() > end:
                break
            h = jhash(c)
            if h in seen:
                continue
            seen.add(h)
            try:
                if not prop.valid(c):
                    continue
            except Exception:
                continue
            evals += 1
            s, info, _ = evaluate(prop, c, env)
            if s == "fail":
                best = c
                improved = True
                break
    return best, evals


def load_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == pid]
    except OSError:
        return []


def main(prop, bins_builder):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--n", type=int)
    ap.add_argument("--all-failures", action="store_true")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    a = ap.parse_args(sys.argv[2:])
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    t0 = time.time()
    bins = bins_builder()
    tb = time.time() - t0
    env = Env(bins, seed, tier)
    top = tempfile.mkdtemp(prefix="lv%d-" % os.getpid(), dir="/tmp")
    os.chmod(top, 0o711)
    import cli
    cli._base = tempfile.mkdtemp(prefix="m", dir=top)
    os.chmod(cli._base, 0o711)
    try:
        return _main(prop, a, tier, seed, env, top, t0, tb)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def _main(prop, a, tier, seed, env, top, t0, tb):
    if a.replay or a.case is not None:
        if a.replay:
            with open(a.replay) as f:
                d = json.load(f)
            case = d.get("case", d)
        else:
            case = case_of(prop, seed, tier, a.case)
            print(json.dumps(case))
        s, info, labels = evaluate(prop, case, env)
        print(s, info, labels)
        if s in ("fail", "error") or (a.replay and d.get("hang") and s == "inconclusive" and info.split(":")[0][:80] in OVERSIZE + ("time limit",)):
            print("VIOLATION property=%s replay=%s" % (prop.ID, a.replay or "case"))
            return 1
        return 0

    # 1. known findings: replay each listed input, say so, suppress nothing else
    for k in load_findings(prop.ID):
        if k.get("status") != "known":
            continue
        s, info, _ = evaluate(prop, dict(k["case"], _known=True), env)
        if s == "fail":
            print("KNOWN-FINDING: property=%s %s" % (prop.ID, k["what"]))
        else:
            print("note: known finding of %s no longer fails (%s): %s" % (prop.ID, s, k["what"]))

    n = a.n or prop.CASES[tier]
    deadline = t0 + prop.SECONDS[tier]
    stats = {"ok": 0, "fail": 0, "inconclusive": 0, "discard": 0, "error": 0, "skipped": 0}
    labels, keys, samples, reasons, fails, errors = {}, set(), [], {}, [], []
    slow = 0.0
    hangs = []
    oversize = {}
    # regression corpus: shrunk inputs of earlier violations (fixed defects, planted bugs)
    jobs = [(seed, tier, i, deadline) for i in range(n)]
    pool = mp.get_context("fork").Pool(a.jobs, initializer=_init, initargs=(prop, env, top))
    reg = []
    rp = os.path.join(VERIF, "regressions", prop.ID + ".json")
    if os.path.exists(rp):
        with open(rp) as f:
            reg = json.load(f)
    try:
        for c, (s, info, lb) in zip(reg, pool.imap(_reg, reg)):
            stats[s] += 1
            labels["regression-corpus"] = labels.get("regression-corpus", 0) + 1
            if s == "fail":
                fails.append((-1, c, info))
            elif s == "error":
                errors.append((c, info))
        it = pool.imap_unordered(_one, jobs, chunksize=1)
        while True:
            try:
                r = it.next(timeout=max(1, deadline + CASE_SECONDS - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:     # a worker was lost
                reasons["lost worker"] = 1
                break
            i, c, s, info, lb = r[:5]
            stats[s] += 1
            if len(r) > 5:
                slow = max(slow, r[5])
            if s == "ok":
                for l in lb:
                    labels[l] = labels.get(l, 0) + 1
                if info is not None:
                    h = info if isinstance(info, str) else jhash(info)
                    if h not in keys and (len(samples) < 6):
                        samples.append({"index": i, "case": c})
                    keys.add(h)
            elif s == "fail":
                fails.append((i, c, info))
                if len(fails) >= (10 ** 9 if a.all_failures else 8):
                    break
            elif s == "error":
                errors.append((c, info))
                if len(errors) > 20:
                    break
            elif s in ("inconclusive", "discard"):
                if s == "inconclusive" and info.startswith("time limit"):
                    hangs.append((i, c, info))
                    if len(hangs) >= 8 and not a.all_failures:
                        break
                k = info.split(":")[0][:80]
                if k in OVERSIZE:
                    oversize.setdefault(k, []).append((i, c, info))
                reasons[k] = reasons.get(k, 0) + 1
    finally:
        pool.terminate()
        pool.join()
    violation = None
    fails.sort(key=lambda f: (f[0], size(f[1])))
    if a.all_failures:
        for f in fails:
            print("FAIL", f[0], f[2], json.dumps(f[1]))
        for c, info in errors:
            print("ERROR", info, json.dumps(c))
    unstable = 0
    for i, c, info in fails:
        # replay 3x before believing it
        if all(evaluate(prop, c, env)[0] == "fail" for _ in range(3)):
            small, ev = shrink(prop, c, env)
            if not all(evaluate(prop, small, env)[0] == "fail" for _ in range(3)):
                small = c
            msg = evaluate(prop, small, env)[1]
            violation = (save(prop, seed, i, msg, small, c), msg, small)
            break
        unstable += 1
    # Non-termination: cases are sized to take well under a second, so a run in which at least three
    # cases and 2 % of all cases exhaust 60 s of CPU each is a violation (an isolated one is not).
    if not violation and len(hangs) >= 3 and len(hangs) * 50 >= stats["ok"]:
        i, c, info = min(hangs, key=lambda h: size(h[1]))
        violation = (save(prop, seed, i, info, c, c, hang=True), "does not terminate; " + info, c)
    # The same for results given up for their size: rare (below 1 %) on valid code.
    if not violation:
        for why, l in sorted(oversize.items()):
            if len(l) >= 10 and len(l) * 20 >= stats["ok"]:
                i, c, info = min(l, key=lambda h: size(h[1]))
                violation = (save(prop, seed, i, info, c, c, hang=True), "%d cases ended in: %s" % (len(l), info), c)
                break
    # Output the oracle cannot make sense of (its parsers raise) is a violation too.
    if not violation and not fails:
        for c, info in errors:
            if c is not None and all(evaluate(prop, c, env)[0] == "error" for _ in range(2)):
                msg = "the output cannot be interpreted: " + info.strip().split("\n")[-1]
                violation = (save(prop, seed, -1, msg + "\n" + info, c, c), msg, c)
                break
    ev = {
        "property": prop.ID, "tier": tier, "seed": seed, "level": prop.LEVEL,
        "coverage": {
            "evaluations": stats["ok"] + stats["fail"], "distinct_nontrivial": len(keys), "rule": prop.RULE,
            "samples": samples[:5] or [{"note": "none"}], "labels": dict(sorted(labels.items())),
            "generated": n, "inconclusive": stats["inconclusive"], "discarded": stats["discard"],
            "not_run_time_limit": stats["skipped"], "reasons": reasons,
            "unstable_failures": unstable, "slowest_case_s": round(slow, 2), "build_s": round(tb, 1)},
        "assumptions": prop.ASSUMPTIONS, "wall_s": round(time.time() - t0, 1),
        "violations": [{"replay": violation[0], "message": violation[1]}] if violation else []}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %s nontrivial=%d %.0fs (build %.0fs, slowest case %.1fs)" % (
        prop.ID, tier, seed, {k: v for k, v in stats.items() if v}, len(keys), time.time() - t0, tb, slow))
    if os.environ.get("LV_VERBOSE"):
        print(json.dumps(ev["coverage"]["labels"], indent=0), reasons)
    if violation:
        print("violation: %s\n  case: %s" % (violation[1], json.dumps(violation[2])[:2000]))
        print("VIOLATION property=%s replay=%s" % (prop.ID, violation[0]))
        return 1
    if errors:
        print("CHECK ERROR (no verdict):\n" + errors[0][1] + json.dumps(errors[0][0])[:1500], file=sys.stderr)
        return 2
    return 0


def save(prop, seed, i, msg, small, c, hang=False):
    rd = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s.json" % (prop.ID, jhash(small)))
    with open(path, "w") as f:
        json.dump({"property": prop.ID, "seed": seed, "index": i, "message": msg, "hang": hang, "case": small,
                   "original": c, "replay": "bash /verif/run.sh %s --replay %s" % (prop.ID, path)}, f, indent=1)
    return path


def _reg(c):
    return evaluate(_P, c, _E)
