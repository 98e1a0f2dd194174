"""Runs one LattE program in a scratch directory of its own, as an unprivileged user, with resource limits."""
import os, shutil, subprocess, tempfile, resource, signal, glob

NOBODY = 65534
CPU_LIMIT = 60        # seconds of CPU; the generated cases need well under one
WALL_LIMIT = 150
MEM = 3 << 30
_base = None


def base():
    global _base
    if _base is None:
        _base = tempfile.mkdtemp(prefix="lv%d-" % os.getpid(), dir="/tmp")
        os.chmod(_base, 0o711)
    return _base


def cleanup():
    global _base
    if _base:
        shutil.rmtree(_base, ignore_errors=True)
        _base = None


class Run:
    __slots__ = ("rc", "out", "err", "dir", "timeout", "cmd")

    @property
    def crashed(self):
        return self.rc < 0 or self.rc in (132, 134, 135, 136, 139, 99)

    def file(self, name):
        try:
            with open(os.path.join(self.dir, name), errors="replace") as f:
                return f.read()
        except OSError:
            return None


# Set by C20: {"asan": bool, "env": {...}, "dir": shared working directory, "wrap": command prefix}
OVERRIDE = {}
# Set by pbt for cases with a "_rand" entry: the random numbers the programs see (native/rand.cc)
RAND = {}


class Scratch:
    """with Scratch({name: text}) as s: r = s.run(exe, args)"""
    n = 0

    def __init__(self, files=None):
        Scratch.n += 1
        self.shared = OVERRIDE.get("dir")
        self.dir = self.shared or os.path.join(base(), "c%d" % Scratch.n)
        os.makedirs(self.dir, 0o777, exist_ok=bool(self.shared))
        self.root = os.geteuid() == 0
        if self.root:
            os.chown(self.dir, NOBODY, NOBODY)
        for k, v in (files or {}).items():
            self.put(k, v)

    def put(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, "w" if isinstance(text, str) else "wb") as f:
            f.write(text)
        if self.root:
            os.chown(p, NOBODY, NOBODY)

    def get(self, name):
        try:
            with open(os.path.join(self.dir, name), errors="replace") as f:
                return f.read()
        except OSError:
            return None

    def stamps(self):
        return {f.name: f.stat(follow_symlinks=False).st_mtime_ns for f in os.scandir(self.dir)}

    def written(self, name):
        """Was the file written by the last run (and not left by an earlier one)?"""
        return name in self.stamps() and self.stamps()[name] != self.before.get(name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if not self.shared:
            shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, exe, args=(), stdin=None, env=None, asan=False):
        asan = asan or OVERRIDE.get("asan", False)
        self.before = self.stamps()
        cmd = OVERRIDE.get("wrap", []) + [exe] + list(args)

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            cpu = OVERRIDE.get("cpu", CPU_LIMIT)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
            h = resource.getrlimit(resource.RLIMIT_AS)[1]
            resource.setrlimit(resource.RLIMIT_AS, (h, h) if asan else (MEM, MEM))
            if self.root:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C", "LANG": "C", "HOME": self.dir,
             "TMPDIR": self.dir}
        if asan:
            e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:hard_rss_limit_mb=3000"
            e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:print_stacktrace=1"
        e.update(RAND)
        e.update(OVERRIDE.get("env", {}))
        e.update(env or {})
        r = Run()
        r.cmd = [os.path.basename(exe)] + list(args)
        r.dir = self.dir
        r.timeout = False
        # files, not pipes: the file size limit also ends a program that prints without end
        fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        p = subprocess.Popen(cmd, cwd=self.dir, env=e, preexec_fn=pre, close_fds=True,
                             stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=fo, stderr=fe)
        try:
            p.communicate(stdin.encode() if stdin is not None else None, timeout=WALL_LIMIT)
        except subprocess.TimeoutExpired:
            r.timeout = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.communicate()
        r.rc = p.returncode
        if r.rc in (-signal.SIGXCPU, -signal.SIGKILL, 128 + signal.SIGXCPU):
            r.timeout = True
        for f in fo, fe:
            f.seek(0)
        with fo, fe:
            r.out = fo.read().decode(errors="replace")
            r.err = fe.read().decode(errors="replace")
        for t in glob.glob("/tmp/latte-%d@*" % p.pid):
            shutil.rmtree(t, ignore_errors=True)
        return r
