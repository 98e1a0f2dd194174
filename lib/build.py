"""Builds LattE's library and programs from /repo's current working tree into
/verif/.work/build/<flavour>, independent of /repo's own build system and of
/repo/_build.  Objects are cached by content (source + every header + flags)."""
import hashlib, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LATTE_REPO", "/repo")
SRC = os.path.join(REPO, "code/latte")
WORK = os.path.join(VERIF, ".work")
NATIVE = os.path.join(VERIF, "native")

LIB = """barvinok/dec.cpp barvinok/barvinok.cpp barvinok/ComputeOmega.cpp
barvinok/Triangulation.cpp barvinok/SubspaceAvoidingDecomposition.cpp count.cpp LattException.cpp
genFunction/piped.cpp genFunction/maple.cpp genFunction/IntCombEnum.cpp genFunction/matrix_ops.cpp
vertices/cdd.cpp preprocess.cpp rational.cpp cone.cpp print.cpp ramon.cpp timing.cpp dual.cpp
PolyTree.cpp RudyResNTL.cpp ResSingle.cpp Residue.cpp IntegralHull.cpp ReadingFile.cpp Grobner.cpp
ConeInfo.cpp binarySearchIP.cpp CheckEmpty.cpp banner.cpp convert.cpp todd/gmp_pow.cpp
todd/todd-expansion.cpp latte_gmp.cpp latte_ntl.cpp latte_random.cpp latte_system.cpp
latte_relocatable.cpp latte_cddlib.cpp latte_4ti2.cpp latte_4ti2_zsolve.cpp ExponentialSubst.cpp
ExponentialEhrhart.cpp ExponentialApprox.cpp Irrational.cpp ReadLatteStyle.cpp cone_consumer.cpp
triangulation/triangulate.cpp triangulation/RegularTriangulation.cpp
triangulation/RegularTriangulationWithCdd.cpp triangulation/RegularTriangulationWithCddlib.cpp
triangulation/RegularTriangulationWith4ti2.cpp triangulation/TriangulationWithTOPCOM.cpp
triangulation/BoundaryTriangulation.cpp ReadPolyhedron.cpp ProjectUp.cpp ReadSubcones.cpp
VertexConesWith4ti2.cpp DualizationWith4ti2.cpp valuation/PolytopeValuation.cpp
valuation/valuation.cpp valuation/Perturbation.cpp buildPolytopes/BuildPolytope.cpp
buildPolytopes/BuildGraphPolytope.cpp buildPolytopes/BuildHypersimplexEdgePolytope.cpp
buildPolytopes/BuildRandomPolytope.cpp buildPolytopes/GraphMaker.cpp
buildPolytopes/BuildRandomPolynomials.cpp top-knapsack/TopKnapsack.cpp
top-knapsack/PeriodicFunction.cpp integration/PolyRep.cpp integration/residue.cpp
integration/newIntegration.cpp integration/PolyTrie.cpp top-ehrhart/TopEhrhart.cpp heap.cpp
TrivialSubst.cpp normalize/ReductionTest.cpp normalize/normalize.cpp""".split()

GNULIB = "allocator areadlink careadlinkat exitfail malloca progname unistd xmalloc xalloc-die xreadlink".split()

NOT_BUILT = {"genFunction/NTL_to_LiDIA.cpp", "triangulation/SpecialSimplex.cpp"}   # need LiDIA / CPLEX


def library_sources():
    """LIB plus whatever a change of the tree adds to liblatte_la_SOURCES."""
    out = [s for s in LIB if os.path.exists(os.path.join(SRC, s))]
    try:
        text = _read(os.path.join(SRC, "Makefile.am")).decode("latin-1").replace("\\\n", " ")
    except OSError:
        return out
    import re
    for m in re.finditer(r"^(?:nodist_)?liblatte_la_SOURCES\s*\+?=(.*)$", text, re.M):
        for f in m.group(1).split():
            if f.endswith(".cpp") and f not in out and f not in NOT_BUILT and os.path.exists(os.path.join(SRC, f)):
                out.append(f)
    return out


# program -> sources (relative to code/latte)
PROGRAMS = {
    "count": ["countDriver.cpp"],
    "ehrhart": ["ehrhart.cpp"],
    "ehrhart3": ["ehrhart3.cpp", "interpolation/PolynomialInterpolation.cpp"],
    "latte-maximize": ["maximize.cpp"],
    "latte-minimize": ["minimize.cpp"],
    "latte2ine": ["latte2ine.cpp"],
    "latte2ext": ["latte2ext.cpp"],
    "polyhedron-to-cones": ["polyhedron-to-cones.cpp"],
    "aggregate": ["aggregation/aggregation.cpp"],
    "triangulate": ["triangulation/test-triangulation.cpp"],
    "triangulate-boundary": ["triangulation/triangulate-boundary.cpp"],
    "complete-boundary-triangulation": ["triangulation/complete-boundary-triangulation.cpp"],
    "integrate": ["valuation/Driver.cpp"],
    "top-ehrhart-knapsack": ["top-knapsack/Driver.cpp"],
    "ConvertCDDineToLatte": ["convertCDD_ine_to_latte.cpp"],
    "ConvertCDDextToLatte": ["convertCDD_ext_to_latte.cpp"],
    "count-linear-forms-from-polynomial": ["valuation/countLinearFormsFromPolynomialDriver.cpp"],
    "integrate_test": ["integration/integrateTest.cpp"],
    "multiply_test": ["integration/multiplyTest.cpp"],
    "compare": ["integration/versusMode.cpp"],
    "integrate_demo": ["integration/integrateDemo.cpp"],
    "BlockIntegrate": ["integration/blockInt.cpp"],
    "BurstIntegrate": ["integration/burstInt.cpp"],
    "test-todd": ["todd/test-todd.cpp"],
    "hilbert-from-rays": ["normalize/normalize_main.cpp"],
    "hilbert-from-rays-symm": ["normalize/normaliz_wrapper.cpp"],
    "test-hyperrectangle-integration": ["valuation/test/testIntegrationHyperrectanglesDriver.cpp"],
    "test-volume-for-SL": ["valuation/test/testVolumeForSLDriver.cpp"],
}
HARNESS_SOURCES = {"kernels": ["interpolation/PolynomialInterpolation.cpp"]}     # not in the library
LIBS = "-lntl -lcddgmp -l4ti2gmp -lzsolve -l4ti2util -lgmpxx -lgmp -lpthread".split()


class BuildError(Exception):
    pass


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "code"), NATIVE):
        for d, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".hh", ".inc")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, base).encode() + b"\0" + _read(p) + b"\0")
    return h.hexdigest()


FLAVOURS = {
    "plain": ["-O1", "-g0"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=vptr,alignment,enum,bool,signed-integer-overflow,shift", "-fno-sanitize-recover=all"],
}


class Builder:
    def __init__(self, flavour="plain"):
        self.flavour = flavour
        self.dir = os.path.join(WORK, "build", flavour)
        self.obj = os.path.join(self.dir, "obj")
        self.bin = os.path.join(self.dir, "bin")
        os.makedirs(self.obj, exist_ok=True)
        os.makedirs(self.bin, exist_ok=True)
        self.prefix = self.dir           # INSTALLPREFIX: the optimisers call PREFIX/bin/count
        self.flags = FLAVOURS[flavour]
        self.hh = headers_hash()
        cfg = _read(os.path.join(NATIVE, "code/config.h")).decode()
        cfg = cfg.replace('INSTALLPREFIX "/usr/local"', 'INSTALLPREFIX "%s"' % self.prefix)
        self.cfgdir = os.path.join(self.dir, "code")
        os.makedirs(os.path.join(self.cfgdir, "latte"), exist_ok=True)
        p = os.path.join(self.cfgdir, "config.h")
        if not os.path.exists(p) or _read(p).decode() != cfg:
            with open(p, "w") as f:
                f.write(cfg)
        self.common = ["-w", "-pipe", "-DHAVE_CONFIG_H", "-I" + self.cfgdir, "-I" + self.cfgdir + "/latte",
                       "-I" + NATIVE + "/code", "-I" + SRC,
                       "-I" + os.path.join(REPO, "code")]
        self.cxx = ["g++"] + self.flags + self.common + [
            '-DINSTALLDIR="%s"' % self.bin, "-I/usr/include/4ti2", "-I/usr/include/x86_64-linux-gnu/4ti2",
            "-D__STDC_LIMIT_MACROS", "-D_4ti2_GMP_"]
        self.cc = ["gcc"] + self.flags + ["-w", "-pipe", "-DHAVE_CONFIG_H", '-DEXEEXT=""', "-I" + NATIVE + "/code/gnulib",
                   "-I" + os.path.join(REPO, "code/gnulib"), "-I" + self.cfgdir]

    def _compile(self, path, cmd):
        key = _h(path, _read(path), self.hh, " ".join(cmd))
        out = os.path.join(self.obj, key + ".o")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run(cmd + ["-c", path, "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                raise BuildError("compiling %s failed:\n%s" % (path, r.stderr[-4000:]))
            os.rename(tmp, out)
        return out

    def build(self, programs, harnesses=()):
        jobs = []
        lib = [os.path.join(SRC, s) for s in library_sources()]
        gnu = [os.path.join(REPO, "code/gnulib", s + ".c") for s in GNULIB]
        progs = {}
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            libf = [ex.submit(self._compile, p, self.cxx) for p in lib]
            extra = [ex.submit(self._compile, os.path.join(NATIVE, "rand.cc"), ["g++"] + self.flags + ["-w", "-std=gnu++14"])]
            gnuf = [ex.submit(self._compile, p, self.cc) for p in gnu]
            for name in programs:
                progs[name] = [ex.submit(self._compile, os.path.join(SRC, s), self.cxx) for s in PROGRAMS[name]]
            for name in harnesses:
                progs[name] = [ex.submit(self._compile, os.path.join(NATIVE, name + ".cpp"), self.cxx)] + [
                    ex.submit(self._compile, os.path.join(SRC, s), self.cxx) for s in HARNESS_SOURCES.get(name, [])]
            libo = [f.result() for f in libf]
            extrao = [f.result() for f in extra]
            gnuo = [f.result() for f in gnuf]
            progo = {n: [f.result() for f in fs] for n, fs in progs.items()}
            key = _h(*(libo + gnuo))
            ar = os.path.join(self.dir, "liblatte-%s.a" % key)
            if not os.path.exists(ar):
                for f in os.listdir(self.dir):
                    if f.startswith("liblatte-"):
                        os.unlink(os.path.join(self.dir, f))
                tmp = ar + ".tmp"
                if os.path.exists(tmp):
                    os.unlink(tmp)
                subprocess.run(["ar", "rcs", tmp] + libo + gnuo, check=True)
                os.rename(tmp, ar)

            def link(name):
                k = _h(ar, *(progo[name] + extrao))
                out = os.path.join(self.bin, name)
                stamp = os.path.join(self.obj, name + ".stamp")
                if os.path.exists(out) and os.path.exists(stamp) and _read(stamp).decode() == k:
                    return
                r = subprocess.run(["g++"] + self.flags + progo[name] + extrao + [ar] + LIBS + ["-o", out + ".tmp"],
                                   capture_output=True, text=True)
                if r.returncode:
                    raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
                os.rename(out + ".tmp", out)
                with open(stamp, "w") as f:
                    f.write(k)
            list(ex.map(link, list(progo)))
        return self.bin

    def exe(self, name):
        return os.path.join(self.bin, name)


if __name__ == "__main__":
    import time
    t = time.time()
    fl = sys.argv[1] if len(sys.argv) > 1 else "plain"
    b = Builder(fl)
    b.build(list(PROGRAMS))
    print("built", fl, "in %.1fs" % (time.time() - t))
