"""Builds the code under test from /repo's current working tree, outside /repo.

Every run compiles every source file afresh into a private directory; ccache
(content addressed, under /verif/build/ccache, warmed by setup_cmd) makes the
unchanged ones cheap.  Nothing is reused on the strength of a time stamp.
"""
import glob, hashlib, json, os, shutil, subprocess, sys, sysconfig, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
VENV_PY = "/opt/vp/venv/bin/python"
JOBS = os.cpu_count() or 4

FLAVORS = {
    # library assertions on: an out-of-range vector access aborts instead of
    # silently reading a neighbour
    "assert": ["-O1", "-g1", "-fPIC", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-fPIC", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address,bounds,signed-integer-overflow,integer-divide-by-zero",
             "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer"],
}
COMMON = ["-std=c++17", "-w", "-Werror=return-type"]
LIBS = ["-lboost_filesystem", "-lboost_system", "-lboost_thread", "-lboost_timer",
        "-lboost_chrono", "-lboost_program_options", "-lcfitsio", "-lfftw3",
        "-lopenblas", "-lgsl", "-lpthread", "-ldl"]


def env():
    e = dict(os.environ)
    e.update(CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="3G",
             CCACHE_COMPRESS="1", LANG="C.UTF-8", LC_ALL="C.UTF-8",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             CCACHE_NOHASHDIR="1", CCACHE_SLOPPINESS="time_macros")
    e.pop("CCACHE_DISABLE", None)
    return e


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, env=env(), **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def _compiler():
    return (["ccache"] if shutil.which("ccache") else []) + ["g++"]


def includes():
    gen = os.path.join(BUILD, "include")
    d = os.path.join(gen, "RedshiftLibrary")
    os.makedirs(d, exist_ok=True)
    txt = ('#define CPF_REDSHIFT_REVISION "verif"\n\nnamespace NSEpic\n{\n'
           '  const char* get_version();\n}\n')
    f = os.path.join(d, "version.h")
    if not os.path.exists(f) or open(f).read() != txt:
        open(f, "w").write(txt)
    return ["-I" + gen, "-I" + os.path.join(REPO, "RedshiftLibrary"),
            "-I" + os.path.join(VERIF, "harness"), "-isystem", "/usr/include/eigen3"]


def lib_sources():
    src = sorted(glob.glob(os.path.join(REPO, "RedshiftLibrary/src/lib/**/*.cpp"),
                           recursive=True))
    # the one part that needs LBFGSpp, which is not installed (as in /opt/vp/build.sh)
    return [s for s in src if not s.endswith("/lbfgsbfitter.cpp")]


class Builder:
    def __init__(self, tag):
        self.dir = os.path.join(BUILD, "run", "%s-%d" % (tag, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.times = {}

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _compile(self, src, obj, flags):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        _run(_compiler() + flags + COMMON + includes() + ["-c", src, "-o", obj])
        return obj

    def lib(self, flavor="assert"):
        t = time.time()
        includes()
        flags = FLAVORS[flavor]
        srcs = lib_sources()
        root = os.path.join(REPO, "RedshiftLibrary/src/lib")
        jobs = []
        for s in srcs:
            o = os.path.join(self.dir, "obj-" + flavor, os.path.relpath(s, root) + ".o")
            jobs.append((s, o, flags))
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(lambda j: self._compile(*j), jobs))
        a = os.path.join(self.dir, "libamazed-%s.a" % flavor)
        _run(["ar", "rcs", a] + objs)
        self.times["lib-" + flavor] = round(time.time() - t, 1)
        self._objs = objs
        return a

    def harness(self, name, flavor="assert", lib=None, extra=()):
        """compile /verif/harness/<name>.cpp and link it with the library"""
        t = time.time()
        lib = lib or self.lib(flavor)
        flags = FLAVORS[flavor]
        o = self._compile(os.path.join(VERIF, "harness", name + ".cpp"),
                          os.path.join(self.dir, name + "-" + flavor + ".o"), flags + list(extra))
        exe = os.path.join(self.dir, name + "-" + flavor)
        san = [f for f in flags if f.startswith("-fsanitize")]
        _run(["g++"] + san + [o, lib, "-o", exe] + LIBS)
        self.times["link-" + name] = round(time.time() - t, 1)
        return exe

    def python(self, lib=None):
        """SWIG-wrap the library; returns a directory to put on PYTHONPATH that
        holds a copy of /repo's pylibamazed package with the fresh extension"""
        t = time.time()
        lib = lib or self.lib("assert")
        top = os.path.join(self.dir, "pypath")
        pkg = os.path.join(top, "pylibamazed")
        src = os.path.join(REPO, "pylibamazed/python/pylibamazed")
        shutil.copytree(src, pkg, ignore=shutil.ignore_patterns(
            "_redshift*.so", "redshift.py", "resources", "__pycache__"))
        shutil.copytree(os.path.join(REPO, "pylibamazed/auxdir/pylibamazed"),
                        os.path.join(pkg, "resources"))
        # a fixed path, so that ccache recognises an unchanged wrapper
        wrap = os.path.join(BUILD, "swig", "redshift_wrap.cpp")
        os.makedirs(os.path.dirname(wrap), exist_ok=True)
        inc = os.path.join(REPO, "RedshiftLibrary")
        _run(["swig", "-python", "-c++", "-I" + os.path.join(BUILD, "include"), "-I" + inc,
              "-outdir", pkg, "-o", wrap, os.path.join(inc, "RedshiftLibrary/redshift.i")], cwd=REPO)
        out = subprocess.run([VENV_PY, "-c",
            "import numpy,sysconfig;print(numpy.get_include());"
            "print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
            capture_output=True, text=True, check=True).stdout.split()
        o = os.path.join(self.dir, "redshift_wrap.o")
        # compile under a stable name so that ccache can recognise it
        _run(_compiler() + ["-O0", "-g0", "-w", "-fPIC", "-std=c++17", "-I" + out[0], "-I" + out[1]]
             + includes() + ["-I" + os.path.join(REPO, "RedshiftLibrary/RedshiftLibrary"),
                             "-c", wrap, "-o", o])
        so = os.path.join(pkg, "_redshift" + out[2])
        _run(["g++", "-shared", o, "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-o", so] + LIBS)
        self.times["python"] = round(time.time() - t, 1)
        return top


if __name__ == "__main__":
    b = Builder("manual")
    a = b.lib(sys.argv[1] if len(sys.argv) > 1 else "assert")
    print(a, b.times)
