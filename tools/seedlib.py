"""Helper used to write planted bugs: seed(id, property, edits, needs, breaks, cpp=... or py=...)."""
import json, os, subprocess, difflib
REPO = "/repo"
SH_CPP = r'''#!/bin/bash
# exit 0: property holds in this scenario; non-zero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -r -- "$t"' EXIT
g++ -std=c++17 -O0 -w -I/repo/RedshiftLibrary -isystem /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" \
  -L/repo/_build -lcpf-redshift -Wl,-rpath,/repo/_build -lgsl -lopenblas -lfftw3 -lcfitsio \
  -lboost_filesystem -lboost_system -lboost_thread -lboost_timer -lboost_chrono -lboost_program_options -lpthread || exit 9
cd "$t" && timeout 120 ./demo
'''
SH_PY = r'''#!/bin/bash
# exit 0: property holds in this scenario; non-zero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -r -- "$t"' EXIT
cd "$t" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/pylibamazed/python timeout 200 /opt/vp/venv/bin/python "$d/demo.py"
'''
CPP_HEAD = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>
#define REQUIRE(c) do { if (!(c)) { std::printf("broken: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)
'''
def seed(ID, pid, edits, needs, breaks, cpp=None, py=None, extra=None):
    d = "/verif/seeded/" + ID
    os.makedirs(d, exist_ok=True)
    byf = {}
    for f, old, new in edits:
        byf.setdefault(f, []).append((old, new))
    patch = ""
    for f, l in byf.items():
        src = open(os.path.join(REPO, f)).read()
        dst = src
        for old, new in l:
            assert dst.count(old) == 1, (ID, f, dst.count(old), old)
            dst = dst.replace(old, new)
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(
            src.splitlines(True), dst.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    json.dump(dict(property=pid, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if cpp:
        open(d + "/demo.cpp", "w").write(CPP_HEAD + cpp)
        open(d + "/demo.sh", "w").write(SH_CPP)
    else:
        open(d + "/demo.py", "w").write(py)
        open(d + "/demo.sh", "w").write(SH_PY)
    for k, v in (extra or {}).items():
        open(d + "/" + k, "w").write(v)
    os.chmod(d + "/demo.sh", 0o755)
    print("seed", ID)
