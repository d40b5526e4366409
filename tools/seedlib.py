"""Creates /verif/seeded/<id> from tools/seeds/*.py and confirms them.
  seedlib.py make ID...      write patch.diff, demo, meta
  seedlib.py test ID...      in a private mount namespace with a scratch copy of /repo: build, stable tests, demo, and the property's check
"""
import os, sys, json, glob, subprocess, shutil, importlib.util
S = {}
CI = "src/C-interface/"
DEMO = r'''#!/bin/bash
# exit 0 when the library behaves, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -std=gnu99 -w -I src/C-interface -I src -I src/C-interface/dense -I src/C-interface/ellpack -I src/C-interface/ellblock -I src/C-interface/csr "$d/demo.c" -o "$t/demo" _build/src/libbml.a -lopenblas -fopenmp -lpthread -lm || exit 2
cd "$t"
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-2}
timeout 60 ./demo
'''
HEAD = r'''#include "bml.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <complex.h>
#include <omp.h>
static int bad = 0;
#define CHECK(c) do { if (!(c)) { printf("failed: %s (line %d)\n", #c, __LINE__); bad = 1; } } while (0)
static double g(bml_matrix_t *A, int i, int j) { double *r = bml_get_row(A, i); double x = r[j]; bml_free_memory(r); return x; }
static bml_matrix_t *mk(int type, int N, int M, const double *a) { return bml_import_from_dense(type, double_real, dense_row_major, N, M, (void *)a, 0.0, sequential); }
static void set(bml_matrix_t *A, int i, int j, double x) { bml_set_element(A, i, j, &x); }
static void setn(bml_matrix_t *A, int i, int j, double x) { bml_set_element_new(A, i, j, &x); }
'''


def seed(id, prop, edits, demo, needs, breaks):
    S[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


def load():
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds", "*.py"))):
        sp = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(sp)
        m.seed = seed
        m.HEAD = HEAD
        m.CI = CI
        sp.loader.exec_module(m)


def make(i):
    s = S[i]
    d = f"/verif/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    w = f"/tmp/seed/mk-{i}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    os.makedirs("/tmp/seed", exist_ok=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for e in s["edits"]:
        f, a, b = e[:3]
        nth = e[3] if len(e) > 3 else None
        p = os.path.join(w, CI, f)
        t = open(p).read()
        n = t.count(a)
        if nth is None:
            assert n == 1, (i, f, n, a)
            t = t.replace(a, b)
        else:
            assert n > nth, (i, f, n, a)
            k = -1
            for _ in range(nth + 1):
                k = t.index(a, k + 1)
            t = t[:k] + b + t[k + len(a):]
        open(p, "w").write(t)
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    vg = s["demo"].startswith("VALGRIND")
    if vg:
        s["demo"] = s["demo"][8:]
    if s["demo"].startswith("THREADS"):
        s["demo"] = s["demo"][7:].replace("for (int rep = 0", "omp_set_num_threads(8);\n    for (int rep = 0")
    open(d + "/demo.sh", "w").write(DEMO.replace("timeout 60 ./demo", "timeout 200 valgrind -q --error-exitcode=9 ./demo") if vg else DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.c", "w").write(HEAD + "int main(void)\n{\n" + s["demo"] + "\n    return bad;\n}\n")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


INNER = r'''
set -u
mount --bind /tmp/seed/repo /repo
cd /repo
git checkout -q -- . ; git clean -qfd
bash /opt/vp/build.sh >/tmp/seed/b0.log 2>&1 || { echo BUILD0-FAILS; exit 1; }
for i in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  bash /verif/seeded/$i/demo.sh >/tmp/seed/d0.log 2>&1; d0=$?
  git apply /verif/seeded/$i/patch.diff || { echo "$i APPLY-FAILS"; continue; }
  if ! bash /opt/vp/build.sh >/tmp/seed/b1.log 2>&1; then echo "$i BUILD-FAILS"; tail -3 /tmp/seed/b1.log; fi
  t=$(bash /opt/vp/test.sh /tmp/seed/o.json 2>&1 | tail -1)
  bash /verif/seeded/$i/demo.sh >/tmp/seed/d1.log 2>&1; d1=$?
  VERIF_SEED=1 VERIF_TIER=quick VERIF_WORK=/tmp/seed/work /verif/check.py $P >/tmp/seed/c.log 2>&1; c=$?
  v=$(grep -c "^VIOLATION" /tmp/seed/c.log); nf=$(grep -c "no-failing-input" /tmp/seed/c.log)
  echo "$i $P demo0=$d0 demo1=$d1 tests=[$t] check=$c violations=$v nofail=$nf"
  grep -v "^VIOLATION" /tmp/seed/c.log | cut -c1-220 | head -${SHOW:-4}
  git apply -R /verif/seeded/$i/patch.diff
  bash /opt/vp/build.sh >/tmp/seed/b0.log 2>&1
done
'''


def test(ids):
    if not os.path.exists("/tmp/seed/repo"):
        subprocess.check_call(["cp", "-a", "/repo", "/tmp/seed/repo"])
    h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    subprocess.check_call(["git", "-C", "/tmp/seed/repo", "checkout", "-q", "--", "."])
    subprocess.check_call(["git", "-C", "/tmp/seed/repo", "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", "/tmp/seed/repo", "reset", "-q", "--hard", h])
    subprocess.call(["unshare", "-m", "bash", "-c", INNER, "x"] + ids)


if __name__ == "__main__":
    load()
    cmd, ids = sys.argv[1], sys.argv[2:] or sorted(S)
    if cmd in ("make", "all"):
        for i in ids:
            make(i)
    if cmd in ("test", "all"):
        test(ids)
