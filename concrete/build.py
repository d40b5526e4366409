"""Builds the instrumented library from /repo's current sources."""
import os, re, sys, subprocess, glob, hashlib, shutil, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import cfront

HERE = os.path.dirname(os.path.abspath(__file__))


def sources():
    """the sources the build compiles: those the CMake lists of each directory name (distributed2d is only
    compiled with MPI)"""
    ci = os.path.join(cfront.REPO, cfront.CI)
    out = []
    for d in ("", "dense", "ellpack", "ellblock", "csr"):
        names = set(re.findall(r"[A-Za-z0-9_]+\.c\b", open(os.path.join(ci, d, "CMakeLists.txt")).read()))
        for b in sorted(names):
            f = os.path.join(ci, d, b)
            if not os.path.exists(f) or "elemental" in b:
                continue
            if b.endswith("_typed.c"):
                for p in cfront.PRECS:
                    out.append((f, p))
            else:
                out.append((f, None))
    ib = os.path.join(cfront.REPO, "src/internal-blas")
    for f in sorted(glob.glob(os.path.join(ib, "*.c"))):
        for p in cfront.PRECS:
            out.append((f, p))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(cfront.REPO, "src/C-interface/**/*.[ch]"), recursive=True) +
                    glob.glob(os.path.join(cfront.REPO, "src/internal-blas/*.[ch]")) +
                    glob.glob(os.path.join(cfront.REPO, "src/*.h")) + glob.glob(os.path.join(HERE, "*.[ch]"))):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def defs(p=None):
    out = []
    for d in cfront.defines(p):
        for n in ("GEMM", "AXPY", "SCAL", "LACPY"):
            if d[2:].startswith("C_") and d[5:].startswith(n + "="):
                d = d.split("=")[0] + "=vp_" + d[4].lower() + n.lower()
        out.append(d)
    return out


def build(verbose=False):
    out = os.path.join(os.environ.get("VERIF_WORK", "/verif/work"), "lib-" + tree_hash())
    so = os.path.join(out, "libvp.so")
    if os.path.exists(so):
        return so
    work = os.path.dirname(out)
    os.makedirs(work, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="b-", dir=work)
    inc = ["-I" + os.path.join(cfront.HERE, "include"), "-I" + os.path.join(cfront.REPO, cfront.CI),
           "-I" + os.path.join(cfront.REPO, "src")]
    base = ["gcc", "-std=gnu99", "-O1", "-w", "-fPIC", "-fopenmp", "-c"] + inc
    inst = ["-fsanitize=thread", '-DBML_VERSION="x"', "-include", os.path.join(HERE, "shim.h")]

    def one(job):
        i, (f, p) = job
        o = os.path.join(tmp, f"{i}.o")
        cmd = base + inst + defs(p) + ["-U_POSIX_C_SOURCE", "-D_GNU_SOURCE", f, "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(f"{f} ({p}): {r.stderr[:1500]}")
        return o
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, enumerate(sources())))
    except RuntimeError:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    for x in ("rt.c", "raw.c"):
        o = os.path.join(tmp, x + ".o")
        r = subprocess.run(["gcc", "-std=gnu99", "-O1", "-w", "-fPIC", "-c"] + inc + cfront.defines() +
                           ["-U_POSIX_C_SOURCE", "-D_GNU_SOURCE", os.path.join(HERE, x), "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(r.stderr[:2000])
        objs.append(o)
    r = subprocess.run(["gcc", "-shared", "-o", os.path.join(tmp, "libvp.so")] + objs + ["-llapack", "-lblas", "-lm"],
                       capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[:2000])
    for o in objs:
        os.unlink(o)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return so


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(), time.time() - t)
