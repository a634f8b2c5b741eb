"""Builds cosmic_profiles from /repo's *current working tree* into a scratch directory.

The package directory is copied, so /repo is never written; every extension is cythonized and compiled
from the copied sources with the flags of /repo's own setup script (-fopenmp), in parallel.  The OpenMP run-time
stays dynamically linked, which is what lets verif's scheduler shim (shim/gompshim.c) take its place.
"""
import glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CFLAGS = ["-fno-strict-overflow", "-DNDEBUG", "-g0", "-O2", "-w", "-fPIC", "-fopenmp"]


def scratch_root():
    for d in ("/tmp", os.environ.get("TMPDIR", "/tmp")):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def copy_sources(dst):
    src = os.path.join(REPO, "cosmic_profiles")
    def ignore(d, names):
        out = []
        for n in names:
            p = os.path.join(d, n)
            if n in ("__pycache__", "for_docs", "tests", "example_scripts"):
                out.append(n)
            elif n.endswith((".so", ".o", ".pyc")):
                out.append(n)
            elif n.endswith(".c") and os.path.exists(p[:-2] + ".pyx"):
                out.append(n)
        return out
    shutil.copytree(src, os.path.join(dst, "cosmic_profiles"), ignore=ignore)


def build(dst, extra_cflags=(), extra_ldflags=(), only=None, opt=None, quiet=True, shim=False):
    """Copy + compile into dst.  Returns the list of built modules.  Raises RuntimeError on a compile failure."""
    os.makedirs(dst, exist_ok=True)
    if not os.path.isdir(os.path.join(dst, "cosmic_profiles")):
        copy_sources(dst)
    pyx = sorted(os.path.relpath(p, dst) for p in glob.glob(dst + "/cosmic_profiles/**/*.pyx", recursive=True))
    if only is not None:
        pyx = [p for p in pyx if os.path.splitext(os.path.basename(p))[0] in only]
    if shim:      # the controlled OpenMP run time takes libgomp's place, and sees the instrumented memory accesses
        lib = os.path.abspath(os.path.join(dst, "libmcshim.so"))
        r = subprocess.run(["gcc", "-O2", "-w", "-shared", "-fPIC", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shim", "gompshim.c"), "-o", lib, "-lpthread", "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("the shim does not compile: " + r.stderr[-2000:])
    import sysconfig, numpy
    inc = ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(), "-I" + dst]
    flags = list(CFLAGS)
    if opt is not None:
        flags = [f for f in flags if f != "-O2"] + [opt]
    env = dict(os.environ)
    env["PATH"] = "/opt/venv/bin:/usr/bin:/bin"
    env["PYTHONDONTWRITEBYTECODE"] = "1"

    def one(p):
        c = p[:-4] + ".c"
        so = p[:-4] + ".so"
        r = subprocess.run([PY, "-m", "cython", "--module-name", p[:-4].replace("/", "."), p, "-o", c], cwd=dst, env=env, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("cython failed on %s:\n%s%s" % (p, r.stdout[-3000:], r.stderr[-3000:]))
        o = p[:-4] + ".o"
        r = subprocess.run(["gcc"] + flags + list(extra_cflags) + inc + ["-c", c, "-o", o],
                           cwd=dst, env=env, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("gcc failed on %s:\n%s" % (p, r.stderr[-3000:]))
        if shim:
            subprocess.run(["objcopy"] + [a for f in ("memcpy", "memmove", "memset", "free") for a in ("--redefine-sym", "%s=shim_%s" % (f, f))] + [o], cwd=dst, check=True)
        omp = [lib, "-Wl,-rpath," + os.path.dirname(lib)] if shim else ["-fopenmp"]
        r = subprocess.run(["gcc", "-shared", o] + omp + list(extra_ldflags) + ["-o", so, "-lm"],
                           cwd=dst, env=env, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("link failed on %s:\n%s" % (p, r.stderr[-3000:]))
        os.unlink(os.path.join(dst, o))
        os.unlink(os.path.join(dst, c))
        return p

    with ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(one, pyx))


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1]), time.time() - t)
