#!/usr/bin/env python3
"""build_py.py REPO BUILD: the Python package from REPO's working tree, built in BUILD/py.

The shared library is linked from the objects of the plain build, which the C interface used as
reference (libcabi.so) shares, so any difference between the two comes from Python, Cython or
interface.cpp.  REPO is only read.
"""
import fcntl, filecmp, glob, os, shutil, subprocess, sys

REPO, BUILD = sys.argv[1:3]
PY = "/opt/vp/venv/bin/python3"
OUT = os.path.join(BUILD, "py")
PLAIN = os.path.join(BUILD, "plain")


def run(*cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(" ".join(cmd), r.stdout[-5000:], sep="\n")
        sys.exit(1)
    return r.stdout


os.makedirs(OUT, exist_ok=True)
with open(os.path.join(BUILD, "py.lock"), "w") as lk:
    fcntl.flock(lk, fcntl.LOCK_EX)
    src = os.path.join(REPO, "python", "arcticpy")
    dst = os.path.join(OUT, "python", "arcticpy")
    wanted = set()
    changed = False
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x not in ("__pycache__", "build")]
        for f in files:
            if f.endswith((".py", ".pyx", ".pxd", ".cpp", ".hpp")) and f != "wrapper.cpp":
                rel = os.path.relpath(os.path.join(d, f), src)
                wanted.add(rel)
                t = os.path.join(dst, rel)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                if not os.path.exists(t) or not filecmp.cmp(os.path.join(d, f), t, shallow=False):
                    shutil.copyfile(os.path.join(d, f), t)
                    changed |= not f.endswith(".py")
    for d, dirs, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in wanted and rel != "wrapper.cpp":
                os.remove(os.path.join(d, f))
    hdr = os.path.join(OUT, "headers.txt")
    now = "".join(p + open(p, errors="replace").read() for p in sorted(glob.glob(os.path.join(REPO, "include", "*.hpp"))))
    if not os.path.exists(hdr) or open(hdr).read() != now:
        open(hdr, "w").write(now)
        changed = True
    # the library, from the objects of the plain variant
    objs = sorted(glob.glob(os.path.join(PLAIN, "lib_*.o")))
    have = {os.path.basename(p)[:-4] for p in glob.glob(os.path.join(REPO, "src", "*.cpp"))} - {"main"}
    objs = [o for o in objs if os.path.basename(o)[4:-2] in have]
    lib = os.path.join(OUT, "libarctic.so")
    if not os.path.exists(lib) or any(os.path.getmtime(o) > os.path.getmtime(lib) for o in objs):
        run("g++", "-shared", "-fopenmp", *objs, "-o", lib, "-lgsl", "-lgslcblas", "-lm")
    suffix = run(PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))").strip()
    ext = os.path.join(OUT, "python", "wrapper" + suffix)
    if changed or not os.path.exists(ext):
        if os.path.exists(ext):
            os.remove(ext)
        inc = run(PY, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include())").split()
        cpp = os.path.join(OUT, "wrapper.cpp")
        run(PY, "-m", "cython", "-3", "--cplus", os.path.join(dst, "wrapper.pyx"), "-o", cpp)
        flags = ["-std=c++17", "-O2", "-fPIC", "-w", "-fopenmp", "-DNPY_NO_DEPRECATED_API=0", "-I" + os.path.join(REPO, "include"),
                 "-I" + os.path.join(dst, "include")] + ["-I" + i for i in inc]
        jobs, o = [], []
        for f in [cpp] + sorted(glob.glob(os.path.join(dst, "src", "*.cpp"))):
            o.append(os.path.join(OUT, "w_" + os.path.basename(f)[:-4] + ".o"))
            jobs.append(subprocess.Popen(["g++", *flags, "-c", f, "-o", o[-1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for j in jobs:
            t = j.communicate()[0]
            if j.returncode:
                print(t[-5000:])
                sys.exit(1)
        run("g++", "-shared", *o, "-o", ext + ".tmp", "-L" + OUT, "-larctic", "-lgsl", "-lgslcblas", "-lm", "-Wl,-rpath," + OUT)
        os.rename(ext + ".tmp", ext)
