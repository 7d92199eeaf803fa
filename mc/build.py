"""Builds the four native extension modules of /repo's *current working tree* into a scratch folder.

Runs under CPython (python3).  The .pyx files are translated by the very Cython that the repository's own
build uses (0.29.37, from /opt/pypyvenv), executed by CPython because it is ten times faster there, and
compiled with g++ with the flags setup.py gives.  Results are cached by a hash of everything that goes in
(sources, flags, this file); the cache folder is git-ignored.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("ACV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
VENV = "/opt/pypyvenv"
SITE = VENV + "/lib/pypy3.9/site-packages"
NPINC = SITE + "/numpy/core/include"
SUFFIX = ".pypy39-pp73-x86_64-linux-gnu.so"
CY = ["cyext_acv", "cyext_acv_nopa", "cyext_acv_cache"]
PARALLEL = ["cyext_acv", "cyext_acv_cache"]          # the modules with parallel loops
WRAP = ["memcpy", "__memcpy_chk", "memmove", "memset", "memcmp", "malloc", "calloc", "free", "realloc",
        "_Znwm", "_Znam", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"]
BASEFLAGS = ["-fPIC", "-shared", "-DNDEBUG", "-w", "-fopenmp", "-pthread", "-I" + NPINC, "-I/usr/include/pypy3.9"]


def build_root():
    for d in (os.path.join(VERIF, "build"), "/tmp/acv-verif-build"):
        try:
            os.makedirs(d, exist_ok=True)
            if os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    raise SystemExit("no writable build folder")


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sources():
    r = {}
    for sub in ("cext_acv", "cyext_acv"):
        top = os.path.join(REPO, "acv_explainers", sub)
        for fn in sorted(os.listdir(top)):
            if fn.endswith((".pyx", ".pxd", ".pxi", ".cc", ".h", ".hpp", ".c")) or (fn.endswith(".cpp") and fn[:-4] not in CY):
                r[sub + "/" + fn] = read(os.path.join(top, fn))
    return r


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b":" + p)
    return h.hexdigest()[:20]


def shim(root):
    d = os.path.join(root, "cyshim")
    os.makedirs(os.path.join(d, "numpy"), exist_ok=True)
    for dst, src in ((os.path.join(d, "Cython"), SITE + "/Cython"),
                     (os.path.join(d, "numpy", "__init__.pxd"), SITE + "/numpy/__init__.pxd")):
        if not os.path.islink(dst):
            try:
                os.symlink(src, dst)
            except FileExistsError:
                pass
    open(os.path.join(d, "numpy", "__init__.py"), "a").close()
    return d


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise RuntimeError("build step failed: " + " ".join(cmd[:6]))


def cython(src, out, sh):
    env = dict(os.environ, PYTHONPATH=sh, PYTHONDONTWRITEBYTECODE="1")
    run(["/opt/veriftools/pyvenv/bin/python", "-W", "ignore", "-c",
         "import sys; from Cython.Compiler.Main import main; sys.argv=['cython','--cplus',%r,'-o',%r]; main(command_line=1)" % (src, out)],
        env=env, cwd=os.path.dirname(out))


def build(variant="plain", opt="-O1", only=None, extra=(), post=None):
    """Returns a folder with the importable extension modules.  Each module is cached on its own.

    variant "sched": the modules with parallel loops are compiled with memory-access callbacks and linked against the
    controlled runtime mc/sched/sched.cc instead of libgomp; the others are as in "plain"."""
    schedlib = None
    root = build_root()
    srcs = sources()
    common = digest(read(os.path.abspath(__file__)), "plain", opt, repr(tuple(extra)))
    if variant == "sched":
        schedsrc = os.path.join(HERE, "sched", "sched.cc")
        schedlib = os.path.join(root, "libsched-%s.so" % digest(read(schedsrc)))
    headers = digest(*[k + "\0" + v.decode("latin1") for k, v in srcs.items() if not k.endswith((".pyx", ".cc"))])
    want = {}
    for m in CY + ["cext_acv"]:
        if only and m not in only:
            continue
        key = "cext_acv/_cext.cc" if m == "cext_acv" else "cyext_acv/%s.pyx" % m
        others = b"" if m != "cext_acv" else b"".join(v for k, v in srcs.items() if k.startswith("cext_acv/"))
        mode = schedlib if variant == "sched" and m in PARALLEL else "plain"
        want[m] = (key, digest(common, mode, headers, srcs[key], others))
    lib = os.path.join(root, "lib-" + digest(repr(sorted((m, h) for m, (k, h) in want.items()))))
    lock = open(os.path.join(root, ".lock-" + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(lib, ".ok")):
            return lib
        sh = shim(root)
        tmp = os.path.join(root, "tmp-%s-%d" % (variant, os.getpid()))
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(os.path.join(tmp, "s"))
        for sub in ("cext_acv", "cyext_acv"):
            shutil.copytree(os.path.join(REPO, "acv_explainers", sub), os.path.join(tmp, "s", sub))

        if schedlib and not os.path.exists(schedlib):
            part = schedlib + ".part%d" % os.getpid()
            run(["g++", "-O2", "-fPIC", "-shared", "-pthread", "-w", schedsrc, "-ldl", "-o", part])
            os.rename(part, schedlib)

        def one(m):
            key, h = want[m]
            so = os.path.join(root, "%s-%s.so" % (m, h))
            if os.path.exists(so):
                return so
            part_ = ".part%d" % os.getpid()
            src = os.path.join(tmp, "s", key)
            if m == "cext_acv":
                cpp = src
            else:
                cpp = os.path.join(tmp, m + ".cpp")
                cython(src, cpp, sh)
            flags = [opt] + list(extra) + ["-I" + os.path.dirname(src)]
            if schedlib and m in PARALLEL:
                obj = os.path.join(tmp, m + ".o")
                run(["g++", "-c", "-fsanitize=thread", "-g1"] + [f for f in BASEFLAGS if f != "-shared"] + flags + [cpp, "-o", obj])
                run(["g++", "-shared", "-pthread", obj, schedlib, "-Wl,-rpath," + root] + ["-Wl,--wrap=" + w for w in WRAP] + ["-o", so + part_])
            else:
                run(["g++"] + BASEFLAGS + flags + [cpp, "-o", so + part_])
            os.rename(so + part_, so)
            return so

        with ThreadPoolExecutor(4) as ex:
            sos = dict(zip(want, ex.map(one, want)))
        part = lib + ".part%d" % os.getpid()
        shutil.rmtree(part, ignore_errors=True)
        os.makedirs(part)
        for m, so in sos.items():
            try:
                os.link(so, os.path.join(part, m + SUFFIX))
            except OSError:
                shutil.copy(so, os.path.join(part, m + SUFFIX))
        if schedlib:
            open(os.path.join(part, "libsched.path"), "w").write(schedlib)
        open(os.path.join(part, ".ok"), "w").close()
        shutil.rmtree(lib, ignore_errors=True)
        os.rename(part, lib)
        shutil.rmtree(tmp, ignore_errors=True)
        return lib
    finally:
        lock.close()


if __name__ == "__main__":
    print(build())
