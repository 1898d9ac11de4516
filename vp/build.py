"""Builds the harness from /repo's working tree, outside /repo."""
import os, subprocess, sys, hashlib, glob, shutil, concurrent.futures as cf
REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class BuildError(Exception): pass

def libsources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src/lib")):
        r += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(r)

def run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout))

def build_driver(work, mains, san="address", opt="-O1", extra=()):
    """mains: {exe name: source path}. Returns {exe name: path}."""
    os.makedirs(work, exist_ok=True)
    flags = ["-std=c++17", "-g1", opt, "-fno-omit-frame-pointer", "-DPARTIO_USE_ZLIB", "-w", "-pthread", "-ftrivial-auto-var-init=pattern",
             "-I" + os.path.join(REPO, "src/lib")] + list(extra)
    if san: flags.append("-fsanitize=" + san)
    jobs = []
    objs = []
    for s in libsources():
        o = os.path.join(work, hashlib.md5(s.encode()).hexdigest()[:10] + "_" + os.path.basename(s) + ".o")
        objs.append(o); jobs.append(["g++"] + flags + ["-c", s, "-o", o])
    mo = {}
    for n, s in mains.items():
        o = os.path.join(work, n + ".main.o"); mo[n] = o
        jobs.append(["g++"] + flags + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda c: run(c, None), jobs))
    res = {}
    for n in mains:
        exe = os.path.join(work, n)
        run(["g++"] + flags + ["-rdynamic", mo[n]] + objs + ["-o", exe, "-lz", "-ldl"], None)
        res[n] = exe
    return res

def build_python(work, san="address"):
    """The Python module of the working tree. Returns the directory it is in and the environment to use it with."""
    d = os.path.join(work, "py"); os.makedirs(d, exist_ok=True)
    run(["swig", "-python", "-includeall", "-c++", "-outdir", d, "-I" + os.path.join(REPO, "src/lib"), "-o", os.path.join(d, "wrap.cpp"), os.path.join(REPO, "src/py/partio.i")], None)
    inc = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig; print(sysconfig.get_paths()['include']); print(sysconfig.get_config_var('EXT_SUFFIX'))"], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    flags = ["-std=c++17", "-g1", "-O1", "-fPIC", "-fno-omit-frame-pointer", "-DPARTIO_USE_ZLIB", "-w", "-pthread", "-ftrivial-auto-var-init=pattern", "-I" + os.path.join(REPO, "src/lib"), "-I" + inc[0]]
    if san: flags.append("-fsanitize=" + san)
    objs = []; jobs = []
    for s in [os.path.join(d, "wrap.cpp")] + libsources():
        o = os.path.join(d, hashlib.md5(s.encode()).hexdigest()[:10] + ".o"); objs.append(o); jobs.append(["g++"] + flags + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda c: run(c, None), jobs))
    run(["g++", "-shared"] + flags + objs + ["-o", os.path.join(d, "_partio" + inc[1]), "-lz"], None)
    for o in objs: os.remove(o)
    lib, cxx = [subprocess.run(["g++", "-print-file-name=" + x], stdout=subprocess.PIPE, text=True).stdout.strip() for x in ("libasan.so", "libstdc++.so")]   # the latter for its exceptions
    return d, {"PYTHONPATH": d + ":" + os.path.join(REPO, "src/tools"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONMALLOC": "malloc", "LD_PRELOAD": lib + " " + cxx if san else ""}
