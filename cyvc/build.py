"""Builds everything a check needs from /repo's current working tree.

The sources of /repo/src are copied byte for byte to build/tree/src, the files
the project generates from *.in templates are regenerated there (so a stale
generated file in /repo/src is never used), and objects / AST dumps are cached
under build/ by the content hash of everything they can depend on."""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CYVC_REPO", "/repo")
BUILD = os.environ.get("CYVC_BUILD", os.path.join(VERIF, "build"))
TREE = os.path.join(BUILD, "tree")
SRC = os.path.join(TREE, "src")

INC = ["-I" + SRC, "-I/usr/include/hdf5/serial", "-I/usr/include/coin"]
for d in ("libxml2", "libxml++-2.6", None, "glibmm-2.4", None, "glib-2.0", None, "sigc++-2.0", None):
    if d: last = d; INC += ["-isystem", "/usr/include/" + d]
    else: INC += ["-isystem", "/usr/lib/x86_64-linux-gnu/%s/include" % last]
INC += ["-isystem", "/usr/include/python3.12"]
DEFS = ["-DBOOST_VERSION_MINOR=83", "-D_GLIBCXX_ASSERTIONS"]
WEAK = "/opt/cyclus/cmake/missing_weak.h"


def base_flags():
    f = ["-std=c++17", "-w"] + DEFS + INC
    # cram.c / decay.cpp of PyNE are not available offline; see DESIGN.md
    f = ["-include", os.path.join(VERIF, "cyvc", "missing_weak.h")] + f
    return f


LIBS = ("-lboost_program_options -lboost_system -lboost_filesystem -lboost_serialization -lboost_atomic "
        "-lCbc -lCbcSolver -lOsiCbc -lCgl -lOsiClp -lClp -lClpSolver -lOsi -lCoinUtils "
        "-lxml++-2.6 -lxml2 -lglibmm-2.4 -lgobject-2.0 -lglib-2.0 -lsigc-2.0 -lsqlite3 "
        "-L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5_hl -lhdf5 "
        "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -llapack -lblas -ldl -lpthread -lm").split()

SKIP = {"hdf5_back.cc", "pyinfile.cc", "pymodule.cc", "eventhooks.cc"}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()[:24]


def write_if_changed(path, data):
    if isinstance(data, str): data = data.encode()
    try:
        if open(path, "rb").read() == data: return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".%d.tmp" % os.getpid()
    open(tmp, "wb").write(data)
    os.replace(tmp, path)


def cmake_vars():
    txt = open(os.path.join(REPO, "CMakeLists.txt"), errors="replace").read()
    txt += open(os.path.join(REPO, "src", "CMakeLists.txt"), errors="replace").read()
    def var(n, d):
        m = re.search(r"(?i)\bset\s*\(\s*%s\s+\"?([^\s\")]+)" % n, txt)
        return m.group(1) if m else d
    ver = re.search(r"(?is)project\s*\(\s*cyclus\b[^)]*VERSION\s+([\d.]+)", txt)
    v = (ver.group(1) if ver else "1.6.0").split(".") + ["0", "0"]
    return {"CY_LARGE_INT": "2147483647", "CY_LARGE_DOUBLE": "1e299",
            "CY_NEAR_ZERO": "1e-08", "suffix": ".so",
            "dynamicloadlib": "unix_helper_functions.h", "cyclus_has_coin": "1", "cyclus_is_parallel": "0",
            "DATA_MODEL_VERSION": var("DATA_MODEL_VERSION", "1.6"), "CMAKE_PROJECT_VERSION_MAJOR": v[0],
            "CMAKE_PROJECT_VERSION_MINOR": v[1], "CMAKE_PROJECT_VERSION_PATCH": v[2],
            "cyclus_install_dir": "/nonexistent", "cyclus_build_dir": "/nonexistent",
            "default_allow_milps": "true", "CMAKE_INSTALL_PREFIX": "/nonexistent",
            "CYCLUS_BINARY_DIR": "/nonexistent"}


def sync_tree():
    """mirror /repo/src (C++ sources) into build/tree/src"""
    os.makedirs(SRC, exist_ok=True)
    want = set()
    gen = {os.path.basename(p)[:-3] for p in glob.glob(os.path.join(REPO, "src", "*.in"))}
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        rel = os.path.relpath(root, os.path.join(REPO, "src"))
        for f in files:
            if not f.endswith((".h", ".cc", ".cpp", ".hpp", ".c", ".i", ".inc")): continue
            if rel == "." and f in gen: continue
            if f in SKIP or f.endswith("_api.h"): continue
            p = os.path.normpath(os.path.join(SRC, rel, f))
            want.add(p)
            write_if_changed(p, open(os.path.join(root, f), "rb").read())
    cv = cmake_vars()
    for g in gen:
        if g.startswith("hdf5_back"): continue
        t = open(os.path.join(REPO, "src", g + ".in")).read()
        t = re.sub(r"@(\w+)@", lambda m: cv.get(m.group(1), ""), t)
        p = os.path.join(SRC, g)
        want.add(p)
        write_if_changed(p, t)
    # the header is only included, its generated part declares private helpers
    hb = os.path.join(REPO, "src", "hdf5_back.h.in")
    if os.path.exists(hb):
        p = os.path.join(SRC, "hdf5_back.h")
        want.add(p)
        write_if_changed(p, re.sub(r"@(\w+)@", "", open(hb).read()))
    for root, _, files in os.walk(SRC):
        for f in files:
            p = os.path.join(root, f)
            if p not in want and not f.endswith(".tmp"): os.remove(p)


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for root, _, files in sorted(os.walk(SRC)):
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".i", ".inc")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, SRC).encode() + b"\0" + open(p, "rb").read())
        h.update(open(os.path.join(VERIF, "cyvc", "missing_weak.h"), "rb").read())
        _hdr = h.hexdigest()
    return _hdr


def lib_sources():
    out = []
    for p in sorted(glob.glob(SRC + "/*.cc") + glob.glob(SRC + "/OsiCbcSolverInterface.cpp") + glob.glob(SRC + "/toolkit/*.cc")):
        out.append(p)
    return out


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0: raise BuildError("%s\n%s" % (" ".join(cmd)[:300], r.stdout[-4000:]))
    return r.stdout


OPT = ["-O0", "-fPIC"]


def pch():
    """a precompiled header of system headers -> directory to use with -I, or None"""
    h = os.path.join(VERIF, "cyvc", "pch.h")
    key = sha(open(h, "rb").read(), open(os.path.join(VERIF, "cyvc", "missing_weak.h"), "rb").read(), " ".join(OPT + DEFS))
    d = os.path.join(BUILD, "pch", key)
    out = os.path.join(d, "pch.h.gch")
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        try: run(["g++", "-std=c++17", "-w"] + OPT + DEFS + INC + ["-x", "c++-header", h, "-o", tmp])
        except BuildError: return None
        write_if_changed(os.path.join(d, "pch.h"), '#error "precompiled header not used"\n')
        os.replace(tmp, out)
    return d


_pool = None
_futs = {}


def submit(key, f, *a):
    """one pool for every compilation of a check"""
    global _pool
    if _pool is None: _pool = cf.ThreadPoolExecutor(int(os.environ.get("CYVC_JOBS", "8")))
    if key not in _futs: _futs[key] = _pool.submit(f, *a)
    return _futs[key]


def compile_one(src, flags, tag="obj", extra=b"", pchdir=None):
    key = sha(open(src, "rb").read(), header_hash(), " ".join(flags), os.path.basename(src), extra)
    out = os.path.join(BUILD, tag, key + ".o")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp.o" % os.getpid()
        done = False
        if pchdir:
            fl = flags[:]
            i = fl.index("-include")
            fl[i + 1] = os.path.join(pchdir, "pch.h")
            try:
                run(["g++"] + fl + ["-c", src, "-o", tmp])
                done = True
            except BuildError: pass
        if not done: run(["g++"] + flags + ["-c", src, "-o", tmp])
        os.replace(tmp, out)
    return out


SLOW = ("pyne.cc", "timer.cc", "sqlite_back.cc")   # compiled while the precompiled header is


def start_objs(slow=True):
    srcs = lib_sources()
    first = ("sim_init.cc", "context.cc", "matl_buy_policy.cc", "position.cc")
    srcs.sort(key=lambda p: os.path.basename(p) not in first)
    out = []
    for s in srcs:
        isslow = os.path.basename(s) in SLOW
        if slow is None or slow == isslow:
            out.append(submit(("obj", s), compile_one, s, base_flags() + OPT, "obj", b"", None if isslow else pch()))
    return out


def build_lib(jobs=8):
    objs = sorted(f.result() for f in start_objs(None))
    key = sha(*objs)
    lib = os.path.join(BUILD, "lib", "libcy-%s.so" % key)
    if not os.path.exists(lib):
        os.makedirs(os.path.dirname(lib), exist_ok=True)
        tmp = lib + ".%d.tmp" % os.getpid()
        run(["g++", "-shared", "-Wl,--allow-shlib-undefined", "-o", tmp] + objs + LIBS)
        os.replace(tmp, lib)
    return lib


def harness_obj(name, pchdir):
    src = os.path.join(VERIF, "harness", name + ".cc")
    vh = b"".join(open(p, "rb").read() for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))))
    return submit(("hobj", name), compile_one, src, base_flags() + OPT + ["-I", os.path.join(VERIF, "harness")], "hobj", vh, pchdir)


def build_harness(name, lib):
    obj = harness_obj(name, pch()).result()
    exe = os.path.join(BUILD, "bin", "%s-%s" % (name, sha(obj, lib)))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        run(["g++", obj, lib, "-o", tmp, "-Wl,--allow-shlib-undefined", "-Wl,-rpath," + os.path.dirname(lib)] + LIBS)
        os.replace(tmp, exe)
    return exe


def astdump_tool():
    src = os.path.join(VERIF, "cyvc", "astdump.cpp")
    exe = os.path.join(BUILD, "bin", "astdump-" + sha(open(src, "rb").read()))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        run(["clang++", "-std=c++17", "-O0", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
             "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
             "-Wl,-rpath,/usr/lib/llvm-18/lib"])
        os.replace(tmp, exe)
    return exe


def dump_one(src):
    tool = astdump_tool()
    flags = [f for f in base_flags() if f != "-D_GLIBCXX_ASSERTIONS"]
    key = sha(open(src, "rb").read(), header_hash(), " ".join(flags), os.path.basename(src), tool)
    out = os.path.join(BUILD, "ast", os.path.basename(src) + "-" + key + ".json")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        root = SRC + "/"
        run([tool, root, tmp, "--"] + flags + [src])
        os.replace(tmp, out)
    return out


def dump(srcs, jobs=8):
    """srcs: names relative to /repo/src, or 'drivers/x.cc' (explicit template
    instantiations, in /verif)"""
    submit(("tool",), astdump_tool).result()
    paths = [os.path.join(VERIF, s) if s.startswith("drivers/") else os.path.join(SRC, s) for s in srcs]
    fs = [submit(("dump", p), dump_one, p) for p in paths]
    return [f.result() for f in fs]


def build_all(harness, srcs):
    """everything a check needs, in one pool -> (harness executables, error of the build, error of the dump)"""
    exes, err, derr = [], None, None
    header_hash()
    if srcs: submit(("tool",), astdump_tool)
    start_objs(True)
    p = pch()
    for h in harness: harness_obj(h, p)
    start_objs(False)
    if srcs:
        try: dump(srcs)
        except Exception as ex: derr = str(ex)
    try:
        lib = build_lib()
        exes = [(h, build_harness(h, lib)) for h in harness]
    except Exception as ex: err = str(ex)
    global _pool
    _pool.shutdown()
    _pool = None
    return exes, err, derr


if __name__ == "__main__":
    t = time.time()
    sync_tree()
    print("tree", time.time() - t)
    astdump_tool()
    print("astdump", time.time() - t)
    if "lib" in sys.argv or len(sys.argv) == 1:
        print(build_lib(), time.time() - t)
