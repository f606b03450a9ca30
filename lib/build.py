#!/usr/bin/env python3
"""Builds cyclus (from /repo's *current working tree*) and the C++ harnesses.

Nothing is built inside /repo and no build product of /repo is used: the source
files are copied (by content) to /verif/.build/tree, the configure-time generators of the
project are run there, and everything is compiled with g++ -O0 through ccache.

A failure to build is an error of the run (BuildError -> exit code 3), never a violation.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BLD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
TREE = os.path.join(BLD, "tree")
OBJ = os.path.join(BLD, "obj")
OUT = os.path.join(BLD, "out")
NPROC = os.cpu_count() or 4

WANT_DIRS = ("src/", "agents/", "cli/", "cyclus/", "share/", "stubs/")


class BuildError(Exception):
    pass


INCS = ("-I/usr/include/hdf5/serial -I/usr/include/coin "
        "-I/usr/lib/python3/dist-packages/numpy/core/include "
        "-isystem /usr/include/python3.12 -isystem /usr/include/libxml2 "
        "-isystem /usr/include/libxml++-2.6 "
        "-isystem /usr/lib/x86_64-linux-gnu/libxml++-2.6/include "
        "-isystem /usr/include/glibmm-2.4 "
        "-isystem /usr/lib/x86_64-linux-gnu/glibmm-2.4/include "
        "-isystem /usr/include/glib-2.0 "
        "-isystem /usr/lib/x86_64-linux-gnu/glib-2.0/include "
        "-isystem /usr/include/sigc++-2.0 "
        "-isystem /usr/lib/x86_64-linux-gnu/sigc++-2.0/include").split()
DEFS = ("-DBOOST_VERSION_MINOR=83 -DBOOST_ALL_DYN_LINK -DHDF_NO_NAMESPACE -DNO_STATIC_CAST "
        "-DOLD_HEADER_FILENAME -Dcyclus_EXPORTS -DNDEBUG").split()
LIBS = ("-ldl -lxml2 -llapack -lblas -lsqlite3 -L/usr/lib/x86_64-linux-gnu/hdf5/serial "
        "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_hl -lhdf5_cpp -lhdf5 "
        "-lboost_program_options -lboost_system -lboost_filesystem -lboost_serialization "
        "-lOsi -lClp -lCoinUtils -lClpSolver -lOsiClp -lCgl -lCbcSolver -lCbc -lOsiCbc "
        "-lz -lbz2 -lxml++-2.6 -lglibmm-2.4 -lgobject-2.0 -lglib-2.0 -lsigc-2.0 "
        "-lpython3.12 -lpthread").split()
GXX = ["g++"]
BASE = ["-O0", "-MMD", "-pipe", "-std=c++17", "-w", "-fPIC", "-include", os.path.join(VERIF, "lib", "missing_weak.h")]

AGENTS = ["null_inst", "null_region", "sink", "source", "k_facility", "prey", "predator"]
# compile the slow ones first
SLOW = ["hdf5_back.cc", "pyne.cc", "sqlite_back.cc", "timer.cc", "sim_init.cc", "context.cc",
        "OsiCbcSolverInterface.cpp", "infile_converters.cc", "matl_buy_policy.cc",
        "matl_sell_policy.cc", "xml_file_loader.cc", "db_init.cc"]


def _env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BLD, "ccache")
    e["CCACHE_MAXSIZE"] = "2G"
    e["CCACHE_SLOPPINESS"] = "include_file_ctime,include_file_mtime,time_macros"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_DEPEND"] = "1"
    e["CCACHE_NOCOMPRESS"] = "1"
    e.pop("CCACHE_DISABLE", None)
    e["LC_ALL"] = "C.UTF-8"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def _run(cmd, cwd=None, capture=True, what=None):
    p = subprocess.run(cmd, cwd=cwd, env=_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed (%d): %s\n%s" % (what or cmd[0], p.returncode,
                                                     " ".join(cmd)[:300],
                                                     (p.stderr or p.stdout)[-4000:]))
    return p.stdout


def _write_if_diff(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)
    return True


def _repo_files():
    try:
        out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-co",
                              "--exclude-standard", "-z"],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout
        files = [f.decode() for f in out.split(b"\0") if f]
    except (OSError, subprocess.CalledProcessError):
        files = []
    if not files:
        for d, dirs, fs in os.walk(REPO):
            dirs[:] = [x for x in dirs if x not in (".git", "build")]
            for f in fs:
                files.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(f for f in set(files)
                  if f.startswith(WANT_DIRS) and os.path.isfile(os.path.join(REPO, f)))


def _subst(text, d):
    for k, v in d.items():
        text = text.replace("@%s@" % k, v)
    return text


def sync():
    """Copy the source tree and run the configure-time generators."""
    files = _repo_files()
    if not any(f == "src/agent.cc" for f in files):
        raise BuildError("no cyclus sources in %s" % REPO)
    generated = set()
    for f in files:
        with open(os.path.join(REPO, f), "rb") as fh:
            data = fh.read()
        dst = os.path.join(TREE, f)
        _write_if_diff(dst, data)
        os.chmod(dst, os.stat(os.path.join(REPO, f)).st_mode & 0o777 | 0o600)

    def rd(p):
        with open(os.path.join(TREE, p), encoding="utf-8") as fh:
            return fh.read()

    def gen(p, text):
        generated.add(p)
        _write_if_diff(os.path.join(TREE, p), text)

    py = sys.executable
    lim = {"CY_LARGE_INT": "2147483647", "CY_LARGE_DOUBLE": "1e299", "CY_NEAR_ZERO": "1e-08"}
    gen("src/platform.h", _subst(rd("src/platform.h.in"), {
        "suffix": ".so", "dynamicloadlib": "unix_helper_functions.h",
        "cyclus_has_coin": "1", "cyclus_is_parallel": "0"}))
    gen("src/version.h", _subst(rd("src/version.h.in"), {
        "CMAKE_PROJECT_VERSION_MAJOR": "1", "CMAKE_PROJECT_VERSION_MINOR": "6",
        "CMAKE_PROJECT_VERSION_PATCH": "0"}))
    gen("src/version.cc", _subst(rd("src/version.cc.in"), {"DATA_MODEL_VERSION": "1.6"}))
    gen("src/cyc_limits.h", _subst(rd("src/cyc_limits.h.in"), lim))
    gen("src/env.cc", _subst(rd("src/env.cc.in"), {
        "cyclus_install_dir": os.path.join(BLD, "install"),
        "cyclus_build_dir": os.path.join(BLD, "bdir"), "default_allow_milps": "true"}))
    gen("cyclus/system.py", _subst(rd("cyclus/system.py.in"), lim))
    # generators, memoised by the content of their inputs
    ins = ["src/query_backend.h", "share/dbtypes_gen.py", "share/dbtypes.json.in",
           "src/hdf5_back_gen.py", "src/hdf5_back.cc.in", "src/hdf5_back.h.in"]
    key = hashlib.sha1("\0".join(rd(i) for i in ins).encode()).hexdigest()
    stamp = os.path.join(BLD, "gen.stamp")
    outs = ["share/dbtypes.json", "src/hdf5_back.h", "src/hdf5_back.cc"]
    old = open(stamp).read() if os.path.exists(stamp) else ""
    generated.update(outs)
    if old != key or not all(os.path.exists(os.path.join(TREE, o)) for o in outs):
        ent = _run([py, os.path.join(TREE, "share/dbtypes_gen.py"), "1.6"], what="dbtypes_gen")
        gen("share/dbtypes.json", _subst(rd("share/dbtypes.json.in"), {"DBTYPES_JSON_ENTRIES": ent}))
        g = os.path.join(TREE, "src/hdf5_back_gen.py")
        kinds = ["VAL_TO_BUF_H", "QUERY", "CREATE", "VL_DATASET", "FILL_BUF", "WRITE",
                 "VAL_TO_BUF", "BUF_TO_VAL"]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = dict(zip(kinds, ex.map(
                lambda k: _run([py, g, k], cwd=os.path.join(TREE, "src"),
                               what="hdf5_back_gen " + k), kinds)))
        sub = {"HDF5_BACK_CC_" + k: v for k, v in res.items()}
        gen("src/hdf5_back.h", _subst(rd("src/hdf5_back.h.in"), sub))
        gen("src/hdf5_back.cc", _subst(rd("src/hdf5_back.cc.in"), sub))
        with open(stamp, "w") as fh:
            fh.write(key)
    # remove what is no longer there
    keep = set(files) | generated
    for d, dirs, fs in os.walk(TREE):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), TREE)
            if rel not in keep:
                os.unlink(os.path.join(d, f))
    # data files the executable looks for
    for d in ("install", "bdir"):
        sh = os.path.join(BLD, d, "share", "cyclus")
        os.makedirs(sh, exist_ok=True)
        for f in ("share/cyclus.rng.in", "share/cyclus-flat.rng.in", "share/dbtypes.json"):
            p = os.path.join(TREE, f)
            if os.path.exists(p):
                with open(p, "rb") as fh:
                    _write_if_diff(os.path.join(sh, os.path.basename(f)), fh.read())
        _write_if_diff(os.path.join(sh, "cyclus_nuc_data.h5"), b"")


def _ccache():
    c = shutil.which("ccache")
    return [c] if c else []


def _compile(job):
    src, obj, extra = job
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = _ccache() + GXX + BASE + DEFS + ["-I" + os.path.join(TREE, "src"),
                                           "-I" + os.path.join(TREE, "src", "toolkit"),
                                           "-I" + os.path.join(VERIF, "harness")] + INCS + extra + \
        ["-c", src, "-o", obj]
    _run(cmd, what="compile " + os.path.relpath(src, BLD))
    return obj


def _hash_files(paths):
    h = hashlib.sha1()
    for p in paths:
        st = os.stat(p)
        h.update(("%s %d %d\n" % (p, st.st_size, st.st_mtime_ns)).encode())
    return h.hexdigest()


def _link(cmd, out, inputs):
    """Link unless out is up to date with respect to the content of the inputs."""
    h = hashlib.sha1(" ".join(cmd).encode())
    for p in inputs:
        with open(p, "rb") as fh:
            h.update(hashlib.sha1(fh.read()).digest())
    key = h.hexdigest()
    st = out + ".key"
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == key:
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".new"
    _run([tmp if c == out else c for c in cmd], what="link " + os.path.basename(out))
    os.replace(tmp, out)
    with open(st, "w") as fh:
        fh.write(key)


def lib_sources():
    cython = {"eventhooks.cc", "pyinfile.cc", "pymodule.cc"}
    srcs = [p for p in glob.glob(os.path.join(TREE, "src", "*.cc")) +
            glob.glob(os.path.join(TREE, "src", "toolkit", "*.cc"))
            if os.path.basename(p) not in cython]
    srcs.append(os.path.join(TREE, "src", "OsiCbcSolverInterface.cpp"))
    rank = {n: i for i, n in enumerate(SLOW)}
    return sorted(srcs, key=lambda p: (rank.get(os.path.basename(p), 99), p))


def cycpp(src, out, extra_inc=()):
    """Run the project's preprocessor on src."""
    cwd = os.path.join(TREE, "cli")   # ../cyclus/system.py
    inc = ":".join([""] + [os.path.join(TREE, "src")] + list(extra_inc) +
                   ["/usr/include/libxml++-2.6", "/usr/lib/x86_64-linux-gnu/libxml++-2.6/include",
                    "/usr/include/glibmm-2.4", "/usr/lib/x86_64-linux-gnu/glibmm-2.4/include",
                    "/usr/include/glib-2.0", "/usr/lib/x86_64-linux-gnu/glib-2.0/include",
                    "/usr/include/sigc++-2.0", "/usr/lib/x86_64-linux-gnu/sigc++-2.0/include",
                    "/usr/include/hdf5/serial"])
    tmp = out + ".cycpp"
    os.makedirs(os.path.dirname(out), exist_ok=True)
    _run([sys.executable, os.path.join(TREE, "cli", "cycpp.py"), src, "--cpp-path=cpp",
          "-o=" + tmp, "--pass3-use-orig", "-I=" + inc], cwd=cwd,
         what="cycpp " + os.path.basename(src))
    with open(tmp, "rb") as fh:
        _write_if_diff(out, fh.read())
    os.unlink(tmp)
    return out


def _cycpp_jobs(agent_srcs, outdir):
    """Preprocess the pairs, memoised on the content of the whole of src/ headers and cycpp."""
    h = hashlib.sha1()
    for p in sorted(glob.glob(os.path.join(TREE, "src", "**", "*.h*"), recursive=True) +
                    [os.path.join(TREE, "cli", "cycpp.py"), os.path.join(TREE, "cli", "sidecar.py"),
                     os.path.join(TREE, "cyclus", "system.py")] + list(agent_srcs)):
        with open(p, "rb") as fh:
            h.update(p.encode() + hashlib.sha1(fh.read()).digest())
    key = h.hexdigest()
    stamp = os.path.join(outdir, "stamp")
    outs = [os.path.join(outdir, os.path.basename(s)) for s in agent_srcs]
    if os.path.exists(stamp) and open(stamp).read() == key and all(map(os.path.exists, outs)):
        return outs
    os.makedirs(outdir, exist_ok=True)
    inc = sorted(set(os.path.dirname(s) for s in agent_srcs))
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda so: cycpp(so[0], so[1], inc), zip(agent_srcs, outs)))
    with open(stamp, "w") as fh:
        fh.write(key)
    return outs


def build(harnesses=(), agents=False, exe=False, extra_agents=()):
    """Build libcyclus plus what is asked for; returns a dict of paths.

    extra_agents: archetype source files (under /verif) preprocessed by the project's
    preprocessor and linked as libverifagents.so."""
    t0 = time.time()
    os.makedirs(BLD, exist_ok=True)
    with open(os.path.join(BLD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            return _build(harnesses, agents, exe, extra_agents, t0)
        finally:
            fcntl.flock(lk, fcntl.LOCK_UN)


def _build(harnesses, agents, exe, extra_agents, t0):
    sync()
    jobs = []
    lib_objs = []
    for s in lib_sources():
        o = os.path.join(OBJ, os.path.relpath(s, TREE) + ".o")
        lib_objs.append(o)
        jobs.append((s, o, []))
    h_objs = {}
    for h in harnesses:
        s = os.path.join(VERIF, "harness", h + ".cc")
        o = os.path.join(OBJ, "harness", h + ".o")
        h_objs[h] = o
        jobs.insert(2, (s, o, []))
    ag_objs, xa_objs, exe_obj = [], [], None
    if agents:
        srcs = [os.path.join(TREE, "agents", a + e) for a in AGENTS for e in (".h", ".cc")]
        outs = _cycpp_jobs(srcs, os.path.join(BLD, "agents"))
        for p in outs:
            if p.endswith(".cc"):
                o = os.path.join(OBJ, "agents", os.path.basename(p) + ".o")
                ag_objs.append(o)
                jobs.insert(4, (p, o, ["-I" + os.path.join(BLD, "agents")]))
    if extra_agents:
        outs = _cycpp_jobs(list(extra_agents), os.path.join(BLD, "xagents"))
        for p in outs:
            if p.endswith(".cc"):
                o = os.path.join(OBJ, "xagents", os.path.basename(p) + ".o")
                xa_objs.append(o)
                jobs.insert(2, (p, o, ["-I" + os.path.join(BLD, "xagents")]))
    if exe:
        exe_obj = os.path.join(OBJ, "cli", "cyclus.o")
        jobs.insert(2, (os.path.join(TREE, "cli", "cyclus.cc"), exe_obj, []))
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(_compile, j) for j in jobs]
        err = None
        for f in futs:
            try:
                f.result()
            except BuildError as e:
                if err is None:
                    err = e
                    for g in futs:
                        g.cancel()
            except concurrent.futures.CancelledError:
                pass
        if err:
            raise err
    lib = os.path.join(OUT, "libcyclus.so")
    _link(GXX + ["-shared", "-Wl,--allow-shlib-undefined", "-o", lib] + lib_objs + LIBS, lib, lib_objs)
    res = {"lib": lib, "src": os.path.join(TREE, "src"), "tree": TREE, "out": OUT}
    post = []
    if agents:
        so = os.path.join(OUT, "agents", "libagents.so")
        post.append((GXX + ["-shared", "-Wl,--allow-shlib-undefined", "-o", so] + ag_objs +
                     ["-L" + OUT, "-lcyclus", "-Wl,-rpath," + OUT] + LIBS, so, ag_objs))
        res["agents"] = os.path.join(OUT, "agents")
    if extra_agents:
        so = os.path.join(OUT, "agents", "libverifagents.so")
        post.append((GXX + ["-shared", "-Wl,--allow-shlib-undefined", "-o", so] + xa_objs +
                     ["-L" + OUT, "-lcyclus", "-Wl,-rpath," + OUT] + LIBS, so, xa_objs))
        res["agents"] = os.path.join(OUT, "agents")
    if exe:
        p = os.path.join(OUT, "cyclus")
        post.append((GXX + ["-o", p, exe_obj, "-L" + OUT, "-lcyclus", "-Wl,-rpath," + OUT,
                            "-Wl,--allow-shlib-undefined"] + LIBS, p, [exe_obj]))
        res["exe"] = p
    for h in harnesses:
        p = os.path.join(OUT, h)
        post.append((GXX + ["-o", p, h_objs[h], "-L" + OUT, "-lcyclus", "-Wl,-rpath," + OUT,
                            "-Wl,--allow-shlib-undefined"] + LIBS, p, [h_objs[h]]))
        res[h] = p
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda a: _link(*a), post))
    res["build_s"] = time.time() - t0
    return res


PYX = ("agents", "events", "jsoncpp", "lib", "memback", "nucname", "typesystem")
COREPYX = ("eventhooks", "pyinfile", "pymodule")
PYTHON = "/opt/venv/bin/python"


def _rdb(p):
    with open(p, "rb") as fh:
        return fh.read()


def build_py():
    """The Python package and the library with Python support; call build(agents=True) first.
    Returns {"site": directory for PYTHONPATH, "python": interpreter}."""
    t0 = time.time()
    with open(os.path.join(BLD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            r = _build_py()
        finally:
            fcntl.flock(lk, fcntl.LOCK_UN)
    r["build_s"] = time.time() - t0
    return r


def _build_py():
    PY = os.path.join(BLD, "py")
    SRC, CXX, SITE, LIB = [os.path.join(PY, d) for d in ("src", "cxx", "site", "lib")]
    for d in (SRC, CXX, SITE, LIB):
        os.makedirs(d, exist_ok=True)
    # sources
    cy = os.path.join(SRC, "cyclus")
    os.makedirs(cy, exist_ok=True)
    names = [f for f in os.listdir(os.path.join(TREE, "cyclus")) if f.endswith((".py", ".pyx", ".pxd"))]
    gens = ("typesystem.pyx", "typesystem.pxd", "cpp_typesystem.pxd")
    for f in names:
        if f not in gens:
            _write_if_diff(os.path.join(cy, f), _rdb(os.path.join(TREE, "cyclus", f)))
    for f in os.listdir(os.path.join(TREE, "src")):
        if f.endswith((".pyx", ".pxd")):
            _write_if_diff(os.path.join(SRC, f), _rdb(os.path.join(TREE, "src", f)))
    # the type system is generated
    g = os.path.join(PY, "gen", "cyclus")
    os.makedirs(g, exist_ok=True)
    os.makedirs(os.path.join(PY, "gen", "share"), exist_ok=True)
    for a, b in ((os.path.join(TREE, "cyclus", "gentypesystem.py"), os.path.join(g, "gentypesystem.py")),
                 (os.path.join(TREE, "share", "dbtypes.json"), os.path.join(PY, "gen", "share", "dbtypes.json"))):
        _write_if_diff(b, _rdb(a))
    _run([PYTHON, os.path.join(g, "gentypesystem.py"), "--src-dir=" + g, "--data-model-version=1.6"], cwd=g, what="gentypesystem")
    for f in gens:
        if os.path.exists(os.path.join(g, f)):
            _write_if_diff(os.path.join(cy, f), _rdb(os.path.join(g, f)))
    # cython, memoised on the module and all the declarations
    decl = hashlib.sha1()
    for d in (cy, SRC):
        for f in sorted(os.listdir(d)):
            if f.endswith(".pxd"):
                decl.update(f.encode() + hashlib.sha1(_rdb(os.path.join(d, f))).digest())
    pp = os.path.join(TREE, "cli", "post-process-cython.py")
    decl.update(_rdb(pp))
    decl = decl.hexdigest()

    def cython(job):
        src, out, post = job
        key = hashlib.sha1(_rdb(src)).hexdigest() + decl
        st = out + ".key"
        if os.path.exists(out) and os.path.exists(st) and open(st).read() == key:
            return
        _run(["cython", "--cplus", "-3", "-I", cy, "-I", SRC, src, "-o", out], cwd=SRC, what="cython " + os.path.basename(src))
        if post:
            _run([sys.executable, pp, out], what="post-process-cython " + os.path.basename(src))
        with open(st, "w") as fh:
            fh.write(key)
    mods = [(os.path.join(cy, m + ".pyx"), os.path.join(CXX, m + ".cxx"), True) for m in PYX if os.path.exists(os.path.join(cy, m + ".pyx"))]
    core = [(os.path.join(SRC, m + ".pyx"), os.path.join(CXX, m + ".cc"), False) for m in COREPYX]
    mods.sort(key=lambda j: "typesystem" not in j[0])
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(cython, mods + core))
    # compile
    inc = ["-DCYCLUS_WITH_PYTHON", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION", "-I" + CXX, "-I" + cy]
    jobs, mobj = [], []
    for _, c, _p in mods + core:
        o = os.path.join(PY, "obj", os.path.basename(c) + ".o")
        jobs.append((c, o, inc))
        mobj.append(o)
    lobj = []
    for s in lib_sources():
        o = os.path.join(OBJ, os.path.relpath(s, TREE) + ".o")
        if os.path.basename(s) in ("pyhooks.cc", "timer.cc") or b"CYCLUS_WITH_PYTHON" in _rdb(s):
            o = os.path.join(PY, "obj", "lib_" + os.path.basename(s) + ".o")
            jobs.append((s, o, inc))
        lobj.append(o)
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(_compile, jobs))
    lib = os.path.join(LIB, "libcyclus.so")
    _link(GXX + ["-shared", "-Wl,--allow-shlib-undefined", "-o", lib] + lobj + LIBS, lib, lobj)
    post = []
    for o in mobj:
        n = os.path.basename(o).split(".")[0]
        so = os.path.join(SITE, n + ".so") if n in COREPYX else os.path.join(SITE, "cyclus", n + ".so")
        post.append((GXX + ["-shared", "-Wl,--allow-shlib-undefined", "-o", so, o, "-L" + LIB, "-lcyclus", "-Wl,-rpath," + LIB] + LIBS,
                     so, [o]))
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda a: _link(*a), post))
    for f in os.listdir(cy):
        if f.endswith(".py"):
            _write_if_diff(os.path.join(SITE, "cyclus", f), _rdb(os.path.join(cy, f)))
    _write_if_diff(os.path.join(SITE, "cyclus", "cycpp.py"), _rdb(os.path.join(TREE, "cli", "cycpp.py")))
    return {"site": SITE, "python": PYTHON, "lib": LIB}


if __name__ == "__main__":
    hs = [a for a in sys.argv[1:] if not a.startswith("-")]
    if "--all" in sys.argv:
        hs = [os.path.basename(p)[:-3] for p in glob.glob(os.path.join(VERIF, "harness", "h_*.cc"))]
    xa = []
    if "--all" in sys.argv or "--xagents" in sys.argv:
        xa = sorted(glob.glob(os.path.join(VERIF, "harness", "archetypes", "*.h")) +
                    glob.glob(os.path.join(VERIF, "harness", "archetypes", "*.cc")))
    try:
        r = build(hs, agents="--all" in sys.argv or "--agents" in sys.argv,
                  exe="--all" in sys.argv or "--exe" in sys.argv, extra_agents=xa)
        if "--all" in sys.argv or "--py" in sys.argv:
            build_py()
    except BuildError as e:
        print("BUILD ERROR:", e, file=sys.stderr)
        sys.exit(3)
    print("built in %.1f s" % r["build_s"])
