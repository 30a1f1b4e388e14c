"""Compile /repo's current sources to LLVM IR and export them as JSON.

Everything here is derived from the working tree of /repo at the moment of the
run.  Results are cached in /verif/build/cache under a hash of every input
file, so that several checks on one tree share one compilation.
"""
import glob
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GA_REPO", "/repo")
CLANG = "clang-18"
CLANGXX = "clang++-18"
OPT = "opt-18"
LINK = "llvm-link-18"


class TooLong(Exception):
    """A front end exceeded its time limit."""


class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, compile error)."""


def run(cmd, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    except subprocess.TimeoutExpired:
        raise TooLong("command took too long: %s" % " ".join(cmd))
    if p.returncode != 0:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[:3000]))
    return p.stdout


def ensure_irdump():
    exe = os.path.join(VERIF, "build", "irdump")
    src = os.path.join(VERIF, "tool", "irdump.cpp")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        run(["bash", os.path.join(VERIF, "setup.sh")])
    return exe


def c_sources(repo=None):
    repo = repo or REPO
    out = sorted(glob.glob(repo + "/src/geoarrow/*.c"))
    return [p for p in out if not p.endswith("_test.c")]


def all_sources(repo=None):
    repo = repo or REPO
    pats = ["src/geoarrow/*", "src/geoarrow/ryu/*", "src/geoarrow/hpp/*", "src/vendor/nanoarrow/*",
            "python/geoarrow-c/src/geoarrow/c/*", "python/geoarrow-c/src/geoarrow/c/geoarrow_python/*"]
    fs = []
    for p in pats:
        fs += [f for f in glob.glob(os.path.join(repo, p)) if os.path.isfile(f) and
               f.endswith((".c", ".h", ".hpp", ".cc", ".in", ".pyx", ".pxd", ".py"))
               and "_test." not in os.path.basename(f)]
    fs.append(os.path.join(repo, "CMakeLists.txt"))
    return sorted(fs)


def repo_version(repo=None):
    t = open(os.path.join(repo or REPO, "CMakeLists.txt")).read()
    m = re.search(r'set\(GEOARROW_VERSION\s+"?([^")\s]+)"?\s*\)', t)
    v = m.group(1) if m else "0.0.0"
    mm = re.match(r"(\d+)\.(\d+)\.(\d+)", v)
    return v, mm.groups() if mm else ("0", "0", "0")


def make_config(outdir, fast_float=True, ryu=True, namespace=None, repo=None):
    """Instantiate geoarrow_config.h.in the way CMake's configure_file does."""
    t = open(os.path.join(repo or REPO, "src/geoarrow/geoarrow_config.h.in")).read()
    v, (a, b, c) = repo_version(repo)
    sub = {"GEOARROW_VERSION": v, "GEOARROW_VERSION_MAJOR": a, "GEOARROW_VERSION_MINOR": b,
           "GEOARROW_VERSION_PATCH": c,
           "GEOARROW_NAMESPACE_DEFINE": ("#define GEOARROW_NAMESPACE %s" % namespace) if namespace else "",
           "GEOARROW_USE_FAST_FLOAT_DEFINE": "#define GEOARROW_USE_FAST_FLOAT %d" % fast_float,
           "GEOARROW_USE_RYU_DEFINE": "#define GEOARROW_USE_RYU %d" % ryu,
           "GEOARROW_USE_FAST_FLOAT": "1" if fast_float else "0",
           "GEOARROW_USE_RYU": "1" if ryu else "0"}
    t = re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), ""), t)

    def cmakedefine(m):
        name, rest = m.group(1), m.group(2).strip()
        val = sub.get(name)
        if val and val != "0":
            return "#define %s %s" % (name, rest)
        return "/* #undef %s */" % name
    t = re.sub(r"#cmakedefine\s+(\w+)(.*)", cmakedefine, t)
    d = os.path.join(outdir, "geoarrow")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "geoarrow_config.h"), "w") as f:
        f.write(t)
    return outdir


def tree_hash(extra=""):
    h = hashlib.sha256()
    for f in all_sources():
        h.update(f.encode())
        h.update(open(f, "rb").read())
    for f in [__file__, os.path.join(VERIF, "tool", "irdump.cpp")]:
        h.update(open(f, "rb").read())
    h.update(extra.encode())
    return h.hexdigest()[:24]


PASSES = "function(sroa,simplifycfg,early-cse)"


def compile_one(src, out, inc, cxx=False, passes=PASSES, defs=(), opt="-O0"):
    cmd = [CLANGXX, "-std=c++17"] if cxx else [CLANG, "-std=gnu99"]
    cmd += [opt, "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-emit-llvm",
            "-w", "-c", src, "-o", out]
    cmd += ["-I" + i for i in inc] + list(defs)
    run(cmd, cwd=os.path.dirname(os.path.abspath(out)))    # keeps source paths in debug info absolute
    if passes:
        run([OPT, "-passes=" + passes, out, "-o", out])


def build_c_module(fast_float=False, ryu=False, srcs=None, tag="c", passes=PASSES):
    """Whole C library (+ vendored nanoarrow) as one JSON module."""
    key = tree_hash("c%d%d%s%s%s" % (fast_float, ryu, tag, passes, srcs))
    cache = os.path.join(VERIF, "build", "cache")
    os.makedirs(cache, exist_ok=True)
    path = os.path.join(cache, key + ".json")
    if not os.path.exists(path):
        exe = ensure_irdump()
        tmp = tempfile.mkdtemp(prefix="ga_ir_")
        try:
            make_config(tmp, fast_float, ryu)
            inc = [tmp, REPO + "/src", REPO + "/src/vendor"]
            todo = list(srcs if srcs else c_sources())
            if not srcs:
                todo.append(REPO + "/src/vendor/nanoarrow/nanoarrow.c")
                if ryu:
                    todo.append(REPO + "/src/geoarrow/ryu/d2s.c")
            bcs = []
            procs = []
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as ex:
                for i, s in enumerate(todo):
                    o = os.path.join(tmp, "m%02d.bc" % i)
                    bcs.append(o)
                    procs.append(ex.submit(compile_one, s, o, inc, s.endswith((".cc", ".cpp")), passes))
                for p in procs:
                    p.result()
            allbc = os.path.join(tmp, "all.bc")
            run([LINK] + bcs + ["-o", allbc])
            j = os.path.join(tmp, "all.json")
            run([exe, allbc, j])
            shutil.move(j, path + ".tmp%d" % os.getpid())
            os.rename(path + ".tmp%d" % os.getpid(), path)
            prune_cache(cache)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return path


def prune_cache(cache, keep=60):
    fs = []
    for f in os.listdir(cache):
        try:
            fs.append((os.path.getmtime(os.path.join(cache, f)), os.path.join(cache, f)))
        except OSError:                 # another run just removed it
            pass
    for when, f in sorted(fs)[:-keep]:
        try:
            if time.time() - when > 1200:       # not one another run is about to read
                os.remove(f)
        except OSError:
            pass


def build_cxx_module(passes=PASSES, srcs=None, tag="cxx", opt="-O0", extra=(), std="c++17"):
    """The header-only C++ layer, instantiated by witness/inst.cpp, as one JSON module."""
    main = os.path.join(VERIF, "witness", "inst.cpp")
    todo = list(srcs) if srcs else [main, REPO + "/src/geoarrow/double_parse_fast_float.cc"]
    h = "".join(hashlib.sha256(open(p, "rb").read()).hexdigest() for p in todo)
    key = tree_hash("x%s%s%s%s%s%s" % (tag, passes, h, opt, extra, std))
    cache = os.path.join(VERIF, "build", "cache")
    os.makedirs(cache, exist_ok=True)
    path = os.path.join(cache, key + ".json")
    if not os.path.exists(path):
        exe = ensure_irdump()
        tmp = tempfile.mkdtemp(prefix="ga_ir_")
        try:
            make_config(tmp, True, True)
            inc = [tmp, REPO + "/src", REPO + "/src/vendor"]
            bcs = []
            for i, s in enumerate(todo):
                o = os.path.join(tmp, "m%02d.bc" % i)
                bcs.append(o)
                compile_one(s, o, inc, True, passes, ("-femit-all-decls",) + tuple(extra), opt)
            allbc = os.path.join(tmp, "all.bc")
            run([LINK] + bcs + ["-o", allbc])
            j = os.path.join(tmp, "all.json")
            run([exe, allbc, j])
            shutil.move(j, path + ".tmp%d" % os.getpid())
            os.rename(path + ".tmp%d" % os.getpid(), path)
            prune_cache(cache)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return path
