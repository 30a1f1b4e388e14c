"""G01: the declared API is exactly the implemented API in every configuration."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile

from vlib import build
from vlib.build import REPO, AnalysisError, CLANG, CLANGXX

TECHNIQUE = ("declaration/definition/symbol-table comparison over clang syntax trees and object symbol tables of every build configuration, "
             "plus witness translation units that only compile when signatures and layouts agree")
LEVEL = "proof"
EXPLANATION = (
    "The library is compiled (never run) in every combination of number parser, number printer, symbol prefix and declared byte order, "
    "split and bundled (the bundle is assembled by the project's own CMake script). In each, the functions declared by the public headers are "
    "read from clang's syntax tree and compared with the symbol tables of the objects: each is defined once, nothing else is exported, "
    "every exported symbol has the prefix, and every undefined symbol belongs to the bundled nanoarrow or the C/C++ run-time. Signatures: each "
    "source is compiled after the public header, so a definition with another type is a compile error. Layouts: sizes, offsets and "
    "enumerator values of every public type are extracted as constants and asserted (static_assert) in C99, C11, C++17 and C++20 and in every configuration.")

PRE = "GaWitness_"
# exported on purpose although no public header declares them (still prefixed)
LIBC_PREFIX = re.compile(r"^(Arrow|GeoArrow|_?ZN?K?.*(geoarrow|nanoarrow))")


def sh(cmd, cwd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd)
    return p.returncode, p.stdout


def first_error(out):
    for l in out.splitlines():
        m = re.match(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)", l)
        if m:
            return os.path.relpath(m.group(1), REPO) if m.group(1).startswith("/") else m.group(1), int(m.group(2)), m.group(3)
    return None, 0, (out.strip().splitlines() or ["no output"])[0]


def listed_sources():
    """GEOARROW_SOURCES of the project's build script."""
    t = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\(GEOARROW_SOURCES\s+([^)]*)\)", t)
    if not m:
        raise AnalysisError("GEOARROW_SOURCES not found in CMakeLists.txt")
    return [os.path.join(REPO, x) for x in m.group(1).split()]


def decls(text):
    """functions, records and enums of the geoarrow headers in a JSON syntax tree"""
    tree = json.loads(text)
    fns, recs, enums, globs = {}, {}, {}, {}
    anon = {}

    def record(n, name):
        fields = []
        for x in n.get("inner", []):
            if x["kind"] == "FieldDecl" and x.get("name") and not x.get("isBitfield"):
                fields.append(x["name"])
        recs[name] = (n.get("tagUsed", "struct"), fields)

    def walk(nodes):
        for n in nodes:
            k, name = n["kind"], n.get("name", "")
            if k == "LinkageSpecDecl":
                walk(n.get("inner", []))
            elif k == "FunctionDecl" and re.search(r"(Geo)?Arrow", name):
                d = fns.setdefault(name, {"static": False, "body": False, "line": 0})
                d["static"] |= n.get("storageClass") == "static"
                d["body"] |= any(x["kind"] == "CompoundStmt" for x in n.get("inner", []))
                loc = n.get("loc", {})
                d["line"] = d["line"] or (loc.get("expansionLoc") or loc).get("line", 0)
            elif k == "VarDecl" and "Arrow" in name:
                globs[name] = n.get("storageClass")
            elif k == "RecordDecl" and n.get("completeDefinition") and "Arrow" in name:
                record(n, name)
            elif k == "EnumDecl" and "Arrow" in name:
                enums[name] = [x["name"] for x in n.get("inner", []) if x["kind"] == "EnumConstantDecl"]
    walk(tree["inner"])
    return fns, recs, enums, globs


def ast(src, cwd, flags, cxx=False):
    cmd = [CLANGXX, "-std=c++17"] if cxx else [CLANG, "-std=c99"]
    p = subprocess.run(cmd + flags + ["-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", src], cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise AnalysisError("the public header does not compile: %s" % (first_error(p.stderr),))
    return decls(p.stdout)


def symbols(obj, cwd):
    rc, out = sh(["llvm-nm-18", "-g", obj], cwd)
    if rc:
        raise AnalysisError("llvm-nm failed: " + out[:200])
    d, u = {}, set()
    for l in out.splitlines():
        p = l.split()
        if len(p) == 3:
            d[p[2]] = p[1]
        elif len(p) == 2:
            u.add(p[1])
    return d, u


def config_dir(tmp, ff, ryu, ns):
    d = os.path.join(tmp, "cfg_%d%d%s" % (ff, ryu, ns or ""))
    build.make_config(d, ff, ryu, ns)
    return d


def name_of(ff, ryu, ns, bundle=False):
    return "%s, %s%s%s" % ("fast_float" if ff else "strtod", "ryu" if ryu else "printf", ", prefixed" if ns else "", ", bundled" if bundle else "")


def compare(ctx, cfg, ns, fns, objs, cwd, split=True):
    """symbol tables of one configuration against its declarations"""
    where, und = {}, set()
    for src, o in objs:
        d, u = symbols(o, cwd)
        for s, k in d.items():
            if k in "WVuwvi":             # inline entities the linker merges
                if ns and not weak_ok(s, ns):
                    ctx.violation("prefix/%s" % base(s, ns), rel(src), "[%s] %s exports the merged symbol %s without the prefix" % (cfg, rel(src), s))
                continue
            where.setdefault(s, []).append(src)
        und |= u
    ctx.count("exported symbols", len(where))
    priv = set()
    for s, at in sorted(where.items()):
        b = base(s, ns)
        if len(at) > 1:
            ctx.violation("twice/%s" % b, rel(at[0]), "[%s] %s is defined by %s" % (cfg, s, " and ".join(rel(x) for x in at)))
        if ns and not s.startswith(ns):
            ctx.violation("prefix/%s" % b, rel(at[0]), "[%s] %s is exported without the prefix" % (cfg, s))
        if s not in fns and not (b.startswith("GeoArrowd2s") and "ryu/" in at[0]):
            ctx.violation("undeclared/%s" % b, rel(at[0]), "[%s] %s is exported but no public header declares it" % (cfg, s))
        if not s.startswith("_Z") and "Arrow" not in b:
            ctx.violation("name/%s" % b, rel(at[0]), "[%s] %s is exported under a name outside the library's" % (cfg, s))
    for s, d in sorted(fns.items()):
        ctx.count("declared functions")
        b = base(s, ns)
        if re.match(r"^(GaWitness_)?Arrow", s):
            continue
        if d["static"]:
            if not d["body"]:
                ctx.violation("missing/%s" % b, "src/geoarrow/geoarrow.h", "[%s] %s is declared static inline but has no body" % (cfg, s))
        elif s not in where:
            ctx.violation("missing/%s" % b, "src/geoarrow/geoarrow.h", "[%s] %s is declared but not defined" % (cfg, s))
    for s in sorted(und):
        if LIBC_PREFIX.match(s) or s.startswith(PRE):
            if s not in where:
                ctx.violation("unresolved/%s" % base(s, ns), "", "[%s] %s is used but not defined in this configuration" % (cfg, s))


def weak_ok(s, ns):
    # merged C++ entities: from the prefixed fast_float namespace or the C++ standard library
    return ("%d%s" % (len(ns), ns)) in s or s.startswith("_ZNSt") or s.startswith("_ZSt") or s.startswith("_ZNKSt") or s.startswith("__clang") or s.startswith("DW.ref.")


def base(s, ns):
    return s[len(ns):] if ns and s.startswith(ns) else s


def rel(p):
    return os.path.relpath(p, REPO) if p.startswith(REPO) else os.path.basename(p)


def one(src, out, inc, defs, cwd):
    if src.endswith((".cc", ".cpp")):
        cmd = [CLANGXX, "-std=c++17"]
    else:
        cmd = [CLANG, "-std=c99"]
    return src, out, sh(cmd + ["-O0", "-w", "-Werror=implicit-function-declaration", "-c", src, "-o", out] + ["-I" + i for i in inc] + defs, cwd)


def split_config(ctx, ff, ryu, ns):
    tmp = tempfile.mkdtemp(prefix="ga_g01_")
    try:
        cfg = name_of(ff, ryu, ns)
        d = config_dir(tmp, ff, ryu, ns)
        inc = [d, REPO + "/src", REPO + "/src/vendor"]
        defs = ["-DNANOARROW_NAMESPACE=" + ns] if ns else []
        src = list(listed_sources())
        src.append(REPO + ("/src/geoarrow/double_parse_fast_float.cc" if ff else "/src/geoarrow/double_parse_std.c"))
        src.append(REPO + "/src/geoarrow/double_print.c")
        if ryu:
            src.append(REPO + "/src/geoarrow/ryu/d2s.c")
        h = os.path.join(tmp, "h.c")
        open(h, "w").write('#include "geoarrow/geoarrow.h"\n')
        fns = ast(h, tmp, ["-I" + i for i in inc])[0]
        ctx.require(len(fns) > 60, "public functions not found")
        objs = []
        ok = True
        for i, s in enumerate(src):
            s, o, (rc, out) = one(s, os.path.join(tmp, "o%d.o" % i), inc, defs, tmp)
            ctx.count("units compiled")
            if rc:
                f, l, msg = first_error(out)
                ctx.violation("build/%s" % rel(s), "%s:%d" % (f or rel(s), l), "[%s] %s does not compile: %s" % (cfg, rel(s), msg))
                ok = False
                continue
            objs.append((s, o))
        for s in src:
            # the definition after the public declaration: a different type is an error
            w = os.path.join(tmp, "w.cc" if s.endswith(".cc") else "w.c")
            open(w, "w").write('#include "geoarrow/geoarrow.h"\n#include "%s"\n' % s)
            s2, o, (rc, out) = one(w, os.path.join(tmp, "w.o"), inc, defs, tmp)
            ctx.count("signature witnesses")
            if rc:
                f, l, msg = first_error(out)
                ctx.violation("signature/%s" % rel(s), "%s:%d" % (f or rel(s), l), "[%s] %s does not agree with the public header: %s" % (cfg, rel(s), msg))
        if not ok:
            return
        n = os.path.join(tmp, "nano.o")
        s, o, (rc, out) = one(REPO + "/src/vendor/nanoarrow/nanoarrow.c", n, inc, defs, tmp)
        ctx.require(rc == 0, "nanoarrow does not compile")
        nd = symbols(n, tmp)[0]
        scoped = Scoped(ctx, nd)
        compare(scoped, cfg, ns, fns, objs, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Scoped:
    """drops 'unresolved' reports about symbols the bundled nanoarrow defines"""
    def __init__(self, ctx, nano):
        self.ctx, self.nano = ctx, nano

    def violation(self, key, where, msg):
        if key.startswith("unresolved/"):
            s = re.search(r"\] (\S+) is used", msg).group(1)
            if s in self.nano:
                return
        self.ctx.violation(key, where, msg)

    def __getattr__(self, k):
        return getattr(self.ctx, k)


def bundle_config(ctx, ns):
    """the amalgamation, assembled by the project's own build script"""
    tmp = tempfile.mkdtemp(prefix="ga_g01b_")
    try:
        cfg = name_of(False, False, ns, True)
        cmd = ["cmake", "-S", REPO, "-B", tmp + "/b", "-DGEOARROW_BUNDLE=ON", "-DGEOARROW_USE_FAST_FLOAT=OFF", "-DGEOARROW_USE_RYU=OFF",
               "-DCMAKE_C_COMPILER=" + CLANG, "-DCMAKE_CXX_COMPILER=" + CLANGXX, "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"]
        if ns:
            cmd.append("-DGEOARROW_NAMESPACE=" + ns)
        rc, out = sh(cmd, tmp)
        ctx.require(rc == 0, "cmake could not assemble the bundle: " + out[-400:])
        a = tmp + "/b/amalgamation"
        inc = [a, REPO + "/src/vendor"]
        defs = ["-DNANOARROW_NAMESPACE=" + ns] if ns else []
        c = a + "/geoarrow/geoarrow.c"
        ctx.require(os.path.exists(c), "the bundle has no geoarrow.c")
        s, o, (rc, out) = one(c, tmp + "/bundle.o", inc, defs, tmp)
        ctx.count("units compiled")
        if rc:
            f, l, msg = first_error(out)
            ctx.violation("bundle/compile", "bundled geoarrow.c:%d" % l, "[%s] the bundled source does not compile: %s" % (cfg, msg))
            return
        h = os.path.join(tmp, "h.c")
        open(h, "w").write('#include "geoarrow/geoarrow.h"\n')
        fns = ast(h, tmp, ["-I" + i for i in inc])[0]
        s, o, (rc, out) = one(REPO + "/src/vendor/nanoarrow/nanoarrow.c", tmp + "/nano.o", inc, defs, tmp)
        compare(Scoped(ctx, symbols(tmp + "/nano.o", tmp)[0]), cfg, ns, fns, [(c, tmp + "/bundle.o")], tmp)
        for std in ("c++17", "c++20"):
            w = os.path.join(tmp, "w.cpp")
            open(w, "w").write('#include "geoarrow/geoarrow.hpp"\n')
            rc, out = sh([CLANGXX, "-std=" + std, "-w", "-fsyntax-only", w] + ["-I" + i for i in inc], tmp)
            if rc:
                f, l, msg = first_error(out)
                ctx.violation("bundle/hpp", "bundled geoarrow.hpp:%d" % l, "[%s] the bundled C++ header does not compile as %s: %s" % (cfg, std, msg))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def layout_lines(recs, enums):
    """(label, C expression) for everything a layout is made of"""
    out = []
    for r, (tag, fields) in sorted(recs.items()):
        if not r.startswith("GeoArrow"):
            continue
        out.append(("sizeof(%s %s)" % (tag, r), "sizeof(%s %s)" % (tag, r)))
        for f in fields:
            out.append(("offset of %s.%s" % (r, f), "offsetof(%s %s, %s)" % (tag, r, f)))
            out.append(("size of %s.%s" % (r, f), "sizeof(((%s %s*)0)->%s)" % (tag, r, f)))
    for e, ms in sorted(enums.items()):
        out.append(("sizeof(enum %s)" % e, "sizeof(enum %s)" % e))
        for m in ms:
            out.append((m, m))
    return out


def layouts(ctx):
    tmp = tempfile.mkdtemp(prefix="ga_g01l_")
    try:
        d = config_dir(tmp, True, True, None)
        h = os.path.join(tmp, "h.c")
        inc = ["-I" + d, "-I" + REPO + "/src"]
        open(h, "w").write('#include "geoarrow/geoarrow.h"\n')
        fns, recs, enums, globs = ast(h, tmp, inc)
        hx = os.path.join(tmp, "h.cpp")
        open(hx, "w").write('#include "geoarrow/geoarrow.h"\n')
        # declarations in C++ are those in C
        xf = cxx_decls(hx, tmp, inc)
        for s in sorted(set(fns) ^ set(xf)):
            ctx.violation("language/%s" % s, "src/geoarrow/geoarrow.h", "%s is declared in %s only" % (s, "C" if s in fns else "C++"))
        for s in sorted(set(fns) & set(xf)):
            if not fns[s]["static"] and not xf[s]:
                ctx.violation("language/%s" % s, "src/geoarrow/geoarrow.h", "%s has C++ linkage when the header is included from C++" % s)
        lines = layout_lines(recs, enums)
        ctx.require(len(lines) > 150, "public types not found")
        src = '#include <stddef.h>\n#include "geoarrow/geoarrow.h"\nconst long long ga_layout[] = {\n%s\n};\n' % ",\n".join(
            "(long long)(%s)" % e for _, e in lines)
        f = os.path.join(tmp, "l.c")
        open(f, "w").write(src)
        rc, out = sh([CLANG, "-std=c99", "-w", "-O0", "-S", "-emit-llvm", f, "-o", "l.ll"] + inc, tmp)
        ctx.require(rc == 0, "layout probe does not compile: " + out[:300])
        m = re.search(r"@ga_layout = [^\[]*\[(\d+) x i64\] \[([^\]]*)\]", open(os.path.join(tmp, "l.ll")).read())
        ctx.require(m is not None, "layout table not found")
        vals = [int(x.split()[1]) for x in m.group(2).split(",")]
        ctx.require(len(vals) == len(lines), "layout table has another size")
        variants = []
        for ff, ryu, ns in [(True, True, None), (False, False, None), (True, True, PRE), (False, False, PRE)]:
            for x in (["-DGEOARROW_NATIVE_ENDIAN=0x00"], ["-DGEOARROW_DEBUG"], ["-DNDEBUG"], []):
                for std, cc in (("c99", CLANG), ("c11", CLANG), ("c++17", CLANGXX), ("c++20", CLANGXX), ("c11", "gcc"), ("c++17", "g++")):
                    variants.append((ff, ryu, ns, x, std, cc))
        jobs = []
        for i, (ff, ryu, ns, x, std, cc) in enumerate(variants):
            cd = config_dir(tmp, ff, ryu, ns)
            cxx = std.startswith("c++")
            sa = "static_assert" if cxx else "_Static_assert"
            w = os.path.join(tmp, "v%d.%s" % (i, "cpp" if cxx else "c"))
            incl = '#include "geoarrow/geoarrow.h"\n' + ('#include "geoarrow/geoarrow.hpp"\n' if cxx else "")
            body = "\n".join('%s((long long)(%s) == %dLL, "%s");' % (sa, e, v, l) for (l, e), v in zip(lines, vals))
            open(w, "w").write("#include <stddef.h>\n" + incl + body + "\n")
            jobs.append((w, [cc, "-std=" + std, "-w", "-fsyntax-only", w, "-I" + cd, "-I" + REPO + "/src", "-Wno-invalid-offsetof"] + x,
                         "%s, %s, %s %s" % (name_of(ff, ryu, ns), cc, std, " ".join(x))))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for (w, cmd, label), (rc, out) in zip(jobs, ex.map(lambda j: sh(j[1], tmp), jobs)):
                ctx.count("layout variants")
                ctx.count("layout facts", len(lines))
                if rc:
                    m = re.search(r"error: static(?:_assert|_assertion| assertion) failed[^\"\n]*\"?([^\"\n]*)\"?", out)
                    f, l, msg = first_error(out)
                    what = (m.group(1).strip(" :") if m else "") or msg
                    ctx.violation("layout/%s" % what, "src/geoarrow/geoarrow_type.h", "[%s] %s differs from the C99 default configuration or does not compile: %s" % (
                        label, what, msg))
        # headers: usable on their own, and no strong definition in them
        heads = sorted(os.path.join("geoarrow", "hpp", x) for x in os.listdir(os.path.join(REPO, "src/geoarrow/hpp"))
                       if x.endswith(".hpp") and x != "arrow_extension_type.hpp") + ["geoarrow/geoarrow.hpp", "geoarrow/geoarrow.h", "geoarrow/geoarrow_type.h"]
        for i, hd in enumerate(heads):
            for std in ("c++17", "c++20"):
                w = os.path.join(tmp, "s%d.cpp" % i)
                open(w, "w").write('#include "%s"\n#include "%s"\n' % (hd, hd))
                o = os.path.join(tmp, "s%d.o" % i)
                rc, out = sh([CLANGXX, "-std=" + std, "-w", "-O0", "-femit-all-decls", "-c", w, "-o", o] + inc, tmp)
                ctx.count("header witnesses")
                if rc:
                    f, l, msg = first_error(out)
                    ctx.violation("header/%s" % hd, "src/%s" % hd, "%s does not compile on its own as %s: %s" % (hd, std, msg))
                    break
                for s, k in symbols(o, tmp)[0].items():
                    if k in "TDBRSC" and s not in fns:
                        ctx.violation("strong/%s" % s, "src/%s" % hd, "%s defines %s in every unit that includes it" % (hd, s))
        for hd in ("geoarrow/geoarrow.h", "geoarrow/geoarrow_type.h"):
            for std in ("c99", "c11"):
                w = os.path.join(tmp, "s.c")
                open(w, "w").write('#include "%s"\n#include "%s"\n' % (hd, hd))
                rc, out = sh([CLANG, "-std=" + std, "-pedantic-errors", "-w", "-fsyntax-only", w] + inc, tmp)
                ctx.count("header witnesses")
                if rc:
                    f, l, msg = first_error(out)
                    ctx.violation("header/%s" % hd, "src/%s" % hd, "%s does not compile on its own as %s: %s" % (hd, std, msg))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cxx_decls(src, cwd, inc):
    """name -> is extern "C" or static, for functions declared by the header in C++"""
    p = subprocess.run([CLANGXX, "-std=c++17", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", src] + inc, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise AnalysisError("the public header does not compile as C++: %s" % (first_error(p.stderr),))
    out = {}

    def walk(nodes, c):
        for n in nodes:
            if n["kind"] == "LinkageSpecDecl":
                walk(n.get("inner", []), n.get("language") == "C")
            elif n["kind"] == "FunctionDecl" and re.search(r"Arrow", n.get("name", "")):
                out[n["name"]] = out.get(n["name"], False) or c or n.get("storageClass") == "static"
    walk(json.loads(p.stdout)["inner"], False)
    return out


def run(ctx):
    todo = [("layouts and headers", layouts)]
    for ff in (True, False):
        for ryu in (True, False):
            for ns in (None, PRE):
                todo.append((name_of(ff, ryu, ns), split_config, ff, ryu, ns))
    todo += [(name_of(False, False, ns, True), bundle_config, ns) for ns in (None, PRE)]
    ctx.parts(todo)
