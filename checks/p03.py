"""P03: what the Python bindings declare and export is what the C and C++ libraries define."""
import ast
import os
import re

from vlib import pyx, build, wit, pydecl
from vlib.build import AnalysisError
from checks.p01 import REL, module, roots, where

TECHNIQUE = "type-level witnesses generated from Cython's declarations and decided by the C++ compiler; enumerator completeness over the syntax trees of the bindings and of the constants module; path-enumerating abstract interpretation of the accessors"
LEVEL = "proof"
EXPLANATION = ("For every extern structure field, function, callback and C++ method declared by the bindings a static assertion "
               "compares the declared type with the type in the headers; for every enumeration the exported members and values are "
               "compared with the C enumerators; the constants of lib.py are compared with the enumerators they stand for; and each "
               "accessor of a geometry type is shown to return the C++ accessor of its name, each with_*() to apply the C++ method of "
               "its name to its argument, on every path.")
LIB = "python/geoarrow-c/src/geoarrow/c/lib.py"
INIT = "python/geoarrow-c/src/geoarrow/c/__init__.py"


def declarations(ctx):
    m = module()
    pydecl.prelude_ok()
    text, keys = [pydecl.PRELUDE], {}

    def claim(key, line, cond, what):
        keys[len(text)] = (key, line, what)
        text.append('static_assert(%s, "[[%d]]");' % (cond, len(text)))

    for sname, fields in m.structs.items():
        for f, (bt, d, line) in fields.items():
            t = pyx.ctype(bt, d)
            ctx.count("structure fields")
            claim("%s.%s" % (sname, f), line, "same<%s, decltype(%s::%s)>::value" % (t, sname, f),
                  "%s.%s is declared as %s" % (sname, f, re.sub(r"fun<(.*)>", r"\1", t)))
    for fn, (bt, d, line) in m.cfuncs.items():
        fd = pydecl.fdecl(d)
        t = "fun<%s(%s)>" % (pyx.ctype(bt, fd["base"]) if fd["base"]["k"] == "CPtrDeclaratorNode" else
                             pyx.ctype(bt, dict(k="CNameDeclaratorNode")), ", ".join(pydecl.args_of(fd)))
        ctx.count("functions declared")
        claim(fn, line, "same<%s, decltype(%s)>::value" % (t, fn), "%s() is declared as %s" % (fn, t))
    for (cls, name, i), (bt, fd, line, static, cname, ret, args) in pydecl.methods(m):
        ctx.count("C++ methods declared")
        key = "%s::%s" % (cls, name)
        vals = ["std::declval<%s>()" % (a if a.endswith("&") else "std::add_lvalue_reference_t<%s>" % a) for a in args]
        if ret is None:
            claim(key, line, "std::is_constructible<%s%s>::value" % (cls, "".join(", " + a for a in args)), "the constructor declared")
        elif static:
            claim(key, line, "same<%s, decltype(%s::%s(%s))>::value" % (ret, cls, cname, ", ".join(vals)), "%s() returns %s" % (key, ret))
        else:
            const = "const " if not args and ret != "void" else ""
            claim(key, line, "same<%s, std::decay_t<decltype(std::declval<%s%s&>().%s(%s))>>::value" % (ret, const, cls, cname, ", ".join(vals)),
                  "%s() returns %s" % (key, ret))
    for cn, (bt, d, line) in m.constants.items():
        claim(cn, line, "%s == 0" % cn if cn == "GEOARROW_OK" else "sizeof(%s) > 0" % cn, "the constant %s" % cn)
    for e, items in m.enums.items():
        for name, node in items:
            v = node.get("value")
            ctx.count("enumerators declared")
            if v is None:
                continue
            if v["k"] != "IntNode":
                raise AnalysisError("value of %s" % name)
            claim("%s.%s" % (e, name), node["line"], "static_cast<long>(%s) == %s && std::is_same<decltype(%s), %s>::value" % (name, v["value"], name, e),
                  "%s is exported as %s" % (name, v["value"]))
        for name, node in items:
            if node.get("value") is None:
                claim("%s.%s" % (e, name), node["line"], "std::is_same<decltype(%s), %s>::value" % (name, e), "%s is exported as a member of %s" % (name, e))
    # each claim must be decided on its own: a declaration that does not exist is an error of another kind
    text.append("")
    rc, err, _ = pydecl.compile_text("\n".join(text), ["-O0", "-fmacro-backtrace-limit=1"])
    if rc:
        base = pydecl.PRELUDE.count("\n")        # lines before the last line of the first element
        hit = False
        for l in err.splitlines():
            mm = re.match(r".*w\.cpp:(\d+):\d+: error: (.*)", l)
            if not mm:
                continue
            k = int(mm.group(1)) - base - 1
            # the prelude is one element of text but many lines
            key = keys.get(k)
            if key:
                hit = True
                ctx.violation("declaration/" + key[0], "%s:%s" % (REL, key[1]), "%s, which the headers do not say (%s)" % (key[2], mm.group(2)[:160]))
        if not hit:
            raise AnalysisError("witnesses do not compile: %s" % err[:400])
    # headers named by the declarations
    ctx.require(ctx.counts.get("structure fields", 0) > 40, "only %s structure fields" % ctx.counts.get("structure fields"))


def enums(ctx):
    m = module()
    exported = set()
    for s in m.toplevel:
        names = {n["name"] for n in pyx.walk(s, lambda n: n["k"] == "NameNode")}
        if "globals" in names:
            exported |= names & set(m.enums)
    prefixes = {}
    for e, items in m.enums.items():
        want = wit.enumerators(e)
        got = {n for n, _ in items}
        ctx.count("enumerations")
        for n in want:
            ctx.count("enumerators of C")
            if n not in got:
                ctx.violation("enum/%s.%s" % (e, n), "%s (enum %s)" % (REL, e), "the enumerator %s of C is not exported" % n)
        node = items[0][1]
        if e not in exported:
            ctx.violation("enum/%s/global" % e, "%s (enum %s)" % (REL, e), "the members of %s are not copied to the module" % e)
        pre = os.path.commonprefix(sorted(want))
        prefixes[e] = pre[:pre.rindex("_") + 1]
    for n in pyx.walk(m.tree, lambda n: n["k"] == "CEnumDefNode"):
        if not n.get("create_wrapper"):
            ctx.violation("enum/%s/cpdef" % n["name"], "%s:%s" % (REL, n["line"]), "the enumeration %s is not visible from Python" % n["name"])
    return prefixes


def constants(ctx):
    prefixes = enums(type(ctx)(ctx.prop, ctx.tier))
    path = os.path.join(build.REPO, LIB)
    t = ast.parse(open(path).read())
    seen = {}
    bound = set()
    for n in t.body:
        if isinstance(n, ast.ImportFrom):
            bound |= {a.asname or a.name for a in n.names}
        elif isinstance(n, (ast.ClassDef, ast.FunctionDef)):
            bound.add(n.name)
        elif isinstance(n, ast.Assign):
            bound |= {x.id for x in n.targets if isinstance(x, ast.Name)}
        if not isinstance(n, ast.ClassDef):
            continue
        vals = {}
        for a in n.body:
            if isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None:
                tg = a.targets[0] if isinstance(a, ast.Assign) else a.target
                v = a.value
                if isinstance(tg, ast.Name) and isinstance(v, ast.Attribute):
                    parts = []
                    while isinstance(v, ast.Attribute):
                        parts.append(v.attr)
                        v = v.value
                    if isinstance(v, ast.Name) and v.id == "_lib":
                        vals[tg.id] = (parts[0], a.lineno, parts[1] if len(parts) > 1 else None)
        if not vals:
            continue
        # which enumeration: the one most of its values belong to
        m = module()
        votes = {}
        for c, line, via in vals.values():
            e = m.enumitems.get(c)
            votes[e] = votes.get(e, 0) + 1
        e = max(votes, key=lambda k: (votes[k], str(k)))
        if e is None:
            continue
        seen[e] = n.name
        ctx.count("classes of constants")
        for name, (c, line, via) in vals.items():
            ctx.count("constants")
            if m.enumitems.get(c) is None:
                ctx.violation("lib/%s.%s" % (n.name, name), "%s:%d" % (LIB, line), "%s.%s is %s, which is not exported by the bindings" % (n.name, name, c))
            elif c != prefixes[e] + name:
                ctx.violation("lib/%s.%s" % (n.name, name), "%s:%d" % (LIB, line), "%s.%s is %s, not %s%s" % (n.name, name, c, prefixes[e], name))
        for c in wit.enumerators(e):
            if c not in {v[0] for v in vals.values()}:
                ctx.violation("lib/%s/%s" % (n.name, c), "%s:%d" % (LIB, n.lineno), "%s has no constant for %s" % (n.name, c))
    ctx.require(len(seen) >= 4, "only %d classes of constants" % len(seen))
    # everything the package imports from its modules exists
    mod = module()
    have = set(mod.classes) | set(mod.funcs) | set(mod.pyclasses) | set(mod.enums) | set(mod.enumitems)
    for n in ast.walk(t):
        if isinstance(n, ast.ImportFrom) and n.module == "_lib":
            for a in n.names:
                ctx.count("imported names")
                if a.name not in have:
                    ctx.violation("lib/import/%s" % a.name, "%s:%d" % (LIB, n.lineno), "%s is not defined by the bindings" % a.name)
    ti = ast.parse(open(os.path.join(build.REPO, INIT)).read())
    ours = set()
    for n in ti.body:
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                ours.add(a.asname or a.name)
                ctx.count("imported names")
                if n.module == "lib" and a.name not in bound:
                    ctx.violation("init/import/%s" % a.name, "%s:%d" % (INIT, n.lineno), "%s is not defined by lib" % a.name)
        elif isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "__all__":
            for x in n.value.elts:
                if x.value not in ours:
                    ctx.violation("init/__all__/%s" % x.value, "%s:%d" % (INIT, n.lineno), "__all__ names %s, which is not defined" % x.value)


def strip_decode(v):
    while isinstance(v, tuple) and v[:2] == ("op", "pycall") and v[2] == "decode":
        v = v[3]
    return v


def accessors(ctx):
    m = module()
    c = m.classes.get("CGeometryDataType")
    ctx.require(c, "class CGeometryDataType not found")
    cpp = m.cpp["GeometryDataType"]["methods"]
    self = ("obj", "self", "CGeometryDataType")
    fields = [f for f, (bt, d, l) in c["attrs"].items() if pyx.basetype(bt) == "GeometryDataType"]
    ctx.require(len(fields) == 1, "CGeometryDataType does not hold one GeometryDataType")
    vt = ("fld", self, fields[0])

    def final(f):
        return [s for s in pyx.Interp(m).run(f) if s.status is None]

    for name in ("id", "geometry_type", "dimensions", "coord_type", "extension_name", "extension_metadata", "edge_type", "crs_type", "crs"):
        f = c["props"].get(name)
        if f is None:
            ctx.violation("accessor/%s" % name, REL, "CGeometryDataType has no property %s" % name)
            continue
        ctx.count("accessors")
        ps = final(f)
        if not ps:
            ctx.violation("accessor/%s" % name, where(f, f.line), "the property %s always raises" % name)
        for s in ps:
            if strip_decode(s.ret) != ("get", vt, name):
                ctx.violation("accessor/%s" % name, where(f, f.line), "the property %s does not return %s() of the C++ type" % (name, name))
    for name, meth in [("with_" + n, "With" + "".join(w.capitalize() for w in n.split("_")))
                       for n in ("geometry_type", "coord_type", "dimensions", "edge_type", "crs")]:
        f = c["methods"].get(name)
        if f is None:
            ctx.violation("accessor/%s" % name, REL, "CGeometryDataType has no method %s()" % name)
            continue
        ctx.count("accessors")
        ps = final(f)
        if not ps:
            ctx.violation("accessor/%s" % name, where(f, f.line), "%s() always raises" % name)
        for s in ps:
            calls = [e for e in s.events if e[0] == "ccall" and e[1] == "GeometryDataType." + meth]
            ok = len(calls) == 1 and calls[0][2] == vt and \
                tuple(a[1] if isinstance(a, tuple) and len(a) > 1 else a for a in calls[0][3]) == tuple(x["name"] for x in f.args[1:])
            moved = [e for e in s.events if e[0] == "ccall" and e[1] == "GeometryDataType.MoveFrom"]
            ok = ok and s.ret and s.ret[0] == "obj" and any(
                e[2] == ("fld", s.ret, fields[0]) and e[3] and e[3][0] == ("addr", calls[0][4]) for e in moved)
            if not ok:
                ctx.violation("accessor/%s" % name, where(f, f.line), "%s() does not return the result of %s() applied to its arguments" % (name, meth))
    for name, (call, args) in {"Make": ("GeometryDataType::Make0", None), "FromExtension": ("GeometryDataType::Make1", 1),
                               "FromStorage": ("GeometryDataType::Make2", 3)}.items():
        f = c["methods"].get(name)
        if f is None:
            ctx.violation("accessor/%s" % name, REL, "CGeometryDataType has no method %s()" % name)
            continue
        ctx.count("accessors")
        for s in final(f):
            calls = [e for e in s.events if e[0] == "ccall" and e[1].startswith("GeometryDataType::")]
            ok = len(calls) == 1 and calls[0][1] == call
            if ok:
                got = []
                for a in calls[0][3]:
                    if isinstance(a, tuple) and a[0] == "addr":
                        a = a[1][1]
                    got.append(a[1] if isinstance(a, tuple) and len(a) > 1 else a)
                ok = got == [x["name"] for x in f.args] and s.ret[0] == "obj" and any(
                    e[0] == "ccall" and e[1] == "GeometryDataType.MoveFrom" and e[2] == ("fld", s.ret, fields[0]) and e[3][0] == ("addr", calls[0][4])
                    for e in s.events)
            if not ok:
                ctx.violation("accessor/%s" % name, where(f, f.line), "%s() does not return the type made from its arguments" % name)
    for name, meth in (("to_schema", "InitSchema"), ("to_storage_schema", "InitStorageSchema")):
        f = c["methods"].get(name)
        if f is None:
            ctx.violation("accessor/%s" % name, REL, "CGeometryDataType has no method %s()" % name)
            continue
        ctx.count("accessors")
        for s in final(f):
            calls = [e for e in s.events if e[0] == "ccall" and e[1].startswith("GeometryDataType.Init")]
            if not (len(calls) == 1 and calls[0][1] == "GeometryDataType." + meth and calls[0][2] == vt and s.ret[0] == "obj" and
                    calls[0][3] and calls[0][3][0][0] == "addr" and calls[0][3][0][1][:2] == ("fld", s.ret)):
                ctx.violation("accessor/%s" % name, where(f, f.line), "%s() does not return the schema of %s()" % (name, meth))
    # equality: true exactly when everything that makes up a type is equal
    f = c["methods"].get("__eq__")
    if f is not None:
        other = ("typed", f.args[1]["name"], None)
        keys = {}
        for n in ("id", "edge_type", "crs_type", "crs"):
            keys[n] = ("eq",) + tuple(sorted((("get", vt, n), ("fld", other, n)), key=repr))
        ret = 0
        for s in final(f):
            ret += 1
            v = s.ret
            if v not in (0, 1):
                if isinstance(v, tuple) and v[0] == "builtin" and v[1] == "NotImplemented":
                    continue
                ctx.undecided["__eq__"] = "result %s" % (v,)
                continue
            ctx.count("paths of __eq__")
            for n, k in keys.items():
                if v == 1 and s.facts.get(k) is not True:
                    ctx.violation("__eq__/%s" % n, where(f, f.line), "types that differ in %s can be equal" % n)
            if v == 0 and all(s.facts.get(k) is True for k in keys.values()):
                ctx.violation("__eq__/unequal", where(f, f.line), "types that agree in everything can be unequal")
            if v == 0 and not any(s.facts.get(k) is False for k in keys.values()) and \
                    not any(k[0] != "eq" and b is False for k, b in s.facts.items()):
                ctx.violation("__eq__/unequal", where(f, f.line), "types can be unequal without differing")
    else:
        ctx.violation("__eq__", REL, "CGeometryDataType has no __eq__")


def run(ctx):
    ctx.assume("Cython gives an extern enumerator without a value the value the C compiler gives it")
    ctx.parts([("declarations", declarations), ("enumerations", enums), ("constants", constants), ("accessors", accessors)])
