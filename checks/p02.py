"""P02: memory crossing the Python boundary stays valid, is described exactly, and is released once."""
import os
import re

from vlib import pyx, build, pydecl
from vlib.build import AnalysisError
from vlib.pyx import add, mul, lin, unlin
from checks.p01 import REL, module, roots, where, holder_of

TECHNIQUE = "path-enumerating abstract interpretation of Cython's syntax tree (symbolic pointers and extents for each nesting depth, ownership and validity facts), and path enumeration on the LLVM IR of the C glue"
LEVEL = "proof"
EXPLANATION = ("buffers() is interpreted for every nesting depth and coordinate layout with symbolic offsets and lengths: the exported "
               "sequence of (pointer, item size, element count, format, base) must equal the used window of each buffer. The buffer "
               "protocol, set_buffer_*() and the C glue are shown to describe and to hold exactly the memory they pass on; holders "
               "reach C only when neither None nor released; owners release once; reference counts change under the GIL.")
GLUE = "python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h"
ELEM = {"uint8": ("unsigned char", "uint8_t"), "int32": ("int32_t",), "double": ("double",)}
SIZE = {"unsigned char": 1, "uint8_t": 1, "int32_t": 4, "double": 8}


def nonneg(v):
    """Quantities that can't be negative: extents, lengths and offsets of arrays, counts."""
    if not isinstance(v, tuple):
        return False
    if v[0] == "idx" and isinstance(v[1], tuple) and v[1][0] == "fld" and v[1][2] in ("shape", "length", "offset", "last_offset"):
        return True
    return v[0] == "fld" and v[2] in ("n_offsets", "n_values", "n_coords", "coords_stride", "length", "offset", "nbytes")


def zeros(v, facts):
    """v with the quantities known to be zero replaced."""
    out = {}
    for k, c in lin(v).items():
        if any(facts.get(("nz", a)) is False for a in k):
            continue
        out[k] = out.get(k, 0) + c
    return unlin(out)


# ---------------------------------------------------------------- exported views

def view_fields(m):
    """The fields of the buffer class by their role in __getbuffer__."""
    for cls, c in m.classes.items():
        if "__getbuffer__" in c["methods"]:
            return cls, c, c["methods"]["__getbuffer__"]
    raise AnalysisError("no class implements the buffer protocol")


def protocol(ctx, m):
    cls, c, f = view_fields(m)
    buf = ("typed", f.args[1]["name"], f.args[1]["type"])
    self = ("obj", "self", cls)
    roles = {}
    for s in pyx.Interp(m).run(f):
        if s.status == "raise":
            continue
        ctx.count("paths of __getbuffer__")
        got = {p[2]: v for p, v in s.heap.items() if p[0] == "fld" and p[1] == buf}

        def need(name, ok, what):
            if not ok:
                ctx.violation("getbuffer/%s" % name, where(f, f.line), what)
        need("obj", got.get("obj") == self, "the exporter does not hold a reference to itself in buffer.obj")
        need("readonly", got.get("readonly") == 1, "borrowed memory is exported as writable")
        need("ndim", got.get("ndim") == 1, "ndim is not 1")
        b, it, sh, st = got.get("buf"), got.get("itemsize"), got.get("shape"), got.get("strides")
        own = lambda v: isinstance(v, tuple) and v[0] == "fld" and v[1] == self
        need("buf", own(b), "buffer.buf is not the pointer of the exporter")
        need("itemsize", own(it), "buffer.itemsize is not the item size of the exporter")
        need("shape", isinstance(sh, tuple) and sh[0] == "addr" and own(sh[1]), "buffer.shape does not point to the element count of the exporter")
        need("strides", st == ("null",) or isinstance(st, tuple) and st == ("addr", it), "buffer.strides does not point to the item size of the exporter")
        if own(it) and isinstance(sh, tuple) and sh[0] == "addr":
            need("len", got.get("len") == mul(it, sh[1]), "buffer.len is not the element count times the item size")
        need("suboffsets", got.get("suboffsets") == ("null",), "buffer.suboffsets is not NULL")
        need("internal", "internal" in got, "buffer.internal is not set")
        fm = got.get("format")
        if isinstance(fm, tuple) and fm[0] == "str":
            # the format must be the one asked for
            eqs = [k for k, v in s.facts.items() if v and k[0] == "eq" and ("str", fm[1]) in k[1:]]
            need("format", bool(eqs), "the format exported is not the one of the exporter")
            for k in eqs:
                x = [i for i in k[1:] if i != ("str", fm[1])]
                if x and own(x[0]):
                    roles["format"] = x[0][2]
        elif fm != ("null",):
            need("format", own(fm), "the format exported is not the one of the exporter")
        for r, v in (("buf", b), ("itemsize", it), ("shape", sh[1] if isinstance(sh, tuple) and sh[0] == "addr" else None)):
            if own(v):
                roles[r] = v[2]
    return cls, c, roles


def pyobject_fields(c):
    return [f for f, (bt, d, l) in c["attrs"].items() if d["k"] == "CNameDeclaratorNode" and
            (pyx.basetype(bt) in ("object", None) or (bt.get("name") or "")[:1].isupper())]


class Bytes(pyx.Interp):
    """Pointers cast to integers are measured in bytes."""

    def itemsize(self, atom):
        if not (isinstance(atom, tuple) and atom[0] == "idx" and isinstance(atom[1], tuple) and atom[1][0] == "fld"):
            return None
        s = self.typeof(atom[1][1])
        f = self.m.structs.get(s, {}).get(atom[1][2])
        if not f:
            return None
        bt, d, _ = f
        return SIZE.get(pyx.basetype(bt)) if "CPtrDeclaratorNode" in (d["k"], (d.get("base") or {}).get("k")) else None

    def e_TypecastNode(self, n, st):
        out = []
        for s, v in self.ev(n["operand"], st):
            if s.status is None and pyx.basetype(n["base_type"]) in ("uintptr_t", "size_t", "intptr_t") and n["declarator"]["k"] == "CNameDeclaratorNode":
                l = lin(v)
                ps = [(k, self.itemsize(k[0])) for k in l if len(k) == 1 and self.itemsize(k[0])]
                if len(ps) == 1 and l[ps[0][0]] == 1:
                    k, size = ps[0]
                    v = unlin({q: (c if q == k else c * size) for q, c in l.items()})
            out.append((s, v))
        return out


def windows(ctx, m):
    cls, c, roles = protocol(ctx, m)
    if set(roles) < {"buf", "itemsize", "shape", "format"}:
        raise AnalysisError("roles of the fields of %s: %s" % (cls, roles))
    users = [f for f in roots(m) if f.cls and any(
        n["function"].get("name") == cls for n in pyx.walk(f.node, lambda n: n["k"] == "SimpleCallNode")) or f.name == "buffers"]
    ctx.require(users, "nothing makes a %s" % cls)
    f = m.classes["CArrayView"]["methods"].get("buffers")
    ctx.require(f, "CArrayView.buffers() not found")
    self = ("obj", "self", "CArrayView")
    views = [x for x, (bt, d, l) in m.classes["CArrayView"]["attrs"].items() if pyx.basetype(bt) == "GeoArrowArrayView"]
    ctx.require(len(views) == 1, "CArrayView does not hold one GeoArrowArrayView")
    V = ("fld", self, views[0])
    C = ("fld", V, "coords")

    def el(name, i):
        return ("idx", ("fld", V, name), i)
    scen = [(k, "separate", v) for k in range(4) for v in (2, 3, 4)] + [(k, "interleaved", v) for k in range(4) for v in (2, 3, 4)] + \
           [(0, "separate", v) for v in (6, 8)]
    objfields = pyobject_fields(c)
    for k, layout, nv in scen:
        stride = 1 if layout == "separate" else nv
        I = Bytes(m, assume={("fld", V, "n_offsets"): k, ("fld", C, "n_values"): nv, ("fld", C, "coords_stride"): stride})
        I.nonneg = nonneg
        for s in I.run(f):
            ctx.count("paths of buffers()")
            at = "depth %d, %s, %d ordinates" % (k, layout, nv)
            if s.status is not None or not (isinstance(s.ret, tuple) and s.ret[0] == "list"):
                ctx.violation("buffers/fails:%d" % k, where(f, f.line), "buffers() does not return a list for an array of %s" % at)
                continue
            got = s.lists[s.ret[1]]
            want = 1 + k + (nv if layout == "separate" else 1)
            if len(got) != want:
                ctx.violation("buffers/number:depth %d" % k, where(f, f.line),
                              "%d buffers are returned for an array of %s, which has %d" % (len(got), at, want))
                continue
            if got[0] != ("none",):
                ctx.violation("buffers/validity", where(f, f.line), "the first buffer is not the (absent) validity buffer")
            n = el("length", 0)
            for i, o in enumerate(got[1:]):
                ctx.count("exported buffers")
                if not (isinstance(o, tuple) and o[0] == "obj" and o[2] == cls):
                    ctx.violation("buffers/kind", where(f, f.line), "buffer %d of an array of %s is not a %s" % (i + 1, at, cls))
                    continue
                g = {r: s.heap.get(("fld", o, x)) for r, x in roles.items()}
                coords = i >= k
                if coords:
                    j = i - k
                    p = add(("idx", ("fld", C, "values"), j), mul(el("offset", k), 8 * stride))
                    starts = [p]
                    cnt = [mul(n, 1 if layout == "separate" else nv)]
                    size, fmt = 8, "d"
                    name = "coordinates"
                else:
                    base = el("offsets", i)
                    some = s.facts.get(("nz", el("length", i)))
                    null = s.facts.get(("nz", base)) is False
                    shifted = add(base, mul(el("offset", i), 4))
                    starts = [shifted] if some else [base]
                    cnt = [add(n, 1)]
                    if some is False:
                        cnt.append(1)
                    if null:
                        starts, cnt = None, [0]
                    elif some is None:
                        starts = [] if s.facts.get(("nz", base)) is None else []
                    size, fmt = 4, "i"
                    name = "offsets of level %d" % i
                key = "coordinates:%s" % layout if coords else "offsets"
                if starts is not None and not any(zeros(x, s.facts) == zeros(g["buf"], s.facts) for x in starts):
                    if starts == []:
                        # no knowledge of whether the array is empty: only correct when C provides the shifted element, which it does not
                        ctx.violation("buffers/start:%s" % key, where(f, f.line),
                                      "the %s of an array of %s start at an element that does not exist when the array is empty, or ignore its offset" % (name, at))
                    else:
                        ctx.violation("buffers/start:%s" % key, where(f, f.line),
                                      "the %s of an array of %s do not start at its offset" % (name, at))
                if not any(zeros(x, s.facts) == zeros(g["shape"], s.facts) for x in cnt):
                    ctx.violation("buffers/extent:%s" % key, where(f, f.line),
                                  "the extent of the %s of an array of %s is not the one in use" % (name, at))
                if g["itemsize"] != size or g["format"] != ("str", fmt):
                    ctx.violation("buffers/item:%s" % key, where(f, f.line), "the %s are exported with item size %s and format %s" % (name, g["itemsize"], g["format"]))
                if not any(s.heap.get(("fld", o, x)) == self for x in objfields):
                    ctx.violation("buffers/base", where(f, f.line), "the exported buffer does not hold the view whose memory it exposes")
                if not coords:
                    n = el("last_offset", i)
    # the view holds the array
    for f in roots(m):
        for s in pyx.Interp(m).run(f):
            if s.status is not None:
                continue
            for e in s.events:
                if e[0] != "ccall" or e[1] != "GeoArrowArrayViewSetArray":
                    continue
                ctx.count("attached arrays")
                v, a = holder_of(e[3][0]), holder_of(e[3][1])
                if not (v and v[0] == "obj" and v[1] == "self") or a is None:
                    ctx.violation("keepalive/view:%s" % f.qual, where(f, e[5]), "the view or the array attached is not held by a Python object")
                    continue
                ok = [x for x in pyobject_fields(m.classes[v[2]]) if s.heap.get(("fld", v, x)) == a]
                if not ok:
                    ctx.violation("keepalive/array:%s" % f.qual, where(f, e[5]), "the array whose memory the view refers to is not held by the view")
    # nothing replaces what an object holds after construction
    for f in roots(m):
        if f.name in ("__cinit__", "__init__") or not f.cls:
            continue
        held = set(pyobject_fields(m.classes[f.cls]))
        for s in pyx.Interp(m).run(f):
            for e in s.events:
                if e[0] == "set" and e[1][0] == "fld" and e[1][1] == ("obj", "self", f.cls) and e[1][2] in held and f.cls in ("CArrayView", cls):
                    ctx.violation("keepalive/replaced:%s.%s" % (f.cls, e[1][2]), where(f, e[3]), "the object keeping the memory alive is replaced")


# ---------------------------------------------------------------- buffers given to C

def given(ctx, m):
    c = m.classes["CBuilder"]
    n = 0
    for name, f in c["methods"].items():
        mm = re.match(r"set_buffer_(\w+)$", name)
        if not mm:
            continue
        n += 1
        elem = ELEM.get(mm.group(1))
        if elem is None:
            raise AnalysisError("element type of %s" % name)
        I = pyx.Interp(m)
        I.nonneg = nonneg
        obj = ("typed", f.args[2]["name"], f.args[2]["type"])
        ok = empty = False
        for s in I.run(f):
            calls = [e for e in s.events if e[0] == "ccall" and e[1] == "GeoArrowBuilderSetPyBuffer"]
            if s.status is not None and not calls:
                continue
            if len(calls) != 1:
                ctx.violation("given/calls:%s" % name, where(f, f.line), "the buffer is given to the builder %d times" % len(calls))
                continue
            ctx.count("buffers given")
            a = calls[0][3]
            line = calls[0][5]
            if a[0][:1] != ("addr",) or not holder_of(a[0]) or holder_of(a[0])[1] != "self":
                ctx.violation("given/builder:%s" % name, where(f, line), "the buffer is not given to the builder of the object")
            if a[1] != ("typed", f.args[1]["name"], f.args[1]["type"]):
                ctx.violation("given/index:%s" % name, where(f, line), "the index of the buffer is not the one requested")
            keep, ptr, size = a[2], a[3], a[4]
            sl = None
            if isinstance(ptr, tuple) and ptr[0] == "addr" and ptr[1][0] == "idx" and isinstance(ptr[1][1], tuple) and ptr[1][1][0] == "slice":
                sl = ptr[1][1]
                if ptr[1][2] != 0:
                    ctx.violation("given/pointer:%s" % name, where(f, line), "the buffer does not start at the first element")
                shape = ("idx", ("fld", sl, "shape"), 0)
                if s.facts.get(("nz", shape)) is not True:
                    ctx.violation("given/empty:%s" % name, where(f, line), "the address of the first element is taken without knowing that there is one")
            elif ptr == ("null",):
                sls = [k[1][1][1] for k, v in s.facts.items() if k[0] == "nz" and v is False and k[1][0] == "idx" and
                       isinstance(k[1][1], tuple) and k[1][1][0] == "fld" and isinstance(k[1][1][1], tuple) and k[1][1][1][0] == "slice"]
                if not sls:
                    ctx.violation("given/null:%s" % name, where(f, line), "NULL is given for a buffer that may have elements")
                    continue
                sl = sls[0]
            else:
                ctx.violation("given/pointer:%s" % name, where(f, line), "the pointer given is not the memory of a typed view")
                continue
            mem, t, nd, contig = sl[1], sl[2], sl[3], sl[4]
            if t not in elem:
                ctx.violation("given/type:%s" % name, where(f, line), "elements of type %s are taken as %s" % (t, mm.group(1)))
            if not contig or nd != 1:
                ctx.violation("given/contiguous:%s" % name, where(f, line), "a view that need not be contiguous is given as contiguous memory")
            shape = ("idx", ("fld", sl, "shape"), 0)
            alts = [mul(shape, SIZE.get(t, 0)), ("fld", sl, "nbytes"), ("fld", mem, "nbytes")]
            if not any(zeros(size, s.facts) == zeros(x, s.facts) for x in alts):
                ctx.violation("given/size:%s" % name, where(f, line), "the size given is not the size of the buffer in bytes")
            if not (isinstance(mem, tuple) and mem[:3] == ("op", "builtin", "memoryview") and mem[3] == obj):
                ctx.violation("given/source:%s" % name, where(f, line), "the memory given is not that of the object passed in")
            if keep != mem:
                ctx.violation("given/keep:%s" % name, where(f, line), "the object kept alive does not hold an export of the memory: it may be resized")
            ok = ok or s.status is None
            empty = empty or s.status is None and ptr == ("null",)
        if not ok:
            ctx.violation("given/never:%s" % name, where(f, f.line), "no buffer can be given")
    ctx.require(n >= 3, "set_buffer_*() not found")


# ---------------------------------------------------------------- holders and owners

def struct_of(m, bt, d):
    return pyx.basetype(bt) if d["k"] == "CNameDeclaratorNode" else None


def holders(ctx, m):
    for f in roots(m):
        try:
            paths = pyx.Interp(m).run(f)
        except pyx.Unsupported as e:
            ctx.undecided[f.qual] = str(e)
            continue
        params = {}
        for i, a in enumerate(f.args):
            if a["type"] in m.classes and not (i == 0 and f.cls and not f.static):
                params[("obj", a["name"], a["type"])] = a
        for s in paths:
            used = set()
            for e in s.events:
                if e[0] == "pyuse":
                    used.add(e[1])
                if e[0] != "ccall":
                    continue
                for x in e[3]:
                    h = holder_of(x)
                    if h not in params:
                        continue
                    ctx.count("holders passed to C")
                    if not params[h]["not_none"] and h not in used and s.facts.get(("nz", h)) is not True:
                        ctx.violation("none/%s.%s" % (f.qual, h[1]), where(f, e[5]), "None reaches %s() as %s" % (e[1], h[1]))
                    if h[2] == "ArrayHolder":
                        rel = ("fld", ("fld", h, x[1][2]), "release")
                        if s.facts.get(("nz", rel)) is not True:
                            ctx.violation("released/%s.%s" % (f.qual, h[1]), where(f, e[5]), "a released array reaches %s()" % e[1])
            # every use of the C++ type follows a test that it is initialised
            seen = {}
            for e in s.events:
                if e[0] != "ccall" or not e[1].startswith("GeometryDataType.") or e[1].endswith(".id"):
                    continue
                src = e[2] if not e[1].endswith(".MoveFrom") else (e[3][0][1] if isinstance(e[3][0], tuple) and e[3][0][0] == "addr" else e[3][0])
                k = ("eq",) + tuple(sorted((("get", src, "id"), ("enum", "GEOARROW_TYPE_UNINITIALIZED")), key=repr))
                ctx.count("uses of a C++ type")
                if s.facts.get(k) is not False:
                    ctx.violation("uninitialized/%s" % f.qual, where(f, e[5]), "%s() is called on a type that may be uninitialized" % e[1])
    # owners
    for cls, c in m.classes.items():
        for fld, (bt, d, line) in c["attrs"].items():
            t = struct_of(m, bt, d)
            if t not in m.structs or not ("release" in m.structs[t] or t == "GeoArrowBuilder"):
                continue
            ctx.count("owners")
            p = ("fld", ("obj", "self", cls), fld)
            de = c["methods"].get("__dealloc__")
            if de is None:
                ctx.violation("owner/%s.%s/dealloc" % (cls, fld), "%s:%d" % (REL, line), "%s never releases %s" % (cls, fld))
                continue
            for meth, f in c["methods"].items():
                for s in pyx.Interp(m).run(f):
                    if t == "GeoArrowBuilder":
                        calls = [e for e in s.events if e[0] == "ccall" and e[1] == "GeoArrowBuilderReset" and e[3] == (("addr", p),)]
                        if meth == "__dealloc__" and len(calls) != 1:
                            ctx.violation("owner/%s.%s/reset" % (cls, fld), where(f, f.line), "the builder is reset %d times" % len(calls))
                        if meth != "__dealloc__" and calls:
                            ctx.violation("owner/%s.%s/reset:%s" % (cls, fld, meth), where(f, f.line), "the builder is reset while in use")
                        continue
                    calls = [e for e in s.events if e[0] == "ccall" and e[1] == t + ".release" and e[2] == p]
                    live = s.facts.get(("nz", ("fld", p, "release")))
                    for e in calls:
                        if e[3] != (("addr", p),):
                            ctx.violation("owner/%s.%s/argument" % (cls, fld), where(f, e[5]), "release() is not given the object it belongs to")
                    if calls and (live is not True or len(calls) > 1):
                        ctx.violation("owner/%s.%s/released" % (cls, fld), where(f, calls[-1][5]), "something already released can be released again")
                    if meth == "__dealloc__" and live is not False and not calls:
                        ctx.violation("owner/%s.%s/leak" % (cls, fld), where(f, f.line), "%s is not released on every path" % fld)
                    if meth == "release" and s.status is None and not calls:
                        ctx.violation("owner/%s.%s/leak" % (cls, fld), where(f, f.line), "release() does not release")
            ini = c["methods"].get("__cinit__")
            for s in pyx.Interp(m).run(ini) if ini else []:
                v = s.heap.get(("fld", p, "release"))
                if v is not None and v != ("null",):
                    ctx.violation("owner/%s.%s/init" % (cls, fld), where(ini, ini.line), "an empty holder does not start as released")


# ---------------------------------------------------------------- the C glue

def glue(ctx):
    text = '#include <Python.h>\n#include <stdint.h>\n#include "geoarrow/geoarrow.h"\n#include "geoarrow_python/geoarrow_python.h"\n' \
           'extern "C" GeoArrowErrorCode w_set(struct GeoArrowBuilder* b, int64_t i, PyObject* o, const void* p, int64_t n) ' \
           '{ return GeoArrowBuilderSetPyBuffer(b, i, o, p, n); }\n'
    rc, err, ll = pydecl.compile_text(text, ["-O1", "-fno-vectorize", "-g0"])
    if rc:
        raise AnalysisError("the glue does not compile: %s" % err[:300])
    fns = {}
    for mm in re.finditer(r'^define [^\n]*@(\w+)\(([^\n]*?)\)[^\n]*\{\n(.*?)^\}', ll, re.M | re.S):
        fns[mm.group(1)] = (re.findall(r'%[\w.]+', mm.group(2)), mm.group(3))
    ctx.require("w_set" in fns, "witness vanished")
    args, body = fns["w_set"]
    free = None
    n = 0
    for path in llpaths(body):
        n += 1
        ctx.count("paths of the glue")
        code, net, order, conds, ret = None, 0, [], path["conds"], path["ret"]
        for callee, a, res in path["calls"]:
            if callee == "GeoArrowBuilderSetOwnedBuffer":
                if code is not None:
                    ctx.violation("glue/twice", GLUE, "the buffer is given to the builder twice")
                code = res
                v = [x.split()[-1] for x in a]
                if v[0] != args[0] or v[1] != args[1]:
                    ctx.violation("glue/builder", GLUE, "the builder or index given is not the one passed in")
                if v[-1] != args[2]:
                    ctx.violation("glue/object", GLUE, "the object given to the deallocator is not the one passed in")
                if args[3] not in v or args[4] not in v:
                    ctx.violation("glue/extent", GLUE, "the pointer and size given are not the ones passed in")
                fr = [x[1:] for x in v if x.startswith("@")]
                free = fr[0] if fr else None
            elif callee in ("Py_INCREF", "Py_DECREF"):
                if a[0].split()[-1] != args[2]:
                    ctx.violation("glue/count", GLUE, "the count of another object changes")
                net += 1 if callee == "Py_INCREF" else -1
        if code is None:
            ctx.violation("glue/none", GLUE, "a path does not give the buffer to the builder")
            continue
        good = conds.get(code)
        if good is None:
            ctx.violation("glue/unconditional", GLUE, "the reference taken does not depend on whether the builder took the buffer")
        elif net != (1 if good else 0):
            ctx.violation("glue/refcount:%s" % ("success" if good else "failure"), GLUE,
                          "the reference count of the object changes by %d when the builder %s the buffer" % (net, "takes" if good else "refuses"))
        if ret not in (code,) and not (good and ret == "0"):
            ctx.violation("glue/result", GLUE, "the status of the builder is not returned")
    ctx.require(n >= 2, "no paths in the glue")
    ctx.require(free in fns, "the deallocator of the glue was not found")
    fargs, fbody = fns[free]
    for path in llpaths(fbody):
        ctx.count("paths of the glue")
        seq, state = [], None
        for callee, a, res in path["calls"]:
            if callee == "PyGILState_Ensure":
                state = res
                seq.append("+")
            elif callee == "PyGILState_Release":
                seq.append("-")
                if a[0].split()[-1] != state:
                    ctx.violation("glue/gil-state", GLUE, "the GIL is not given back to the state it was taken from")
            elif callee == "Py_DECREF":
                seq.append("D")
                if a[0].split()[-1] != fargs[2]:
                    ctx.violation("glue/free-object", GLUE, "the reference dropped is not the one held")
            elif callee == "Py_INCREF":
                seq.append("I")
        if seq.count("D") - seq.count("I") != 1 and not path["null"].get(fargs[2]):
            ctx.violation("glue/free-count", GLUE, "%d references are dropped when the buffer is freed" % (seq.count("D") - seq.count("I")))
        if not re.match(r"^(\+[DI]*-)*$", "".join(seq)):
            ctx.violation("glue/gil", GLUE, "the reference count is changed without holding the GIL")


def llpaths(body):
    """Paths of an acyclic function in textual IR: calls in order, what is known of each call's result."""
    blocks, cur, order = {}, None, []
    for l in body.split("\n"):
        mm = re.match(r"^([\w.]+):", l)
        if mm:
            cur = mm.group(1)
        elif cur is None and l.strip():
            cur = "entry#"
        if cur is None:
            continue
        if cur not in blocks:
            blocks[cur] = []
            order.append(cur)
        if l.strip() and not mm:
            blocks[cur].append(l.strip())
    first = order[0]
    out = []

    def go(b, env, depth, prev):
        if depth > 40:
            raise AnalysisError("loop in the glue")
        env = dict(calls=list(env["calls"]), conds=dict(env["conds"]), cmps=dict(env["cmps"]), null=dict(env["null"]), alias=dict(env["alias"]))

        def val(x):
            return env["alias"].get(x, x)
        for l in blocks[b]:
            mm = re.match(r"(?:(%[\w.]+) = )?(?:tail |musttail |notail )?call [^@]*@(\w+)\((.*)\)", l)
            if mm:
                a = [x for x in split_args(mm.group(3))]
                a = [" ".join(x.split()[:-1] + [val(x.split()[-1])]) if x.strip() else x for x in a]
                if not mm.group(2).startswith("llvm."):
                    env["calls"].append((mm.group(2), a, mm.group(1)))
                continue
            mm = re.match(r"(%[\w.]+) = icmp (eq|ne) \w+ (\S+), (\S+)", l)
            if mm:
                env["cmps"][mm.group(1)] = (mm.group(2), val(mm.group(3)), mm.group(4))
                continue
            mm = re.match(r"(%[\w.]+) = phi \S+ (.*)", l)
            if mm:
                for v, p in re.findall(r"\[ ([^,]+), %([\w.]+) \]", mm.group(2)):
                    if p == prev or (prev == "entry#" and p not in blocks):
                        env["alias"][mm.group(1)] = val(v)
                continue
            if l.startswith("ret"):
                out.append(dict(calls=env["calls"], conds=env["conds"], null=env["null"], ret=val(l.split()[-1])))
                return
            mm = re.match(r"br i1 (%[\w.]+), label %([\w.]+), label %([\w.]+)", l)
            if mm:
                c = env["cmps"].get(mm.group(1))
                for t, truth in ((mm.group(2), True), (mm.group(3), False)):
                    e = dict(env, conds=dict(env["conds"]), null=dict(env["null"]))
                    if c and c[2] in ("0", "null"):
                        zero = truth == (c[0] == "eq")
                        if c[2] == "0":
                            e["conds"][c[1]] = zero
                        else:
                            e["null"][c[1]] = zero
                    go(t, e, depth + 1, b)
                return
            mm = re.match(r"br label %([\w.]+)", l)
            if mm:
                return go(mm.group(1), env, depth + 1, b)
            if l.startswith("unreachable"):
                return
            if re.match(r"(%[\w.]+) = select", l) or l.startswith(("switch", "invoke", "store", "indirectbr")):
                if l.startswith("store"):
                    continue
                raise AnalysisError("instruction in the glue: %s" % l[:80])
    go(first, dict(calls=[], conds={}, cmps={}, null={}, alias={}), 0, None)
    return out


def split_args(t):
    out, d, cur = [], 0, ""
    for ch in t:
        if ch in "([{<":
            d += 1
        elif ch in ")]}>":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        elif d < 0:
            break
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def run(ctx):
    ctx.assume("arrays given to the bindings are valid Arrow arrays; a memoryview keeps its memory in place until it is released")
    ctx.parts([("exported buffers", lambda c: windows(c, module())), ("given buffers", lambda c: given(c, module())),
               ("holders and owners", lambda c: holders(c, module())), ("glue", glue)])
