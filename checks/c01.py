"""C01: the C++ wrappers own what they hold, forward faithfully and turn failures into exceptions."""
import os
import re

from vlib import cmod, cxi, cxx
from vlib.build import AnalysisError
from vlib.cxi import ZERO
from vlib.cty import Types, is_ptr, struct_name, pointee

TECHNIQUE = "path enumeration over the IR of every wrapper function (clang AST supplies the functions), typestate rules on each path"
LEVEL = "other"
EXPLANATION = (
    "A translation unit that uses every public function of the wrapper classes is generated from clang's syntax tree, and "
    "every path through each of them is enumerated symbolically over the IR (C functions are opaque: they may fail or succeed, and "
    "change what they are given). On every path: a failing C call ends the function with an exception carrying its status and the "
    "error object it filled, or returns that status; each wrapper method calls the C function it stands for, on its own "
    "object, with its own arguments; owned C objects are released exactly once; and the view of the CRS in a type "
    "points into that type's own string.")

WRAP = ("array_reader.hpp", "array_writer.hpp", "geometry_data_type.hpp", "internal.hpp")
STD = ("unique_ptr.h", "move.h", "tuple", "utility", "new_allocator.h")


class World:
    def __init__(self):
        self.decls = cxx.Decls()
        self.mod = cxx.module(self.decls)
        self.c = cmod.c_module()
        self.sig = {}
        for f in self.c.functions.values():
            if f.dtypes and (f.dname not in self.sig or not f.decl):
                self.sig[f.dname] = ([x or "?" for x in f.dtypes], [p["name"] for p in f.params])
        bad = cmod.fallible_functions(self.c)
        self.status = {self.c.functions[n].dname for n in bad} | {n for n, (d, _) in self.sig.items() if d[0] in ("GeoArrowErrorCode", "ArrowErrorCode")}
        self.types = Types(self.mod.structs)
        self.ip = cxi.Interp(self.mod, self.follow, self.effects)
        self.roots = [f for f in sorted(self.mod.functions.values(), key=lambda f: f.dem)
                      if not f.decl and os.path.basename(f.file) in WRAP and "/hpp/" in f.file]

    def follow(self, g):
        if g.decl or re.search(r"Exception::~?\w+\(", g.dem):
            return False
        return "/geoarrow/hpp/" in g.file or os.path.basename(g.file) in STD

    def effects(self, g, name):
        """How much of each argument a C function may change (None: all of it)."""
        d = self.sig.get(g.dname if g else name)
        if d is None:
            return None
        out = []
        for t in d[0][1:]:
            if t.startswith("const ") and is_ptr(t):
                out.append(0)
            elif is_ptr(t) and struct_name(pointee(t)):
                out.append(self.types.sizeof(pointee(t)))
            else:
                out.append(None)
        g_args = len(g.params) if g else len(out)
        return out if g_args == len(out) else None

    def off(self, cls, *path):
        o, t = 0, cls
        for p in path:
            m = self.types.member(t, p)
            if m is None:
                raise AnalysisError("%s has no member %s" % (t, p))
            o += m["off"]
            t = struct_name(m["type"])
        return o

    def find(self, pat):
        r = [f for f in self.roots if re.search(pat, f.dem)]
        if not r:
            raise AnalysisError("no function %s in the C++ wrappers" % pat)
        return r

    def cname(self, e):
        """The C function of a call event."""
        n = e[5].dname if e[5] is not None else e[1]
        return n if n.startswith("GeoArrow") or n.startswith("Arrow") else None

    def ccalls(self, s):
        return [(self.cname(e), e[2], e[3], e[4], i) for i, e in enumerate(s.events) if e[0] == "call" and self.cname(e)]

    def exception(self, s):
        """(code, error pointer, index) of the ErrnoException a path throws; other exceptions give (None, None, index)"""
        t = [(i, e) for i, e in enumerate(s.events) if e[0] == "throw"]
        if not t:
            return None
        i, e = t[-1]
        for j, c in enumerate(s.events[:i]):
            if c[0] == "call" and "ErrnoException::ErrnoException(" in c[1] and c[2][0][:2] == e[1][:2]:
                return c[2][1], c[2][3], j
        return None, None, i


def where(f):
    return "%s:%d" % (os.path.relpath(f.file, "/repo") if f.file.startswith("/repo") else f.file[f.file.find("src/geoarrow"):], f.line)


def short(f):
    d = f.dem.replace("geoarrow::", "").replace("std::__cxx11::", "")
    d = re.sub(r"basic_string<char, std::char_traits<char>, std::allocator<char>>", "string", d)
    d = re.sub(r"\[abi:cxx11\]", "", d)
    d = re.sub(r"witness::", "", d)
    return re.sub(r"^void (?=\w+::)", "", d)


def strip(v):
    while v[0] == "op" and v[1] in ("zext", "sext", "trunc"):
        v = v[2]
    return v


def paths(W, ctx, f, args=None, st=None):
    r = W.ip.run(f, args, st)
    ctx.count("paths", len(r))
    return r


# ------------------------------------------------------------------ statuses
def statuses(ctx, W):
    ctx.count("functions", len(W.roots))
    for f in W.roots:
        if "ToString" in f.dem:
            continue
        checked = set()
        for s in paths(W, ctx, f):
            if s.status == "terminate":
                continue
            exc = W.exception(s)
            codes = set()
            for n, args, r, ins, i in W.ccalls(s):
                if n not in W.status:
                    continue
                checked.add((n, ins.j.get("line")))
                codes.add(r)
                nz = W.ip.nonzero(s, r)
                key = "%s/%s" % (short(f), n)
                if nz is None and not (s.status == "ret" and s.ret is not None and strip(s.ret) == r):
                    ctx.violation("ignored/" + key, where(f), "%s ignores the status of %s()" % (short(f), n))
                if not nz:
                    continue
                if s.status == "ret" and s.ret is not None and strip(s.ret) == r:
                    pass
                elif s.status != "throw" or exc is None:
                    ctx.violation("swallowed/" + key, where(f), "%s goes on although %s() has failed" % (short(f), n))
                    continue
                elif exc[0] is None or strip(exc[0]) != r and not (exc[0][0] == "i" and exc[0][1] == s.known.get(r)):
                    ctx.violation("code/" + key, where(f), "%s throws something else than the status of %s()" % (short(f), n))
                    continue
                for e in s.events[i + 1:]:
                    if e[0] == "call" and W.cname(e) and not W.cname(e).endswith(("Reset", "Release")):
                        ctx.violation("later/" + key, where(f), "%s calls %s() although %s() has failed" % (short(f), W.cname(e), n))
                # the error object
                d = W.sig[n][0]
                takes = d[-1] == "struct GeoArrowError*"
                if exc is not None and s.status == "throw":
                    if takes and (args[-1] == ZERO or exc[1] != args[-1]):
                        ctx.violation("error/" + key, where(f), "%s throws without the message %s() left" % (short(f), n))
                    if not takes and exc[1] != ZERO and exc[1][0] == "p" and W.ip.load(s, exc[1], 1) != ZERO:
                        ctx.violation("error/" + key, where(f), "%s throws with an error object nothing was written to" % short(f))
            if s.status == "throw" and exc is not None and exc[0] is not None and strip(exc[0]) not in codes and exc[0][0] != "i":
                ctx.violation("code/" + short(f), where(f), "%s throws a code that no C function returned" % short(f))
        ctx.count("status calls", len(checked))
    if ctx.counts.get("status calls", 0) < 25:
        raise AnalysisError("only %d calls that return a status were found" % ctx.counts.get("status calls", 0))


# ------------------------------------------------------------------ forwarding
THIS = ("obj", "this")


def ld(base, off, size=4):
    return ("ld", base, off, size, 0)


def argbase(f, k):
    """The object the k-th parameter (without this and a returned object) points to."""
    return ("arg", params(f)[k]["name"])


def params(f):
    ps = [p for p in f.params if p["name"] not in ("this", "agg.result")]
    return ps


def A(k):
    return lambda W, f, s: [("p", ("arg", params(f)[k]["name"]), 0)] if params(f)[k]["type"] == "ptr" else [("arg", params(f)[k]["name"])]


def M(cls, *path):
    """A member of the object itself."""
    return lambda W, f, s: [("p", THIS, W.off(cls, *path))]


def F(cls, *path):
    """The value of a field of the object itself."""
    return lambda W, f, s: [ld(THIS, W.off(cls, *path))]


def TYPEID(k):
    return lambda W, f, s: [ld(argbase(f, k), W.off("GeometryDataType", "schema_view_", "type"))]


def RESULT(k, method):
    """What a method of the k-th argument returns."""
    def get(W, f, s):
        return [e[3] for e in s.events if e[0] == "call" and re.search(r"::%s\(\) const" % method, e[1]) and e[2][0][:2] == ("p", argbase(f, k))]
    return get


def BYTES(k):
    def get(W, f, s):
        return [("op", "mul") + tuple(sorted((x, ("i", 8)), key=repr)) for x in RESULT(k, "size")(W, f, s)] + \
               [("op", "shl", x, ("i", 3)) for x in RESULT(k, "size")(W, f, s)] + [ZERO for x in RESULT(k, "size")(W, f, s) if W.ip.nonzero(s, x) is False]
    return get


def DATA(k):
    def get(W, f, s):
        r = RESULT(k, "data")(W, f, s)
        return r or [ZERO]
    return get


def ERR(W, f, s):
    return None


def LOCAL(W, f, s):
    return None


def forwards(ctx, W):
    R, B, WR, G = ("ArrayReader", "reader_"), ("ArrayBuilder", "builder_"), ("ArrayWriter", "writer_"), "GeometryDataType"
    table = [
        (r"ArrayReader::ArrayReader\(GeoArrowType\)", "GeoArrowArrayReaderInitFromType", [M(*R), A(0)]),
        (r"ArrayReader::ArrayReader\(geoarrow::GeometryDataType const&\)", "GeoArrowArrayReaderInitFromType", [M(*R), TYPEID(0)]),
        (r"ArrayReader::ArrayReader\(ArrowSchema const\*\)", "GeoArrowArrayReaderInitFromSchema", [M(*R), A(0), ERR]),
        (r"ArrayReader::SetArrayNonOwning\(", "GeoArrowArrayReaderSetArray", [M(*R), A(0), ERR]),
        (r"ArrayReader::Visit\(", "GeoArrowArrayReaderVisit", [M(*R), A(1), A(2), A(0)]),
        (r"ArrayWriter::ArrayWriter\(GeoArrowType\)", "GeoArrowArrayWriterInitFromType", [M(*WR), A(0)]),
        (r"ArrayWriter::ArrayWriter\(geoarrow::GeometryDataType const&\)", "GeoArrowArrayWriterInitFromType", [M(*WR), TYPEID(0)]),
        (r"ArrayWriter::ArrayWriter\(ArrowSchema const\*\)", "GeoArrowArrayWriterInitFromSchema", [M(*WR), A(0)]),
        (r"ArrayWriter::SetPrecision\(", "GeoArrowArrayWriterSetPrecision", [M(*WR), A(0)]),
        (r"ArrayWriter::SetFlatMultipoint\(", "GeoArrowArrayWriterSetFlatMultipoint", [M(*WR), A(0)]),
        (r"ArrayWriter::Finish\(", "GeoArrowArrayWriterFinish", [M(*WR), A(0), ERR]),
        (r"ArrayBuilder::ArrayBuilder\(GeoArrowType\)", "GeoArrowBuilderInitFromType", [M(*B), A(0)]),
        (r"ArrayBuilder::ArrayBuilder\(geoarrow::GeometryDataType const&\)", "GeoArrowBuilderInitFromType", [M(*B), TYPEID(0)]),
        (r"ArrayBuilder::ArrayBuilder\(ArrowSchema const\*\)", "GeoArrowBuilderInitFromSchema", [M(*B), A(0), ERR]),
        (r"ArrayBuilder::Finish\(", "GeoArrowBuilderFinish", [M(*B), A(0), ERR]),
        (r"ArrayBuilder::AppendCoords\(", "GeoArrowBuilderCoordsAppend", [M(*B), A(0), A(1), A(2), A(3)]),
        (r"ArrayBuilder::AppendToBuffer<.*Elems", "GeoArrowBuilderAppendBuffer", [M(*B), A(0), DATA(1), BYTES(1)]),
        (r"ArrayBuilder::AppendToOffsetBuffer<", "GeoArrowBuilderOffsetAppend", [M(*B), A(0), RESULT(1, "data"), RESULT(1, "size")]),
        (r"GeometryDataType::InitSchema\(", "GeoArrowSchemaInitExtension", [A(0), F(G, "schema_view_", "type")]),
        (r"GeometryDataType::InitSchema\(", "GeoArrowSchemaSetMetadata", [A(0), M(G, "metadata_view_")]),
        (r"GeometryDataType::InitStorageSchema\(", "GeoArrowSchemaInit", [A(0), F(G, "schema_view_", "type")]),
    ]
    for pat, cf, want in table:
        for f in W.find(pat):
            name = short(f)
            good = 0
            for s in paths(W, ctx, f):
                if s.status == "terminate" or s.status == "null":
                    continue
                calls = [c for c in W.ccalls(s) if c[0] == cf]
                if s.status == "throw" and not calls and any(W.ip.nonzero(s, c[2]) for c in W.ccalls(s)):
                    continue            # something before it has failed
                ctx.count("obligations")
                if len(calls) != 1:
                    ctx.violation("forward/%s/%s" % (name, cf), where(f), "%s calls %s() %d times" % (name, cf, len(calls)))
                    continue
                good += s.status == "ret"
                args = calls[0][1]
                if len(args) != len(want):
                    raise AnalysisError("%s() takes %d arguments" % (cf, len(args)))
                for k, (a, w) in enumerate(zip(args, want)):
                    ok = w(W, f, s)
                    if ok is not None and a not in ok and strip_to(W, cf, k, a) not in ok:
                        ctx.violation("forward/%s/%s/%d" % (name, cf, k), where(f), "%s does not give %s() its own argument %d" % (name, cf, k + 1))
            if not good:
                ctx.violation("forward/%s/%s" % (name, cf), where(f), "%s never succeeds" % name)
    # the error object a caller gives is where the reader's messages go
    for f in W.find(r"ArrayReader::Visit\("):
        for s in paths(W, ctx, f):
            n = [i for n, a, r, ins, i in W.ccalls(s) if n == "GeoArrowArrayReaderVisit"]
            p = ("p", argbase(f, 0), W.off("GeoArrowVisitor", "error"))
            st = [e for e in s.events[:n[0] if n else 0] if e[0] == "store" and e[1] == p]
            ctx.count("obligations")
            if not st or st[-1][3] != ("p", argbase(f, 3), 0):
                ctx.violation("forward/visit-error", where(f), "%s visits without the caller's error object" % short(f))
    # getters that ask C the first time
    for pat, cf, cls, mem, flag in ((r"ArrayReader::View\(", "GeoArrowArrayReaderArrayView", "ArrayReader", ("view_",), ("view_", "array_view_")),
                                    (r"ArrayWriter::visitor\(", "GeoArrowArrayWriterInitVisitor", "ArrayWriter", ("visitor_",), ("visitor_", "coords"))):
        for f in W.find(pat):
            name, fresh = short(f), 0
            own = ("p", THIS, W.off(cls, {"ArrayReader": "reader_", "ArrayWriter": "writer_"}[cls]))
            dest = ("p", THIS, W.off(cls, *mem))
            was = ld(THIS, W.off(cls, *flag), 8)
            for s in paths(W, ctx, f):
                if s.status == "null":
                    continue
                calls = [c for c in W.ccalls(s) if c[0] == cf]
                ctx.count("obligations")
                if len(calls) > 1 or not calls and W.ip.nonzero(s, was) is not True:
                    ctx.violation("getter/%s" % name, where(f), "%s gives out what %s() never set" % (name, cf))
                    continue
                if calls and (calls[0][1][0] != own):
                    ctx.violation("getter/%s" % name, where(f), "%s asks another object" % name)
                if calls and s.status == "ret":
                    fresh += 1
                    a = calls[0][1][1]
                    if cls == "ArrayWriter" and a != dest:
                        ctx.violation("getter/%s" % name, where(f), "%s sets another visitor" % name)
                    if cls == "ArrayReader":
                        got = W.ip.load(s, ("p", THIS, W.off(cls, *flag)), 8)
                        if got != W.ip.load(s, a, 8):
                            ctx.violation("getter/%s" % name, where(f), "%s does not keep the view it asked for" % name)
                if s.status == "ret" and s.ret != dest:
                    ctx.violation("getter/%s" % name, where(f), "%s returns something else" % name)
            if not fresh:
                ctx.violation("getter/%s" % name, where(f), "%s never asks %s()" % (name, cf))


def strip_to(W, cf, k, v):
    """A value narrowed to the type the C function takes."""
    d = W.sig[cf][0][k + 1] if k + 1 < len(W.sig[cf][0]) else None
    width = {"int32_t": "i32", "int": "i32", "int64_t": "i64"}.get(d)
    if v[0] == "op" and v[1] == "trunc" and (v[3] == width or v[3] == "i1"):
        return v[2]
    return v


# ------------------------------------------------------------------ ownership
OWNERS = (("ArrayReader", ("reader_",), "GeoArrowArrayReaderReset"), ("ArrayWriter", ("writer_",), "GeoArrowArrayWriterReset"),
          ("ArrayBuilder", ("builder_",), "GeoArrowBuilderReset"))
HOLDERS = (("SchemaHolder", "schema", "ArrowSchema"), ("ArrayHolder", "array", "ArrowArray"))


def destructor(W, cls):
    """Destructor of a class; the compiler's own where none is declared."""
    r = [f for f in W.mod.functions.values() if not f.decl and re.search(r"geoarrow::(internal::)?%s::~%s\(" % (cls, cls), f.dem)]
    return r[0] if r else None


def callback(s, base, off):
    """Calls of the release callback found in an object."""
    return [e for e in s.events if e[0] == "icall" and e[1][0] == "ld" and e[1][1:3] == (base, off)]


def owners(ctx, W):
    for cls, mem, reset in OWNERS:
        own = ("p", THIS, W.off(cls, *mem))
        priv = ld(THIS, W.off(cls, *mem) + W.off(W.types.member(cls, mem[0])["type"].split()[-1], "private_data"), 8)
        f = destructor(W, cls)
        ctx.count("owners")
        if f is None:
            ctx.violation("owner/%s/leak" % cls, "src/geoarrow/hpp", "%s does not release its C object" % cls)
            continue
        for s in paths(W, ctx, f):
            n = [c for c in W.ccalls(s) if c[0] == reset and c[1][0] == own]
            live = W.ip.nonzero(s, priv)
            if s.status == "throw":
                ctx.violation("owner/%s/throw" % cls, where(f), "the destructor of %s can throw" % cls)
            if live is not False and len(n) != 1:
                ctx.violation("owner/%s/%s" % (cls, "leak" if not n else "double"), where(f), "the destructor of %s releases its C object %d times" % (cls, len(n)))
        # nothing else releases it
        for g in W.roots:
            if "::%s::" % cls in g.dem and "~" not in g.dem:
                for s in paths(W, ctx, g):
                    if any(c[0] == reset for c in W.ccalls(s)):
                        ctx.undecided["release in %s" % short(g)] = "%s() outside the destructor" % reset
    for cls, mem, struct in HOLDERS:
        f = destructor(W, cls)
        ctx.count("owners")
        off = W.off(cls, mem, "release")
        if f is None:
            ctx.violation("owner/%s/leak" % cls, "src/geoarrow/hpp/internal.hpp", "%s does not release what it holds" % cls)
            continue
        for s in paths(W, ctx, f):
            n = callback(s, THIS, off)
            live = W.ip.nonzero(s, ld(THIS, off, 8))
            if live is not False and len(n) != 1:
                ctx.violation("owner/%s/%s" % (cls, "leak" if not n else "double"), where(f), "the destructor of %s releases what it holds %d times" % (cls, len(n)))
            if live is not True and n:
                ctx.violation("owner/%s/null" % cls, where(f), "the destructor of %s calls a release callback that is not there" % cls)
            if any(e[2][:1] != (("p", THIS, W.off(cls, mem)),) for e in n):
                ctx.violation("owner/%s/other" % cls, where(f), "the destructor of %s does not give the callback what it holds" % cls)
    # the destructor of a reader releases the array it was given as well
    f = destructor(W, "ArrayReader")
    off = W.off("ArrayReader", "array_", "array", "release")
    for s in paths(W, ctx, f) if f else []:
        if W.ip.nonzero(s, ld(THIS, off, 8)) is not False and len(callback(s, THIS, off)) != 1:
            ctx.violation("owner/ArrayReader/array", where(f), "the destructor of ArrayReader releases its array %d times" % len(callback(s, THIS, off)))
    # a new object owns nothing
    for cls, mem, struct in HOLDERS:
        for f in W.find(r"%s::%s\(\)" % (cls, cls)):
            ctx.count("obligations")
            for s in paths(W, ctx, f):
                if W.ip.load(s, ("p", THIS, W.off(cls, mem, "release")), 8) != ZERO:
                    ctx.violation("owner/%s/new" % cls, where(f), "a new %s already has a release callback" % cls)
    # an object is either not copied or has operations of its own for it
    for cls in [c for c, _, _ in OWNERS] + ["internal::" + c for c, _, _ in HOLDERS]:
        info = W.decls.classes.get("geoarrow::" + cls)
        if info is None:
            raise AnalysisError("no class geoarrow::%s" % cls)
        ref = cls.split("::")[-1]
        own = [m for m in info["ctors"] if len(m["params"]) == 1 and re.match(r"(const )?(\w+::)*%s &&?$" % ref, m["params"][0])] + \
              [m for m in info["methods"] if m["name"] == "operator=" and len(m["params"]) == 1 and re.match(r"(const )?(\w+::)*%s ?&?&?$" % ref, m["params"][0])]
        ctx.count("obligations")
        bad = [m for m in own if not m["deleted"] and (m["implicit"] or m.get("defaulted"))]
        deleted = [m for m in own if m["deleted"] and m["params"][0].startswith("const ")]
        if bad or not any(m["name"] == "operator=" for m in own if m["params"][0].startswith("const ")) or not any(m["name"] == ref for m in own if m["params"][0].startswith("const ")):
            ctx.violation("owner/%s/copied" % ref, os.path.relpath(info["file"], "/repo") if info["file"].startswith("/repo") else info["file"],
                          "a %s can be copied member by member: both release the same object" % ref)
        for m in own:
            if not m["deleted"] and not (m["implicit"] or m.get("defaulted")):
                ctx.undecided["%s(%s)" % (m["name"], m["params"][0])] = "copying or moving an owner"
    # SetArray(): the array is released once, by whoever holds it afterwards
    for f in W.find(r"ArrayReader::SetArray\("):
        mine, size = ("p", THIS, W.off("ArrayReader", "array_", "array")), W.types.sizeof("struct ArrowArray")
        rel = W.off("ArrowArray", "release")
        src = ("p", argbase(f, 0), 0)
        for s in paths(W, ctx, f):
            if s.status == "null":
                continue
            ctx.count("obligations")
            old = callback(s, THIS, mine[2] + rel)
            was = W.ip.nonzero(s, ld(THIS, mine[2] + rel, 8))
            taken = [i for i, e in enumerate(s.events) if e[0] == "copy" and e[1] == mine and e[2] == src and e[3] >= size]
            if was is not False and len([e for e in old if s.events.index(e) < (taken or [0])[0]]) != 1 and taken:
                ctx.violation("setarray/previous", where(f), "SetArray() does not release the array it replaces exactly once")
            if was is False and old:
                ctx.violation("setarray/previous", where(f), "SetArray() releases an array that is not there")
            if not taken and s.status == "ret":
                ctx.violation("setarray/taken", where(f), "SetArray() does not take over the array")
            if taken and W.ip.load(s, ("p", src[1], rel), 8) != ZERO:
                ctx.violation("setarray/source", where(f), "SetArray() leaves the caller with an array that is released twice")
            got = W.ip.load(s, ("p", THIS, mine[2] + rel), 8)
            if taken and got != ld(src[1], rel, 8):
                ctx.violation("setarray/lost", where(f), "SetArray() forgets to keep the release callback")
            n = [c for c in W.ccalls(s) if c[0] == "GeoArrowArrayReaderSetArray"]
            if s.status == "ret" and (len(n) != 1 or n[0][1][1] not in (mine,) or taken and n[0][4] < taken[0]):
                ctx.violation("setarray/read", where(f), "SetArray() does not read the array it keeps")
    # buffers handed over with their owner
    for f in W.find(r"ArrayBuilder::SetBufferWrapped<"):
        name = short(f)
        view = len(params(f)) > 2
        for s in paths(W, ctx, f):
            if s.status == "terminate":
                continue
            ctx.count("obligations")
            new = [e for e in s.events if e[0] == "alloc" and e[1] == "_Znwm"]
            calls = [c for c in W.ccalls(s) if c[0] == "GeoArrowBuilderSetOwnedBuffer"]
            if len(new) != 1 or len(calls) != 1:
                ctx.violation("wrapped/%s" % name, where(f), "%s does not hand over one object" % name)
                continue
            obj = new[0][3]
            made = [e for e in s.events if e[0] == "call" and "Elems::Elems(" in e[1] and e[2][0] == obj]
            if len(made) != 1 or made[0][2][1] != ("p", argbase(f, 1), 0):
                ctx.violation("wrapped/%s/moved" % name, where(f), "%s does not hand over its argument" % name)
            _, args, r, ins, at = calls[0]
            if args[0] != ("p", THIS, W.off("ArrayBuilder", "builder_")) or args[1] != ("arg", params(f)[0]["name"]) or args[5] != obj or args[4][0] != "f" or \
                    "FreeWrappedBuffer" not in W.mod.functions[args[4][1]].dem and not frees(W, ctx, args[4][1]):
                ctx.violation("wrapped/%s/args" % name, where(f), "%s gives GeoArrowBuilderSetOwnedBuffer() something else than its own arguments" % name)
            if view and list(args[2:4]) != [A(2)(W, f, s)[0], A(3)(W, f, s)[0]]:
                ctx.violation("wrapped/%s/view" % name, where(f), "%s does not use the view it was given" % name)
            if not view:
                d = [e for e in s.events[:at] if e[0] == "call" and "::data() const" in e[1]]
                n = [e for e in s.events[:at] if e[0] == "call" and "::size() const" in e[1]]
                m = made[0] if made else None
                ok = [e for e in d if e[2][0] == obj and e[3] == args[2] and m in s.events and s.events.index(e) > s.events.index(m)]
                before = m is not None and [e for e in n if s.events.index(e) < s.events.index(m) and e[2][0] == ("p", argbase(f, 1), 0)]
                size = [e for e in n if e[2][0] == obj] + (before or [])
                if not ok and not (args[2] == ZERO):
                    ctx.violation("wrapped/%s/data" % name, where(f), "%s does not point into the object it hands over" % name)
                if not any(args[3] in (("op", "mul") + tuple(sorted((e[3], ("i", 8)), key=repr)), ("op", "shl", e[3], ("i", 3))) for e in size) and args[3] != ZERO:
                    ctx.violation("wrapped/%s/size" % name, where(f), "%s does not hand over all bytes" % name)
            gone = [e for e in s.events if e[0] == "delete" and e[1] == obj]
            ended = [e for e in s.events if e[0] == "call" and "~Elems(" in e[1] and e[2][0] == obj]
            fail = W.ip.nonzero(s, r)
            if fail and (len(gone) != 1 or len(ended) != 1):
                ctx.violation("wrapped/%s/failed" % name, where(f), "%s leaves an object nobody owns when GeoArrowBuilderSetOwnedBuffer() fails" % name)
            if not fail and (gone or ended):
                ctx.violation("wrapped/%s/freed" % name, where(f), "%s destroys the object it has handed over" % name)
    for f in W.find(r"FreeWrappedBuffer<"):
        ctx.count("obligations")
        if not frees(W, ctx, f.name):
            ctx.violation("wrapped/free", where(f), "%s does not destroy the object" % short(f))
    # a schema that could not be completed is released
    for f in W.find(r"GeometryDataType::InitSchema\("):
        rel = W.off("ArrowSchema", "release")
        for s in paths(W, ctx, f):
            c = {c[0]: c[2] for c in W.ccalls(s)}
            n = [e for e in s.events if e[0] == "icall" and e[1][0] == "ld" and e[1][1:3] == (argbase(f, 0), rel)]
            late = c.get("GeoArrowSchemaSetMetadata")
            ctx.count("obligations")
            if late is not None and W.ip.nonzero(s, late) and len(n) != 1:
                ctx.violation("schema/leak", where(f), "InitSchema() leaves a schema nobody owns when it fails")
            if (late is None or W.ip.nonzero(s, late) is False) and n:
                ctx.violation("schema/released", where(f), "InitSchema() releases the schema it returns")


def frees(W, ctx, name):
    """Does a free callback destroy and delete its last argument, once?"""
    f = W.mod.functions[name]
    ok = False
    for s in paths(W, ctx, f):
        obj = ("p", ("arg", f.params[-1]["name"]), 0)
        gone = [e for e in s.events if e[0] == "delete" and e[1] == obj]
        ended = [e for e in s.events if e[0] == "call" and "::~" in e[1] and e[2][0] == obj]
        null = W.ip.nonzero(s, obj) is False
        if not null and (len(gone) != 1 or len(ended) != 1):
            return False
        ok |= not null
    return ok


# ------------------------------------------------------------------ type objects
G = "GeometryDataType"
SCHEMA = ("geometry_type", "dimensions", "coord_type", "type")


class Obj:
    """Reads a type object at the end of a path."""

    def __init__(self, W, s, base, off=0):
        self.W, self.s, self.base, self.off = W, s, base, off

    def get(self, *path, size=4):
        return self.W.ip.load(self.s, ("p", self.base, self.off + self.W.off(G, *path)), size)

    @property
    def crs(self):
        return ("p", self.base, self.off + self.W.off(G, "crs_"))

    def points_into_itself(self):
        d = self.get("metadata_view_", "crs", "data", size=8)
        return d == ("str", "data", self.crs, self.W.ip.string_version(self.s, self.crs))

    def empty(self):
        return self.get("metadata_view_", "crs", "size_bytes", size=8) == ZERO and (
            self.get("metadata_view_", "crs", "data", size=8) == ZERO or self.points_into_itself())

    def content(self):
        return self.W.ip.content(self.s, self.crs)

    def size_is(self, *ok):
        n = self.get("metadata_view_", "crs", "size_bytes", size=8)
        return n in ok or n == ("str", "size", self.crs, self.W.ip.string_version(self.s, self.crs))


def was(W, base, *path, size=4):
    return ld(base, W.off(G, *path), size)


def same_as(W, ctx, f, s, o, src, what, skip=()):
    """Is an object equal to what another one was?"""
    name = short(f)
    for p in [("schema_view_", m) for m in SCHEMA] + [("metadata_view_", m) for m in ("edge_type", "crs_type")]:
        if p[1] not in skip and o.get(*p) != was(W, src, *p):
            ctx.violation("type/%s/%s" % (name, p[1]), where(f), "%s does not keep the %s of %s" % (name, p[1], what))
    if "crs" not in skip:
        c = ("content", src, W.off(G, "crs_"), 0)
        d = ("bytes",) + tuple(was(W, src, "metadata_view_", "crs", x, size=8) for x in ("data", "size_bytes"))
        if o.content() not in (c, d) or not o.size_is(was(W, src, "metadata_view_", "crs", "size_bytes", size=8), ("str", "size", ("p", src, W.off(G, "crs_")), 0)):
            ctx.violation("type/%s/crs" % name, where(f), "%s does not keep the CRS of %s" % (name, what))


def valid(ctx, f, o):
    ctx.count("obligations")
    if not o.points_into_itself():
        ctx.violation("crs/%s" % short(f), where(f), "%s leaves a CRS view that does not point into the object's own string" % short(f))


def final(W, ctx, f, args=None, st=None):
    return [s for s in paths(W, ctx, f, args, st) if s.status in ("ret", "throw")]


def copies(ctx, W):
    copy = [f for f in W.roots if re.search(r"GeometryDataType::(GeometryDataType|operator=)\(geoarrow::GeometryDataType const&\)", f.dem)]
    move = [f for f in W.roots if re.search(r"GeometryDataType::((GeometryDataType|operator=)\(geoarrow::GeometryDataType&&\)|MoveFrom\()", f.dem)]
    if len(copy) < 2 or len(move) < 3:
        # left to the compiler: member by member, which leaves the view pointing into the other object's string
        info = W.decls.classes["geoarrow::" + G]
        ctx.violation("crs/implicit", "src/geoarrow/hpp/geometry_data_type.hpp", "a GeometryDataType can be copied or moved member by member: its CRS view then points into another object")
    for f in copy + move:
        src = ("arg", params(f)[0]["name"])
        n = 0
        for s in final(W, ctx, f):
            if s.facts.get(("eq", ("p", THIS, 0), ("p", src, 0))) or s.facts.get(("eq", ("p", src, 0), ("p", THIS, 0))):
                continue
            n += 1
            o = Obj(W, s, THIS)
            valid(ctx, f, o)
            same_as(W, ctx, f, s, o, src, "its argument")
            if f in move and not Obj(W, s, src).empty():
                ctx.violation("moved/%s" % short(f), where(f), "%s leaves its source with a CRS view into memory it no longer owns" % short(f))
            if f in copy and any(e[0] in ("store", "copy", "moved") and e[1][1] == src for e in s.events):
                ctx.violation("copied/%s" % short(f), where(f), "%s changes its source" % short(f))
            if "operator=" in f.dem and s.ret != ("p", THIS, 0):
                ctx.violation("assign/%s" % short(f), where(f), "%s does not return the object" % short(f))
        if not n:
            ctx.violation("type/%s" % short(f), where(f), "%s does nothing" % short(f))
        # to itself
        if "operator=" in f.dem or "MoveFrom" in f.dem:
            for s in final(W, ctx, f, [("p", THIS, 0), ("p", THIS, 0)]):
                o = Obj(W, s, THIS)
                ctx.count("obligations")
                if o.content() != ("content", THIS, W.off(G, "crs_"), 0):
                    ctx.violation("self/%s" % short(f), where(f), "%s loses the CRS of an object given itself" % short(f))
                    continue
                same_as(W, ctx, f, s, o, THIS, "an object given itself")
                d = o.get("metadata_view_", "crs", "data", size=8)
                if not o.points_into_itself() and d != was(W, THIS, "metadata_view_", "crs", "data", size=8):
                    ctx.violation("crs/%s" % short(f), where(f), "%s leaves a CRS view that does not point into the object's own string" % short(f))


def result(W, s, f):
    return Obj(W, s, ("arg", "agg.result"))


def made(W, ctx, f, s, schema, edge, crs_type, content, sizes):
    """A new object is made of the given parts."""
    o = result(W, s, f)
    valid(ctx, f, o)
    name = short(f)
    for m in SCHEMA:
        if o.get("schema_view_", m) != schema(m):
            ctx.violation("type/%s/%s" % (name, m), where(f), "%s does not return the %s it should" % (name, m))
    if o.get("metadata_view_", "edge_type") != edge:
        ctx.violation("type/%s/edge_type" % name, where(f), "%s does not return the edge type it should" % name)
    if o.get("metadata_view_", "crs_type") != crs_type:
        ctx.violation("type/%s/crs_type" % name, where(f), "%s does not return the CRS type it should" % name)
    if o.content() != content or not o.size_is(*sizes):
        ctx.violation("type/%s/crs" % name, where(f), "%s does not return the CRS it should" % name)


def part(W, s, base, call, struct, *path, size=4):
    """What a C function left in a struct it was given."""
    o = base[2]
    t = struct
    for p in path:
        m = W.types.member(t, p)
        o += m["off"]
        t = struct_name(m["type"]) or t
    at = call[2][1]
    return ("ld", base[1], o, size, at)


def makers(ctx, W):
    """Make(): everything a type consists of comes from what C made of the arguments."""
    for f in W.find(r"GeometryDataType::Make\((GeoArrowType|ArrowSchema const\*|ArrowSchema\*),? ?"):
        name = short(f)
        src = "GeoArrowSchemaViewInitFromType" if "Make(GeoArrowType" in f.dem else "GeoArrowSchemaViewInitFromStorage" if "ArrowSchema*" in f.dem else "GeoArrowSchemaViewInit"
        text = [k for k, p in enumerate(params(f)) if p["name"] == "metadata" or p["name"].endswith("metadata")]
        n = 0
        for s in final(W, ctx, f):
            calls = {c[0]: c for c in W.ccalls(s)}
            if s.status != "ret":
                if not any(W.ip.nonzero(s, c[2]) for c in calls.values()) and not (src.endswith("FromType") and s.known.get(("arg", params(f)[0]["name"])) == 0):
                    ctx.violation("make/%s/refused" % name, where(f), "%s throws although nothing has failed" % name)
                continue
            n += 1
            ctx.count("obligations")
            if src not in calls or "GeoArrowMetadataViewInit" not in calls:
                ctx.violation("make/%s/parts" % name, where(f), "%s does not ask %s() and GeoArrowMetadataViewInit()" % (name, src))
                continue
            a, b = calls[src], calls["GeoArrowMetadataViewInit"]
            if src.endswith("FromType"):
                ty = ("arg", params(f)[0]["name"])
                if W.ip.nonzero(s, ty) is not True:
                    ctx.violation("make/%s/uninitialized" % name, where(f), "%s makes a type from GEOARROW_TYPE_UNINITIALIZED" % name)
                if a[1][1] != ty:
                    ctx.violation("make/%s/type" % name, where(f), "%s does not use the type it is given" % name)
            else:
                if a[1][1] != ("p", argbase(f, 0), 0):
                    ctx.violation("make/%s/schema" % name, where(f), "%s does not use the schema it is given" % name)
            if src.endswith("Storage") and list(a[1][2:4]) != whole(f, 1):
                ctx.violation("make/%s/name" % name, where(f), "%s does not use the whole extension name" % name)
            sv, mv = a[1][0], b[1][0]
            if text:
                if list(b[1][1:3]) != whole(f, text[0]):
                    ctx.violation("make/%s/metadata" % name, where(f), "%s does not use the whole metadata" % name)
            elif list(b[1][1:3]) != [part(W, s, sv, a, "GeoArrowSchemaView", "extension_metadata", "data", size=8), part(W, s, sv, a, "GeoArrowSchemaView", "extension_metadata", "size_bytes", size=8)] and \
                    [strip_version(x) for x in b[1][1:3]] != [strip_version(part(W, s, sv, a, "GeoArrowSchemaView", "extension_metadata", x, size=8)) for x in ("data", "size_bytes")]:
                ctx.violation("make/%s/metadata" % name, where(f), "%s does not use the metadata of the schema" % name)
            o = result(W, s, f)
            valid(ctx, f, o)
            for m in SCHEMA:
                if strip_version(o.get("schema_view_", m)) != strip_version(part(W, s, sv, a, "GeoArrowSchemaView", m)):
                    ctx.violation("make/%s/%s" % (name, m), where(f), "%s does not keep the %s" % (name, m))
            for m in ("edge_type", "crs_type"):
                if strip_version(o.get("metadata_view_", m)) != strip_version(part(W, s, mv, b, "GeoArrowMetadataView", m)):
                    ctx.violation("make/%s/%s" % (name, m), where(f), "%s does not keep the %s" % (name, m))
            c = o.content()
            want = [strip_version(part(W, s, mv, b, "GeoArrowMetadataView", "crs", x, size=8)) for x in ("data", "size_bytes")]
            if c[0] != "bytes" or [strip_version(x) for x in c[1:]] != want or not (o.size_is() or strip_version(o.get("metadata_view_", "crs", "size_bytes", size=8)) == want[1]):
                ctx.violation("make/%s/crs" % name, where(f), "%s does not keep the CRS" % name)
        if not n:
            ctx.violation("make/%s" % name, where(f), "%s never succeeds" % name)


def strip_version(v):
    return v[:4] if v[0] == "ld" else v


def whole(f, k):
    p = ("p", argbase(f, k), 0)
    return [("str", "data", p, 0), ("str", "size", p, 0)]


def make_type(W, s):
    return [e[2] for e in s.events if e[0] == "call" and W.cname(e) == "GeoArrowMakeType"]


def selectors(ctx, W):
    """Types made from another type, value by value."""
    from vlib import wit
    from checks import t02
    val = t02.enum_values([n for e in ("GeoArrowType", "GeoArrowGeometryType", "GeoArrowDimensions") for n in wit.enumerators(e)])
    gt = ("p", THIS, W.off(G, "schema_view_", "geometry_type"))
    gtv, dim, coord = (was(W, THIS, "schema_view_", m) for m in ("geometry_type", "dimensions", "coord_type"))

    def asked(f, args, what):
        """On every path GeoArrowMakeType() is asked for exactly this, with the metadata of the type, or the path throws after it."""
        n = 0
        for s in final(W, ctx, f, None, state(f)):
            ctx.count("obligations")
            m = make_type(W, s)
            if s.status == "ret":
                n += 1
            if len(m) != 1 and s.status == "ret" or m and list(m[0]) != args:
                ctx.violation("select/%s" % what, where(f), "%s does not make the type it should" % what)
                return
            if not m and not any(e[0] == "throw" for e in s.events):
                ctx.violation("select/%s" % what, where(f), "%s does not make the type it should" % what)
                return
            if s.status == "ret" and args:
                metadata(s, f, what)
        if not n:
            ctx.violation("select/%s" % what, where(f), "%s always fails" % what)

    def metadata(s, f, what):
        c = [c for c in W.ccalls(s) if c[0] == "GeoArrowMetadataViewInit"]
        q = [c for c in W.ccalls(s) if c[0] == "GeoArrowMetadataSerialize"]
        mine = ("p", THIS, W.off(G, "metadata_view_"))
        ok = len(c) == 1 and len(q) == 2 and all(x[1][0] == mine for x in q) and c[0][1][1][0] == "str" and c[0][1][1][1] == "data" and c[0][1][2] == ("str", "size") + c[0][1][1][2:] and \
            q[1][1][1] [0] == "str"
        if not ok:
            ctx.violation("select/%s/metadata" % what, where(f), "%s does not hand on the metadata" % what)

    preset = {}

    def state(f):
        st = cxi.St()
        for (o, size), v in preset.items():
            st.mem[(THIS, o)] = (size, v)
        return st
    for n in ("XY", "XYZ", "XYM", "XYZM"):
        for f in W.find(r"GeometryDataType::%s\(\) const" % n):
            asked(f, [gtv, ("i", val["GEOARROW_DIMENSIONS_" + n]), coord], n + "()")
    for n, k in (("WithGeometryType", 0), ("WithDimensions", 1), ("WithCoordType", 2)):
        for f in W.find(r"GeometryDataType::%s\(" % n):
            a = [gtv, dim, coord]
            a[k] = ("arg", params(f)[0]["name"])
            asked(f, a, n + "()")
    names = [n for n in val if n.startswith("GEOARROW_GEOMETRY_TYPE_")]
    simple = {"POINT": "POINT", "LINESTRING": "LINESTRING", "POLYGON": "POLYGON"}
    for meth in ("Simple", "Multi"):
        for f in W.find(r"GeometryDataType::%s\(\) const" % meth):
            for n in names:
                short_n = n[len("GEOARROW_GEOMETRY_TYPE_"):]
                base = short_n[5:] if short_n.startswith("MULTI") else short_n
                preset.clear()
                preset[(gt[2], 4)] = ("i", val[n])
                what = "%s() of %s" % (meth, short_n)
                if base in simple:
                    asked(f, [("i", val["GEOARROW_GEOMETRY_TYPE_" + ("MULTI" if meth == "Multi" else "") + base]), dim, coord], what)
                else:
                    ctx.count("obligations")
                    for s in final(W, ctx, f, None, state(f)):
                        if s.status == "ret":
                            ctx.violation("select/" + what, where(f), "%s is not refused" % what)
    preset.clear()
    # geometry type, dimensions and coordinate type together
    for f in W.find(r"GeometryDataType::Make\(GeoArrowGeometryType"):
        a = [("arg", p["name"]) for p in params(f)[:3]]
        for s in final(W, ctx, f):
            ctx.count("obligations")
            m = [c for c in W.ccalls(s) if c[0] == "GeoArrowMakeType"]
            if len(m) != 1 or list(m[0][1]) != a:
                ctx.violation("make/combination", where(f), "%s does not ask for the combination it is given" % short(f))
                continue
            t = [c for c in W.ccalls(s) if c[0] == "GeoArrowSchemaViewInitFromType"]
            if s.status == "ret" and (W.ip.nonzero(s, m[0][2]) is not True or [c[1][1] for c in t] != [m[0][2]]):
                ctx.violation("make/combination", where(f), "%s makes another type than that of the combination, or of one that does not exist" % short(f))
            x = [c for c in W.ccalls(s) if c[0] == "GeoArrowMetadataViewInit"]
            if s.status == "ret" and (len(x) != 1 or list(x[0][1][1:3]) != whole(f, 3)):
                ctx.violation("make/combination/metadata", where(f), "%s does not use the whole metadata" % short(f))
    # numbers and constants
    d = W.off(G, "schema_view_", "dimensions")
    for f in W.find(r"GeometryDataType::num_dimensions\("):
        for n, k in (("UNKNOWN", -1), ("XY", 2), ("XYZ", 3), ("XYM", 3), ("XYZM", 4)):
            st = cxi.St()
            st.mem[(THIS, d)] = (4, ("i", val["GEOARROW_DIMENSIONS_" + n]))
            ctx.count("obligations")
            for s in final(W, ctx, f, None, st):
                if s.ret != ("i", k):
                    ctx.violation("number/%s" % n, where(f), "num_dimensions() of %s is not %d" % (n, k))
    for n in ("Wkb", "Wkt", "Box", "Point", "Linestring", "Polygon"):
        for f in W.find(r"geoarrow::%s\(\)$" % n):
            ctx.count("obligations")
            fs = final(W, ctx, f)
            for s in fs:
                t = [c[1][1] for c in W.ccalls(s) if c[0] == "GeoArrowSchemaViewInitFromType"]
                if t != [("i", val["GEOARROW_TYPE_" + n.upper()])] and (t or s.status == "ret") or all(x.status != "ret" for x in fs):
                    ctx.violation("constant/%s" % n, where(f), "%s() is another type" % n)
    # getters
    for n, path in (("id", ("schema_view_", "type")), ("geometry_type", ("schema_view_", "geometry_type")), ("coord_type", ("schema_view_", "coord_type")),
                    ("dimensions", ("schema_view_", "dimensions")), ("edge_type", ("metadata_view_", "edge_type")), ("crs_type", ("metadata_view_", "crs_type"))):
        for f in W.find(r"GeometryDataType::%s\(\) const" % n):
            ctx.count("obligations")
            for s in final(W, ctx, f):
                if s.ret != was(W, THIS, *path):
                    ctx.violation("getter/%s" % n, where(f), "%s() returns something else" % n)
    # edges and CRS
    for f in W.find(r"GeometryDataType::WithEdgeType\("):
        for s in final(W, ctx, f):
            o = result(W, s, f)
            valid(ctx, f, o)
            same_as(W, ctx, f, s, o, THIS, "the type", ("edge_type",))
            if o.get("metadata_view_", "edge_type") != ("arg", params(f)[0]["name"]):
                ctx.violation("with/edge_type", where(f), "WithEdgeType() does not set the edge type")
    old = lambda m: was(W, THIS, "schema_view_", m)
    edge = was(W, THIS, "metadata_view_", "edge_type")
    for f in W.find(r"GeometryDataType::WithCrs\("):
        for s in final(W, ctx, f):
            data, size = whole(f, 0)
            c = result(W, s, f).content()
            ok = ("bytes", data, size) if c[0] == "bytes" else ("content", argbase(f, 0), 0, 0)
            made(W, ctx, f, s, old, edge, ("arg", params(f)[1]["name"]), ok, (size,))
    for f in W.find(r"GeometryDataType::WithCrsLonLat\("):
        for s in final(W, ctx, f):
            c = [c for c in W.ccalls(s) if c[0] == "GeoArrowMetadataSetLonLat"]
            ctx.count("obligations")
            if len(c) != 1:
                ctx.violation("with/lonlat", where(f), "WithCrsLonLat() does not ask GeoArrowMetadataSetLonLat()")
                continue
            o = result(W, s, f)
            valid(ctx, f, o)
            mv = c[0][1][0]
            for m in SCHEMA:
                if o.get("schema_view_", m) != old(m):
                    ctx.violation("type/%s/%s" % (short(f), m), where(f), "WithCrsLonLat() does not keep the %s" % m)
            for m in ("edge_type", "crs_type"):
                if strip_version(o.get("metadata_view_", m)) != strip_version(part(W, s, mv, c[0], "GeoArrowMetadataView", m)):
                    ctx.violation("with/lonlat/%s" % m, where(f), "WithCrsLonLat() does not keep the %s" % m)
            want = [strip_version(part(W, s, mv, c[0], "GeoArrowMetadataView", "crs", x, size=8)) for x in ("data", "size_bytes")]
            if [strip_version(x) for x in o.content()[1:3]] != want:
                ctx.violation("with/lonlat/crs", where(f), "WithCrsLonLat() does not keep the CRS")
            at = [e for e in s.events[:c[0][4]] if e[0] == "copy" and e[2] == ("p", THIS, W.off(G, "metadata_view_")) and e[1] == mv and e[3] >= W.types.sizeof("struct GeoArrowMetadataView")]
            if not at:
                ctx.violation("with/lonlat/rest", where(f), "WithCrsLonLat() does not start from the metadata of the type")


def texts(ctx, W):
    """Strings that are measured first and then written."""
    for pat, cf in ((r"GeometryDataType::extension_metadata", "GeoArrowMetadataSerialize"), (r"GeometryDataType::crs\[", "GeoArrowUnescapeCrs")):
        for f in W.find(pat):
            for s in final(W, ctx, f):
                if s.status != "ret":
                    continue
                ctx.count("obligations")
                c = [c for c in W.ccalls(s) if c[0] == cf]
                ok = len(c) == 2
                if ok:
                    a, b = c[0][1], c[1][1]
                    out = ("p", ("arg", "agg.result"), 0)
                    n = c[0][2]
                    fills = [e for e in s.events if e[0] == "string" and e[1] in ("basic_string", "resize", "assign") and e[3] == out]
                    sized = fills and (fills[-1][2][1] == n)
                    ok = a[:-2] == b[:-2] and a[-2:] == (ZERO, ZERO) and b[-1] in (n, ("str", "size") + tuple(b[-2][2:])) and b[-2][:3] == ("str", "data", out) and sized
                    own = [("p", THIS, W.off(G, "metadata_view_"))] if cf == "GeoArrowMetadataSerialize" else [was(W, THIS, "metadata_view_", "crs", x, size=8) for x in ("data", "size_bytes")]
                    ok = ok and list(a[:-2]) == own
                if not ok:
                    ctx.violation("text/%s" % cf, where(f), "%s does not return exactly what %s() writes about the type" % (short(f), cf))
    for f in W.find(r"GeometryDataType::extension_name"):
        for s in final(W, ctx, f):
            c = [c for c in W.ccalls(s) if c[0] == "GeoArrowExtensionNameFromType"]
            ctx.count("obligations")
            ok = len(c) == 1 and c[0][1][0] == was(W, THIS, "schema_view_", "type")
            null = ok and W.ip.nonzero(s, c[0][2]) is False
            if not ok or s.status == "ret" and (W.ip.nonzero(s, c[0][2]) is not True or W.ip.content(s, ("p", ("arg", "agg.result"), 0)) != ("cstr", c[0][2])) or s.status == "throw" and not null:
                ctx.violation("text/name", where(f), "extension_name() does not return the name of the type, or not only when there is none throw")


def exceptions(ctx, W):
    """What an exception made from a status carries."""
    ip = cxi.Interp(W.mod, lambda g: W.follow(g) or re.search(r"geoarrow::Exception::Exception\(", g.dem) and not g.decl, W.effects)
    fs = [f for f in W.mod.functions.values() if not f.decl and re.search(r"ErrnoException::ErrnoException\(int, ", f.dem)]
    if not fs:
        raise AnalysisError("no constructor of ErrnoException")
    code, msg = ("p", THIS, W.off("ErrnoException", "code")), ("p", THIS, W.off("Exception", "message"))
    for f in fs:
        a, m, e = [p["name"] for p in params(f)]
        with_error = 0
        for s in ip.run(f):
            if s.status != "ret":
                if s.status == "null":
                    ctx.violation("exception/null", where(f), "making an exception reads an error object that is not there")
                continue
            ctx.count("obligations")
            if ip.load(s, code, 4) != ("arg", a):
                ctx.violation("exception/code", where(f), "an exception does not carry the status it was made with")
            err = ("p", ("arg", e), 0)
            there = ip.nonzero(s, err)
            said = [x for x in s.events if x[0] in ("call", "string") and err in x[2]]
            set_ = [x for x in s.events if x[0] == "string" and x[3] == msg and x[1] != "~basic_string"]
            if there is not True and (said or any(x[0] == "test" for x in s.events) and there is None):
                ctx.violation("exception/null", where(f), "making an exception reads an error object that may not be there")
            if there is True:
                with_error += 1
                if not said or not set_ or s.events.index(set_[-1]) < s.events.index(said[-1]) and set_[-1] not in said:
                    ctx.violation("exception/message", where(f), "an exception does not carry the message of the error object")
            elif ip.content(s, msg) != ("content", ("arg", m), 0, 0):
                ctx.violation("exception/text", where(f), "an exception without an error object does not carry its own text")
        if not with_error:
            ctx.violation("exception/message", where(f), "an exception never carries the message of the error object")
    for f in [f for f in W.mod.functions.values() if not f.decl and re.search(r"geoarrow::Exception::what\(\) const", f.dem)]:
        ctx.count("obligations")
        for s in ip.run(f):
            if s.ret != ("str", "data", msg, 0):
                ctx.violation("exception/what", where(f), "what() returns something else than the message")


def run(ctx):
    W = World()
    ctx.parts([("statuses", statuses, W), ("forwarding", forwards, W), ("ownership", owners, W), ("copies", copies, W),
               ("making types", makers, W), ("selecting types", selectors, W), ("texts", texts, W), ("exceptions", exceptions, W)])
