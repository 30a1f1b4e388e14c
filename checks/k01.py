"""K01: every supported selection is implemented and every other one refused."""
from vlib import cmod, cty, drive, lin, nat, slai, strs, wit
from vlib.build import AnalysisError
from vlib.cmod import short
from vlib.nat import DIMS, GEOMS, NDIM, SLOTS
from checks import t01, t02, v01

TECHNIQUE = "static analysis: abstract interpretation of each selection with the selecting argument constant (dispatch completeness)"
LEVEL = "other"
EXPLANATION = (
    "Every dispatch is analysed once per value that selects: each type identifier through array view, reader, builder and writer, "
    "each builder type against each geometry type in the native writer, each geometry type and dimension through the geometry "
    "visitor, each kernel and function name. The identifier is a constant and everything else (arrays, coordinates, addresses) is "
    "unknown to the abstract interpreter, so what is found holds for every input of that selection: the sequence of visitor calls "
    "announced, the member of the source union that is used, the callbacks installed, the number and layout of buffers, and "
    "whether a successful or only a failing exit is reachable. Names outside the documented set must be refused. Kernels are also "
    "taken through start, push_batch and finish with each inner step failing or succeeding, and with and without an output.")

KERNELS = ("void", "void_agg", "visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg")
READABLE_BOX = "GEOARROW_TYPE_BOX"
SAMPLE = {"POINT": (1,), "LINESTRING": (3,), "POLYGON": (4, 5), "MULTIPOINT": (1, 1), "MULTILINESTRING": (2, 3), "MULTIPOLYGON": ((4, 4), (5,)),
          "GEOMETRYCOLLECTION": (("POINT", 1),)}


def chunks(xs, n):
    return [xs[i::n] for i in range(n)]


def loc(f):
    return "%s:%d" % (short(f.file), f.line)


def serialized(t):
    return t01.parts(t)[0] == "GEOMETRY"


# ------------------------------------------------------------------ readers

class ReadMon(nat.NatMon):
    """Visitor events of a read, and which member of the source union each step uses."""
    KEEP = 6

    def __init__(self):
        super().__init__()
        self.mixed = {}

    def ghost_key(self, st):
        return (super().ghost_key(st), st.ghost.get("ev", ()), st.ghost.get("as", ()))

    def before_call(self, eng, st, ins, name, fn, args):
        g = eng.mod.functions.get(name) if name else None
        if g is not None and g.dtypes:
            for a, t in zip(args, [cty.pointee(x) if x and cty.is_ptr(x) else None for x in slai.param_types(g, eng.types)]):
                if a[0] == "p" and not a[2][1] and t and cty.struct_name(t) in ("GeoArrowArrayView", "ArrowArrayView"):
                    seen, k = dict(st.ghost.get("as", ())), cty.struct_name(t)
                    if seen.setdefault((a[1], a[2][0]), k) != k:
                        self.mixed[(name, k, seen[(a[1], a[2][0])])] = "%s:%s" % (short(ins.fn.file), ins.line)
                    st.ghost["as"] = tuple(sorted(seen.items()))
        if name in ("GeoArrowWKBReaderVisit", "GeoArrowWKTReaderVisit"):
            p = eng.load_cell(st, eng.regions[args[0][1]], args[0][2], 8, "ptr") if args[0][0] == "p" else None
            if p is None or p[0] != "p" or st.null.get(p[1]) is not False:
                self.event(st, ("uninitialised " + name[8:11],))
                return [(st, ("i", lin.ZERO))]
            self.event(st, (name[8:11],))
            return [(st, ("i", lin.ZERO))]
        if name is None and v01.slot_of(eng, st, ins):
            slot = v01.slot_of(eng, st, ins)
            if slot == "geom_start":
                self.event(st, (slot,) + tuple(nat.const(x) for x in args[1:3]))
            elif slot in ("feat_start", "feat_end", "null_feat"):
                self.event(st, (slot,))
            elif slot == "coords":
                self.event(st, (slot,))
            return [(st, ("i", lin.ZERO))]
        return super().before_call(eng, st, ins, name, fn, args)

    def event(self, st, e):
        ev = st.ghost.get("ev", ())
        if e[0] in ("feat_start", "feat_end", "null_feat", "WKB", "WKT", "uninitialised WKB", "uninitialised WKT") or (e[0] in ("geom_start", "coords") and not any(x[0] == e[0] for x in ev)):
            if len(ev) < self.KEEP:
                st.ghost["ev"] = ev + (e,)


def readers(ctx, mod, types, val):
    F = mod.functions
    st = t02.enum_values(["NANOARROW_TYPE_%s%s" % (p, x) for p in ("LARGE_", "") for x in ("STRING", "BINARY")] + ["NANOARROW_TYPE_STRING_VIEW", "NANOARROW_TYPE_BINARY_VIEW"])
    storage = {}
    for e in ("WKT", "WKB"):
        storage["GEOARROW_TYPE_LARGE_" + e] = (st["NANOARROW_TYPE_LARGE_STRING"], st["NANOARROW_TYPE_LARGE_BINARY"])
        storage["GEOARROW_TYPE_%s_VIEW" % e] = (st["NANOARROW_TYPE_STRING_VIEW"], st["NANOARROW_TYPE_BINARY_VIEW"])
    init, seta, vis = F["GeoArrowArrayReaderInitFromType"], F["GeoArrowArrayReaderSetArray"], F["GeoArrowArrayReaderVisit"]
    for t in types:
        if t == "GEOARROW_TYPE_UNINITIALIZED":
            continue
        g, d, c, _ = t01.parts(t)
        eng = nat.engine(mod, ReadMon(), limit=20000)
        eng.no_inline |= {"ArrowArrayViewIsNull", "ArrowArrayViewGetStringUnsafe", "ArrowArrayViewGetBytesUnsafe"}
        eng.peel = 6
        dr = drive.Drive(eng)
        r = dr.obj("GeoArrowArrayReader", "reader")
        ctx.count("obligations", 3)
        dr.call(init, [r, ("i", lin.const(val[t]))])
        if not dr.states:
            ctx.violation("read/init/%s" % t, loc(init), "no reader can be initialised for %s" % t)
            continue
        large = t.startswith("GEOARROW_TYPE_LARGE") or t.endswith("_VIEW")
        ctx.count("obligations")
        for s in dr.states:
            k = nat.const(nat.field(eng, s, nat.private(eng, s, r), ("GeoArrowArrayReaderPrivate", "src", "ArrowArrayView", "storage_type")))
            if large and k not in storage[t]:
                ctx.violation("read/storage/%s" % t, loc(init), "a reader for %s reads its input with the layout of nanoarrow type %s" % (t, k))
        out = eng.new_region("obj", size=lin.const(8), label="out", name="out")
        for s in dr.states:
            s.null[out.id] = False
        got = {x for _, x in nat.probe(dr, F["GeoArrowArrayReaderArrayView"], [r, ("p", out.id, lin.ZERO)])}
        if large and got != {"error"}:
            ctx.violation("read/view/%s" % t, loc(F["GeoArrowArrayReaderArrayView"]), "GeoArrowArrayReaderArrayView hands out a view for %s, whose arrays the view cannot describe" % t)
        if not large and "error" in got:
            ctx.violation("read/view/%s" % t, loc(F["GeoArrowArrayReaderArrayView"]), "GeoArrowArrayReaderArrayView refuses %s" % t)
        dr.call(seta, [r])
        if not dr.states:
            ctx.violation("read/set/%s" % t, loc(seta), "a reader for %s refuses every array" % t)
            continue
        dr.call(vis, [r, ("i", lin.ZERO), ("i", lin.const(1))])
        got = {s.ghost.get("ev", ()) for s in dr.states}
        for (name, use, was), where in eng.monitors[0].mixed.items():
            ctx.violation("read/source/%s/%s" % (t, name), where, "reading %s passes to %s, as a struct %s, what was set up as a struct %s" % (t, name, use, was))
        if g == "BOX" and d != "XY":
            if got:
                ctx.violation("read/visit/%s" % t, loc(vis), "visiting an array of %s succeeds with %s although boxes with more than two dimensions are not implemented" % (t, sorted(got)))
            continue
        null = (("feat_start",), ("null_feat",), ("feat_end",))
        if serialized(t):
            want = {(("WK" + t01.parts(t)[3][-1].upper(),),), null}
            if got != want:
                ctx.violation("read/visit/%s" % t, loc(vis), "visiting one element of %s does %s instead of handing it to the parser of its encoding or announcing a null" % (t, show(got)))
            continue
        gt, dt = val["GEOARROW_GEOMETRY_TYPE_" + ("POLYGON" if g == "BOX" else g)], val["GEOARROW_DIMENSIONS_" + d]
        full = [e for e in got if e != null]
        ok = null in got and full and any(("coords",) in e for e in full)
        for e in full:
            core = tuple(x for x in e if x != ("coords",))
            if core != (("feat_start",), ("geom_start", gt, dt), ("feat_end",)):
                ok = False
        if not ok:
            ctx.violation("read/visit/%s" % t, loc(vis), "visiting one element of %s announces %s; expected either a null or one %s %s with its coordinates" % (t, show(got), g, d))
    ctx.sample("reader of %s" % types[0])


def show(got):
    return " or ".join(sorted(" ".join("%s%s" % (x[0], list(x[1:]) if x[1:] else "") for x in e) or "nothing" for e in got)) or "nothing that succeeds"


# ------------------------------------------------------------------ writers and builders

def writable(t):
    return t in ("GEOARROW_TYPE_WKT", "GEOARROW_TYPE_WKB") or (not serialized(t) and t01.parts(t)[0] != "BOX" and t != "GEOARROW_TYPE_UNINITIALIZED")


def open_writer(mod, t, val):
    """(drive, writer, visitor, refusing function or None)"""
    F = mod.functions
    eng = nat.engine(mod, nat.NatMon())
    dr = drive.Drive(eng)
    w, v = dr.obj("GeoArrowArrayWriter", "writer"), dr.obj("GeoArrowVisitor", "visitor")
    init, iv = F["GeoArrowArrayWriterInitFromType"], F["GeoArrowArrayWriterInitVisitor"]
    dr.call(init, [w, ("i", lin.const(val[t]))])
    if not dr.states:
        return dr, w, v, init
    dr.call(iv, [w, v])
    return dr, w, v, None if dr.states else iv


def native(eng, st, w):
    """Pointer to the GeoArrowNativeWriterPrivate behind an array writer."""
    p = nat.private(eng, st, w)
    o = eng.types.member("GeoArrowArrayWriterPrivate", "native_writer")["off"] + eng.types.member("GeoArrowNativeWriter", "private_data")["off"]
    return eng.load_cell(st, eng.regions[p[1]], lin.addc(p[2], o), 8, "ptr")


def writers(ctx, mod, types, val):
    F = mod.functions
    init = F["GeoArrowArrayWriterInitFromType"]
    fin = F["GeoArrowArrayWriterFinish"]
    for t in types:
        if t == "GEOARROW_TYPE_UNINITIALIZED":
            continue
        ctx.count("obligations", 3)
        dr, w, v, refused = open_writer(mod, t, val)
        if not writable(t):
            if not refused:
                ctx.violation("write/init/%s" % t, loc(init), "a writer for %s is handed out although nothing implements writing it" % t)
            continue
        if refused:
            ctx.violation("write/init/%s" % t, loc(refused), "no writer can be had for %s (%s refuses it)" % (t, refused.dname))
            continue
        eng = dr.eng
        for o in ("GeoArrowArrayWriterSetPrecision", "GeoArrowArrayWriterSetFlatMultipoint"):
            got = {x for _, x in nat.probe(dr, F[o], [w, ("i", lin.const(1))])}
            ctx.count("obligations")
            if t == "GEOARROW_TYPE_WKT" and got != {"ok"}:
                ctx.violation("write/option/%s/%s" % (o, t), loc(F[o]), "%s refuses a WKT writer" % o)
            if t != "GEOARROW_TYPE_WKT" and got != {"error"}:
                ctx.violation("write/option/%s/%s" % (o, t), loc(F[o]), "%s, a setting of WKT output, is taken by a writer of %s" % (o, t))
        bad = set()
        for s in dr.states:
            for m in SLOTS:
                f = dr.slot(s, v, "GeoArrowVisitor", m)
                if f is None or f.decl:
                    bad.add(m)
        if bad:
            ctx.violation("write/slots/%s" % t, loc(init), "the visitor of a %s writer has no %s callback" % (t, ", ".join(sorted(bad))))
            continue
        g, d, _, _ = t01.parts(t)
        own = ("LINESTRING", (3,)) if serialized(t) else (g, SAMPLE[g])
        dim = "XY" if serialized(t) else d
        if not nat.visit(dr, v, ["feat_start"] + nat.feature(own[0], *own[1]) + ["feat_end"], dim, val):
            ctx.violation("write/own/%s" % t, loc(init), "the writer of %s cannot take a %s %s" % (t, own[0], dim))
            continue
        n = {"POINT": 1, "LINESTRING": 3, "POLYGON": 9, "MULTIPOINT": 2, "MULTILINESTRING": 5, "MULTIPOLYGON": 13}[own[0]]
        for s in dr.states:
            if serialized(t):
                if not any(drive.arena_bytes(eng, s).values()):
                    ctx.violation("write/drop/%s" % t, loc(init), "the writer of %s takes a feature and writes nothing" % t)
            else:
                k = nat.const(nat.field(eng, s, native(eng, s, w), ("GeoArrowNativeWriterPrivate", "builder", "GeoArrowBuilder", "view",
                                                                   "GeoArrowWritableArrayView", "coords", "GeoArrowWritableCoordView", "size_coords"), 8, "i64"))
                if k != n:
                    ctx.violation("write/drop/%s" % t, loc(init), "the writer of %s takes a %s with %d coordinates and keeps %s" % (t, own[0], n, "an unknown number" if k is None else k))
        dr.call(fin, [w, dr.obj("ArrowArray", "out")])
        if not dr.states:
            ctx.violation("write/finish/%s" % t, loc(fin), "finishing a writer of %s always fails" % t)


LEVELS = {"POINT": 0, "BOX": 0, "LINESTRING": 1, "MULTIPOINT": 1, "POLYGON": 2, "MULTILINESTRING": 2, "MULTIPOLYGON": 3, "GEOMETRY": 1}


def layouts(ctx, mod, types, val):
    """Number of offset buffers, ordinates, stride and buffers of array views and builders."""
    F = mod.functions
    av, bi = F["GeoArrowArrayViewInitFromType"], F["GeoArrowBuilderInitFromType"]
    for t in types:
        if t == "GEOARROW_TYPE_UNINITIALIZED":
            continue
        g, d, c, _ = t01.parts(t)
        nv = 0 if serialized(t) else NDIM[d] * (2 if g == "BOX" else 1)
        want = {"n_offsets": LEVELS[g], "n_values": nv, "coords_stride": 0 if serialized(t) else 1 if c == "SEPARATE" else nv}
        for fn, sname, pre in ((av, "GeoArrowArrayView", ()), (bi, "GeoArrowWritableArrayView", ("GeoArrowBuilder", "view"))):
            eng = nat.engine(mod, nat.NatMon())
            dr = drive.Drive(eng)
            o = dr.obj(pre[0] if pre else sname, "view")
            dr.call(fn, [o, ("i", lin.const(val[t]))])
            ctx.count("obligations")
            if pre and t in ("GEOARROW_TYPE_WKB_VIEW", "GEOARROW_TYPE_WKT_VIEW"):
                if dr.states:
                    ctx.violation("layout/%s/%s" % (fn.dname, t), loc(fn), "%s hands out a builder for %s, whose variadic buffers it cannot describe" % (fn.dname, t))
                continue
            if not dr.states:
                ctx.violation("layout/%s/%s" % (fn.dname, t), loc(fn), "%s refuses %s" % (fn.dname, t))
                continue
            cs = "GeoArrowWritableCoordView" if pre else "GeoArrowCoordView"
            for s in dr.states:
                got = {"n_offsets": nat.const(nat.field(eng, s, o, pre + (sname, "n_offsets"))),
                       "n_values": nat.const(nat.field(eng, s, o, pre + (sname, "coords", cs, "n_values"))),
                       "coords_stride": nat.const(nat.field(eng, s, o, pre + (sname, "coords", cs, "coords_stride")))}
                exp = dict(want)
                if pre:
                    got["n_buffers"] = nat.const(nat.field(eng, s, o, pre + (sname, "n_buffers"), 8, "i64"))
                    exp["n_buffers"] = 1 + LEVELS[g] + (nv if c == "SEPARATE" else 1)
                if got != exp:
                    ctx.violation("layout/%s/%s" % (fn.dname, t), loc(fn), "%s lays %s out with %s instead of %s" % (
                        fn.dname, t, ", ".join("%s=%s" % x for x in sorted(got.items())), ", ".join("%s=%s" % x for x in sorted(exp.items()))))


# ------------------------------------------------------------------ the native writer's append

# what each builder takes: geometry type -> largest number of parts (None: any)
ACCEPT = {
    "POINT": {},                    # anything with at most one coordinate
    "LINESTRING": {"LINESTRING": None, "MULTILINESTRING": 1},
    "POLYGON": {"POLYGON": None, "MULTIPOLYGON": 1},
    "MULTIPOINT": {"POINT": None, "MULTIPOINT": None},
    "MULTILINESTRING": {"LINESTRING": None, "MULTILINESTRING": None},
    "MULTIPOLYGON": {"POLYGON": None, "MULTIPOLYGON": None},
}


def tree(g, parts):
    """Node list [(geometry type, size, level)] of a geometry."""
    def node(g, parts, level):
        if g in ("POINT", "LINESTRING"):
            return [(g, parts[0], level)]
        if g == "POLYGON":
            return [(g, len(parts), level)] + [("LINESTRING", n, level + 1) for n in parts]
        if g == "GEOMETRYCOLLECTION":
            return [(g, len(parts), level)] + [x for q in parts for x in node(q[0], q[1:], level + 1)]
        return [(g, len(parts), level)] + [x for q in parts for x in node(g[5:], q if isinstance(q, tuple) else (q,), level + 1)]
    return node(g, parts, 0)


def view_args(dr, nodes, dim, val):
    """Arguments for a GeoArrowGeometryView passed by value."""
    eng = dr.eng
    size = eng.types.structs["GeoArrowGeometryNode"]["size"]
    r = eng.new_region("obj", ty="struct GeoArrowGeometryNode", size=lin.const(size * len(nodes)), label="nodes", name="nodes", many=True)
    for s in dr.states:
        s.null[r.id] = False
        for i, (g, n, lv) in enumerate(nodes):
            p = ("p", r.id, lin.const(i * size))
            for m, k, v in (("geometry_type", 1, val["GEOARROW_GEOMETRY_TYPE_" + g]), ("dimensions", 1, val["GEOARROW_DIMENSIONS_" + dim]), ("size", 4, n),
                            ("level", 1, lv), ("flags", 1, 0)):
                nat.store(eng, s, p, ("GeoArrowGeometryNode", m), k, v)
            for j in range(4):
                o = eng.new_region("opaque", label="ordinates", name="ordinates")
                s.null[o.id] = False
                nat.store(eng, s, p, ("GeoArrowGeometryNode", "coords", 8 * j), 8, ("p", o.id, lin.ZERO))
                nat.store(eng, s, p, ("GeoArrowGeometryNode", "coord_stride", 4 * j), 4, 8)
    return [("p", r.id, lin.ZERO), ("i", lin.const(len(nodes)))]


def append(ctx, mod, types, val):
    F = mod.functions
    init, app, nul = F["GeoArrowNativeWriterInit"], F["GeoArrowNativeWriterAppend"], F["GeoArrowNativeWriterAppendNull"]
    CASES = [("POINT", (1,)), ("LINESTRING", (2,)), ("LINESTRING", (1,)), ("POLYGON", (4,)), ("POLYGON", (4, 5)), ("MULTIPOINT", (1,)), ("MULTIPOINT", (1, 1)),
             ("MULTILINESTRING", (2,)), ("MULTILINESTRING", (2, 3)), ("MULTIPOLYGON", ((4,),)), ("MULTIPOLYGON", ((4, 5),)), ("MULTIPOLYGON", ((4,), (4, 4))),
             ("MULTIPOLYGON", ((4, 4), (4,))), ("MULTIPOLYGON", ((4, 4), (4, 5))), ("MULTIPOLYGON", ((4,), (4,), (4,))), ("MULTILINESTRING", (2, 3, 2)),
             ("MULTILINESTRING", (1, 1)), ("MULTIPOINT", (1, 1, 1)), ("MULTIPOLYGON", ((), (4,))), ("MULTIPOLYGON", ((4,), ())), ("MULTILINESTRING", (0, 2)),
             ("GEOMETRYCOLLECTION", (("POINT", 1),)), ("GEOMETRYCOLLECTION", (("LINESTRING", 2),))]
    CASES += [(g, () if g not in ("POINT", "LINESTRING") else (0,)) for g in GEOMS]
    for t in types:
        g, d, c, _ = t01.parts(t)
        for kind, parts in CASES:
            eng = nat.engine(mod, nat.NatMon())
            dr = drive.Drive(eng)
            w = dr.obj("GeoArrowNativeWriter", "writer")
            dr.call(init, [w, ("i", lin.const(val[t]))])
            nodes = tree(kind, parts)
            n = sum(x[1] for x in nodes if x[0] in ("POINT", "LINESTRING"))
            a = [w] + view_args(dr, nodes, d, val)
            if len(app.params) != 4:
                raise AnalysisError("GeoArrowNativeWriterAppend does not take a two-word view")
            rs = nat.calls(dr, app, a)
            got = {r for _, r in rs}
            ctx.count("obligations")
            if n == 0:
                want = True
            elif g == "POINT":
                want = n <= 1
            else:
                want = kind in ACCEPT[g] and (ACCEPT[g][kind] is None or nodes[0][1] <= ACCEPT[g][kind])
            key = "append/%s/%s/%d/%d" % (t, kind, nodes[0][1], n)
            desc = "%s with %d part%s and %d coordinate%s" % (kind, nodes[0][1], "" if nodes[0][1] == 1 else "s", n, "" if n == 1 else "s")
            if want and "error" in got:
                ctx.violation(key, loc(app), "the native writer of %s refuses a %s" % (t, desc))
            elif not want and got != {"error"}:
                ctx.violation(key, loc(app), "the native writer of %s takes a %s, which it cannot represent" % (t, desc))
            elif want:
                for s, r in rs:
                    p = nat.private(eng, s, w)
                    V = ("GeoArrowNativeWriterPrivate", "builder", "GeoArrowBuilder", "view", "GeoArrowWritableArrayView")
                    k = nat.const(nat.field(eng, s, p, V + ("coords", "GeoArrowWritableCoordView", "size_coords"), 8, "i64"))
                    if k != (n or (1 if g == "POINT" else 0)):
                        ctx.violation(key + "/coords", loc(app), "the native writer of %s given a %s keeps %s coordinates" % (t, desc, k))
        eng = nat.engine(mod, nat.NatMon())
        dr = drive.Drive(eng)
        w = dr.obj("GeoArrowNativeWriter", "writer")
        dr.call(init, [w, ("i", lin.const(val[t]))])
        ctx.count("obligations")
        got = {r for _, r in nat.calls(dr, nul, [w])}
        if "error" in got or not got:
            ctx.violation("append-null/%s" % t, loc(nul), "the native writer of %s refuses a null" % t)


# ------------------------------------------------------------------ geometry visits

class EvMon(nat.NatMon):
    def ghost_key(self, st):
        return (super().ghost_key(st), st.ghost.get("ev", ()))

    def before_call(self, eng, st, ins, name, fn, args):
        slot = v01.slot_of(eng, st, ins) if name is None else None
        if slot:
            e = (slot,)
            if slot == "geom_start":
                e += tuple(nat.const(x) for x in args[1:3])
            if slot == "coords":
                e += (nat.const(nat.field(eng, st, args[1], ("GeoArrowCoordView", "n_values"))), nat.const(nat.field(eng, st, args[1], ("GeoArrowCoordView", "n_coords"), 8, "i64")))
            st.ghost["ev"] = st.ghost.get("ev", ()) + (e,)
            return [(st, ("i", lin.ZERO))]
        return super().before_call(eng, st, ins, name, fn, args)


def geometry(ctx, mod, val):
    F = mod.functions
    for fname in ("GeoArrowGeometryViewVisit", "GeoArrowGeometryVisit"):
        vis = F[fname]
        for g in GEOMS:
            for d in DIMS:
                eng = nat.engine(mod, EvMon())
                dr = drive.Drive(eng)
                nodes = tree(g, SAMPLE[g])
                a = view_args(dr, nodes, d, val)
                if fname == "GeoArrowGeometryVisit":
                    o = dr.obj("GeoArrowGeometry", "geometry")
                    for s in dr.states:
                        nat.store(eng, s, o, ("GeoArrowGeometry", "root"), 8, a[0])
                        nat.store(eng, s, o, ("GeoArrowGeometry", "size_nodes"), 8, len(nodes))
                    a = [o]
                rs = nat.calls(dr, vis, a + [dr.obj("GeoArrowVisitor", "visitor")])
                ctx.count("obligations")
                want = []
                for e in ["feat_start"] + nat.feature(g, *SAMPLE[g]) + ["feat_end"]:
                    e = (e,) if isinstance(e, str) else e
                    want.append((e[0], val["GEOARROW_GEOMETRY_TYPE_" + e[1]], val["GEOARROW_DIMENSIONS_" + d]) if e[0] == "geom_start"
                                else (e[0], NDIM[d], e[1]) if e[0] == "coords" else e)
                got = {s.ghost.get("ev", ()) for s, r in rs if r != "error"}
                if got != {tuple(want)}:
                    ctx.violation("geometry/%s/%s/%s" % (fname, g, d), loc(vis), "%s on a %s %s calls %s instead of %s" % (fname, g, d, show(got), show({tuple(want)})))


# ------------------------------------------------------------------ kernels and functions

def named(ctx, mod, fn, documented, objty, members, priv):
    """Names an initialiser accepts."""
    for k in documented:
        eng = nat.engine(mod, nat.NatMon())
        dr = drive.Drive(eng)
        o = dr.obj(objty, "object")
        name = strs.new_text(eng, dr.states[0], k)
        rs = [(s, r) for s, r in nat.calls(dr, fn, [o, name]) if r != "error"]
        ctx.count("obligations")
        if not rs:
            ctx.violation("name/%s/%s" % (fn.dname, k), loc(fn), "%s refuses the documented name '%s'" % (fn.dname, k))
        for s, r in rs:
            for m in members:
                f = dr.slot(s, o, objty, m)
                if f is None or f.decl:
                    ctx.violation("name/%s/%s/%s" % (fn.dname, k, m), loc(fn), "%s('%s') leaves the %s callback unset" % (fn.dname, k, m))
            if priv:
                p = nat.field(eng, s, o, (objty, "private_data"), 8, "ptr")
                if p[0] == "p":
                    for m in ("finish_push_batch", "finish_start"):
                        v = nat.field(eng, s, p, ("GeoArrowVisitorKernelPrivate", m), 8, "ptr")
                        if v[0] != "f":
                            ctx.violation("name/%s/%s/%s" % (fn.dname, k, m), loc(fn), "%s('%s') leaves the %s step unset" % (fn.dname, k, m))
                    for m in SLOTS:
                        v = nat.field(eng, s, p, ("GeoArrowVisitorKernelPrivate", "v", "GeoArrowVisitor", m), 8, "ptr")
                        if v[0] != "f":
                            ctx.violation("name/%s/%s/%s" % (fn.dname, k, m), loc(fn), "%s('%s') leaves visitor callback %s unset" % (fn.dname, k, m))
    # an unknown name
    eng = nat.engine(mod, nat.NatMon())
    dr = drive.Drive(eng)
    o = dr.obj(objty, "object")
    r = eng.new_region("opaque", label="name", name="name")
    dr.states[0].null[r.id] = False
    ctx.count("obligations")
    for s, x in nat.calls(dr, fn, [o, ("p", r.id, lin.ZERO)]):
        if x == "error":
            continue
        facts = [(f[1].decode("latin1"), f[3]) for f in eng.monitors[0].facts(s)]
        if not any(h == "exact" and n in documented for n, h in facts):
            ctx.violation("name/%s/unknown" % fn.dname, loc(fn), "%s accepts a name that is none of %s (%s)" % (
                fn.dname, ", ".join(documented), "it only begins with '%s'" % facts[-1][0] if facts else "no comparison succeeded"))


def kernels(ctx, mod, val):
    F = mod.functions
    named(ctx, mod, F["GeoArrowKernelInit"], KERNELS, "GeoArrowKernel", ("start", "push_batch", "finish", "release"), True)
    named(ctx, mod, F["GeoArrowScalarUdfFactoryInit"], ("void",), "GeoArrowScalarUdfFactory", ("new_scalar_udf_impl", "release"), False)


class StartMon(nat.NatMon):
    """The steps of starting a kernel can each succeed or fail; changes of the reader are recorded."""
    step = None

    def ghost_key(self, st):
        return (super().ghost_key(st), st.ghost.get("reader"))

    def before_call(self, eng, st, ins, name, fn, args):
        if name == self.step or name in ("GeoArrowSchemaViewInit", "GeoArrowArrayReaderInitFromSchema", "GeoArrowArrayReaderInitFromType"):
            bad = st.copy()
            if name.startswith("GeoArrowArrayReader"):
                bad.ghost["reader"] = True
                st.ghost["reader"] = True
            return [(st, ("i", lin.ZERO)), (bad, ("i", lin.const(22)))]
        if name == "GeoArrowArrayReaderReset":
            st.ghost["reader"] = True
            return [(st, None)]
        return super().before_call(eng, st, ins, name, fn, args)


class OutMon(nat.NatMon):
    """Library functions that are passed on a missing array."""

    def __init__(self):
        super().__init__()
        self.passed = set()

    def before_call(self, eng, st, ins, name, fn, args):
        g = eng.mod.functions.get(name) if name else None
        if g is not None and not g.internal and g.dtypes and eng.entry.name != name:
            for i, t in enumerate(slai.param_types(g, eng.types)):
                t = cty.pointee(t) if t and cty.is_ptr(t) else None
                if t and cty.struct_name(t) == "ArrowArray" and i < len(args) and args[i] == slai.NULL:
                    self.passed.add((name, i))
        return super().before_call(eng, st, ins, name, fn, args)


def refuses(mod, name, i):
    """Does a function fail in every state when its i-th argument is NULL?"""
    f = mod.functions[name]
    eng = nat.engine(mod, nat.NatMon())
    dr = drive.Drive(eng)
    a = []
    for j, t in enumerate(slai.param_types(f, eng.types)):
        t = cty.pointee(t) if t and cty.is_ptr(t) else None
        a.append(slai.NULL if i == j else dr.obj(cty.struct_name(t)) if t and cty.struct_name(t) else None)
    full = eng.bind_params(dr.states[0], f)
    return {r for _, r in nat.calls(dr, f, [x if x is not None else full[j] for j, x in enumerate(a)])} == {"error"}


def reads(mod, f):
    """Does a function visit the elements of an array?"""
    todo, seen = [f], set()
    while todo:
        g = todo.pop()
        if g is None or g.name in seen:
            continue
        seen.add(g.name)
        if g.dname == "GeoArrowArrayReaderVisit":
            return True
        todo += [mod.functions.get(c.callee[1]) for c in g.calls() if c.callee and c.callee[0] == "f"]
    return False


def started(ctx, mod, val):
    """A batch is only read once everything it needs has been set up, and a missing output is refused."""
    F = mod.functions
    init = F["GeoArrowKernelInit"]

    def make(k, mon):
        eng = nat.engine(mod, mon)
        dr = drive.Drive(eng)
        o = dr.obj("GeoArrowKernel", "kernel")
        dr.states = [s for s, r in nat.calls(dr, init, [o, strs.new_text(eng, dr.states[0], k)]) if r != "error"]
        ctx.require(dr.states, "kernel %s can't be initialised" % k)
        return eng, dr, o
    for k in KERNELS:
        eng, dr, o = make(k, StartMon())
        s0 = dr.states[0]
        start = dr.slot(s0, o, "GeoArrowKernel", "start")
        push = dr.slot(s0, o, "GeoArrowKernel", "push_batch")
        priv = nat.field(eng, s0, o, ("GeoArrowKernel", "private_data"), 8, "ptr")
        ctx.count("obligations")
        if reads(mod, push):
            ctx.violation("start/%s/initial" % k, loc(push), "a %s kernel that was not started reads batches" % k)
        if priv[0] == "p":
            eng.monitors[0].step = nat.field(eng, s0, priv, ("GeoArrowVisitorKernelPrivate", "finish_start"), 8, "ptr")[1]
        schema, out = dr.obj("ArrowSchema", "schema"), dr.obj("ArrowSchema", "out")
        good = []
        for again in (False, True):
            dr.states = good if again else dr.states
            rs = nat.calls(dr, start, [o, schema, slai.NULL, out])
            ctx.count("obligations", len(rs))
            good = [s for s, r in rs if r == "ok"][:4]
            for s, r in rs:
                p = dr.slot(s, o, "GeoArrowKernel", "push_batch")
                if p is None:
                    raise AnalysisError("push_batch after start() of %s" % k)
                if r != "ok" and reads(mod, p) and (not again or s.ghost.get("reader")):
                    ctx.violation("start/%s/failed" % k, loc(start), "a %s kernel reads batches after start() has failed" % k)
                if r == "ok" and priv[0] == "p" and not reads(mod, p):
                    ctx.violation("start/%s/succeeded" % k, loc(start), "a %s kernel does not read batches after start() has succeeded" % k)
            for s in good:
                s.ghost.pop("reader", None)
            ctx.require(good, "start() of %s can't succeed" % k)
        # outputs
        agg = k.endswith("_agg")
        for step in ("push_batch", "finish"):
            mon = OutMon()
            eng, dr, o = make(k, mon)
            s0 = dr.states[0]
            priv = nat.field(eng, s0, o, ("GeoArrowKernel", "private_data"), 8, "ptr")
            f = dr.slot(s0, o, "GeoArrowKernel", step)
            args = [o, dr.obj("ArrowArray", "array")] if step == "push_batch" else [o]
            if priv[0] == "p" and step == "push_batch":
                f = mod.functions[nat.field(eng, s0, priv, ("GeoArrowVisitorKernelPrivate", "finish_push_batch"), 8, "ptr")[1]]
                args = [priv]
            writes = (step == "finish") == agg
            mon.passed.clear()
            got = {r for _, r in nat.probe(dr, f, args + [slai.NULL])}
            ctx.count("obligations")
            if writes and (got != {"error"} or not all(refuses(mod, n, i) for n, i in sorted(mon.passed))):
                ctx.violation("out/%s/%s/missing" % (k, step), loc(f), "%s() of a %s kernel, which writes an output, does not refuse a missing one" % (step, k))
            if not writes and "ok" not in got:
                ctx.violation("out/%s/%s/unneeded" % (k, step), loc(f), "%s() of a %s kernel, which writes no output, fails without one" % (step, k))
            got = {r for _, r in nat.probe(dr, f, args + [dr.obj("ArrowArray", "out")])}
            ctx.count("obligations")
            if writes and got == {"error"}:
                ctx.violation("out/%s/%s/given" % (k, step), loc(f), "%s() of a %s kernel always fails" % (step, k))
            if not writes and step == "finish" and got != {"error"}:
                ctx.violation("out/%s/%s/extra" % (k, step), loc(f), "%s() of a %s kernel leaves the output it is given unset" % (step, k))


def wkb_codes(ctx, mod, val):
    """The type codes the geometry type kernel reports."""
    u = wit.Unit('#include "nanoarrow/nanoarrow.h"\n#include "geoarrow/geoarrow.h"\n#include "geoarrow/kernel.c"\n')
    for gi, g in enumerate(GEOMS):
        for di, d in enumerate(DIMS):
            u.add((g, d), "int", "return kGeoArrowGeometryTypeWkbValues[%d * 8 + %d];" % (val["GEOARROW_DIMENSIONS_" + d], val["GEOARROW_GEOMETRY_TYPE_" + g]))
    f = mod.functions["GeoArrowKernelInit"]
    for (g, d), v in u.solve().items():
        ctx.count("obligations")
        want = t02.WKBCODE[g] + t02.ISO[d]
        if v[1] != want:
            ctx.violation("codes/%s/%s" % (g, d), short(f.file), "unique_geometry_types_agg reports a %s %s as %s instead of %d" % (g, d, v[1], want))


def run(ctx):
    mod = cmod.c_module()
    types = wit.enumerators("GeoArrowType")
    val = t02.enum_values(types + wit.enumerators("GeoArrowGeometryType") + wit.enumerators("GeoArrowDimensions"))
    nats = [t for t in types if t != "GEOARROW_TYPE_UNINITIALIZED" and not serialized(t) and t01.parts(t)[0] != "BOX"]
    todo = [("reading, part %d" % i, readers, mod, c, val) for i, c in enumerate(chunks(types, 4))]
    todo += [("writing, part %d" % i, writers, mod, c, val) for i, c in enumerate(chunks(types, 3))]
    todo += [("layouts", layouts, mod, types, val)]
    todo += [("append, part %d" % i, append, mod, c, val) for i, c in enumerate(chunks(nats, 6))]
    todo += [("geometry visits", geometry, mod, val), ("kernels", kernels, mod, val), ("kernel steps", started, mod, val), ("geometry type codes", wkb_codes, mod, val)]
    ctx.parts(todo)
