"""Drives of the array reader, the array writer and the native writer.

Arguments that select something (type identifiers, geometry types, dimensions,
numbers of parts) are constants; coordinates, addresses and input arrays stay
unknown."""
from . import cmod, drive, lin, slai, wit

GEOMS = ("POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION")
DIMS = ("XY", "XYZ", "XYM", "XYZM")
NDIM = {"XY": 2, "XYZ": 3, "XYM": 3, "XYZM": 4}
SLOTS = ("feat_start", "null_feat", "geom_start", "ring_start", "coords", "ring_end", "geom_end", "feat_end")


class NatMon(drive.BufMon):
    """Also gives the buffers of a builder one region each."""
    setup_ok = True         # schemas and output arrays are initialised (T02 and E02 look at that)

    def before_call(self, eng, st, ins, name, fn, args):
        if name == "GeoArrowBuilderReserveBuffer" and args[0][0] == "p" and args[1][0] == "i" and not args[1][1][1]:
            r = eng.regions[args[0][1]]
            m = eng.types.member
            base = lin.addc(args[0][2], m("GeoArrowBuilder", "view")["off"] + m("GeoArrowWritableArrayView", "buffers")["off"]
                            + args[1][1][0] * eng.types.structs["GeoArrowWritableBufferView"]["size"])
            d = eng.load_cell(st, r, base, 8, "ptr")
            if not (d[0] == "p" and eng.regions[d[1]].label == "arena"):
                a = eng.new_region("heap", size=lin.const(1 << 40), label="arena", name="buffer%d" % args[1][1][0])
                st.null[a.id] = False
                eng.store_cell(st, r, base, 8, ("p", a.id, lin.ZERO))
            eng.store_cell(st, r, lin.addc(base, m("GeoArrowWritableBufferView", "capacity_bytes")["off"]), 8, ("i", lin.const(1 << 40)))
            return [(st, ("i", lin.ZERO))]
        if name in ("GeoArrowSchemaInit", "ArrowArrayInitFromSchema", "ArrowArrayViewSetArray", "GeoArrowBuilderFinish",
                    "ArrowArrayInitFromType", "ArrowArraySetBuffer", "ArrowArrayFinishBuilding", "ArrowArrayFinishBuildingDefault") and self.setup_ok:
            return [(st, ("i", lin.ZERO))]
        if name in ("ArrowArrayBuffer", "ArrowArrayValidityBitmap") and self.setup_ok:
            a = eng.new_region("opaque", label="found", name=name)
            st.null[a.id] = False
            return [(st, ("p", a.id, lin.ZERO))]
        if name == "_GeoArrowArrayFindBuffer" and args[1][0] == "p" and self.setup_ok:
            a = eng.new_region("opaque", ty="struct ArrowArray", label="array", name="found")
            st.null[a.id] = False
            r = eng.regions[args[1][1]]
            eng.store_cell(st, r, args[1][2], 8, ("p", a.id, lin.ZERO))
            return [(st, ("i", eng.fresh(st, "found", 0, 8)))]
        return super().before_call(eng, st, ins, name, fn, args)


def engine(mod, mon, limit=60000, **kw):
    eng = slai.Engine(mod, monitors=[mon], inline=True, mem_checks=False, inline_limit=limit, max_depth=30, **kw)
    eng.peel, eng.rec_depth = 12, 6
    eng.force_inline = {mod.functions[n].dname for n in slai.recursive_functions(mod)
                        if n in mod.functions and cmod.is_geoarrow(mod.functions[n])}
    return eng


def field(eng, st, p, path, size=4, ty="i32"):
    """Value of a nested member: path is (struct, member, struct, member, ...) with optional integer byte displacements."""
    off = p[2]
    it = iter(path)
    for s in it:
        if isinstance(s, int):
            off = lin.addc(off, s)
        else:
            off = lin.addc(off, eng.types.member(s, next(it))["off"])
    return eng.load_cell(st, eng.regions[p[1]], off, size, ty)


def const(v):
    return v[1][0] if v is not None and v[0] == "i" and not v[1][1] else None


def result(st, v):
    """'ok', 'error' or 'maybe' for a returned error code."""
    if v is None or v[0] != "i":
        return "maybe"
    if st.num.prove_eq(v[1]):
        return "ok"
    if st.num.prove_ne(v[1]):
        return "error"
    return "maybe"


def calls(dr, fn, args):
    """[(state, 'ok'|'error'|'maybe')] for one more call in every state of a drive."""
    out = []
    eng = dr.eng
    eng.entry = fn
    for s in dr.states:
        a = args(s) if callable(args) else list(args)
        full = eng.bind_params(s, fn)
        a += full[len(a):]
        for t, v, _ in eng.exec_function(fn, s, a):
            out.append((t, result(t, v)))
    return out


def private(eng, st, obj):
    return eng.load_cell(st, eng.regions[obj[1]], lin.addc(obj[2], 0), 8, "ptr")


def store(eng, st, p, path, size, v):
    off = p[2]
    it = iter(path)
    for s in it:
        off = lin.addc(off, s if isinstance(s, int) else eng.types.member(s, next(it))["off"])
    eng.store_cell(st, eng.regions[p[1]], off, size, v if isinstance(v, tuple) else ("i", lin.const(v)))


def coords(dr, ndim, n):
    """A coordinate view of n coordinates with unknown ordinates."""
    c = dr.obj("GeoArrowCoordView", "coords")
    eng = dr.eng
    for s in dr.states:
        for j in range(ndim):
            r = eng.new_region("opaque", label="ordinates", name="ordinates")
            s.null[r.id] = False
            store(eng, s, c, ("GeoArrowCoordView", "values", 8 * j), 8, ("p", r.id, lin.ZERO))
        store(eng, s, c, ("GeoArrowCoordView", "n_coords"), 8, n)
        store(eng, s, c, ("GeoArrowCoordView", "n_values"), 4, ndim)
        store(eng, s, c, ("GeoArrowCoordView", "coords_stride"), 4, 1)
    return c


def visit(dr, v, events, dim, val):
    """Apply a list of events to the visitor v: "feat_start", ("geom_start", GEOM), ("coords", n), ...  True when every call can succeed."""
    eng = dr.eng
    for e in events:
        slot, a = (e, None) if isinstance(e, str) else e
        args = [v]
        if slot == "geom_start":
            args += [("i", lin.const(val["GEOARROW_GEOMETRY_TYPE_" + a])), ("i", lin.const(val["GEOARROW_DIMENSIONS_" + dim]))]
        elif slot == "coords":
            args.append(coords(dr, NDIM[dim], a))
        out = []
        for s in dr.states:
            f = dr.slot(s, v, "GeoArrowVisitor", slot)
            if f is None:
                continue
            one = drive.Drive(eng, s)
            out += [t for t, r in calls(one, f, args) if r != "error"]
        dr.states = out
        if not out:
            return False
    return True


def feature(g, *parts):
    """Event list of one geometry: sizes of its coordinate sequences."""
    p = list(parts)
    if g in ("POINT", "LINESTRING"):
        return [("geom_start", g), ("coords", p[0])] * (p[0] > 0) + [("geom_start", g)] * (p[0] == 0) + ["geom_end"]
    if g == "POLYGON":
        return [("geom_start", g)] + [x for n in p for x in ("ring_start", ("coords", n), "ring_end")] + ["geom_end"]
    if g in ("MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON"):
        return [("geom_start", g)] + [x for q in p for x in feature(g[5:], *(q if isinstance(q, tuple) else (q,)))] + ["geom_end"]
    return [("geom_start", g)] + [x for q in p for x in feature(*q)] + ["geom_end"]


def probe(dr, fn, args):
    """Like calls, on copies of the states."""
    one = drive.Drive(dr.eng)
    one.states = [s.copy() for s in dr.states]
    return calls(one, fn, args)
