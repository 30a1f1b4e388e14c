"""V03: writers account for every feature exactly once (induction over the writer's state)."""
from vlib import cmod, drive, lin, nat, slai, strs, wit
from vlib.build import AnalysisError
from vlib.cmod import short
from vlib.nat import GEOMS, SLOTS
from checks import k01, t01, t02

TECHNIQUE = "static analysis: inductive invariants of the writers by abstract interpretation from an arbitrary consistent state"
LEVEL = "other"
EXPLANATION = (
    "Each writer's bookkeeping (element count, nulls, validity bits, offsets of every level, coordinates) is given an invariant. The "
    "abstract interpreter starts from a state in which every count is an unknown that satisfies the invariant (with and without "
    "nulls seen before) and follows one feature through the callbacks, or through append, finish and initialisation: on every path "
    "that succeeds the invariant holds again with exactly one more element. Coordinates are unknown; the shape of the feature is "
    "enumerated (null, empty, and filled geometries of every type, including ones the output type cannot hold).")

MAXN = (1 << 31) - 1000
MAXBYTES = (1 << 31) - 100000
MAXSIZE = 1 << 40


def loc(f):
    return "%s:%d" % (short(f.file), f.line)


class BitMon(nat.NatMon):
    """Also follows validity bitmaps: which bits, how many."""

    def ghost_key(self, st):
        return (super().ghost_key(st), st.ghost.get("bits", ()), st.ghost.get("given", ()), st.ghost.get("hand", ()))

    def before_call(self, eng, st, ins, name, fn, args):
        m = eng.types.member
        if name in ("ArrowBitmapReserve", "ArrowBitmapResize", "ArrowBitmapAppend", "ArrowBitmapAppendUnsafe", "ArrowBitmapReset", "ArrowBitmapInit") and args[0][0] == "p":
            b = args[0]
            r = eng.regions[b[1]]
            eng.set_type(r, "struct ArrowBitmap") if r.ty is None else None
            data = lin.addc(b[2], m("ArrowBitmap", "buffer")["off"] + m("ArrowBuffer", "data")["off"])
            bits = lin.addc(b[2], m("ArrowBitmap", "size_bits")["off"])
            if name in ("ArrowBitmapInit", "ArrowBitmapReset"):
                eng.store_cell(st, r, data, 8, slai.NULL)
                eng.store_cell(st, r, bits, 8, ("i", lin.ZERO))
                return [(st, None)]
            if name != "ArrowBitmapAppendUnsafe" and not (name == "ArrowBitmapResize" and nat.const(args[1]) == 0):
                self.bitdata(eng, st, r, data)
            n = eng.load_cell(st, r, bits, 8, "i64")
            if name == "ArrowBitmapResize":
                eng.store_cell(st, r, bits, 8, ("i", eng.as_int(st, args[1], 64)))
                st.ghost["bits"] = st.ghost.get("bits", ()) + (("resize", eng.as_int(st, args[1], 64)),)
            elif name != "ArrowBitmapReserve":
                k = eng.as_int(st, args[2], 64)
                v = eng.as_int(st, args[1], 8)
                eng.store_cell(st, r, bits, 8, ("i", lin.add(n[1], k)))
                v = "unknown" if v[1] else "valid" if v[0] & 0xff else "null"
                if k != lin.ZERO:
                    st.ghost["bits"] = st.ghost.get("bits", ()) + ((v, k),)
            return [(st, None if name == "ArrowBitmapAppendUnsafe" else ("i", lin.ZERO))]
        if name == "GeoArrowPrintDouble":
            return [(st, ("i", eng.fresh(st, "printed", 1, 40)))]
        if name in ("GeoArrowSchemaViewInit", "schema_box", "ArrowArrayAllocateChildren"):
            return [(st, ("i", lin.ZERO))]
        if name == "array_box" and args[0][0] == "p":
            # an array with four children
            for k in range(4):
                c = eng.new_region("opaque", ty="struct ArrowArray", label="child%d" % k, name="child")
                st.null[c.id] = False
                h = st.ghost.get("child")
                tab = h if h is not None else eng.new_region("obj", size=lin.const(32), label="children", name="children").id
                st.ghost["child"] = tab
                st.null[tab] = False
                eng.store_cell(st, eng.regions[tab], lin.const(8 * k), 8, ("p", c.id, lin.ZERO))
            r = eng.regions[args[0][1]]
            eng.store_cell(st, r, lin.addc(args[0][2], m("ArrowArray", "children")["off"]), 8, ("p", tab, lin.ZERO))
            return [(st, ("i", lin.ZERO))]
        if name == "ArrowArraySetValidityBitmap":
            self.hand(eng, st, 0, args[1], "ArrowBitmap", "size_bits")
            return [(st, None)]
        if name == "ArrowArraySetBuffer":
            self.hand(eng, st, nat.const(args[1]), args[2], "ArrowBuffer", "size_bytes")
            return [(st, ("i", lin.ZERO))]
        if name == "GeoArrowBuilderFinish":
            # its contract: the buffers leave the builder, which starts again from empty ones
            b = args[0]
            r = eng.regions[b[1]]
            base = lin.addc(b[2], m("GeoArrowBuilder", "view")["off"] + m("GeoArrowWritableArrayView", "buffers")["off"])
            sz = eng.types.structs["GeoArrowWritableBufferView"]["size"]
            got = []
            for k in range(m("GeoArrowWritableArrayView", "buffers")["size"] // sz if "size" in m("GeoArrowWritableArrayView", "buffers") else 9):
                o = lin.addc(base, k * sz + m("GeoArrowWritableBufferView", "size_bytes")["off"])
                got.append(eng.load_cell(st, r, o, 8, "i64")[1])
                eng.store_cell(st, r, o, 8, ("i", lin.ZERO))
                for f in ("data", "capacity_bytes"):
                    eng.store_cell(st, r, lin.addc(base, k * sz + m("GeoArrowWritableBufferView", f)["off"]), 8, slai.NULL if f == "data" else ("i", lin.ZERO))
            st.ghost["given"] = tuple(got)
            return [(st, ("i", lin.ZERO))]
        return super().before_call(eng, st, ins, name, fn, args)

    def hand(self, eng, st, i, p, ty, size):
        """A buffer moves into an output array."""
        m = eng.types.member
        r = eng.regions[p[1]]
        n = eng.load_cell(st, r, lin.addc(p[2], m(ty, size)["off"]), 8, "i64")[1]
        off = p[2] if ty == "ArrowBuffer" else lin.addc(p[2], m(ty, "buffer")["off"])
        d = eng.load_cell(st, r, lin.addc(off, m("ArrowBuffer", "data")["off"]), 8, "ptr")
        st.ghost["hand"] = st.ghost.get("hand", ()) + ((i, n, d[1] if d[0] == "p" else None),)
        for f in ("data", "size_bytes", "capacity_bytes"):
            eng.store_cell(st, r, lin.addc(off, m("ArrowBuffer", f)["off"]), 8, slai.NULL if f == "data" else ("i", lin.ZERO))
        if ty == "ArrowBitmap":
            eng.store_cell(st, r, lin.addc(p[2], m(ty, "size_bits")["off"]), 8, ("i", lin.ZERO))

    @staticmethod
    def bitdata(eng, st, r, off):
        d = eng.load_cell(st, r, off, 8, "ptr")
        if not (d[0] == "p" and eng.regions[d[1]].label == "bits"):
            a = eng.new_region("opaque", label="bits", name="bits")
            st.null[a.id] = False
            eng.store_cell(st, r, off, 8, ("p", a.id, lin.ZERO))



P = "GeoArrowNativeWriterPrivate"
VIEW = (P, "builder", "GeoArrowBuilder", "view", "GeoArrowWritableArrayView")
COORDS = VIEW + ("coords", "GeoArrowWritableCoordView", "size_coords")


def buf(eng, k, what):
    return VIEW + ("buffers", eng.types.structs["GeoArrowWritableBufferView"]["size"] * k, "GeoArrowWritableBufferView", what)


def eq(st, v, want):
    return v is not None and v[0] == "i" and st.num.prove_eq(lin.sub(v[1], want))


def say(v):
    return lin.fmt(v[1]) if v is not None and v[0] == "i" else "something unknown"


class NativeModel:
    """Invariant of GeoArrowNativeWriterPrivate: counts n[0..L-1] of list levels, c coordinates, z nulls, validity absent or complete."""

    def __init__(self, eng, levels, present):
        self.eng, self.levels, self.present = eng, levels, present

    def assume(self, st, w, append):
        eng = self.eng
        p = nat.private(eng, st, w)
        self.n = []
        for k in range(self.levels):
            x = eng.fresh(st, "n%d" % k, 0, MAXN)
            self.n.append(x)
            nat.store(eng, st, p, buf(eng, k + 1, "size_bytes"), 8, ("i", lin.addc(lin.scale(x, 4), 4)))
            nat.store(eng, st, p, buf(eng, k + 1, "capacity_bytes"), 8, MAXSIZE)
            a = eng.new_region("heap", size=lin.const(MAXSIZE), label="arena", name="offsets%d" % k)
            st.null[a.id] = False
            nat.store(eng, st, p, buf(eng, k + 1, "data"), 8, ("p", a.id, lin.ZERO))
        self.c = eng.fresh(st, "coords", 0, MAXN)
        nat.store(eng, st, p, COORDS, 8, ("i", self.c))
        self.z = eng.fresh(st, "nulls", 0, MAXN) if self.present else lin.ZERO
        nat.store(eng, st, p, (P, "null_count"), 8, ("i", self.z))
        self.len = self.n[0] if self.levels else self.c
        nat.store(eng, st, p, (P, "current_length"), 8, ("i", self.len if append else eng.fresh(st, "current_length", 0, MAXN)))
        for k in range(4):
            v = self.sub(k) if k < self.levels and append else eng.fresh(st, "last", 0, MAXN)
            nat.store(eng, st, p, (P, "last_offset", 4 * k), 4, ("i", v))
        b = (P, "validity", "ArrowBitmap", "buffer", "ArrowBuffer")
        if self.present:
            a = eng.new_region("opaque", label="bits", name="bits")
            st.null[a.id] = False
            nat.store(eng, st, p, b + ("data",), 8, ("p", a.id, lin.ZERO))
            nat.store(eng, st, p, (P, "validity", "ArrowBitmap", "size_bits"), 8, ("i", self.len))
            nat.store(eng, st, p, b + ("size_bytes",), 8, ("i", eng.fresh(st, "bytes", 0, MAXN)))
        # scratch of the previous feature
        for f, k in (("feat_is_null", 4), ("nesting_multipoint", 4), ("level", 4)):
            nat.store(eng, st, p, (P, f), k, ("i", eng.fresh(st, f, 0, 1000)))
        for k in range(32):
            nat.store(eng, st, p, (P, "size", 8 * k), 8, ("i", eng.fresh(st, "size", 0, MAXN)))
        st.ghost["bits"] = ()

    def sub(self, k):
        return self.n[k + 1] if k + 1 < self.levels else self.c

    def after(self, st, w):
        """[(what, message)] of broken invariants after one more element."""
        eng, out = self.eng, []
        p = nat.private(eng, st, w)
        now = []
        for k in range(self.levels):
            v = nat.field(eng, st, p, buf(eng, k + 1, "size_bytes"), 8, "i64")
            now.append(lin.sub(v[1], lin.addc(lin.scale(self.n[k], 4), 4)))
        c = nat.field(eng, st, p, COORDS, 8, "i64")
        added = [x[0] // 4 if not x[1] and x[0] % 4 == 0 else None for x in now]
        self.added = added
        ca = lin.sub(c[1], self.c)
        self.cadded = ca[0] if not ca[1] else None
        if None in added or self.cadded is None:
            return [("counts", "adds an unknown number of %s" % ("coordinates" if self.cadded is None else "offsets"))]
        grew = added[0] if self.levels else self.cadded
        if grew != 1:
            out.append(("elements", "adds %d elements" % grew))
        for k in range(self.levels):
            total = lin.addc(self.sub(k), added[k + 1] if k + 1 < self.levels else self.cadded)
            if added[k] == 0:
                if total != self.sub(k):
                    out.append(("leak%d" % k, "leaves %s that no list at level %d contains" % ("coordinates" if k + 1 == self.levels else "lists", k)))
                continue
            a = nat.field(eng, st, p, buf(eng, k + 1, "data"), 8, "ptr")
            v = eng.load_cell(st, eng.regions[a[1]], lin.addc(lin.scale(lin.addc(self.n[k], added[k]), 4), 0), 4, "i32")
            if not eq(st, v, total):
                out.append(("offset%d" % k, "ends the offsets of level %d at %s instead of the %s %s there are" % (
                    k, self.name(say(v)), self.name(lin.fmt(total)), "coordinates" if k + 1 == self.levels else "lists")))
        return out

    @staticmethod
    def name(s):
        import re
        return re.sub(r"#\d+|\$\d+", "", s)

    def offsets(self, st, w, k, want):
        """Whether the last feature stored exactly these values (relative to the previous total) at level k; else what it stored."""
        eng = self.eng
        p = nat.private(eng, st, w)
        a = nat.field(eng, st, p, buf(eng, k + 1, "data"), 8, "ptr")
        got = [eng.load_cell(st, eng.regions[a[1]], lin.scale(lin.addc(self.n[k], 1 + i), 4), 4, "i32") for i in range(self.added[k])]
        if len(got) == len(want) and all(eq(st, v, lin.addc(self.sub(k), x)) for v, x in zip(got, want)):
            return None
        return "[%s]" % ", ".join(self.name(say(v)) for v in got)


def validity(eng, st, p, priv, length, z, present, null, pre=None):
    """Broken validity invariants after one more element."""
    out = []
    v = nat.field(eng, st, p, (pre or (priv,)) + ("null_count",), 8, "i64")
    if not eq(st, v, lin.addc(z, 1 if null else 0)):
        out.append(("nulls", "changes the null count to %s" % say(v)))
    bits = merge(st, st.ghost.get("bits", ()))
    last = ("null" if null else "valid", lin.const(1))
    want = [merge(st, (last,))] if present else [merge(st, (("valid", length), last))] if null else [(), merge(st, (("valid", length), last))]
    if not any(same(st, bits, x) for x in want):
        out.append(("validity", "records the validity bits [%s] instead of [%s]" % (", ".join("%s x %s" % (lin.fmt(n), b) for b, n in bits),
                                                                                  ", ".join("%s x %s" % (lin.fmt(n), b) for b, n in want[0]))))
    return out


def merge(st, bits):
    out = []
    for b, n in bits:
        if st.num.prove_eq(n):
            continue
        if out and out[-1][0] == b:
            out[-1] = (b, lin.add(out[-1][1], n))
        else:
            out.append((b, n))
    return tuple(out)


def same(st, a, b):
    """Equal up to runs that may be empty."""
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x[0] == y[0] and st.num.prove_eq(lin.sub(x[1], y[1])) for x, y in zip(a, b))


SHAPES = [("null", None), ("nothing", None)] + [(g, k01.SAMPLE[g]) for g in GEOMS] + [(g, (0,) if g in ("POINT", "LINESTRING") else ()) for g in GEOMS] + [
    ("POINT", (2,)), ("MULTIPOINT", (1,)), ("MULTIPOINT", (1, 0)), ("POLYGON", (4,)), ("MULTILINESTRING", (2,)), ("MULTILINESTRING", (2, 0)),
    ("MULTILINESTRING", (0, 0)), ("MULTIPOLYGON", ((4,),)), ("MULTIPOLYGON", ((4,), ())), ("MULTIPOLYGON", ((), (4, 4))),
    ("MULTIPOLYGON", ((4, 5),)), ("MULTIPOLYGON", ((4, 4), (4, 5))), ("MULTIPOLYGON", ((4,), (4,), (4, 4))), ("MULTILINESTRING", (0, 2, 3)), ("MULTIPOINT", (1, 1, 1)),
    ("GEOMETRYCOLLECTION", (("MULTILINESTRING", 2, 3), ("POINT", 1), ("POINT", 1))), ("GEOMETRYCOLLECTION", (("MULTIPOLYGON", (4, 4), (4,)), ("POINT", 1))),
    ("GEOMETRYCOLLECTION", (("LINESTRING", 3),)), ("GEOMETRYCOLLECTION", (("LINESTRING", 3), ("POINT", 1))), ("GEOMETRYCOLLECTION", (("POINT", 1), ("LINESTRING", 3))),
    ("GEOMETRYCOLLECTION", (("POLYGON", 4, 4), ("POINT", 1))), ("GEOMETRYCOLLECTION", (("POINT", 1), ("POLYGON", 4))), ("GEOMETRYCOLLECTION", (("POINT", 1), ("POINT", 1))),
    ("GEOMETRYCOLLECTION", (("MULTIPOINT", 1, 1), ("POINT", 1))), ("GEOMETRYCOLLECTION", (("POLYGON", 4), ("POLYGON", 5, 4))),
    ("GEOMETRYCOLLECTION", (("MULTIPOLYGON", (4,)), ("POLYGON", 5))), ("GEOMETRYCOLLECTION", (("LINESTRING", 3), ("POLYGON", 4))),
    ("GEOMETRYCOLLECTION", (("LINESTRING", 3), ("LINESTRING", 2))), ("GEOMETRYCOLLECTION", (("MULTIPOINT", 1, 1), ("MULTIPOINT", 1))),
    ("GEOMETRYCOLLECTION", (("LINESTRING", 3), ("POINT", 1), ("LINESTRING", 3))),
    ("GEOMETRYCOLLECTION", (("GEOMETRYCOLLECTION", ("POINT", 1)),))]


def describe(g, parts):
    if g == "null":
        return "a null feature"
    if g == "nothing":
        return "a feature without geometry"

    def one(g, parts):
        if not [x for x in parts if x != 0]:
            return g + " EMPTY"
        return "%s(%s)" % (g, ", ".join(one(x[0], x[1:]) if isinstance(x, tuple) and x and isinstance(x[0], str) else "EMPTY" if x in (0, ()) else str(x).replace(",)", ")") for x in parts))
    return one(g, parts)


def events(g, parts):
    return ["feat_start"] + (["null_feat"] if g == "null" else [] if g == "nothing" else nat.feature(g, *parts)) + ["feat_end"]


def lists(g, parts):
    """Offsets a builder of type g stores for a geometry of its own type: one list per level."""
    def acc(xs):
        out, t = [], 0
        for x in xs:
            t += x
            out.append(t)
        return out
    if g == "POINT":
        return []
    if g == "LINESTRING":
        return [acc(parts)]
    if g == "MULTIPOINT":
        return [[sum(parts)]]
    if g in ("POLYGON", "MULTILINESTRING"):
        return [[len(parts)], acc(parts)]
    rings = [r for p in parts for r in p]
    return [[len(parts)], acc([len(p) for p in parts]), acc(rings)]


def start(mod, t, val):
    F = mod.functions
    eng = nat.engine(mod, BitMon())
    dr = drive.Drive(eng)
    w, v = dr.obj("GeoArrowNativeWriter", "writer"), dr.obj("GeoArrowVisitor", "visitor")
    dr.call(F["GeoArrowNativeWriterInit"], [w, ("i", lin.const(val[t]))])
    dr.call(F["GeoArrowNativeWriterInitVisitor"], [w, v])
    if not dr.states:
        raise AnalysisError("no native writer of %s" % t)
    return dr, w, v


def native(ctx, mod, types, val):
    F = mod.functions
    for t in types:
        g0, d, c, _ = t01.parts(t)
        levels = k01.LEVELS[g0]
        for present in (False, True):
            for g, parts in SHAPES:
                dr, w, v = start(mod, t, val)
                eng = dr.eng
                m = NativeModel(eng, levels, present)
                dr.states = dr.states[:1]
                m.assume(dr.states[0], w, False)
                ok = nat.visit(dr, v, events(g, parts), d, val)
                f = dr.slot(dr.states[0], v, "GeoArrowVisitor", "feat_end") if dr.states else F["GeoArrowNativeWriterInitVisitor"]
                ctx.count("features", 1)
                key = "visit/%s/%s" % (t, describe(g, parts))
                if not ok:
                    if g in ("null", "nothing", g0) and not (g == "POINT" and parts == (2,)):
                        ctx.violation(key + "/refused", loc(F["GeoArrowNativeWriterInitVisitor"]), "the %s writer cannot take %s" % (t, describe(g, parts)))
                    continue
                judge(ctx, dr, m, w, key, loc(f), "the %s writer given %s%s" % (t, describe(g, parts), " after a null" if present else ""), g, parts, g0, g == "null", present)


def judge(ctx, dr, m, w, key, where, who, g, parts, g0, null, present):
    eng = dr.eng
    for s in dr.states:
        ctx.count("obligations")
        bad = m.after(s, w)
        p = nat.private(eng, s, w)
        if not any(x[0] == "counts" for x in bad):
            bad += validity(eng, s, p, P, m.len, m.z, present, null)
            if g == g0 and not [b for b in bad if b[0].startswith("offset")] and not empties(parts):
                for k, want in enumerate(lists(g, parts)):
                    got = m.offsets(s, w, k, want)
                    if got:
                        bad.append(("lists%d" % k, "stores the level %d offsets %s instead of %s beyond the previous total" % (k, got, want)))
        for what, msg in bad:
            ctx.violation("%s/%s" % (key, what), where, "%s %s" % (who, m.name(msg)))


def empties(parts):
    return any(x in (0, ()) or (isinstance(x, tuple) and empties(x)) for x in parts)


def append(ctx, mod, types, val):
    F = mod.functions
    app, nul = F["GeoArrowNativeWriterAppend"], F["GeoArrowNativeWriterAppendNull"]
    for t in types:
        g0, d, c, _ = t01.parts(t)
        levels = k01.LEVELS[g0]
        for present in (False, True):
            for g, parts in SHAPES:
                if g == "nothing":
                    continue
                dr, w, v = start(mod, t, val)
                eng = dr.eng
                m = NativeModel(eng, levels, present)
                dr.states = dr.states[:1]
                m.assume(dr.states[0], w, True)
                rs = nat.calls(dr, nul, [w]) if g == "null" else nat.calls(dr, app, [w] + k01.view_args(dr, k01.tree(g, parts), d, val))
                dr.states = [s for s, r in rs if r != "error"]
                ctx.count("features", 1)
                fn = nul if g == "null" else app
                key = "append/%s/%s" % (t, describe(g, parts))
                who = "the %s writer appending %s%s" % (t, describe(g, parts), " after a null" if present else "")
                judge(ctx, dr, m, w, key, loc(fn), who, g, parts, g0, g == "null", present)
                for s in dr.states:
                    p = nat.private(eng, s, w)
                    x = nat.field(eng, s, p, (P, "current_length"), 8, "i64")
                    if not eq(s, x, lin.addc(m.len, 1)):
                        ctx.violation(key + "/length", loc(fn), "%s counts %s elements" % (who, m.name(say(x))))


def out_array(dr):
    return dr.obj("ArrowArray", "out")


def native_finish(ctx, mod, types, val):
    """Initialisation establishes the invariant with nothing written; finishing reports the totals and establishes it again."""
    F = mod.functions
    init, fin = F["GeoArrowNativeWriterInit"], F["GeoArrowNativeWriterFinish"]
    for t in types:
        levels = k01.LEVELS[t01.parts(t)[0]]
        for present in (None, False, True):
            dr, w, v = start(mod, t, val)
            eng = dr.eng
            fn, who = init, "a new %s writer" % t
            if present is not None:
                fn, who = fin, "finishing a %s writer%s" % (t, " that has seen nulls" if present else "")
                m = NativeModel(eng, levels, present)
                dr.states = dr.states[:1]
                m.assume(dr.states[0], w, True)
                o = out_array(dr)
                bb = (P, "validity", "ArrowBitmap", "buffer", "ArrowBuffer", "size_bytes")
                s = dr.states[0]
                nat.store(eng, s, nat.private(eng, s, w), COORDS[:-1] + ("capacity_coords",), 8, ("i", eng.fresh(s, "capacity", 0, MAXN)))
                bytes0 = nat.field(eng, s, nat.private(eng, s, w), bb, 8, "i64")[1] if present else lin.ZERO
                dr.call(fin, [w, o])
            ctx.count("obligations")
            if not dr.states:
                ctx.violation("finish/%s/fails" % t, loc(fn), "%s always fails" % who)
            for s in dr.states:
                p = nat.private(eng, s, w)
                bad = []
                for k in range(levels):
                    n = nat.field(eng, s, p, buf(eng, k + 1, "size_bytes"), 8, "i64")
                    a = nat.field(eng, s, p, buf(eng, k + 1, "data"), 8, "ptr")
                    z = eng.load_cell(s, eng.regions[a[1]], lin.ZERO, 4, "i32") if a[0] == "p" else None
                    if not (eq(s, n, lin.const(4)) and z is not None and eq(s, z, lin.ZERO)):
                        bad.append(("offsets%d" % k, "leaves the offsets of level %d without their leading zero" % k))
                for f, sz in (("null_count", 8), ("current_length", 8)) + tuple((("last_offset", 4 * k), 4) for k in range(levels)):
                    path = (P,) + (f if isinstance(f, tuple) else (f,))
                    x = nat.field(eng, s, p, path, sz, "i%d" % (8 * sz))
                    if not eq(s, x, lin.ZERO):
                        bad.append((f if isinstance(f, str) else f[0], "does not start %s at zero" % (f if isinstance(f, str) else f[0])))
                if not eq(s, nat.field(eng, s, p, COORDS, 8, "i64"), lin.ZERO):
                    bad.append(("coords", "does not start from zero coordinates"))
                cap = nat.field(eng, s, p, COORDS[:-1] + ("capacity_coords",), 8, "i64")
                if cap[0] != "i" or not s.num.prove(lin.scale(cap[1], -1)):
                    bad.append(("capacity", "keeps room for %s coordinates in buffers it no longer has" % NativeModel.name(say(cap))))
                if not eq(s, nat.field(eng, s, p, (P, "validity", "ArrowBitmap", "size_bits"), 8, "i64"), lin.ZERO):
                    bad.append(("bits", "does not start from an empty validity bitmap"))
                if present is not None:
                    r = nat.field(eng, s, o, ("ArrowArray", "null_count"), 8, "i64")
                    if not eq(s, r, m.z):
                        bad.append(("null_count", "reports %s nulls instead of the number counted" % NativeModel.name(say(r))))
                    g = s.ghost.get("given", ())
                    if not g or not s.num.prove_eq(lin.sub(g[0], bytes0)):
                        bad.append(("bitmap", "does not hand over the validity bitmap exactly"))
                    for k in range(levels):
                        if not g or not s.num.prove_eq(lin.sub(g[k + 1], lin.addc(lin.scale(m.n[k], 4), 4))):
                            bad.append(("buffer%d" % k, "does not hand over the offsets of level %d as they are" % k))
                for what, msg in bad:
                    ctx.violation("%s/%s/%s" % ("finish" if present is not None else "init", t, what), loc(fn), "%s %s" % (who, msg))


class SerialModel:
    """Invariant of the WKT and WKB writers: n elements with n offsets, s bytes of values, z nulls, validity absent or complete."""

    def __init__(self, eng, priv, present):
        self.eng, self.priv, self.present = eng, priv, present

    def p(self, st, w):
        off = self.eng.types.member(self.eng.regions[w[1]].label, "private_data")["off"]
        return self.eng.load_cell(st, self.eng.regions[w[1]], lin.addc(w[2], off), 8, "ptr")

    def assume(self, st, w):
        eng, P = self.eng, self.priv
        p = self.p(st, w)
        self.n, self.s = eng.fresh(st, "length", 0, MAXN), eng.fresh(st, "bytes", 0, MAXBYTES)
        self.z = eng.fresh(st, "nulls", 0, MAXN) if self.present else lin.ZERO
        for f, n in (("offsets", lin.scale(self.n, 4)), ("values", self.s)):
            a = eng.new_region("heap", size=lin.const(MAXSIZE), label="arena", name=f)
            st.null[a.id] = False
            nat.store(eng, st, p, (P, f, "ArrowBuffer", "data"), 8, ("p", a.id, lin.ZERO))
            nat.store(eng, st, p, (P, f, "ArrowBuffer", "size_bytes"), 8, ("i", n))
            nat.store(eng, st, p, (P, f, "ArrowBuffer", "capacity_bytes"), 8, MAXSIZE)
        nat.store(eng, st, p, (P, "length"), 8, ("i", self.n))
        nat.store(eng, st, p, (P, "null_count"), 8, ("i", self.z))
        if self.present:
            a = eng.new_region("opaque", label="bits", name="bits")
            st.null[a.id] = False
            nat.store(eng, st, p, (P, "validity", "ArrowBitmap", "buffer", "ArrowBuffer", "data"), 8, ("p", a.id, lin.ZERO))
            nat.store(eng, st, p, (P, "validity", "ArrowBitmap", "size_bits"), 8, ("i", self.n))
        nat.store(eng, st, p, (P, "feat_is_null"), 4, ("i", eng.fresh(st, "feat_is_null", 0, 1)))
        # an earlier feature may have been abandoned at any depth
        nat.store(eng, st, p, (P, "level"), 4, ("i", lin.const(31) if self.present else eng.fresh(st, "level", 0, 30)))
        st.ghost["bits"] = ()

    def get(self, st, w, *f, size=8):
        return nat.field(self.eng, st, self.p(st, w), (self.priv,) + f, size, "i%d" % (8 * size))

    def last_offset(self, st, w, rid=None):
        a = nat.field(self.eng, st, self.p(st, w), (self.priv, "offsets", "ArrowBuffer", "data"), 8, "ptr") if rid is None else ("p", rid)
        return self.eng.load_cell(st, self.eng.regions[a[1]], lin.scale(self.n, 4), 4, "i32") if a[0] == "p" else None

    def after(self, st, w, null):
        out = []
        if not eq(st, self.get(st, w, "length"), lin.addc(self.n, 1)):
            out.append(("length", "counts %s elements" % say(self.get(st, w, "length"))))
        if not eq(st, self.get(st, w, "offsets", "ArrowBuffer", "size_bytes"), lin.addc(lin.scale(self.n, 4), 4)):
            out.append(("offsets", "makes the offsets %s bytes" % say(self.get(st, w, "offsets", "ArrowBuffer", "size_bytes"))))
        if not eq(st, self.last_offset(st, w), self.s):
            out.append(("offset", "starts the element at %s" % say(self.last_offset(st, w))))
        v = self.get(st, w, "values", "ArrowBuffer", "size_bytes")
        if null and not eq(st, v, self.s):
            out.append(("values", "writes bytes for a null"))
        if not st.num.prove(lin.sub(v[1], self.s)):
            out.append(("values", "takes bytes of earlier elements away"))
        return out + validity(self.eng, st, self.p(st, w), self.priv, self.n, self.z, self.present, null)


SERIAL = {"WKB": ("GeoArrowWKBWriter", "WKBWriterPrivate"), "WKT": ("GeoArrowWKTWriter", "WKTWriterPrivate")}


def open_serial(mod, fmt):
    F = mod.functions
    eng = nat.engine(mod, BitMon())
    dr = drive.Drive(eng)
    w, v = dr.obj(SERIAL[fmt][0], "writer"), dr.obj("GeoArrowVisitor", "visitor")
    dr.call(F[SERIAL[fmt][0] + "Init"], [w])
    if not dr.states:
        raise AnalysisError("no %s writer" % fmt)
    return dr, w, v


def serial(ctx, mod, fmt, val):
    F = mod.functions
    name, priv = SERIAL[fmt]
    for present in (False, True):
        for g, parts in SHAPES:
            dr, w, v = open_serial(mod, fmt)
            eng = dr.eng
            dr.call(F[name + "InitVisitor"], [w, v], ok=False)
            m = SerialModel(eng, priv, present)
            dr.states = dr.states[:1]
            m.assume(dr.states[0], w)
            ok = nat.visit(dr, v, events(g, parts), "XY", val)
            ctx.count("features")
            f = dr.slot(dr.states[0], v, "GeoArrowVisitor", "feat_end") if ok else F[name + "InitVisitor"]
            key = "visit/%s/%s" % (fmt, describe(g, parts))
            if not ok:
                ctx.violation(key + "/refused", loc(f), "the %s writer cannot take %s" % (fmt, describe(g, parts)))
            for s in dr.states:
                ctx.count("obligations")
                for what, msg in m.after(s, w, g == "null"):
                    ctx.violation("%s/%s" % (key, what), loc(f), "the %s writer given %s%s %s" % (fmt, describe(g, parts), " after a null" if present else "", NativeModel.name(msg)))


def serial_append(ctx, mod, val):
    F = mod.functions
    app, nul = F["GeoArrowWKBWriterAppend"], F["GeoArrowWKBWriterAppendNull"]
    name, priv = SERIAL["WKB"]
    for present in (False, True):
        for g, parts in SHAPES:
            if g == "nothing":
                continue
            dr, w, v = open_serial(mod, "WKB")
            m = SerialModel(dr.eng, priv, present)
            dr.states = dr.states[:1]
            m.assume(dr.states[0], w)
            rs = nat.calls(dr, nul, [w]) if g == "null" else nat.calls(dr, app, [w] + k01.view_args(dr, k01.tree(g, parts), "XY", val))
            ctx.count("features")
            fn = nul if g == "null" else app
            key = "append/WKB/%s" % describe(g, parts)
            if not [1 for s, r in rs if r != "error"]:
                ctx.violation(key + "/refused", loc(fn), "the WKB writer cannot append %s" % describe(g, parts))
            for s, r in rs:
                if r == "error":
                    continue
                ctx.count("obligations")
                for what, msg in m.after(s, w, g == "null"):
                    ctx.violation("%s/%s" % (key, what), loc(fn), "the WKB writer appending %s%s %s" % (describe(g, parts), " after a null" if present else "", NativeModel.name(msg)))


def serial_finish(ctx, mod, fmt):
    F = mod.functions
    name, priv = SERIAL[fmt]
    fin = F[name + "Finish"]
    for present in (None, False, True):
        dr, w, v = open_serial(mod, fmt)
        eng = dr.eng
        m = SerialModel(eng, priv, bool(present))
        fn, who = F[name + "Init"], "a new %s writer" % fmt
        if present is not None:
            fn, who = fin, "finishing a %s writer%s" % (fmt, " that has seen nulls" if present else "")
            dr.states = dr.states[:1]
            m.assume(dr.states[0], w)
            o = out_array(dr)
            dr.call(fin, [w, o])
        ctx.count("obligations")
        if not dr.states:
            ctx.violation("finish/%s/fails" % fmt, loc(fn), "%s always fails" % who)
        for s in dr.states:
            bad = []
            for f in (("length",), ("null_count",), ("offsets", "ArrowBuffer", "size_bytes"), ("values", "ArrowBuffer", "size_bytes"), ("validity", "ArrowBitmap", "size_bits")):
                if not eq(s, m.get(s, w, *f), lin.ZERO):
                    bad.append((f[0], "does not start the next array's %s from nothing" % f[0]))
            d = nat.field(eng, s, m.p(s, w), (priv, "validity", "ArrowBitmap", "buffer", "ArrowBuffer", "data"), 8, "ptr")
            if d != slai.NULL:
                bad.append(("validity", "keeps the validity bitmap for the next array"))
            if present is not None:
                for f, want in (("length", m.n), ("null_count", m.z)):
                    x = nat.field(eng, s, o, ("ArrowArray", f), 8, "i64")
                    if not eq(s, x, want):
                        bad.append(("out-" + f, "reports a %s of %s" % (f, NativeModel.name(say(x)))))
                h = {}
                for i, n, d in s.ghost.get("hand", ()):
                    h[i] = (n, d)
                want = {0: m.n if present else lin.ZERO, 1: lin.addc(lin.scale(m.n, 4), 4), 2: m.s}
                for i, n in want.items():
                    if i not in h or not s.num.prove_eq(lin.sub(h[i][0], n)):
                        if not (i == 0 and not present and i not in h):
                            bad.append(("buffer%d" % i, "hands over buffer %d with %s %s" % (i, NativeModel.name(lin.fmt(h[i][0])) if i in h else "no", "bits" if i == 0 else "bytes")))
                if 1 in h and h[1][1] is not None and not eq(s, m.last_offset(s, w, h[1][1]), m.s):
                    bad.append(("end", "ends the offsets at %s instead of the size of the values" % NativeModel.name(say(m.last_offset(s, w, h[1][1])))))
            for what, msg in bad:
                ctx.violation("%s/%s/%s" % ("finish" if present is not None else "init", fmt, what), loc(fn), "%s %s" % (who, msg))


class BoxModel:
    """Invariant of the box kernel: n boxes in four buffers, z nulls, validity absent or complete."""
    K, B = "GeoArrowVisitorKernelPrivate", "GeoArrowBox2DPrivate"

    def __init__(self, eng, present):
        self.eng, self.present = eng, present
        self.pre = (self.K, "box2d_private", self.B)

    def buffer(self, k, what):
        return self.pre + ("values", k * self.eng.types.structs["ArrowBuffer"]["size"], "ArrowBuffer", what)

    def assume(self, st, p):
        eng = self.eng
        self.n = eng.fresh(st, "length", 0, MAXN)
        self.z = eng.fresh(st, "nulls", 1, MAXN) if self.present else lin.ZERO
        for k in range(4):
            a = eng.new_region("heap", size=lin.const(MAXSIZE), label="arena", name="values%d" % k)
            st.null[a.id] = False
            nat.store(eng, st, p, self.buffer(k, "data"), 8, ("p", a.id, lin.ZERO))
            nat.store(eng, st, p, self.buffer(k, "size_bytes"), 8, ("i", lin.scale(self.n, 8)))
            nat.store(eng, st, p, self.buffer(k, "capacity_bytes"), 8, MAXSIZE)
        nat.store(eng, st, p, self.pre + ("null_count",), 8, ("i", self.z))
        if self.present:
            a = eng.new_region("opaque", label="bits", name="bits")
            st.null[a.id] = False
            nat.store(eng, st, p, self.pre + ("validity", "ArrowBitmap", "buffer", "ArrowBuffer", "data"), 8, ("p", a.id, lin.ZERO))
            nat.store(eng, st, p, self.pre + ("validity", "ArrowBitmap", "size_bits"), 8, ("i", self.n))
        st.ghost["bits"] = ()


def boxes(ctx, mod, val):
    F = mod.functions
    K = BoxModel.K

    def fresh(present):
        eng = nat.engine(mod, BitMon())
        dr = drive.Drive(eng)
        k = dr.obj("GeoArrowKernel", "kernel")
        nm = strs.new_text(eng, dr.states[0], "box")
        dr.states = [s for s, r in nat.calls(dr, F["GeoArrowKernelInit"], [k, nm]) if r != "error"]
        if not dr.states:
            raise AnalysisError("no box kernel")
        p = nat.field(eng, dr.states[0], k, ("GeoArrowKernel", "private_data"), 8, "ptr")
        start = dr.slot(dr.states[0], p, K, "finish_start")
        if start is None:
            raise AnalysisError("box kernel without finish_start")
        dr.call(start, [p])
        if not dr.states:
            raise AnalysisError("box kernel cannot start")
        dr.states = dr.states[:1]
        m = BoxModel(eng, present)
        m.assume(dr.states[0], p)
        return dr, eng, p, m

    for present in (False, True):
        for g, parts in [x for x in SHAPES if x[0] in ("null", "nothing") or sum(y[1] for y in k01.tree(*x) if y[0] in ("POINT", "LINESTRING")) < 4]:
            dr, eng, p, m = fresh(present)
            v = ("p", p[1], lin.addc(p[2], eng.types.member(K, "v")["off"]))
            ok = nat.visit(dr, v, events(g, parts), "XY", val)
            f = dr.slot(dr.states[0], v, "GeoArrowVisitor", "feat_end") if ok else F["GeoArrowKernelInit"]
            ctx.count("features")
            key = "visit/box/%s" % describe(g, parts)
            if not ok:
                ctx.violation(key + "/refused", loc(f), "the box kernel cannot take %s" % describe(g, parts))
            for s in dr.states:
                ctx.count("obligations")
                bad = []
                for k in range(4):
                    if not eq(s, nat.field(eng, s, p, m.buffer(k, "size_bytes"), 8, "i64"), lin.addc(lin.scale(m.n, 8), 8)):
                        bad.append(("values%d" % k, "does not add exactly one value to ordinate %d" % k))
                bad += validity(eng, s, p, K, m.n, m.z, present, g == "null", pre=m.pre)
                for what, msg in bad:
                    ctx.violation("%s/%s" % (key, what), loc(f), "the box kernel given %s%s %s" % (describe(g, parts), " after a null" if present else "", NativeModel.name(msg)))
        dr, eng, p, m = fresh(present)
        o = out_array(dr)
        fin = dr.slot(dr.states[0], p, K, "finish_push_batch")
        who = "finishing a batch of boxes%s" % (" with nulls" if present else "")
        dr.call(fin, [p, o])
        ctx.count("obligations")
        if not dr.states:
            ctx.violation("finish/box/fails", loc(fin), "%s always fails" % who)
        for s in dr.states:
            bad = []
            for f, want in (("length", m.n), ("null_count", m.z)):
                x = nat.field(eng, s, o, ("ArrowArray", f), 8, "i64")
                if not eq(s, x, want):
                    bad.append(("out-" + f, "reports a %s of %s" % (f, NativeModel.name(say(x)))))
            tab = s.ghost.get("child")
            hs = [(i, n) for i, n, _ in s.ghost.get("hand", ())]
            if [1 for i, n in hs if i == 1 and s.num.prove_eq(lin.sub(n, lin.scale(m.n, 8)))] != [1] * 4:
                bad.append(("values", "does not hand over the four ordinates"))
            if present and not any(i == 0 and s.num.prove_eq(lin.sub(n, m.n)) for i, n in hs):
                bad.append(("validity", "does not hand over the validity bitmap"))
            for k in range(4):
                c = eng.load_cell(s, eng.regions[tab], lin.const(8 * k), 8, "ptr") if tab is not None else ("n",)
                x = nat.field(eng, s, c, ("ArrowArray", "length"), 8, "i64") if c[0] == "p" else None
                if not eq(s, x, m.n):
                    bad.append(("child%d" % k, "gives ordinate %d another length" % k))
                if not eq(s, nat.field(eng, s, p, m.buffer(k, "size_bytes"), 8, "i64"), lin.ZERO):
                    bad.append(("keep%d" % k, "keeps the values of ordinate %d for the next batch" % k))
            if not eq(s, nat.field(eng, s, p, m.pre + ("null_count",), 8, "i64"), lin.ZERO) or \
                    not eq(s, nat.field(eng, s, p, m.pre + ("validity", "ArrowBitmap", "size_bits"), 8, "i64"), lin.ZERO):
                bad.append(("keep", "keeps nulls or validity bits for the next batch"))
            for what, msg in bad:
                ctx.violation("finish/box/%s" % what, loc(fin), "%s %s" % (who, msg))


def truncation(ctx, mod, val):
    """The limit on the size of one WKT element."""
    F = mod.functions
    name, priv = SERIAL["WKT"]
    for present in (False, True):
        for g, parts in [x for x in SHAPES if x[0] in GEOMS and not empties(x[1])]:
            dr, w, v = open_serial(mod, "WKT")
            eng = dr.eng
            m = SerialModel(eng, priv, present)
            lim = eng.fresh(dr.states[0], "limit", 0, 1000)
            nat.store(eng, dr.states[0], w, (name, "max_element_size_bytes"), 8, ("i", lim))
            dr.call(F[name + "InitVisitor"], [w, v], ok=False)
            dr.states = dr.states[:1]
            m.assume(dr.states[0], w)
            ok = nat.visit(dr, v, events(g, parts), "XY", val)
            f = dr.slot(dr.states[0], v, "GeoArrowVisitor", "feat_end") if ok else F[name + "InitVisitor"]
            for s in dr.states:
                ctx.count("obligations")
                n = lin.sub(m.get(s, w, "values", "ArrowBuffer", "size_bytes")[1], m.s)
                if not s.num.prove(lin.sub(lim, n)):
                    ctx.violation("limit/%s" % describe(g, parts), loc(f), "the WKT writer with an element size limit keeps more than the limit of %s%s" % (describe(g, parts), " after a null" if present else ""))


class PushMon(BitMon):
    """Stands in for the reader of a kernel: records the rows asked for, and lets each visit succeed, stop early or fail."""
    reader = end = skip = None

    def ghost_key(self, st):
        return (super().ghost_key(st), st.ghost.get("push", ()))

    def before_call(self, eng, st, ins, name, fn, args):
        if name in ("GeoArrowSchemaViewInit", "GeoArrowArrayReaderInitFromSchema") or (fn is not None and fn.dname == self.skip):
            return [(st, ("i", lin.ZERO))]
        if name == "GeoArrowArrayReaderSetArray":
            st.ghost["push"] = st.ghost.get("push", ()) + (("array", args[1]),)
            return [(st, ("i", lin.ZERO))]
        if name == "GeoArrowArrayReaderVisit":
            a, b, c = st, st.copy(), st.copy()
            ev = ("rows", eng.as_int(st, args[1], 64), eng.as_int(st, args[2], 64), args[3])
            for s, what in ((a, "done"), (b, "stopped"), (c, "failed")):
                s.ghost["push"] = s.ghost.get("push", ()) + (ev + (what,),)
            return [(a, ("i", lin.ZERO)), (b, ("i", lin.const(EAGAIN))), (c, ("i", lin.const(EIO)))]
        if fn is not None and fn.dname == self.end and args:
            st.ghost["push"] = st.ghost.get("push", ()) + (("end", args[0]),)
            return [(st, ("i", lin.ZERO))]
        return super().before_call(eng, st, ins, name, fn, args)


EAGAIN, EIO = 11, 5


def pushes(ctx, mod):
    """Every kernel that visits its input sees each row of a batch exactly once and in order."""
    F = mod.functions
    K = BoxModel.K
    for name in k01.KERNELS:
        for length in (0, 1, 2, 3):
            mon = PushMon()
            eng = nat.engine(mod, mon)
            dr = drive.Drive(eng)
            k, schema, array, out = dr.obj("GeoArrowKernel", "kernel"), dr.obj("ArrowSchema", "schema"), dr.obj("ArrowArray", "array"), out_array(dr)
            nm = strs.new_text(eng, dr.states[0], name)
            dr.states = [s for s, r in nat.calls(dr, F["GeoArrowKernelInit"], [k, nm]) if r != "error"]
            if not dr.states:
                raise AnalysisError("no kernel " + name)
            s = dr.states[0]
            p = nat.field(eng, s, k, ("GeoArrowKernel", "private_data"), 8, "ptr")
            if p[0] != "p":
                continue        # looks at no rows
            sch = eng.new_region("opaque", label="schema out", name="schema")
            s.null[sch.id] = False
            mon.skip = dr.slot(s, p, K, "finish_start").dname
            dr.call(dr.slot(s, k, "GeoArrowKernel", "start"), [k, schema, slai.NULL, ("p", sch.id, lin.ZERO)])
            if not dr.states:
                raise AnalysisError("kernel %s cannot start" % name)
            s = dr.states[0]
            dr.states = [s]
            push, fin = dr.slot(s, k, "GeoArrowKernel", "push_batch"), dr.slot(s, p, K, "finish_push_batch")
            v = ("p", p[1], lin.addc(p[2], eng.types.member(K, "v")["off"]))
            mon.skip, mon.end = fin.dname, dr.slot(s, v, "GeoArrowVisitor", "feat_end").dname
            if push is None:
                ctx.violation("push/%s" % name, loc(F["GeoArrowKernelInit"]), "the kernel %s takes no batches once started" % name)
                continue
            nat.store(eng, s, array, ("ArrowArray", "length"), 8, length)
            good = 0
            for s, r in nat.calls(dr, push, [k, array, out]):
                ctx.count("obligations")
                ev = s.ghost.get("push", ())
                rows = [e for e in ev if e[0] == "rows"]
                at, bad = lin.ZERO, None
                for i, e in enumerate(rows):
                    if not s.num.prove_eq(lin.sub(e[1], at)):
                        bad = "visits the row at %s when the row at %s is next" % (lin.fmt(e[1]), lin.fmt(at))
                    at = lin.add(e[1], e[2])
                    if e[3] != v:
                        bad = "visits rows with a visitor that is not its own"
                    if e[4] == "stopped" and r != "error":
                        j = [x for x in range(len(ev)) if ev[x] is e][0]
                        if not (s.num.prove_eq(lin.addc(e[2], -1)) and j + 1 < len(ev) and ev[j + 1] == ("end", v)):
                            bad = "does not end the feature of a row whose visit stopped early"
                    if e[4] == "failed" and r != "error":
                        bad = "succeeds although the visit of a row failed"
                if [e for i, e in enumerate(ev) if e[0] == "end" and not (i and ev[i - 1][0] == "rows" and ev[i - 1][4] == "stopped")]:
                    bad = "ends a feature that the reader has ended"
                if [e[1] for e in ev if e[0] == "array"] != [array]:
                    bad = "does not read the batch it was given"
                if r != "error":
                    good += 1
                    if not s.num.prove_eq(lin.addc(at, -length)):
                        bad = "visits %s rows of a batch of %d" % (lin.fmt(at), length)
                if bad:
                    ctx.violation("push/%s/%d/%s" % (name, length, bad.split(" ")[0]), loc(push), "the kernel %s %s" % (name, NativeModel.name(bad)))
            if not good:
                ctx.violation("push/%s/%d/never" % (name, length), loc(push), "the kernel %s never accepts a batch of %d" % (name, length))


def run(ctx):
    mod = cmod.c_module()
    types = wit.enumerators("GeoArrowType")
    val = t02.enum_values(types + wit.enumerators("GeoArrowGeometryType") + wit.enumerators("GeoArrowDimensions"))
    nats = [t for t in types if t != "GEOARROW_TYPE_UNINITIALIZED" and not k01.serialized(t) and t01.parts(t)[0] != "BOX" and t01.parts(t)[1] == "XY"]
    todo = [("native writers, part %d" % i, native, mod, c, val) for i, c in enumerate(k01.chunks(nats, 6))]
    todo += [("native append, part %d" % i, append, mod, c, val) for i, c in enumerate(k01.chunks(nats, 6))]
    todo += [("native totals", native_finish, mod, nats, val)]
    todo += [("%s features" % f, serial, mod, f, val) for f in SERIAL]
    todo += [("WKB append", serial_append, mod, val)]
    todo += [("%s totals" % f, serial_finish, mod, f) for f in SERIAL]
    todo += [("box kernel", boxes, mod, val)]
    todo += [("kernel batches", pushes, mod)]
    todo += [("WKT size limit", truncation, mod, val)]
    ctx.parts(todo)
