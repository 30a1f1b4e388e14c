"""T02: names and codes are the same in both directions.

Emitters are interpreted with the identifier as a constant and the texts and
codes they hand to the schema builders or output buffers are read off; the
recognisers are interpreted with the text unknown, every comparison splitting
the paths, and the identifier assigned at the end of each path is compared with
the texts the path has matched.  Both sides are held against the published
names (GeoArrow extension types, WKT, ISO and extended WKB)."""
import json

from vlib import cmod, drive, lin, slai, strs, wit
from vlib.build import AnalysisError
from vlib.cmod import short
from checks import t01, v01

TECHNIQUE = ("abstract interpretation with string-comparison path facts (recognisers) and per-identifier constant propagation (emitters), "
             "compared with the published name tables")
LEVEL = "other"
EXPLANATION = (
    "For every identifier the emitters (extension names, schema storage trees, WKT keywords and dimension suffixes, WKB type codes, "
    "metadata members) are analysed with the identifier constant and their output compared with the published name. The recognisers "
    "are analysed with unknown input: at each point where one assigns an identifier the set of texts compared equal on that path, and "
    "whether the length was compared as well, must be the published one for that identifier; every published text must reach such a point.")

GEOMS = t01.GEOMS
DIMS = {"XY": "xy", "XYZ": "xyz", "XYM": "xym", "XYZM": "xyzm"}
LISTS = {"POINT": [], "LINESTRING": ["vertices"], "POLYGON": ["rings", "vertices"], "MULTIPOINT": ["points"],
         "MULTILINESTRING": ["linestrings", "vertices"], "MULTIPOLYGON": ["polygons", "rings", "vertices"]}
FORMATS = {"BINARY": "z", "LARGE_BINARY": "Z", "BINARY_VIEW": "vz", "STRING": "u", "LARGE_STRING": "U", "STRING_VIEW": "vu",
           "STRUCT": "+s", "LIST": "+l", "LARGE_LIST": "+L", "DOUBLE": "g", "FLOAT": "f", "INT32": "i", "INT64": "l", "UINT32": "I",
           "BOOL": "b", "FIXED_SIZE_LIST": "+w", "FIXED_SIZE_BINARY": "w", "INT8": "c", "UINT8": "C", "INT16": "s", "UINT16": "S",
           "UINT64": "L", "MAP": "+m", "HALF_FLOAT": "e", "NA": "n"}
SERIAL = {"WKB": "z", "LARGE_WKB": "Z", "WKB_VIEW": "vz", "WKT": "u", "LARGE_WKT": "U", "WKT_VIEW": "vu"}
WKBCODE = {"POINT": 1, "LINESTRING": 2, "POLYGON": 3, "MULTIPOINT": 4, "MULTILINESTRING": 5, "MULTIPOLYGON": 6, "GEOMETRYCOLLECTION": 7}
ISO = {"XY": 0, "XYZ": 1000, "XYM": 2000, "XYZM": 3000}
EWKB = {"XY": 0, "XYZ": 0x80000000, "XYM": 0x40000000, "XYZM": 0xC0000000}
EDGES = ["PLANAR", "SPHERICAL", "VINCENTY", "THOMAS", "ANDOYER", "KARNEY"]
CRS = {"PROJJSON": "projjson", "WKT2_2019": "wkt2:2019", "AUTHORITY_CODE": "authority_code", "SRID": "srid"}
SUFFIX = {"XY": "", "XYZ": " Z", "XYM": " M", "XYZM": " ZM"}


def storage(t):
    """The storage tree (format, [(child name, tree)]) the GeoArrow specification gives a type."""
    s = t[len("GEOARROW_TYPE_"):]
    if s in SERIAL:
        return (SERIAL[s], ())
    g, d, c, _ = t01.parts(t)
    dims = DIMS[d]
    if g == "BOX":
        return ("+s", tuple((x + "min", ("g", ())) for x in dims) + tuple((x + "max", ("g", ())) for x in dims))
    if c == "INTERLEAVED":
        tree = ("+w:%d" % len(dims), ((dims, ("g", ())),))
    else:
        tree = ("+s", tuple((x, ("g", ())) for x in dims))
    for nm in reversed(LISTS[g]):
        tree = ("+l", ((nm, tree),))
    return tree


def show(t):
    return str(t[0]) + ("<%s>" % ", ".join("%s: %s" % (n, show(c)) for n, c in t[1]) if t[1] else "")


# ------------------------------------------------------------------ emission of schemas

class SchemaMon(strs.StrFacts):
    """Models the schema-building calls and records the tree they make."""

    def __init__(self, ntypes):
        super().__init__()
        self.ntypes = ntypes      # NANOARROW_TYPE value -> format
        self.exits = []

    def key(self, v):
        return (v[1], v[2]) if v[0] == "p" else None

    def node(self, st, k, **kw):
        d = dict(st.ghost.get("tree", ()))
        n = dict(d.get(k, ()))
        n.update(kw)
        d[k] = tuple(sorted(n.items()))
        st.ghost["tree"] = tuple(sorted(d.items(), key=repr))

    def children(self, eng, st, k, n):
        off = eng.types.member("ArrowSchema", "children")["off"]
        offn = eng.types.member("ArrowSchema", "n_children")["off"]
        r = eng.regions[k[0]]
        ar = eng.new_region("heap", label="children", name="children")
        kids = []
        for i in range(n):
            c = eng.new_region("obj", ty="struct ArrowSchema", label="child", name="child%d" % i)
            st.null[c.id] = False
            eng.put(st, ar, lin.const(8 * i), 8, ("p", c.id, lin.ZERO))
            kids.append((c.id, lin.ZERO))
        eng.store_cell(st, r, lin.addc(k[1], off), 8, ("p", ar.id, lin.ZERO))
        eng.store_cell(st, r, lin.addc(k[1], offn), 8, ("i", lin.const(n)))
        self.node(st, k, children=tuple(kids))
        return kids

    def nullable(self, eng, st, k):
        eng.set_type(eng.regions[k[0]], "struct ArrowSchema")
        eng.store_cell(st, eng.regions[k[0]], lin.addc(k[1], eng.types.member("ArrowSchema", "flags")["off"]), 8, ("i", lin.const(2)))

    def const(self, v):
        return v[1][0] if v[0] == "i" and not v[1][1] else None

    def before_call(self, eng, st, ins, name, fn, args):
        r = super().before_call(eng, st, ins, name, fn, args)
        if r is not None:
            return r
        if not (name or "").startswith("ArrowSchema") or not args or args[0][0] != "p":
            return None
        k = self.key(args[0])
        ok = [(st, ("i", lin.ZERO))] if ins.type != "void" else [(st, None)]
        eng.set_type(eng.regions[k[0]], "struct ArrowSchema")
        if name == "ArrowSchemaInit":
            self.node(st, k, format=None, name=None, children=())
            self.nullable(eng, st, k)
            return ok
        if name in ("ArrowSchemaInitFromType", "ArrowSchemaSetType"):
            f = self.ntypes.get(self.const(args[1]))
            self.node(st, k, format=f, **({"name": None, "children": ()} if name.endswith("FromType") else {}))
            if name.endswith("FromType"):
                self.nullable(eng, st, k)
            if f in ("+l", "+L"):
                c = self.children(eng, st, k, 1)
                self.nullable(eng, st, c[0])
                self.node(st, c[0], name="item", format=None, children=())
            return ok
        if name == "ArrowSchemaSetTypeStruct":
            self.node(st, k, format="+s")
            n = self.const(args[1])
            if n is None:
                return None
            for c in self.children(eng, st, k, n):
                self.node(st, c, format=None, name=None, children=())
                self.nullable(eng, st, c)
            return ok
        if name == "ArrowSchemaSetTypeFixedSize":
            f = self.ntypes.get(self.const(args[1]))
            n = self.const(args[2])
            self.node(st, k, format="%s:%s" % (f, n))
            if f == "+w":
                c = self.children(eng, st, k, 1)
                self.nullable(eng, st, c[0])
                self.node(st, c[0], name="item", format=None, children=())
            return ok
        if name in ("ArrowSchemaSetFormat", "ArrowSchemaSetName"):
            t = strs.text(eng, st, args[1])
            self.node(st, k, **{"format" if name.endswith("Format") else "name": t.decode() if t is not None else "?"})
            return ok
        if name == "ArrowSchemaAllocateChildren":
            n = self.const(args[1])
            if n is None:
                return None
            self.children(eng, st, k, n)
            return ok
        return None

    def flagged(self, eng, st, k, depth=0):
        """Nullability bit of every node, root first; None where it is not known."""
        d = dict(dict(st.ghost.get("tree", ())).get(k, ()))
        v = eng.load_cell(st, eng.regions[k[0]], lin.addc(k[1], eng.types.member("ArrowSchema", "flags")["off"]), 8, "i64")
        out = [v[1][0] & 2 if v[0] == "i" and not v[1][1] else None]
        for c in d.get("children") or () if depth < 8 else ():
            out += self.flagged(eng, st, c, depth + 1)
        return out

    def tree(self, st, k, depth=0):
        d = dict(dict(st.ghost.get("tree", ())).get(k, ()))
        if depth > 8:
            return ("...", ())
        return (d.get("format"), tuple((dict(dict(st.ghost["tree"]).get(c, ())).get("name"), self.tree(st, c, depth + 1))
                                       for c in d.get("children") or ()))


def engine(mod, mon, **kw):
    eng = slai.Engine(mod, monitors=[mon], inline=True, mem_checks=False, inline_limit=20000, max_depth=30, **kw)
    eng.peel, eng.rec_depth = 128, 6
    eng.force_inline = {mod.functions[n].dname for n in slai.recursive_functions(mod)
                        if n in mod.functions and cmod.is_geoarrow(mod.functions[n])}
    return eng


def nano_types():
    u = wit.Unit('#include "nanoarrow/nanoarrow.h"\n')
    for t in FORMATS:
        u.add(t, "int", "return NANOARROW_TYPE_%s;" % t)
    return {v[1]: FORMATS[t] for t, v in u.solve().items()}


def enum_values(names):
    u = wit.Unit('#include "nanoarrow/nanoarrow.h"\n#include "geoarrow/geoarrow.h"\n')
    for n in names:
        u.add(n, "int", "return (int)%s;" % n)
    return {k: v[1] for k, v in u.solve().items()}


def emission(ctx, mod, types, val):
    nt = nano_types()
    f = mod.functions["GeoArrowSchemaInit"]
    where = "%s:%d" % (short(f.file), f.line)
    for t in types:
        if t == "GEOARROW_TYPE_UNINITIALIZED":
            continue
        mon = SchemaMon(nt)
        eng = engine(mod, mon)

        def setup(e, st, fn, args):
            mon.root = (args[0][1], args[0][2])
            return [args[0], ("i", lin.const(val[t]))]
        trees = set()
        for st, v, _ in eng.run_entry(f, setup):
            if v is not None and v[0] == "i" and st.num.prove_eq(v[1]):
                trees.add(mon.tree(st, mon.root))
                fl = mon.flagged(eng, st, mon.root)
                if fl[0] != 2 or any(x != 0 for x in fl[1:]):
                    ctx.violation("nullable/%s" % t, where, "%s leaves %s" % (f.dname, "the %s storage field itself not nullable" % t if fl[0] != 2 else
                                  "child field %d (in preorder) of the storage of %s nullable" % (1 + [x != 0 for x in fl[1:]].index(True), t)))
            elif v is None or v[0] != "i" or not st.num.prove_ne(v[1]):
                trees.add(None)
        ctx.count("obligations")
        want = storage(t)
        if trees != {want}:
            ctx.violation("storage/%s" % t, where, "%s writes the storage schema %s for %s instead of %s" % (
                f.dname, " or ".join(sorted(show(x) if x else "?" for x in trees)) or "nothing (it always fails)", t, show(want)))
    ctx.sample("GEOARROW_TYPE_MULTIPOLYGON -> " + show(storage("GEOARROW_TYPE_MULTIPOLYGON")))


# ------------------------------------------------------------------ recognition of schemas

class RecMon(strs.StrFacts):
    def __init__(self, fmt2type):
        super().__init__()
        self.fmt2type = fmt2type
        self.ext = None          # (pointer, size) given to ArrowSchemaViewInit's extension name

    def put(self, eng, st, v, sname, member, size, val):
        r = eng.regions[v[1]]
        eng.set_type(r, "struct " + sname)
        eng.store_cell(st, r, lin.addc(v[2], eng.types.member(sname, member)["off"]), size, val)

    def before_call(self, eng, st, ins, name, fn, args):
        r = super().before_call(eng, st, ins, name, fn, args)
        if r is not None or name != "ArrowSchemaViewInit" or args[0][0] != "p" or args[1][0] != "p":
            return r
        view, sch = args[0], args[1]
        fo = eng.load_cell(st, eng.regions[sch[1]], lin.addc(sch[2], eng.types.member("ArrowSchema", "format")["off"]), 8, "ptr")
        t = strs.text(eng, st, fo)
        if t is not None:
            t = t.decode()
            ty = self.fmt2type.get(t.split(":")[0])
            ty = ("i", lin.const(ty)) if ty is not None else None
            fs = ("i", lin.const(int(t.split(":")[1]))) if ":" in t else ("i", lin.ZERO)
        else:
            ty = fs = None
        self.put(eng, st, view, "ArrowSchemaView", "type", 4, ty or ("i", eng.fresh(st, "type", 0, 60)))
        self.put(eng, st, view, "ArrowSchemaView", "fixed_size", 4, fs or ("i", eng.fresh(st, "fixed_size", -(1 << 31), (1 << 31) - 1)))
        off = eng.types.member("ArrowSchemaView", "extension_name")["off"]
        if self.ext is not None:
            vr = eng.regions[view[1]]
            eng.store_cell(st, vr, lin.addc(view[2], off), 8, self.ext[0])
            eng.store_cell(st, vr, lin.addc(view[2], off + 8), 8, ("i", self.ext[1]))
        return [(st, ("i", lin.ZERO))]


def build_tree(eng, st, tree, name=None):
    """An ArrowSchema object of the given shape; children hold their own names."""
    r = eng.new_region("obj", ty="struct ArrowSchema", label="schema", name="schema")
    st.null[r.id] = False
    v = ("p", r.id, lin.ZERO)

    def put(m, val):
        eng.store_cell(st, r, lin.const(eng.types.member("ArrowSchema", m)["off"]), 8, val)
    put("format", strs.new_text(eng, st, tree[0]))
    put("name", strs.new_text(eng, st, name if name is not None else ""))
    put("n_children", ("i", lin.const(len(tree[1]))))
    ar = eng.new_region("obj", label="children", name="children")
    st.null[ar.id] = False
    for i, (n, c) in enumerate(tree[1]):
        eng.put(st, ar, lin.const(8 * i), 8, build_tree(eng, st, c, n))
    put("children", ("p", ar.id, lin.ZERO))
    return v


def ext_name(t):
    return t01.parts(t)[3]


def outcomes(eng, rets, view, member="type"):
    """Values of a schema view member over the successful exits; None when some exit's value is unknown."""
    out = set()
    for st, v, _ in rets:
        if v is not None and v[0] == "i" and (st.num.prove_ne(v[1]) or (not v[1][1] and v[1][0] != 0)):
            out.add("error")
            continue
        r = eng.regions[view[1]]
        x = eng.load_cell(st, r, lin.addc(view[2], eng.types.member("GeoArrowSchemaView", member)["off"]), 4, "i32")
        out.add(x[1][0] if x[0] == "i" and not x[1][1] else None)
    return out


def mutants(tree):
    """Storage trees one departure away from the given one."""
    f, kids = tree
    for alt in {"z": ("u", "Z"), "Z": ("z", "U"), "vz": ("z", "vu"), "u": ("U", "z"), "U": ("u", "Z"), "vu": ("u", "vz"), "g": ("f",),
                "+s": ("+l",), "+l": ("+L", "+s"), "+w:2": ("+w:3", "+w:4"), "+w:3": ("+w:2", "+w:4"), "+w:4": ("+w:3", "+w:2")}.get(f, ()):
        yield (alt, kids)
    if f == "+s":
        if len(kids) > 2:
            yield (f, kids[:-1][::-1])
        yield (f, kids[:-1])
        yield (f, kids + (("q", ("g", ())),))
        yield (f, (kids[1], kids[0]) + kids[2:])
    if f == "+l":
        yield (f, kids + kids)
        yield (f, ())
    for i, (n, c) in enumerate(kids):
        for m in mutants(c):
            yield (f, kids[:i] + ((n, m),) + kids[i + 1:])
        if f == "+s":
            for nn in {"x": "y", "y": "x", "z": "m", "m": "z"}.get(n[0], "q"), n[0].upper():
                yield (f, kids[:i] + ((nn + n[1:], c),) + kids[i + 1:])
            if len(n) == 4:
                yield (f, kids[:i] + ((n[0] + ("max" if n[1:] == "min" else "min"), c),) + kids[i + 1:])
                yield (f, kids[:i] + ((n[0] + "mid", c),) + kids[i + 1:])
            yield (f, kids[:i] + ((n + "x", c),) + kids[i + 1:])


def recognition(ctx, mod, types, val):
    nt = {f: t for t, f in nano_types().items()}
    f = mod.functions["GeoArrowSchemaViewInit"]
    g = mod.functions["GeoArrowSchemaViewInitFromStorage"]
    where = "%s:%d" % (short(f.file), f.line)
    concrete = [t for t in types if t != "GEOARROW_TYPE_UNINITIALIZED"]
    by = {}
    for t in concrete:
        by[(ext_name(t), storage(t))] = val[t]

    def classify(fn, tree, ext):
        mon = RecMon(nt)
        eng = engine(mod, mon)
        box = {}

        def setup(e, st, fn_, args):
            view, sch = args[0], build_tree(e, st, tree)
            x = strs.new_text(e, st, ext)
            box["view"] = view
            if fn_ is g:
                mon.ext = (slai.NULL, lin.ZERO)
                return [view, sch, x, ("i", lin.const(len(ext)))] + list(args[4:])
            mon.ext = (x, lin.const(len(ext)))
            return [view, sch] + list(args[2:])
        return outcomes(eng, eng.run_entry(fn, setup), box["view"])
    for t in concrete:
        for fn in (f, g):
            got = classify(fn, storage(t), ext_name(t))
            ctx.count("obligations")
            if got != {val[t]}:
                ctx.violation("recognise/%s/%s" % (fn.dname, t), where, "%s does not recognise '%s' stored as %s as %s (it %s)" % (
                    fn.dname, ext_name(t), show(storage(t)), t, said(got, val)))
        # storage one step away belongs to another identifier or to none
        seen = set()
        for m in mutants(storage(t)):
            if m in seen:
                continue
            seen.add(m)
            exp = by.get((ext_name(t), m), "error")
            got = classify(f, m, ext_name(t))
            ctx.count("obligations")
            if got != {exp} and not lenient(ext_name(t), m, exp, got):
                ctx.violation("near/%s/%s" % (t, show(m)), where, "%s on '%s' stored as %s must %s but it %s" % (
                    f.dname, ext_name(t), show(m), said({exp}, val), said(got, val)))
    # names near a published one, and every name with every other storage
    names = sorted({ext_name(t) for t in concrete})
    for t in concrete:
        n = ext_name(t)
        for bad in (n + "x", n[:-1], n[:-1] + "_", n.upper(), "geoarrow" + n[9:]):
            if bad in names:
                continue
            got = classify(g, storage(t), bad)
            ctx.count("obligations")
            if got != {"error"}:
                ctx.violation("name/%s/%s" % (t, bad), where, "%s accepts the unknown extension name '%s' (it %s)" % (g.dname, bad, said(got, val)))


def lenient(ext, tree, exp, got):
    """Departures the GeoArrow specification lets a reader accept: an interleaved
    coordinate child with an unrelated name gets its dimensions from the list size."""
    return False


def said(got, val):
    out = []
    for x in sorted(got, key=str):
        if x == "error":
            out.append("reports an error")
        elif x is None:
            out.append("gives an undetermined identifier")
        else:
            n = [k for k, v in val.items() if v == x and k.startswith("GEOARROW_TYPE_")]
            out.append("gives %s" % (n[0] if n else x))
    return " or ".join(out) or "never returns"


# ------------------------------------------------------------------ text and binary writers

def writer(ctx, mod, kind, val):
    """Bytes a writer appends for an outermost geom_start, per (type, dimensions)."""
    init = mod.functions["GeoArrow%sWriterInit" % kind]
    iv = mod.functions["GeoArrow%sWriterInitVisitor" % kind]
    where = "%s:%d" % (short(iv.file), iv.line)
    for g in WKBCODE:
        for d in DIMS:
            mon = drive.BufMon()
            eng = engine(mod, mon)
            dr = drive.Drive(eng)
            w, v = dr.obj("GeoArrow%sWriter" % kind, "writer"), dr.obj("GeoArrowVisitor", "visitor")
            dr.call(init, [w])
            dr.call(iv, [w, v])
            got = set()
            for s in list(dr.states):
                fs, gs = dr.slot(s, v, "GeoArrowVisitor", "feat_start"), dr.slot(s, v, "GeoArrowVisitor", "geom_start")
                if fs is None or gs is None:
                    got.add(None)
                    continue
                one = drive.Drive(eng, s)
                one.call(fs, [v])
                before = {k: len(b) for x in one.states for k, b in drive.arena_bytes(eng, x).items()}
                one.call(gs, [v, ("i", lin.const(val["GEOARROW_GEOMETRY_TYPE_" + g])), ("i", lin.const(val["GEOARROW_DIMENSIONS_" + d]))])
                for x in one.states:
                    got.add(tuple(tuple(b[before.get(k, 0):]) for k, b in sorted(drive.arena_bytes(eng, x).items()) if len(b) > before.get(k, 0)))
            ctx.count("obligations")
            if kind == "WKT":
                want = {((tuple((g + SUFFIX[d] + " ").encode())),)}
                text = lambda b: "'%s'" % "".join("?" if c is None else chr(c) for c in b)
            else:
                code = WKBCODE[g] + ISO[d]
                # order mark, code, and for anything but a point a placeholder for the count
                want = {((1,) + tuple(code.to_bytes(4, "little")) + (() if g == "POINT" else (0, 0, 0, 0)),)}
                text = lambda b: "bytes " + " ".join("??" if c is None else "%02x" % c for c in b)
            if got != want:
                ctx.violation("write/%s/%s/%s" % (kind, g, d), where, "the %s writer starts a %s %s with %s instead of %s" % (
                    kind, g, d, " or ".join(sorted("nothing" if not x else text(x[0]) for x in got)) or "an error", text(list(want)[0][0])))


def wkb_append(ctx, mod, val):
    """Header bytes GeoArrowWKBWriterAppend writes for a one-node geometry without coordinates, per (type, dimensions)."""
    init, app = mod.functions["GeoArrowWKBWriterInit"], mod.functions["GeoArrowWKBWriterAppend"]
    where = "%s:%d" % (short(app.file), app.line)
    for g in WKBCODE:
        for d in DIMS:
            eng = engine(mod, drive.BufMon())
            dr = drive.Drive(eng)
            w, node = dr.obj("GeoArrowWKBWriter", "writer"), dr.obj("GeoArrowGeometryNode", "node")
            dr.call(init, [w])
            got = set()
            for s in dr.states:
                r = eng.regions[node[1]]
                for m in eng.types.members("GeoArrowGeometryNode"):
                    if m["size"] <= 8:
                        eng.store_cell(s, r, lin.const(m["off"]), m["size"], ("i", lin.ZERO))
                for m, x in (("geometry_type", val["GEOARROW_GEOMETRY_TYPE_" + g]), ("dimensions", val["GEOARROW_DIMENSIONS_" + d])):
                    eng.store_cell(s, r, lin.const(eng.types.member("GeoArrowGeometryNode", m)["off"]), 1, ("i", lin.const(x)))
                one = drive.Drive(eng, s)
                before = {k: len(b) for k, b in drive.arena_bytes(eng, s).items()}
                one.call(app, [w, node, ("i", lin.const(1))])
                for x in one.states:
                    got.add(frozenset(tuple(b[before.get(k, 0):][:9 if g != "POINT" else 5]) for k, b in drive.arena_bytes(eng, x).items()))
            ctx.count("obligations")
            code = (1,) + tuple((WKBCODE[g] + ISO[d]).to_bytes(4, "little")) + (() if g == "POINT" else (0, 0, 0, 0))
            if not got or any(code not in x for x in got):
                ctx.violation("append/%s/%s" % (g, d), where, "GeoArrowWKBWriterAppend does not start a %s %s with bytes %s" % (
                    g, d, " ".join("%02x" % c for c in code)))


def wkb_reader(ctx, mod, val):
    init = mod.functions["GeoArrowWKBReaderInit"]
    read = mod.functions["GeoArrowWKBReaderRead"]
    where = "%s:%d" % (short(read.file), read.line)
    cases = []
    for g, c in WKBCODE.items():
        for d in DIMS:
            for big in (0, 1):
                cases.append((c + ISO[d], (g, d), big, 0))
                if d != "XY":
                    cases.append((c | EWKB[d], (g, d), big, 0))
                cases.append((c | EWKB[d] | 0x20000000, (g, d), big, 1))
    for bad in (0, 8, 17, 999, 1000, 1008, 2000, 3008, 4001):
        cases.append((bad, None, 0, 0))
    for code, want, big, srid in cases:
        eng = engine(mod, drive.BufMon())
        dr = drive.Drive(eng)
        rd = dr.obj("GeoArrowWKBReader", "reader")
        out = dr.obj("GeoArrowGeometryView", "out")
        err = dr.obj("GeoArrowError", "error")
        dr.call(init, [rd])
        blob = eng.new_region("slice", size=lin.const(4096), label="GeoArrowBufferView.data", const=True, name="src")
        order = "big" if big else "little"

        def sgn(v):
            return v - (1 << 32) if v >= 1 << 31 else v
        cells = {lin.ZERO: (1, ("i", lin.const(0 if big else 1)))}
        words = [code] + ([4326] if srid else []) + ([0] if want and want[0] != "POINT" or not want else [])
        for i, wd in enumerate(words):
            cells[lin.const(1 + 4 * i)] = (4, ("i", lin.const(sgn(int.from_bytes(wd.to_bytes(4, order), "little")))))
        for s in dr.states:
            s.mem[blob.id] = dict(cells)
            s.null[blob.id] = False
        dr.call(read, [rd, ("p", blob.id, lin.ZERO), ("i", lin.const(4096)), out, err])
        got = set()
        for s in dr.states:
            root = eng.load_cell(s, eng.regions[out[1]], lin.const(eng.types.member("GeoArrowGeometryView", "root")["off"]), 8, "ptr")
            if root[0] != "p":
                got.add(None)
                continue
            r = eng.regions[root[1]]
            x = []
            for m in ("geometry_type", "dimensions"):
                mm = eng.types.member("GeoArrowGeometryNode", m)
                c = eng.load_cell(s, r, lin.addc(root[2], mm["off"]), mm["size"], "i%d" % (8 * mm["size"]))
                x.append(c[1][0] & 255 if c[0] == "i" and not c[1][1] else None)
            got.add(tuple(x))
        exp = {(val["GEOARROW_GEOMETRY_TYPE_" + want[0]], val["GEOARROW_DIMENSIONS_" + want[1]])} if want else set()
        ctx.count("obligations")
        if got != exp:
            ctx.violation("read/WKB/%x%s" % (code, "/big" if big else ""), where, "the WKB reader takes type code 0x%x (%s endian) for %s instead of %s" % (
                code, order, " or ".join(sorted(pair(x, val) for x in got)) or "an error", "%s %s" % want if want else "an error"))


def pair(x, val):
    if x is None or None in x:
        return "an undetermined type"
    n = [k.split("TYPE_")[-1] for k, v in val.items() if v == x[0] and k.startswith("GEOARROW_GEOMETRY_TYPE_")]
    d = [k.split("_")[-1] for k, v in val.items() if v == x[1] and k.startswith("GEOARROW_DIMENSIONS_")]
    return "%s %s" % (n[0] if n else x[0], d[0] if d else x[1])


class WktMon(strs.StrFacts):
    keep_past = True

    def __init__(self):
        super().__init__()
        self.seen = []

    def before_call(self, eng, st, ins, name, fn, args):
        if name is None and v01.slot_of(eng, st, ins) == "geom_start":
            self.seen.append((ins, self.facts(st), args[1], args[2]))
            return []       # what follows the outermost tag is not looked at
        return super().before_call(eng, st, ins, name, fn, args)


def wkt_reader(ctx, mod, val):
    f = mod.functions["GeoArrowWKTReaderVisit"]
    where = "%s:%d" % (short(f.file), f.line)
    mon = WktMon()
    eng = engine(mod, mon)
    eng.peel = 0
    eng.rec_depth = 1
    eng.K = 6
    eng.run_entry(f)
    inv = {v: k[len("GEOARROW_GEOMETRY_TYPE_"):] for k, v in val.items() if k.startswith("GEOARROW_GEOMETRY_TYPE_")}
    dinv = {v: k[len("GEOARROW_DIMENSIONS_"):] for k, v in val.items() if k.startswith("GEOARROW_DIMENSIONS_")}
    ok, vague = set(), 0
    for ins, facts, tv, dv in mon.seen:
        ctx.count("obligations")
        at = "%s:%d" % (short(f.file), ins.line or f.line)
        if tv[1][1] or dv[1][1]:
            vague += 1
            continue
        g, d = inv.get(tv[1][0]), dinv.get(dv[1][0])
        words = sorted(x[1].decode() for x in facts)
        want = sorted([g] + ([SUFFIX[d].strip()] if SUFFIX.get(d) else []))
        if words != want:
            ctx.violation("read/WKT/%s/%s" % (g, d), at, "the WKT reader announces %s %s after matching %s" % (g, d, words or "no keyword"))
        elif any(x[3] == "prefix" for x in facts):
            ctx.violation("read/WKT/%s/%s/prefix" % (g, d), at, "the WKT reader announces %s %s after matching only the beginning of a word" % (g, d))
        else:
            ok.add((g, d))
    ctx.require(mon.seen, "the WKT reader's geom_start call was not reached")
    ctx.require(not vague, "the tag at one of the WKT reader's geom_start calls is not known")
    if not vague:
        for g in WKBCODE:
            for d in DIMS:
                if (g, d) not in ok:
                    ctx.violation("read/WKT/%s/%s/missing" % (g, d), where, "the WKT reader never announces %s %s for '%s%s'" % (g, d, g, SUFFIX[d]))
    ctx.note("wkt_tags", len(ok))


# ------------------------------------------------------------------ names and metadata

def names(ctx, val):
    """The text functions give each identifier its published name."""
    want = {}
    for e in wit.enumerators("GeoArrowDimensions"):
        want[("GeoArrowDimensionsString", e)] = e.split("_")[-1].lower()
    for e in wit.enumerators("GeoArrowCoordType"):
        want[("GeoArrowCoordTypeString", e)] = e.split("_")[-1].lower()
    for e in wit.enumerators("GeoArrowEdgeType"):
        want[("GeoArrowEdgeTypeString", e)] = e[len("GEOARROW_EDGE_TYPE_"):].lower()
    for e in wit.enumerators("GeoArrowCrsType"):
        n = e[len("GEOARROW_CRS_TYPE_"):]
        want[("GeoArrowCrsTypeString", e)] = CRS.get(n, n.lower())
    for e in wit.enumerators("GeoArrowGeometryType"):
        want[("GeoArrowGeometryTypeString", e)] = e[len("GEOARROW_GEOMETRY_TYPE_"):]
    for e in wit.enumerators("GeoArrowType"):
        want[("GeoArrowExtensionNameFromType", e)] = t01.parts(e)[3]
    u = wit.Unit('#include "geoarrow/geoarrow.h"\n')
    for fn, e in want:
        u.add((fn, e), "const char*", "return %s(%s);" % (fn, e))
    for (fn, e), v in u.solve().items():
        ctx.count("obligations")
        w = want[(fn, e)]
        if (v != ("null",)) if w is None else (v != ("str", w)):
            ctx.violation("name/%s" % e, "src/geoarrow/geoarrow_type_inline.h:%s" % fn, "%s(%s) gives %s instead of '%s'" % (
                fn, e, "'%s'" % v[1] if v[0] == "str" else "NULL" if v[0] == "null" else "an undetermined text", w))


def metadata_writer(ctx, mod, val):
    f = mod.functions["GeoArrowMetadataSerialize"]
    where = "%s:%d" % (short(f.file), f.line)
    for e in EDGES:
        for c in ["NONE", "UNKNOWN"] + list(CRS):
            for crs, asjson in (("OGC:CRS84", "OGC:CRS84"), ('"a"', "a"), ('{"n":"}"}', {"n": "}"}), ('a"b', 'a"b')):
                if crs != "OGC:CRS84" and (e != "PLANAR" or c == "NONE"):
                    continue
                eng = engine(mod, drive.BufMon())
                dr = drive.Drive(eng)
                mv = dr.obj("GeoArrowMetadataView", "metadata_view")
                out = eng.new_region("heap", size=lin.const(4096), label="arena", name="out")
                s = dr.states[0]
                s.null[out.id] = False
                r = eng.regions[mv[1]]

                def put(m, size, v, off=0):
                    eng.store_cell(s, r, lin.const(eng.types.member("GeoArrowMetadataView", m)["off"] + off), size, v)
                put("edge_type", 4, ("i", lin.const(val["GEOARROW_EDGE_TYPE_" + e])))
                put("crs_type", 4, ("i", lin.const(val["GEOARROW_CRS_TYPE_" + c])))
                put("crs", 8, strs.new_text(eng, s, crs))
                put("crs", 8, ("i", lin.const(len(crs))), 8)
                eng.entry = f
                got = set()
                for x, v, _ in eng.exec_function(f, s, [mv, ("p", out.id, lin.ZERO), ("i", lin.const(4096))]):
                    n = v[1][0] if v[0] == "i" and not v[1][1] else None
                    b = strs.nbytes(eng, x, ("p", out.id, lin.ZERO), n) if n is not None else None
                    got.add(b)
                want = {}
                if e != "PLANAR":
                    want["edges"] = e.lower()
                if c in CRS:
                    want["crs_type"] = CRS[c]
                if c != "NONE":
                    want["crs"] = asjson
                ctx.count("obligations")
                txt = next(iter(got)) if len(got) == 1 else None
                try:
                    d = json.loads(txt.decode()) if txt is not None else None
                except ValueError:
                    d = None
                if isinstance(d, dict) and d.get("edges") == "planar":
                    del d["edges"]
                if d != want:
                    ctx.violation("metadata/write/%s/%s/%s" % (e, c, crs), where, "metadata with %s edges, CRS type %s and CRS %s is written as %s instead of %s" % (
                        e, c, crs, txt.decode() if txt else "an undetermined text", json.dumps(want)))


class MetaMon(strs.StrFacts):
    def __init__(self):
        super().__init__()
        self.stores = []
        self.keys = set()

    def facts(self, st):
        return tuple(x for x in super().facts(st) if x[1][:1] == b'"')

    def on_store(self, eng, st, ins, region, off, val, size):
        super().on_store(eng, st, ins, region, off, val, size)
        if val is None or val[0] != "i" or size != 4:
            return
        lf = eng.leaf(region, off, size)
        if lf is None or lf[0] != "GeoArrowMetadataView" or lf[2] is None:
            return
        m = lf[2]["name"]
        if m in ("edge_type", "crs_type"):
            self.stores.append((m, ins, val[1], self.facts(st)))
            st.ghost["facts"] = tuple(x for x in self.facts(st) if x[1] in self.keys)


def metadata_reader(ctx, mod, val):
    f = mod.functions["GeoArrowMetadataViewInit"]
    mon = MetaMon()
    mon.keys = {b'"edges"', b'"crs_type"', b'"crs"'}
    eng = engine(mod, mon)
    eng.peel, eng.rec_depth, eng.K, eng.KL = 0, 0, 1, 1
    eng.max_heads = 100
    eng.force_inline = set()
    late = None
    try:
        eng.run_entry(f)
    except AnalysisError as e:
        late = e            # what was seen so far is judged all the same
    keys = {"edge_type": '"edges"', "crs_type": '"crs_type"'}
    names_ = {"edge_type": {val["GEOARROW_EDGE_TYPE_" + e]: '"%s"' % e.lower() for e in EDGES},
              "crs_type": {val["GEOARROW_CRS_TYPE_" + c]: '"%s"' % t for c, t in CRS.items()}}
    allv = {x for d in names_.values() for x in d.values()}
    ok, vague = set(), set()
    seen = set()
    for m, ins, v, facts in mon.stores:
        at = "%s:%d" % (short(f.file), ins.line or f.line)
        words = frozenset(x[1].decode() for x in facts)
        if v[1]:
            if any(w in allv for w in words):
                vague.add(m)
            continue
        k = (m, v[0], words, frozenset(x[3] for x in facts), at)
        if k in seen:
            continue
        seen.add(k)
        ctx.count("obligations")
        values = words & allv
        name = names_[m].get(v[0])
        if name is None or (not values and m == "edge_type" and v[0] == val["GEOARROW_EDGE_TYPE_PLANAR"]):
            if values:
                ctx.violation("metadata/read/%s/%d/%s" % (m, v[0], ",".join(sorted(values))), at, "the metadata reader sets %s to %d after matching %s" % (m, v[0], sorted(values)))
            continue
        if values != {name} or keys[m] not in words:
            ctx.violation("metadata/read/%s/%s" % (m, name), at, "the metadata reader sets %s to the identifier of %s after matching %s" % (
                m, name, sorted(words) or "nothing"))
        elif any(x[3] == "prefix" for x in facts if x[1].decode() in (name, keys[m])):
            ctx.violation("metadata/read/%s/%s/prefix" % (m, name), at, "the metadata reader takes any text beginning with %s" % name)
        else:
            ok.add((m, name))
    if late:
        raise late
    ctx.require(mon.stores, "the metadata reader's assignments were not reached")
    for m in names_:
        if m in vague:
            continue
        for n in names_[m].values():
            if (m, n) not in ok:
                ctx.violation("metadata/read/%s/%s/missing" % (m, n), "%s:%d" % (short(f.file), f.line), "the metadata reader never recognises %s as a value of %s" % (n, m))


def run(ctx):
    mod = cmod.c_module()
    types = wit.enumerators("GeoArrowType")
    geoms = wit.enumerators("GeoArrowGeometryType")
    dims = wit.enumerators("GeoArrowDimensions")
    val = enum_values(types + geoms + dims + wit.enumerators("GeoArrowEdgeType") + wit.enumerators("GeoArrowCrsType"))
    ctx.parts([
        ("storage schemas", emission, mod, types, val),
        ("schema recognition", recognition, mod, types, val),
        ("WKT writer", writer, mod, "WKT", val),
        ("WKB writer", writer, mod, "WKB", val),
        ("WKB append", wkb_append, mod, val),
        ("WKB reader", wkb_reader, mod, val),
        ("WKT reader", wkt_reader, mod, val),
        ("names", names, val),
        ("metadata writer", metadata_writer, mod, val),
        ("metadata reader", metadata_reader, mod, val)])
