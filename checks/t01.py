"""T01: type identifiers decompose and recompose consistently.

Oracle: the enumerator names (GEOARROW_TYPE_[INTERLEAVED_]<GEOMETRY>[_Z|_M|_ZM],
GEOARROW_TYPE_[LARGE_](WKB|WKT)[_VIEW]) with the documented parts of serialized
types.  The tables of the code are extracted by constant propagation over one
witness per argument combination and compared with the oracle."""
import itertools
import re

from vlib import wit
from vlib.build import AnalysisError, REPO

TECHNIQUE = ("table extraction by compiler constant propagation over the whole finite argument domain of each "
             "conversion function (no execution), compared with the enumerator-name grammar; C++ traits as constant expressions")
LEVEL = "proof"
EXPLANATION = ("For every enumerator of the type, geometry type, dimension and coordinate layout enums, the conversion functions, "
               "lookup tables, schema view initialiser, C++ traits and the C++ dispatch macro are reduced to constants by the "
               "optimiser and compared with the parts the enumerator names spell out. The argument domain is finite and enumerated "
               "completely, so the result holds for every identifier and every combination of parts.")

GEOMS = ["POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON"]
SUFFIX = {"": "XY", "_Z": "XYZ", "_M": "XYM", "_ZM": "XYZM"}
NDIM = {"XY": 2, "XYZ": 3, "XYM": 3, "XYZM": 4}
NOFF = {"POINT": 0, "LINESTRING": 1, "POLYGON": 2, "MULTIPOINT": 1, "MULTILINESTRING": 2, "MULTIPOLYGON": 3}
EXT = {g: "geoarrow." + g.lower() for g in GEOMS + ["BOX"]}
ARRAYCLS = {"POINT": "PointArray", "LINESTRING": "LinestringArray", "POLYGON": "PolygonArray", "MULTIPOINT": "MultipointArray",
            "MULTILINESTRING": "MultiLinestringArray", "MULTIPOLYGON": "MultiPolygonArray"}


def parts(name):
    """(geometry, dimensions, coord type, extension name) spelled by an enumerator name."""
    m = re.match(r'^GEOARROW_TYPE_(LARGE_)?(WKB|WKT)(_VIEW)?$', name)
    if m and not (m.group(1) and m.group(3)):
        return ("GEOMETRY", "UNKNOWN", "UNKNOWN", "geoarrow." + m.group(2).lower())
    if name == "GEOARROW_TYPE_UNINITIALIZED":
        return ("GEOMETRY", "UNKNOWN", "UNKNOWN", None)
    m = re.match(r'^GEOARROW_TYPE_(INTERLEAVED_)?(%s|BOX)(_Z|_M|_ZM)?$' % "|".join(GEOMS), name)
    if not m:
        raise AnalysisError("enumerator %s fits no known naming scheme" % name)
    return (m.group(2), SUFFIX[m.group(3) or ""], "INTERLEAVED" if m.group(1) else "SEPARATE", EXT[m.group(2)])


def run(ctx):
    types = wit.enumerators("GeoArrowType")
    geoms = wit.enumerators("GeoArrowGeometryType")
    dims = wit.enumerators("GeoArrowDimensions")
    coords = wit.enumerators("GeoArrowCoordType")
    ctx.require(len(types) >= 50, "type enumerators not found")
    P = {t: parts(t) for t in types}
    G = lambda g: "GEOARROW_GEOMETRY_TYPE_" + g
    D = lambda d: "GEOARROW_DIMENSIONS_" + d
    C = lambda c: "GEOARROW_COORD_TYPE_" + c

    u = wit.Unit('#include <string.h>\n#include "geoarrow/geoarrow.h"\n#include "nanoarrow/nanoarrow.h"\n#include "geoarrow/schema_view.c"\n')
    for e in types + geoms + dims + coords:
        u.add(("val", e), "int", "return (int)%s;" % e)
    for t in types:
        u.add(("geom", t), "int", "return (int)GeoArrowGeometryTypeFromType(%s);" % t)
        u.add(("dims", t), "int", "return (int)GeoArrowDimensionsFromType(%s);" % t)
        u.add(("coord", t), "int", "return (int)GeoArrowCoordTypeFromType(%s);" % t)
        u.add(("ext", t), "const char*", "return GeoArrowExtensionNameFromType(%s);" % t)
        for f in ["type", "geometry_type", "dimensions", "coord_type", "extension_name.size_bytes"]:
            u.add(("sv." + f, t), "int", "struct GeoArrowSchemaView v; GeoArrowSchemaViewInitFromType(&v, %s); return (int)v.%s;" % (t, f))
        u.add(("sv.rc", t), "int", "struct GeoArrowSchemaView v; return GeoArrowSchemaViewInitFromType(&v, %s);" % t)
        u.add(("sv.ext", t), "const char*", "struct GeoArrowSchemaView v; GeoArrowSchemaViewInitFromType(&v, %s); return v.extension_name.data;" % t)
    for g, d, c in itertools.product(geoms, dims, coords):
        u.add(("make", g, d, c), "int", "return (int)GeoArrowMakeType(%s, %s, %s);" % (g, d, c))
    for g in GEOMS:
        u.add(("noff", g), "int", "return _GeoArrowkNumOffsets[%s];" % G(g))
    for d in NDIM:
        u.add(("ndim", d), "int", "return _GeoArrowkNumDimensions[%s];" % D(d))
    r = u.solve()

    W = "src/geoarrow/geoarrow_type_inline.h"

    def val(key, where, what):
        v = r[key]
        if v[0] == "int":
            return v[1]
        if v[0] in ("str", "null"):
            return v[1] if v[0] == "str" else None
        ctx.violation("open/%s" % "/".join(map(str, key)), where, "%s does not reduce to a constant: %s" % (what, v[1]))
        return "?"

    def eq(key, want, where, what, show=str):
        got = val(key, where, what)
        ctx.count("obligations")
        if got != "?" and got != want:
            ctx.violation("/".join(map(str, key)), where, "%s is %s, but the names require %s" % (what, show(got), show(want)))

    E = {e: r[("val", e)][1] for e in types + geoms + dims + coords}
    for grp in (types, geoms, dims, coords):
        seen = {}
        for e in grp:
            if E[e] in seen:
                ctx.violation("dup/%s" % e, "src/geoarrow/geoarrow_type.h", "%s and %s are the same value" % (e, seen[E[e]]))
            seen[E[e]] = e
    byval = {E[t]: t for t in types}
    nm = lambda grp: (lambda x: next((e for e in grp if E[e] == x), str(x)))
    for t in types:
        g, d, c, x = P[t]
        eq(("geom", t), E[G(g)], W, "GeoArrowGeometryTypeFromType(%s)" % t, nm(geoms))
        eq(("dims", t), E[D(d)], W, "GeoArrowDimensionsFromType(%s)" % t, nm(dims))
        eq(("coord", t), E[C(c)], W, "GeoArrowCoordTypeFromType(%s)" % t, nm(coords))
        eq(("ext", t), x, W, "GeoArrowExtensionNameFromType(%s)" % t)
        S = "src/geoarrow/schema_view.c:GeoArrowSchemaViewInitFromType"
        eq(("sv.rc", t), 0, S, "the result for %s" % t)
        eq(("sv.type", t), E[t], S, "type for %s" % t)
        eq(("sv.geometry_type", t), E[G(g)], S, "geometry_type for %s" % t, nm(geoms))
        eq(("sv.dimensions", t), E[D(d)], S, "dimensions for %s" % t, nm(dims))
        eq(("sv.coord_type", t), E[C(c)], S, "coord_type for %s" % t, nm(coords))
        eq(("sv.ext", t), x, S, "extension name for %s" % t)
        eq(("sv.extension_name.size_bytes", t), len(x or ""), S, "extension name length for %s" % t)
    want = {(G(P[t][0]), D(P[t][1]), C(P[t][2])): t for t in types if P[t][2] != "UNKNOWN"}
    for g, d, c in itertools.product(geoms, dims, coords):
        got = val(("make", g, d, c), W, "GeoArrowMakeType(%s, %s, %s)" % (g, d, c))
        ctx.count("obligations")
        if got == "?":
            continue
        t = want.get((g, d, c))
        known_part = g != G("GEOMETRY") and d != D("UNKNOWN") and c != C("UNKNOWN")
        name = byval.get(got, "%s (no identifier)" % got)
        if t:
            if got != E[t]:
                ctx.violation("make/%s/%s/%s" % (g, d, c), W, "GeoArrowMakeType(%s, %s, %s) is %s, not %s" % (g, d, c, name, t))
        elif got in byval and got != E["GEOARROW_TYPE_UNINITIALIZED"] or not known_part and got != E["GEOARROW_TYPE_UNINITIALIZED"]:
            ctx.violation("make/%s/%s/%s" % (g, d, c), W, "GeoArrowMakeType(%s, %s, %s) is %s although the combination has no identifier" % (g, d, c, name))
    for g, n in NOFF.items():
        eq(("noff", g), n, W, "_GeoArrowkNumOffsets[%s]" % G(g))
    for d, n in NDIM.items():
        eq(("ndim", d), n, W, "_GeoArrowkNumDimensions[%s]" % D(d))
    # every combination the naming scheme allows exists
    for g, s, i in itertools.product(GEOMS, SUFFIX, ["", "INTERLEAVED_"]):
        ctx.count("obligations")
        if "GEOARROW_TYPE_%s%s%s" % (i, g, s) not in E:
            ctx.violation("missing/%s%s%s" % (i, g, s), "src/geoarrow/geoarrow_type.h", "GEOARROW_TYPE_%s%s%s is missing" % (i, g, s))

    # C++ traits and dispatch
    native = [t for t in types if P[t][0] in GEOMS]
    x = wit.Unit('''#include <cstdlib>
#include "geoarrow/geoarrow.hpp"
using namespace geoarrow; using namespace geoarrow::type_traits;
template <typename T> struct Tag { static const int v = -1; };
%s
template <typename A> void probe(A& a, int* out) { *out = Tag<A>::v; }
''' % "\n".join("template <> struct Tag<array_util::%s<array_util::%s<double>>> { static const int v = %d; };" %
                (ARRAYCLS[g], d, 10 * GEOMS.index(g) + list(NDIM).index(d)) for g in GEOMS for d in NDIM), cxx=True, fast_float=True)
    for t in native:
        x.add(("t.coord", t), "int", "return (int)TypeTraits<%s>::coord_type_id;" % t)
        x.add(("t.dims", t), "int", "return (int)TypeTraits<%s>::dimensions;" % t)
        x.add(("t.geom", t), "int", "return (int)TypeTraits<%s>::geometry_type;" % t)
        x.add(("t.array", t), "int", "return Tag<TypeTraits<%s>::array_type>::v;" % t)
        x.add(("t.id", t), "int", "return (int)GeometryTypeTraits<%s, %s>::type_id(%s);" % (G(P[t][0]), D(P[t][1]), C(P[t][2])))
        x.add(("t.garray", t), "int", "return Tag<GeometryTypeTraits<%s, %s>::array_type>::v;" % (G(P[t][0]), D(P[t][1])))
        x.add(("t.dispatch", t), "int", "int out = -2; GEOARROW_DISPATCH_NATIVE_ARRAY_CALL(%s, probe, &out); return out;" % t)
    for g in GEOMS:
        x.add(("t.default", g), "int", "return (int)GeometryTypeTraits<%s, GEOARROW_DIMENSIONS_XY>::type_id();" % G(g))
    for t in ["GEOARROW_TYPE_WKB", "GEOARROW_TYPE_LARGE_WKB"]:
        x.add(("t.width", t), "int", "return (int)std::is_same<TypeTraits<%s>::array_type, wkb_util::WKBArray<%s>>::value;"
              % (t, "int64_t" if "LARGE" in t else "int32_t"))
    r = x.solve()
    H = "src/geoarrow/hpp/geometry_type_traits.hpp"
    for t in native:
        g, d, c, _ = P[t]
        a = 10 * GEOMS.index(g) + list(NDIM).index(d)
        eq(("t.coord", t), E[C(c)], H, "TypeTraits<%s>::coord_type_id" % t, nm(coords))
        eq(("t.dims", t), E[D(d)], H, "TypeTraits<%s>::dimensions" % t, nm(dims))
        eq(("t.geom", t), E[G(g)], H, "TypeTraits<%s>::geometry_type" % t, nm(geoms))
        eq(("t.id", t), E[t], H, "GeometryTypeTraits<%s, %s>::type_id(%s)" % (g, d, c), nm(types))
        for k in ("t.array", "t.garray", "t.dispatch"):
            eq((k, t), a, H, "the array class %s for %s" % (k, t),
               lambda v: "%s of %s" % (GEOMS[v // 10], list(NDIM)[v % 10]) if isinstance(v, int) and v >= 0 else "none")
    for g in GEOMS:
        eq(("t.default", g), E["GEOARROW_TYPE_" + g], H, "GeometryTypeTraits<%s, XY>::type_id()" % g, nm(types))
    for t in ["GEOARROW_TYPE_WKB", "GEOARROW_TYPE_LARGE_WKB"]:
        eq(("t.width", t), 1, H, "offset width of the array class for %s" % t)

    # Python mirror: the enumeration block of the Cython module
    src = open(REPO + "/python/geoarrow-c/src/geoarrow/c/_lib.pyx").read()
    for enum, grp in (("GeoArrowType", types), ("GeoArrowGeometryType", geoms), ("GeoArrowDimensions", dims), ("GeoArrowCoordType", coords)):
        m = re.search(r'^( *)cpdef enum %s:\n((?:\1 +\S[^\n]*\n|\s*\n)+)' % enum, src, re.M)
        ctx.require(m, "python enumeration %s not found" % enum)
        have = {}
        for line in m.group(2).split("\n"):
            line = line.split("#")[0].strip()
            mm = re.match(r'^(\w+)(?:\s*=\s*(-?\d+))?$', line)
            if mm:
                have[mm.group(1)] = mm.group(2)
        Y = "python/geoarrow-c/src/geoarrow/c/_lib.pyx"
        for e in grp:
            ctx.count("obligations")
            if e not in have:
                ctx.violation("py-missing/" + e, Y, "the Python enumeration %s lacks %s" % (enum, e))
            elif have[e] is not None and int(have[e]) != E[e]:
                ctx.violation("py-value/" + e, Y, "the Python enumeration gives %s the value %s, C has %d" % (e, have[e], E[e]))
    ctx.note("type_identifiers", len(types))
    ctx.note("rule", "reduced constant == value spelled by the enumerator name")
    ctx.sample("GeoArrowMakeType over %d combinations of geometry type, dimensions and coordinate layout" % (len(geoms) * len(dims) * len(coords)))
