"""C02: the C++ array views read exactly what the arrays they view hold.

witness/arrays.hpp states, for each operation of array_util.hpp and for the
selection of array classes by geometry_type_traits.hpp, an equation between the
operation and the Arrow layout, as a function returning bool.  Every equation is
put to the compiler's constant propagation twice: with unconstrained parameters
(it reduces to `true`: the equation holds for every argument) and for a table of
constant arguments (it reduces to `false`: those arguments are a counterexample).
Nothing is executed.
"""
import os
import re

from vlib import build, eqs, wit
from vlib.report import AnalysisError

TECHNIQUE = ("equational witnesses decided by the compiler's constant propagation over the current headers: "
             "every operation of the array views against the Arrow layout, symbolically where it folds and "
             "over tables of constant arguments otherwise")
LEVEL = "other"
EXPLANATION = (
    "witness/arrays.hpp states each operation of the array views as an equation with the Arrow layout (a function returning "
    "bool). The compiler's constant propagation over the current headers decides every one of them: with unconstrained parameters "
    "where it folds (then it holds for every argument), and for tables of constant arguments (layouts, offsets, lengths, "
    "strides, levels, dimensions, all validity patterns of up to three elements); an equation folding to false is reported "
    "with its arguments. Array classes and dispatch macros are compared for every geometry type, dimensions and coordinate "
    "type, and a dispatch on any other type must have no return. Nothing is executed. Equations which fold for no parameters hold for the "
    "listed arguments only (counts in the evidence).")

AU = "src/geoarrow/hpp/array_util.hpp"
GT = "src/geoarrow/hpp/geometry_type_traits.hpp"
DIMS = ["XY", "XYZ", "XYM", "XYZM"]
N = {"XY": 2, "XYZ": 3, "XYM": 3, "XYZM": 4}
PRE = open(build.VERIF + "/witness/arrays.hpp").read() + "\n"


def where(cls, method=None, file=AU):
    """file:line of a member of a class, for the report only"""
    try:
        lines = open(os.path.join(build.REPO, file)).read().split("\n")
    except OSError:
        return file
    at = 0
    for i, l in enumerate(lines):
        if re.search(r'\b(struct|class) %s\b' % re.escape(cls), l) and not l.rstrip().endswith(";"):
            at = i
            break
    if method:
        for i in range(at, len(lines)):
            if re.search(r'\b%s' % re.escape(method), lines[i]):
                return "%s:%d (%s)" % (file, i + 1, cls + "::" + method)
    return "%s:%d (%s)" % (file, at + 1, cls + ("::" + method if method else ""))


def Eqs(prelude=""):
    return eqs.Eqs(PRE + prelude)


def coords(ctx):
    e = Eqs()
    names = ["x", "y", "z", "m", "FromXYZM"]
    for d in DIMS:
        for t in ("double", "float"):
            for w, nm in enumerate(names):
                g = "%s<%s>::%s" % (d, t, nm)
                e.group(g, where(d, nm), "%s() of a %s<%s> is its own ordinate, NaN where it has none" % (nm, d, t))
                e.sym(g, "%s a, %s b, %s c, %s d" % (t, t, t, t), "Ordinates<%s<%s>>(a, b, c, d, %d)" % (d, t, w))
                e.con(g, "Ordinates<%s<%s>>(1.5, -2.5, 3.25, 4.75, %d)" % (d, t, w))
    pairs = [("double", "double"), ("float", "double"), ("double", "float")]
    for a in DIMS:
        for b in DIMS:
            for ta, tb in pairs:
                A, B = "%s<%s>" % (a, ta), "%s<%s>" % (b, tb)
                if (ta, tb) != ("double", "double") and b == "XY" and ta != tb:
                    pass
                g = "CoordCast<%s,%s>" % (A, B)
                e.group(g, where("XYZM", "CoordCast"), "converting a %s to a %s keeps each ordinate it has and "
                        "leaves the others NaN" % (A, B))
                e.sym(g, "%s a, %s b, %s c, %s d" % (ta, ta, ta, ta), "Cast<%s, %s>(a, b, c, d)" % (A, B))
                e.con(g, "Cast<%s, %s>(1.5, -2.5, 3.25, 4.75)" % (A, B))
            A, B = "%s<double>" % a, "%s<double>" % b
            g = "%s::Visit<%s>" % (a, b)
            e.group(g, where(a, "VisitVertices"), "a %s visits itself once as a vertex and once as a degenerate edge" % a)
            e.sym(g, "double a, double b, double c, double d", "OwnVertex<%s, %s>(a, b, c, d)" % (A, B))
            e.con(g, "OwnVertex<%s, %s>(1.5, -2.5, 3.25, 4.75)" % (A, B))
    e.decide(ctx, "coords")


def boxes(ctx):
    e = Eqs()
    names = ["xmin/xmax", "ymin/ymax", "zmin/zmax", "mmin/mmax", "lower_bound", "upper_bound", "Empty"]
    for d in DIMS:
        for w, nm in enumerate(names):
            g = "Box%s::%s" % (d, nm)
            e.group(g, where("Box" + d, nm.split("/")[0]), "%s of a Box%s: minimums first, then maximums; "
                    "(inf, -inf) where it has none" % (nm, d))
            e.sym(g, ", ".join("double a%d" % i for i in range(8)),
                  "Boxes<%s<double>>(%s, %d)" % (d, ", ".join("a%d" % i for i in range(8)), w))
            e.con(g, "Boxes<%s<double>>(1, 2, 3, 4, 5, 6, 7, 8, %d)" % (d, w))
        g = "BoxArray<%s>" % d
        for w, nm in enumerate(["LowerBound", "UpperBound", "Slice"]):
            g = "BoxArray<%s>::%s" % (d, nm)
            e.group(g, where("BoxArray", nm), "%s() of a BoxArray<%s> views the same elements and validity, and "
                    "the values of that bound" % (nm, d))
            e.sym(g, "const uint8_t* v, int64_t o, int64_t l, int64_t s, " + ", ".join("const double* p%d" % i for i in range(8)),
                  "BoundEq<%s<double>>(v, o, l, s, %s, %d)" % (d, ", ".join("p%d" % i for i in range(8)), w))
            for val in ("nullptr", "kBytes"):
                e.con(g, "BoundEq<%s<double>>(%s, 3, 9, 8, %s, %d)" % (
                    d, val, ", ".join("kData + %d" % (7 * i) for i in range(8)), w))
    e.decide(ctx, "boxes")


SEQ = [("coord", "coord(i) is element offset + i"), ("size", "size() is the length"),
       ("Slice", "Slice(i, k) views k elements from the ith on"),
       ("begin", "an iterator advanced by i reads element i"), ("operator[]", "it[k] reads element i + k"),
       ("operator++", "++ moves to the next element"), ("operator--", "-- moves to the previous element"),
       ("operator-=", "-= k moves back by k elements"), ("end", "end() - begin() is the length"),
       ("operator<", "iterators compare as their positions")]
DIM = ["operator[]", "operator+=", "operator-=", "operator++", "operator--", "operator++(int)", "dend",
       "operator<", "dend", "dbegin"]


def seq_layouts(d, unaligned):
    n = N[d]
    if unaligned:
        p = "kBytes"
        lay = [("separated", ["kBytes + %d" % (56 * j + 3) for j in range(4)], 8),
               ("interleaved", ["kBytes + %d" % (8 * j + 1) for j in range(4)], 8 * n),
               ("odd stride", ["kBytes + %d" % (8 * j) for j in range(4)], 8 * n + 5)]
    else:
        lay = [("separated", ["kData + %d" % (21 * j) for j in range(4)], 1),
               ("interleaved", ["kData + %d" % j for j in range(4)], n),
               ("wider", ["kData + %d" % j for j in range(4)], n + 1)]
    return lay


def sequences(ctx, unaligned, d):
    e = Eqs()
    loads = ["array_util::internal::LoadIdentity<double>", "array_util::internal::LoadSwapped<double>"] if unaligned else [None]
    cls = "UnalignedCoordSequence" if unaligned else "CoordSequence"
    pt = "const uint8_t*" if unaligned else "const double*"
    for load in loads:
        mk = "Useq<%s<double>, %s>" % (d, load) if unaligned else "Seq<%s<double>>" % d
        tag = "%s<%s%s>" % (cls, d, "" if not load else ", " + re.search(r'::(Load\w+)', load).group(1))
        par = "".join("%s p%d, " % (pt, j) for j in range(4)) + "int64_t o, int64_t l, int64_t s, int64_t i, int64_t k"
        symseq = "%s(p0, p1, p2, p3, o, l, s)" % mk
        points = [(0, 1), (1, 2), (3, 2), (2, 2)] if not unaligned else [(0, 1), (3, 2), (2, 2)]
        lens = [(0, 4), (2, 3)] if not unaligned else [(0, 3), (1, 2)]
        for w, (nm, text) in enumerate(SEQ):
            g = "%s::%s" % (tag, nm)
            e.group(g, where(cls, nm if not nm.startswith("op") else None), "%s of a %s" % (text, tag))
            e.sym(g, par, "SeqEq(%s, i, k, %d)" % (symseq, w))
            for name, ps, st in seq_layouts(d, unaligned):
                for o, l in lens:
                    for i, k in points:
                        if w == 6 and i == 0 or w == 7 and i < k:
                            continue
                        e.con(g, "SeqEq(%s(%s, %d, %d, %d), %d, %d, %d)" % (mk, ", ".join(ps), o, l, st, i, k, w),
                              "%s values, offset %d, length %d, i = %d, k = %d" % (name, o, l, i, k))
        for w, nm in enumerate(DIM):
            g = "%s::dbegin/%s%s" % (tag, nm, w)
            e.group(g, where(cls, "dbegin"), "the iterator over one dimension of a %s reads that dimension's ordinate "
                    "of the element it stands at (%s)" % (tag, nm))
            for name, ps, st in seq_layouts(d, unaligned):
                for o, l in lens:
                    for i, k in points if w not in (6, 9) else points[:1]:
                        if w == 4 and i == 0 or w == 2 and i < k:
                            i, k = 2, 1
                        for j in sorted({0, N[d] - 1}):
                            e.con(g, "DimEq(%s(%s, %d, %d, %d), %d, %d, %d, %d)" % (
                                mk, ", ".join(ps), o, l, st, i, k, j, w),
                                "%s values, offset %d, length %d, i = %d, k = %d, dimension %d" % (name, o, l, i, k, j))
    e.decide(ctx, "%s %s" % ("unaligned" if unaligned else "sequences", d))


VIEW = '''
static inline struct GeoArrowArrayView View(int n_offsets, enum GeoArrowDimensions dims, int n_values, int64_t o) {
  struct GeoArrowArrayView v;
  memset(&v, 0, sizeof(v));
  v.schema_view.dimensions = dims;
  v.n_offsets = n_offsets;
  for (int i = 0; i < 4; i++) v.offset[i] = o + 3 * i, v.length[i] = 20 - 2 * i;
  v.offsets[0] = kOff, v.offsets[1] = kOff1, v.offsets[2] = kOff2;
  v.validity_bitmap = kBytes + 5;
  v.data = kBytes;
  for (int i = 0; i < n_values; i++) v.coords.values[i] = kData + 5 * i;
  v.coords.n_values = n_values;
  v.coords.n_coords = 17;
  v.coords.coords_stride = n_values + 1;
  return v;
}
'''
ARR = [("PointArray", 0), ("LinestringArray", 1), ("MultipointArray", 1), ("PolygonArray", 2),
       ("MultiLinestringArray", 2), ("MultiPolygonArray", 3)]


def init(ctx, d):
    e = Eqs(VIEW)
    D = "GEOARROW_DIMENSIONS_"
    kinds = [("CoordSequence<%s<double>>" % d, 1, 0), ("UnalignedCoordSequence<%s<double>>" % d, 1, 0),
             ("CoordSequence<%s<float>>" % d, 0, 0), ("UnalignedCoordSequence<%s<float>>" % d, 0, 0),
             ("CoordSequence<Box%s<double>>" % d, 1, 1)]
    for cls, dbl, box in kinds:
        g = cls + "::InitFrom(coords)"
        e.group(g, where(cls.split("<")[0], "InitFrom"), "%s takes the values, length and stride of a coordinate view with enough "
                "double values, and refuses any other" % cls)
        e.sym(g, "const struct GeoArrowCoordView* v", "FromCoords<%s>(v, %s)" % (cls, "true" if dbl else "false"))
        for nv in range(1, 9):
            e.con(g, "FromCoords<%s>(&v.coords, %s)" % (cls, "true" if dbl else "false"), "a view of %d values" % nv,
                  pre="struct GeoArrowArrayView v = View(0, GEOARROW_DIMENSIONS_XY, %d, 2); " % nv)
        if not dbl:
            continue
        g = cls + "::InitFrom(array)"
        e.group(g, where(cls.split("<")[0], "InitFrom"), "%s accepts the view of an array at the level of its coordinates if the "
                "dimensions are its own (or lose only trailing ones), and no other, and takes that level's offset and length" % cls)
        for h in DIMS + ["UNKNOWN"]:
            nvs = sorted({N.get(h, 2) * (2 if box else 1), N[d] * (2 if box else 1), N[d] - 1})
            for lev in range(0, 4):
                e.sym(g, "const struct GeoArrowArrayView* v", "v->schema_view.dimensions != %s%s || FromView<%s>(v, %d, %s%s, %s)" % (
                    D, h, cls, lev, D, h, "true" if box else "false"))
                for no in range(0, 4):
                    for nv in nvs:
                        e.con(g, "FromView<%s>(&v, %d, %s%s, %s)" % (cls, lev, D, h, "true" if box else "false"),
                              "a view of %s, %d values, %d levels of offsets, at level %d" % (h, nv, no, lev),
                              pre="struct GeoArrowArrayView v = View(%d, %s%s, %d, %d); " % (no, D, h, nv, lev + 1))
    for t in ("double", "float"):
        for w, nm in enumerate(["InitInterleaved", "InitInterleaved (unaligned)", "InitInterleaved (default stride)"]):
            g = "%s<%s>::%s" % (d, t, nm)
            e.group(g, where("UnalignedCoordSequence" if w == 1 else "CoordSequence", "InitInterleaved"),
                    "InitInterleaved() puts dimension j at the jth value and refuses no data for some elements")
            e.sym(g, "int64_t l, const %s* p, int64_t s" % t, "Interleaved<%s<%s>>(l, p, s, %d)" % (d, t, w))
            for l in (0, 1, 7):
                for p in ("nullptr", "reinterpret_cast<const %s*>(kBytes + 8)" % t):
                    for s in (2, 5):
                        e.con(g, "Interleaved<%s<%s>>(%d, %s, %d, %d)" % (d, t, l, p, s, w))
            g = "%s<%s>::%s" % (d, t, nm.replace("Interleaved", "Separated"))
            e.group(g, where("UnalignedCoordSequence" if w == 1 else "CoordSequence", "InitSeparated"),
                    "InitSeparated() takes the pointers, length and stride it is given")
            e.sym(g, "int64_t l, const %s* p0, const %s* p1, const %s* p2, const %s* p3, int64_t s" % (t, t, t, t),
                  "Separated<%s<%s>>(l, p0, p1, p2, p3, s, %d)" % (d, t, w))
            for l in (0, 7):
                for s in (1, 3):
                    e.con(g, "Separated<%s<%s>>(%d, %s, %d, %d)" % (d, t, l, ", ".join(
                        "reinterpret_cast<const %s*>(kBytes + %d)" % (t, 8 * (j + 1)) for j in range(4)), s, w))
    for a, depth in ARR:
        cls = "%s<%s<double>>" % (a, d)
        g = cls + "::Init"
        e.group(g, where("Array", "Init("), "%s::Init() accepts exactly the views of its nesting and dimensions, and takes the offset, "
                "length and offsets of every level and the validity" % cls)
        for h in DIMS:
            e.sym(g, "const struct GeoArrowArrayView* v", "v->schema_view.dimensions != %s%s || InitArray<%s>(v, %d, %s%s)" % (
                D, h, cls, depth, D, h))
            for no in range(0, 4):
                for nv in sorted({N[h], N[d], N[d] - 1}):
                    e.con(g, "InitArray<%s>(&v, %d, %s%s)" % (cls, depth, D, h), "a view of %s, %d values, %d levels of offsets" % (h, nv, no),
                          pre="struct GeoArrowArrayView v = View(%d, %s%s, %d, 2); " % (no, D, h, nv))
    g = "BoxArray<%s>::Init" % d
    e.group(g, where("Array", "Init("), "%s accepts exactly the views of boxes of its dimensions" % g)
    for h in DIMS:
        e.sym(g, "const struct GeoArrowArrayView* v", "v->schema_view.dimensions != %s%s || InitBox<%s<double>>(v, %s%s)" % (D, h, d, D, h))
        for no in range(0, 2):
            for nv in sorted({2 * N[h], 2 * N[d], 2 * N[d] - 1, N[d]}):
                e.con(g, "InitBox<%s<double>>(&v, %s%s)" % (d, D, h), "a view of %s, %d values, %d levels of offsets" % (h, nv, no),
                      pre="struct GeoArrowArrayView v = View(%d, %s%s, %d, 2); " % (no, D, h, nv))
    g = "BinarySequence::InitFrom"
    e.group(g, where("BinarySequence", "InitFrom"), "a BinarySequence takes the offsets, data, offset and length of the view")
    e.sym(g, "const struct GeoArrowArrayView* v", "BlobInit(v)")
    e.con(g, "BlobInit(&v)", "a view of blobs", pre="struct GeoArrowArrayView v = View(1, GEOARROW_DIMENSIONS_UNKNOWN, 0, 4); ")
    e.decide(ctx, "init " + d)


LIST = [("UpdateChild", "UpdateChild(i) is the child between offsets i and i + 1"), ("size", "size() is the length"),
        ("Slice", "Slice(i, k) views k lists from the ith on"), ("begin", "an iterator advanced by i shows list i"),
        ("operator++", "iterator arithmetic"), ("end", "end() - begin() is the length"),
        ("ValidChildElements", "ValidChildElements() is the child between the first and the last offset"),
        ("UpdateChild again", "a child moved from list i shows list k"), ("for", "iterating shows every list once, in order")]


def lists(ctx):
    e = Eqs()
    leaf = "Seq<XY<double>>(kData, kData + 40, nullptr, nullptr, %d, 30, 1)"
    symleaf = "Seq<XY<double>>(p0, p1, nullptr, nullptr, co, cl, cs)"
    for depth in (1, 2, 3):
        sym, cons = symleaf, [(leaf % co, "child offset %d" % co) for co in (0, 4)]
        for dd in range(depth - 1):
            sym = "ListN(%s, f%d, o%d, l%d)" % (sym, dd, dd, dd)
            cons = [("ListN(%s, kOff2, %d, 9)" % (c, o), s + ", level offset %d" % o) for c, s in cons for o in (0, 2)]
        par = "const double* p0, const double* p1, int64_t co, int64_t cl, int64_t cs, int64_t i, int64_t k, const int32_t* f, int64_t o, int64_t l"
        par += "".join(", const int32_t* f%d, int64_t o%d, int64_t l%d" % (dd, dd, dd) for dd in range(depth - 1))
        for w, (nm, text) in enumerate(LIST):
            g = "%d/%s" % (depth, nm)
            e.group(g, where("ListSequence", nm.split(" ")[0] if w < 4 or w == 6 else None), "list sequence of depth %d: %s" % (depth, text))
            if w != 8:
                e.sym(g, par, "ListEq(ListN(%s, f, o, l), i, k, %d)" % (sym, w))
            for c, s in cons:
                for off in ("kOff", "kOff1"):
                    for o, l in ((0, 4), (1, 3), (2, 0)):
                        if w != 6 and l == 0:
                            continue
                        for i, k in ((0, 1), (2, 1)) if w in (0, 2, 3, 4, 7) else ((0, 0),):
                            e.con(g, "ListEq(ListN(%s, %s, %d, %d), %d, %d, %d)" % (c, off, o, l, i, k, w),
                                  "offsets %s, offset %d, length %d, i = %d, k = %d, %s" % (off, o, l, i, k, s))
    for t in ("int32_t", "int64_t"):
        for w, nm in enumerate(["blob", "operator*", "operator[]", "end", "for"]):
            g = "BinarySequence<%s>::%s" % (t, nm)
            e.group(g, where("BinarySequence", nm if w == 0 else None), "blob i of a BinarySequence<%s> is the data between offsets i and "
                    "i + 1 (%s)" % (t, nm))
            if w < 4:
                e.sym(g, "const %s* f, const uint8_t* p, int64_t o, int64_t l, int64_t i, int64_t k" % t,
                      "BlobEq<%s>(f, p, o, l, i, k, %d)" % (t, w))
            for o in (0, 3):
                for i, k in ((0, 1), (1, 1), (2, 0)):
                    e.con(g, "BlobEq<%s>(f, kBytes, %d, 4, %d, %d, %d)" % (t, o, i, k, w), "offset %d, i = %d, k = %d" % (o, i, k),
                          pre="static constexpr %s f[9] = {1, 1, 4, 9, 9, 12, 40, 41, 50}; " % t)
    e.decide(ctx, "lists")


def nest(cls):
    depth = dict(ARR)[cls]
    return depth


def validity(ctx):
    e = Eqs()
    for a, depth in ARR:
        for w, nm in enumerate(["is_valid", "is_null"]):
            cls = "%s<XY<double>>" % a
            g = "%s::%s" % (a, nm)
            e.group(g, where("Array", nm), "%s(i) of a %s follows bit offset + i of the bitmap, all valid without one" % (nm, a))
            e.sym(g, "const uint8_t* v, int64_t o, int64_t i", "(o < 0 || i < 0) || Validity<%s>(v, o, i, %d)" % (cls, w))
            for v in ("nullptr", "bits"):
                for o in (0, 1, 5, 8, 13):
                    for i in (0, 1, 2, 3, 7, 8, 9):
                        e.con(g, "Validity<%s>(%s, %d, %d, %d)" % (cls, v, o, i, w),
                              pre="static constexpr uint8_t bits[4] = {0x4d, 0xa6, 0x13, 0xe9}; ")
        g = "%s::Slice" % a
        e.group(g, where(a, "Slice"), "Slice(i, k) of a %s views k elements from the ith on, with their validity" % a)
        expr = "SliceEq(%s<XY<double>>(), %s)"
        e.sym(g, "const uint8_t* v, int64_t o, int64_t l, int64_t i, int64_t k", expr % (a, "v, o, l, i, k"))
        for v in ("nullptr", "kBytes"):
            for o, i, k in ((0, 0, 3), (2, 3, 1), (5, 0, 0), (3, 17, 2)):
                e.con(g, expr % (a, "%s, %d, 9, %d, %d" % (v, o, i, k)))
    e.decide(ctx, "validity")


def arrays_of(cls, d, o, l):
    """C++ statements which make `a`, an array of the class, over the tables"""
    lay = ", ".join("kData + %d" % (24 * j) for j in range(4))
    depth = dict(ARR)[cls]
    s = "%s<%s<double>> a; a.value.offset = %d; a.value.length = %d; " % (cls, d, o, l)
    if depth == 0:
        return s + "a.value.stride = 1; " + "".join("a.value.values[%d] = kData + %d; " % (j, 24 * j) for j in range(N[d]))
    leaf = "auto leaf = Seq<%s<double>>(%s, 1, 23, 1); " % (d, lay)
    if depth == 1:
        return leaf + s + "a.value.offsets = kOff; a.value.child = leaf; "
    if depth == 2:
        return leaf + s + "a.value.offsets = kOff1; a.value.child = ListN(leaf, kOff2, 1, 12); "
    return leaf + s + "a.value.offsets = kOff3; a.value.child = ListN(ListN(leaf, kOff2, 1, 12), kOff1, 1, 7); "


EXTRA = "static constexpr int32_t kOff3[7] = {0, 1, 1, 3, 4, 4, 5};\n"


def visits(ctx, cls):
    e = Eqs(EXTRA)
    depth = dict(ARR)[cls]
    points = "true" if cls in ("PointArray", "MultipointArray") else "false"
    for d, dst in (("XY", "XY"), ("XYZ", "XYM"), ("XYZM", "XYZM"), ("XYM", "XYZM")):
        for edges in (0, 1):
            nm = "VisitEdges" if edges else "VisitVertices"
            g = "%s<%s>::%s<%s>" % (cls, d, nm, dst)
            e.group(g, where(cls if edges and points == "true" else "Array", nm),
                    "%s() of a %s calls its function once for each %s of each element that is not null, in order" % (
                        nm, g.split("::")[0], "edge" if edges else "vertex"))
            full = d == "XY" and dst == "XY"
            shapes = [(0, 3), (2, 3), (0, 0)] if full else [(1, 2)]
            for o, l in shapes:
                masks = [-1] + (list(range(1 << l)) if full else [2])
                for b in masks:
                    e.con(g, "VisitArray<%s<double>>(a, %d, %s, %d)" % (dst, b, points, edges),
                          "%d elements at offset %d, %s" % (l, o, "no bitmap" if b < 0 else "validity " + format(b, "0%db" % max(l, 1))[::-1]),
                          pre=arrays_of(cls, d, o, l))
    if cls != "PointArray":
        g = cls + "::Coords"
        e.group(g, where(cls, "Coords"), "Coords() of a %s views the coordinates of its elements, from the first to the last" % cls)
        for o, l in ((0, 3), (2, 3), (1, 1), (2, 0)):
            first, last = coord_range(depth, o, l)
            e.con(g, "CoordsEq(a, leaf, %d, %d)" % (first, last), "%d elements at offset %d" % (l, o), pre=arrays_of(cls, "XY", o, l))
    else:
        g = cls + "::Coords"
        e.group(g, where(cls, "Coords"), "Coords() of a PointArray is its sequence")
        e.con(g, "Rest(a.Coords(), a.value) && a.Coords().offset == 2 && a.Coords().length == 3", pre=arrays_of(cls, "XY", 2, 3))
    for s in ("CoordSequence", "UnalignedCoordSequence") if cls == "PointArray" else ():
        for edges in (0, 1):
            nm = "VisitEdges" if edges else "VisitVertices"
            g = "%s::%s" % (s, nm)
            e.group(g, where(s, nm), "%s() of a %s calls its function once for each %s, in order" % (
                nm, s, "pair of consecutive vertices" if edges else "vertex"))
            for l in (0, 1, 2, 5):
                for d, dst in (("XY", "XY"), ("XYM", "XYZM")):
                    if s == "CoordSequence":
                        x = "VisitSeq<%s<double>>(Seq<%s<double>>(%s, 2, %d, 2), %d)" % (
                            dst, d, ", ".join("kData + %d" % (16 * j) for j in range(4)), l, edges)
                    else:
                        x = "VisitUnaligned<%s<double>>(Useq<%s<double>>(%s, 1, %d, 11), %d)" % (
                            dst, d, ", ".join("kBytes + %d" % (40 * j + 1) for j in range(4)), l, edges)
                    e.con(g, x, "%d vertices, %s as %s" % (l, d, dst))
    e.decide(ctx, "visits " + cls)


KOFF = [0, 2, 2, 5, 6, 8, 8, 11, 12]
KOFF1 = [1, 1, 3, 4, 7, 7, 9, 10, 12]
KOFF2 = [0, 3, 4, 6, 6, 9, 11, 12, 14, 14, 15, 17, 18, 20]
KOFF3 = [0, 1, 1, 3, 4, 4, 5]


def coord_range(depth, o, l):
    """the range of child coordinates which l elements at offset o span"""
    if l == 0:
        return 0, 0
    if depth == 1:
        return KOFF[o], KOFF[o + l]
    if depth == 2:
        a, b = KOFF1[o], KOFF1[o + l]
    else:
        a, b = KOFF3[o], KOFF3[o + l]
        if a == b:
            return 0, 0
        a, b = KOFF1[a + 1], KOFF1[b + 1]
    if a == b:
        return 0, 0
    return KOFF2[a + 1], KOFF2[b + 1]


GEO = {"POINT": "PointArray", "LINESTRING": "LinestringArray", "POLYGON": "PolygonArray", "MULTIPOINT": "MultipointArray",
       "MULTILINESTRING": "MultiLinestringArray", "MULTIPOLYGON": "MultiPolygonArray"}
SUF = {"XY": "", "XYZ": "_Z", "XYM": "_M", "XYZM": "_ZM"}


def traits(ctx):
    e = Eqs("#include <type_traits>\nusing namespace geoarrow::type_traits;\n")
    for gname, cls in GEO.items():
        for d in DIMS:
            G, D = "GEOARROW_GEOMETRY_TYPE_" + gname, "GEOARROW_DIMENSIONS_" + d
            A = "%s<%s<double>>" % (cls, d)
            g = "GeometryTypeTraits<%s,%s>" % (gname, d)
            e.group(g, where("GeometryTypeTraits", file=GT), "the traits of %s %s name the array class, coordinate and constants of that "
                    "geometry type" % (gname, d))
            T = "GeometryTypeTraits<%s, %s>" % (G, D)
            e.con(g, "std::is_same<%s::array_type, %s>::value" % (T, A))
            e.con(g, "std::is_same<%s::coord_type, %s<double>>::value" % (T, d))
            e.con(g, "std::is_same<%s::sequence_type, CoordSequence<%s<double>>>::value" % (T, d))
            e.con(g, "%s::geometry_type == %s" % (A, G))
            e.con(g, "%s::dimensions == %s" % (A, D))
            for ct, pre in (("SEPARATE", ""), ("INTERLEAVED", "INTERLEAVED_")):
                ty = "GEOARROW_TYPE_%s%s%s" % (pre, gname, SUF[d])
                e.con(g, "%s::type_id(GEOARROW_COORD_TYPE_%s) == %s" % (T, ct, ty))
                if not pre:
                    e.con(g, "%s::type_id() == %s" % (T, ty))
                h = "TypeTraits<%s>" % ty[14:]
                e.group(h, where("TypeTraits", file=GT), "the traits of %s name the array class, coordinate and constants of that type" % ty)
                e.con(h, "std::is_same<TypeTraits<%s>::array_type, %s>::value" % (ty, A))
                e.con(h, "std::is_same<TypeTraits<%s>::coord_type, %s<double>>::value" % (ty, d))
                e.con(h, "TypeTraits<%s>::geometry_type == %s" % (ty, G))
                e.con(h, "TypeTraits<%s>::dimensions == %s" % (ty, D))
                e.con(h, "TypeTraits<%s>::coord_type_id == GEOARROW_COORD_TYPE_%s" % (ty, ct))
                h = "dispatch/" + ty[14:]
                e.group(h, GT + " (GEOARROW_DISPATCH_NATIVE_ARRAY_CALL)", "a call dispatched on %s is made with the array class of that type" % ty)
                for mac in ("GEOARROW_DISPATCH_NATIVE_ARRAY_CALL", "GEOARROW_DISPATCH_ARRAY_CALL"):
                    e.con(h, "k.value == %s * 10 + %s" % (G, D), mac, pre="Kinds k; %s(%s, TakeKind, k); " % (mac, ty))
        for nm, val in (("Box", "GEOARROW_GEOMETRY_TYPE_BOX"),):
            for d in DIMS:
                g = "BoxArray<%s>" % d
                e.group(g, where("BoxArray"), "BoxArray<%s> says it is a box of those dimensions" % d)
                e.con(g, "BoxArray<%s<double>>::geometry_type == %s" % (d, val))
                e.con(g, "BoxArray<%s<double>>::dimensions == GEOARROW_DIMENSIONS_%s" % (d, d))
    for ty, off in (("WKB", "int32_t"), ("LARGE_WKB", "int64_t")):
        g = "TypeTraits<%s>" % ty
        e.group(g, where("TypeTraits", file=GT), "the traits of %s name the WKB array with offsets of that size" % ty)
        e.con(g, "std::is_same<TypeTraits<GEOARROW_TYPE_%s>::array_type, geoarrow::wkb_util::WKBArray<%s>>::value" % (ty, off))
        e.con(g, "std::is_same<TypeTraits<GEOARROW_TYPE_%s>::coord_type, XYZM<double>>::value" % ty)
    e.decide(ctx, "traits")
    refuse(ctx)


def refuse(ctx):
    """A dispatch on a type no array class is for must not return."""
    u = wit.Unit(PRE, cxx=True)
    bad = {"GEOARROW_DISPATCH_NATIVE_ARRAY_CALL": ["WKB", "LARGE_WKB", "WKT", "LARGE_WKT", "UNINITIALIZED", "BOX", "BOX_Z"],
           "GEOARROW_DISPATCH_ARRAY_CALL": ["LARGE_WKB", "WKT", "LARGE_WKT", "UNINITIALIZED", "BOX", "BOX_ZM"]}
    for mac, types in bad.items():
        for t in types:
            u.add((mac, t), "int", "Kinds k; %s(GEOARROW_TYPE_%s, TakeKind, k); return k.value;" % (mac, t))
    text = u.ir()
    bodies = dict(re.findall(r'^define [^\n]*@(w_\d+)\([^\n]*\{\n(.*?)^\}', text, re.M | re.S))
    for w, (mac, t) in u.keys.items():
        body = bodies.get(w, "")
        ctx.count("refused dispatches")
        if not body:
            raise AnalysisError("witness %s vanished" % w)
        if re.search(r'^\s+ret ', body, re.M):
            ctx.violation("traits/refuse/%s/%s" % (mac, t), GT + " (%s)" % mac,
                          "a call dispatched on %s, for which there is no array class, is made all the same" % t)


def run(ctx):
    todo = [("coords", coords), ("boxes", boxes)]
    todo += [("sequences " + d, sequences, False, d) for d in DIMS]
    todo += [("unaligned " + d, sequences, True, d) for d in DIMS]
    todo += [("init " + d, init, d) for d in DIMS]
    todo += [("lists", lists), ("validity", validity)]
    todo += [("visits " + c, visits, c) for c, _ in ARR]
    todo += [("traits", traits)]
    ctx.parts(todo)
