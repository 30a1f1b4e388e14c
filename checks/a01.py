"""A01: visiting a sliced array shows exactly the rows of its logical window.

For every native type, arrays are built of constants: offsets at each level, in
the coordinate array and in its children, validity, a visited sub-range.  What a
visitor must be told follows from the Arrow layout and is computed here,
independently of the code.  A witness function attaches the array to a view,
visits it with a visitor that compares against that table and returns whether
all of it agreed; the compiler's constant propagation over the current sources
reduces the function to true or false.  Nothing is executed.
"""
from vlib import build, eqs

TECHNIQUE = ("witness functions over constant arrays decided by the compiler's constant propagation: the trace a visitor "
             "sees against the Arrow layout, for every type, with offsets at every level")
LEVEL = "other"
EXPLANATION = (
    "For every native type and dimensions the trace a visitor sees is compared with the one the Arrow layout prescribes, "
    "for constant arrays with offsets at each level, in the coordinate array and in each of its children, with and without a "
    "validity bitmap, and for visited sub-ranges. The serialized types are visited through the reader, with the parser "
    "replaced by one that compares the bytes it is given. Each comparison is a function which constant "
    "propagation over the current sources reduces to true or false; it is false for a counterexample, which is reported. Nothing is "
    "executed. The equations hold for the listed arrays only.")

AV = "src/geoarrow/array_view.c"
AR = "src/geoarrow/array_reader.c"
PRE = open(build.VERIF + "/witness/visit.h").read() + "\n"
C = '#include "geoarrow/schema_view.c"\n#include "geoarrow/array_view.c"\n'

GEOM = {"POINT": (1, 0), "LINESTRING": (2, 1), "POLYGON": (3, 2), "MULTIPOINT": (4, 1), "MULTILINESTRING": (5, 2), "MULTIPOLYGON": (6, 3)}
DIMS = [("", 1, 2), ("_Z", 2, 3), ("_M", 3, 3), ("_ZM", 4, 4)]
OPTS = dict(internal=True, rounds=45, unroll=1000000, limit=250)
FS, NF, GS, RS, CO, RE, GE, FE, IT = range(1, 10)
STEPS = [2, 0, 1, 3, 1, 0, 2]


class Model:
    """One constant array: tables, and what to tell a visitor."""

    def __init__(self, geom, dim, inter, offs, rows, sep, validity, start=1):
        self.g, self.nlev = GEOM[geom]
        self.dim, self.n = dim
        self.inter, self.offs, self.rows, self.sep, self.validity = inter, offs, rows, sep, validity
        self.tables, self.lens = [], []
        need = rows
        for lev in range(self.nlev):
            t, v = [], start
            for i in range(offs[lev] + need + 3):
                t.append(v)
                v += STEPS[(i + lev) % len(STEPS)]
            self.lens.append(need)
            self.tables.append(t)
            need = t[offs[lev] + need]
        self.lens.append(need)
        phys = offs[self.nlev] + need + 4
        if inter:
            self.values = [[1000 + k for k in range(sep[0] + phys * self.n)]]
        else:
            self.values = [[1000 * (d + 1) + k for k in range(phys + sep[d])] for d in range(self.n)]

    def coord(self, c):
        p = self.offs[self.nlev] + c
        if self.inter:
            return [self.values[0][self.sep[0] + p * self.n + d] for d in range(self.n)]
        return [self.values[d][self.sep[d] + p] for d in range(self.n)]

    def bit(self, phys):
        return self.validity is None or (self.validity >> phys) & 1

    def span(self, lev, i):
        t = self.tables[lev]
        i += self.offs[lev]
        return range(t[i], t[i + 1])

    def want(self, off, length):
        o = []
        for i in range(off, off + length):
            o.append(FS)
            if self.bit(self.offs[0] + i):
                o += self.geometry(i)
            else:
                o.append(NF)
            o.append(FE)
        return o

    def co(self, cs):
        o = []
        for c in cs:
            o += [CO, self.n] + self.coord(c)
        return o

    def rings(self, rings):
        o = []
        for r in rings:
            o += [RS] + self.co(self.span(self.nlev - 1, r)) + [RE]
        return o

    def geometry(self, i):
        head = [GS, self.g, self.dim]
        def sub(kind, body):
            return [GS, kind, self.dim] + body + [GE]
        if self.g == 1:
            b = self.co([i])
        elif self.g == 2:
            b = self.co(self.span(0, i))
        elif self.g == 3:
            b = self.rings(self.span(0, i))
        elif self.g == 4:
            b = sum((sub(1, self.co([c])) for c in self.span(0, i)), [])
        elif self.g == 5:
            b = sum((sub(2, self.co(self.span(1, k))) for k in self.span(0, i)), [])
        else:
            b = sum((sub(3, self.rings(self.span(1, k))) for k in self.span(0, i)), [])
        return head + b + [GE]

    def code(self):
        s = []
        v = "0"
        if self.validity is not None:
            s.append("static const uint8_t V[] = {%s};" % ", ".join(str((self.validity >> (8 * k)) & 255) for k in range(3)))
            v = "V"
        for k, t in enumerate(self.tables):
            s.append("static const int32_t T%d[] = {%s};" % (k, ", ".join(map(str, t))))
        for d, t in enumerate(self.values):
            s.append("static const double X%d[] = {%s};" % (d, ", ".join(map(str, t))))
        nv = len(self.values)
        s.append("struct ArrowArray x[%d]; struct ArrowArray* xp[%d]; const void* xb[%d][2];" % (nv, nv, nv))
        for d in range(nv):
            ln = len(self.values[d]) - self.sep[d]
            s.append("xb[%d][0] = 0; xb[%d][1] = X%d; xp[%d] = &x[%d]; Arr(&x[%d], %d, %d, 2, xb[%d], 0, 0);"
                     % (d, d, d, d, d, d, ln, self.sep[d], d))
        s.append("struct ArrowArray a[%d]; struct ArrowArray* ap[%d]; const void* ab[%d][2];" % ((self.nlev + 1,) * 3))
        for k in range(self.nlev + 1):
            s.append("ap[%d] = &a[%d]; ab[%d][0] = %s;" % (k, k, k, v if k == 0 else "0"))
            if k < self.nlev:
                s.append("ab[%d][1] = T%d; Arr(&a[%d], %d, %d, 2, ab[%d], 1, ap + %d);"
                         % (k, k, k, self.lens[k], self.offs[k], k, k + 1))
            else:
                s.append("Arr(&a[%d], %d, %d, 1, ab[%d], %d, xp);" % (k, self.lens[k], self.offs[k], k, nv))
        return " ".join(s)


def tail(want, n, call):
    return ("static const int32_t W[] = {%s}; struct Want w; struct GeoArrowVisitor v; VisitorFor(&v, &w, W, %d); "
            "r |= %s; " % (", ".join(map(str, want + [0])), n, call))


def configs(nlev, full):
    """(offsets per level, child offsets) with rows and windows"""
    some = [[0] * (nlev + 1)] + [[2 if j == k else 0 for j in range(nlev + 1)] for k in range(nlev + 1)] + \
        [[1 + (j * 2) % 3 for j in range(nlev + 1)]]
    for o in some:
        for sep in ([0, 0, 0, 0], [1, 3, 2, 5]) if full else ([1, 3, 2, 5],):
            yield o, sep


def native(ctx, geom, inter):
    e = eqs.Eqs(PRE + C, cxx=False, **OPTS)
    nlev = GEOM[geom][1]
    for suf, dim, n in DIMS:
        ty = "GEOARROW_TYPE_%s%s%s" % ("INTERLEAVED_" if inter else "", geom, suf)
        g = ty[14:]
        e.group(g, AV + " (GeoArrowArrayViewSetArray, GeoArrowArrayViewVisitNative)",
                "visiting a %s array shows the rows of its window, as its offsets, validity and coordinates give them" % g)
        full = dim == 1
        for offs, sep in configs(nlev, full):
            for validity in (None, 0b110101101011, 0) if full else (0b110101101011,):
                rows = 4
                m = Model(geom, (dim, n), inter, offs, rows, sep, validity)
                for off, ln in ((0, rows), (1, 2), (3, 1), (2, 0)) if full else ((1, 3),):
                    if validity == 0 and off or validity is None and off != 1 and sep[1]:
                        continue
                    want = m.want(off, ln)
                    body = m.code() + " struct GeoArrowArrayView av; int r = GeoArrowArrayViewInitFromType(&av, %s); " \
                        "r |= GeoArrowArrayViewSetArray(&av, &a[0], 0); " % ty
                    body += tail(want, len(want), "GeoArrowArrayViewVisitNative(&av, %d, %d, &v)" % (off, ln))
                    shown = "array offsets %s, coordinate child offsets %s, validity %s, rows %d to %d" % (
                        offs, sep[:n] if not inter else sep[:1], "none" if validity is None else bin(validity), off, off + ln)
                    e.con(g, "r == 0 && !w.bad && w.at == w.end", shown, pre=body)
    e.decide(ctx, "visit")


def boxes(ctx):
    e = eqs.Eqs(PRE + C, cxx=False, **OPTS)
    g = "BOX"
    e.group(g, AV + " (GeoArrowArrayViewVisitNative)", "visiting a BOX array shows the outline of each box of its window, an empty polygon "
            "for a box without extent, and nulls as such")
    rows = 4
    lo, hi = [[10, 20, 30, 41, 50, 60, 70, 80], [110, 122, 131, 140, 150, 160, 170, 180]], []
    for kind in range(3):
        # kind 1: the first dimension of physical row 4 is inverted; 2: the second of row 5
        hi = [[x + 5 for x in lo[0]], [y + 7 for y in lo[1]]]
        if kind:
            hi[kind - 1][3 + kind] = lo[kind - 1][3 + kind] - 1
        else:
            hi[0][4] = lo[0][4]
        for off0 in (0, 1, 2):
            for sep in ([0, 0, 0, 0], [2, 0, 1, 3]):
                for validity in (None, 0b110101):
                    for off, ln in ((0, rows), (1, 2), (3, 1)):
                        cols = [[-9] * sep[d] + c for d, c in enumerate(lo + hi)]
                        want = []
                        for i in range(off0 + off, off0 + off + ln):
                            if validity is not None and not (validity >> i) & 1:
                                want += [FS, NF, FE]
                                continue
                            x0, y0, x1, y1 = lo[0][i], lo[1][i], hi[0][i], hi[1][i]
                            want += [FS, GS, 3, 1]
                            if x0 <= x1 and y0 <= y1:
                                want += [RS] + sum(([CO, 2, x, y] for x, y in ((x0, y0), (x1, y0), (x1, y1), (x0, y1), (x0, y0))), []) + [RE]
                            want += [GE, FE]
                        body = "".join("static const double X%d[] = {%s}; " % (d, ", ".join(map(str, c))) for d, c in enumerate(cols))
                        body += "struct ArrowArray a, x[4]; struct ArrowArray* xp[4]; const void* xb[4][2]; const void* ab[1]; "
                        if validity is not None:
                            body += "static const uint8_t V[] = {%d}; ab[0] = V; " % validity
                        else:
                            body += "ab[0] = 0; "
                        for d in range(4):
                            body += "xb[%d][0] = 0; xb[%d][1] = X%d; xp[%d] = &x[%d]; Arr(&x[%d], 8, %d, 2, xb[%d], 0, 0); " % (d, d, d, d, d, d, sep[d], d)
                        body += "Arr(&a, %d, %d, 1, ab, 4, xp); " % (rows, off0)
                        body += "struct GeoArrowArrayView av; int r = GeoArrowArrayViewInitFromType(&av, GEOARROW_TYPE_BOX); " \
                            "r |= GeoArrowArrayViewSetArray(&av, &a, 0); "
                        body += tail(want, len(want), "GeoArrowArrayViewVisitNative(&av, %d, %d, &v)" % (off, ln))
                        shown = "array offset %d, child offsets %s, validity %s, rows %d to %d%s" % (
                            off0, sep, "none" if validity is None else bin(validity), off, off + ln,
                            ["", ", xmin > xmax in stored row 4", ", ymin > ymax in stored row 5"][kind])
                        e.con(g, "r == 0 && !w.bad && w.at == w.end", shown, pre=body)
    for ty in ("WKB", "WKT", "BOX_Z", "BOX_M", "BOX_ZM"):
        h = "no visit/" + ty
        e.group(h, AV + " (GeoArrowArrayViewVisitNative)", "a %s view has no native visit: the visitor is told nothing and the caller gets an error" % ty)
        e.con(h, "r == 0 && q != 0 && w.at == W", "one row", pre="struct GeoArrowArrayView av; int r = GeoArrowArrayViewInitFromType(&av, GEOARROW_TYPE_%s), q = 0; "
              % ty + tail([], 0, "0") + "q = GeoArrowArrayViewVisitNative(&av, 0, 1, &v); ")
    e.decide(ctx, "visit")


PARSERS = r"""
static inline void Item(struct GeoArrowVisitor* v, const uint8_t* data, int64_t size) {
  Take(v, IT);
  Take(v, (int32_t)size);
  for (int64_t i = 0; i < size; i++) {
    Take(v, data[i]);
  }
}
GeoArrowErrorCode GeoArrowWKTReaderInit(struct GeoArrowWKTReader* r) { r->private_data = r; return 0; }
GeoArrowErrorCode GeoArrowWKBReaderInit(struct GeoArrowWKBReader* r) { r->private_data = r; return 0; }
void GeoArrowWKTReaderReset(struct GeoArrowWKTReader* r) { r->private_data = 0; }
void GeoArrowWKBReaderReset(struct GeoArrowWKBReader* r) { r->private_data = 0; }
GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* r, struct GeoArrowStringView s, struct GeoArrowVisitor* v) {
  Item(v, (const uint8_t*)s.data, s.size_bytes);
  return 0;
}
GeoArrowErrorCode GeoArrowWKBReaderVisit(struct GeoArrowWKBReader* r, struct GeoArrowBufferView s, struct GeoArrowVisitor* v) {
  Item(v, s.data, s.size_bytes);
  return 0;
}
static _Alignas(16) char Pool[4096];
#define ArrowMalloc NanoarrowMalloc
#define ArrowFree NanoarrowFree
#define ArrowErrorSet NanoarrowErrorSet
#include "nanoarrow/nanoarrow.c"
#undef ArrowMalloc
#undef ArrowFree
#undef ArrowErrorSet
void* ArrowMalloc(int64_t size) { return Pool; }
void ArrowFree(void* p) {}
#include "geoarrow/array_reader.c"
"""


def reader(ctx, ty):
    e = eqs.Eqs(PRE + C + PARSERS, cxx=False, depth=1, **OPTS)
    g = ty
    e.group(g, AR + " (GeoArrowArrayReaderSetArray, GeoArrowArrayReaderVisit)",
            "reading a %s array hands the parser the bytes of each row of its window, and reports nulls as such" % ty)
    rows, sizes = 4, [2, 0, 3, 1, 4, 0, 2, 1, 3, 2]
    large, view = ty.startswith("LARGE"), ty.endswith("VIEW")
    if view:
        sizes = [2, 0, 13, 1, 14, 0, 12, 1, 3, 2]
    for off0 in (0, 1, 3):
        for start in (0, 2) if not view else (0,):
            for validity in (None, 0b1110101101):
                for off, ln in ((0, rows), (1, 2), (3, 1), (2, 0)):
                    body, want, at, data, offs = "", [], start, [7] * start, [start]
                    blobs = []
                    for i, s in enumerate(sizes):
                        b = [(17 * i + k) % 200 + 1 for k in range(s)]
                        blobs.append(b)
                        data += b
                        at += s
                        offs.append(at)
                    for i in range(off0 + off, off0 + off + ln):
                        if validity is None or (validity >> i) & 1:
                            want += [IT, len(blobs[i])] + blobs[i]
                        else:
                            want += [FS, NF, FE]
                    v = "0"
                    if validity is not None:
                        body += "static const uint8_t V[] = {%d, %d}; " % (validity & 255, validity >> 8)
                        v = "V"
                    if view:
                        raw, long = [], []
                        for b in blobs:
                            n = len(b)
                            if n <= 12:
                                raw += [n, 0, 0, 0] + b + [0] * (12 - n)
                            else:
                                p = len(long)
                                raw += [n, 0, 0, 0] + b[:4] + [0, 0, 0, 0] + [p, 0, 0, 0]
                                long += b
                        body += "static const _Alignas(16) uint8_t T[] = {%s}; static const uint8_t D[] = {%s}; static const int64_t S[] = {%d}; " \
                            % (", ".join(map(str, raw)), ", ".join(map(str, long)), len(long))
                        body += "const void* b[4] = {%s, T, D, S}; struct ArrowArray a; Arr(&a, %d, %d, 4, b, 0, 0); " % (v, rows, off0)
                    else:
                        body += "static const %s T[] = {%s}; static const uint8_t D[] = {%s}; " % (
                            "int64_t" if large else "int32_t", ", ".join(map(str, offs)), ", ".join(map(str, data)))
                        body += "const void* b[3] = {%s, T, D}; struct ArrowArray a; Arr(&a, %d, %d, 3, b, 0, 0); " % (v, rows, off0)
                    body += "struct GeoArrowArrayReader rd; int r = GeoArrowArrayReaderInitFromType(&rd, GEOARROW_TYPE_%s); " \
                        "r |= GeoArrowArrayReaderSetArray(&rd, &a, 0); " % ty
                    body += tail(want, len(want), "GeoArrowArrayReaderVisit(&rd, %d, %d, &v)" % (off, ln))
                    shown = "array offset %d, first byte at %d, validity %s, rows %d to %d" % (
                        off0, start, "none" if validity is None else bin(validity), off, off + ln)
                    e.con(g, "r == 0 && !w.bad && w.at == w.end", shown, pre=body)
    e.decide(ctx, "read")


def run(ctx):
    todo = [("visit %s%s" % ("INTERLEAVED_" if i else "", g), native, g, i) for g in sorted(GEOM, key=lambda g: -GEOM[g][1]) for i in (0, 1)]
    todo += [("visit BOX", boxes)]
    todo += [("read " + t, reader, t) for t in ("WKT", "WKB", "LARGE_WKT", "LARGE_WKB", "WKT_VIEW", "WKB_VIEW")]
    ctx.parts(todo)
