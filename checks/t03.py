"""T03: changing dimensions keeps each ordinate in its role or fills it with NaN.

Witness functions move symbolic ordinates through the real copy and cast code;
the optimiser reduces each destination ordinate to the parameter it came from
or to a constant.  The native writer's callbacks are interpreted to see that
the source dimensions they hand to the copy are those announced by geom_start."""
import struct

from vlib import cmod, lin, slai, wit
from vlib.cmod import short
from vlib.cty import strip_const
from checks import v02

TECHNIQUE = ("constant propagation of symbolic ordinates through the copy and cast functions for all dimension pairs and layouts, "
             "plus abstract interpretation of the writer callbacks that supply the source dimensions")
LEVEL = "other"
EXPLANATION = (
    "For all 16 pairs of dimensions, both layouts, native and swapped byte order, the C copy functions and the C++ coordinate "
    "casts, vertex visits and sequences are reduced to dataflow: each destination ordinate must reduce to the source ordinate of "
    "the same role or to a quiet NaN constant. Loops over coordinates are unrolled for two or three coordinates with non-zero "
    "offsets (the loop bodies do not depend on the trip count otherwise). Every coords callback that copies is interpreted after "
    "its geom_start: the dimensions it passes must be the ones announced.")

DIMS = ["XY", "XYZ", "XYM", "XYZM"]
D = lambda d: "GEOARROW_DIMENSIONS_" + d
PRE = '''#include <string.h>
#include <stdint.h>
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"
'''
NP = 16          # 4 coordinates x 4 ordinates
DP = ", ".join("double p%d" % i for i in range(NP))
UP = ", ".join("uint64_t p%d" % i for i in range(NP))
INIT = "{%s}" % ", ".join("p%d" % i for i in range(NP))
SWP = "{%s}" % ", ".join("__builtin_bswap64(p%d)" % i for i in range(NP))


def src_layout(sd, inter, base="buf"):
    """C text of the pointers and stride of a source view whose element (coord i, ordinate j) is p[i*stride + j] or p[j*4 + i]."""
    n = len(sd)
    ptrs = [("%s + %d" % (base, j)) if inter else "%s + %d" % (base, 4 * j) for j in range(n)]
    return ptrs, (n if inter else 1)


def param(sd, inter, i, role):
    j = sd.index(role)
    return i * len(sd) + j if inter else 4 * j + i


def isnan(c):
    try:
        b = int(c, 16) if c.startswith("0x") else struct.unpack("<Q", struct.pack("<d", float(c)))[0]
    except ValueError:
        return False
    return (b >> 52) & 0x7ff == 0x7ff and b & ((1 << 52) - 1) != 0 and (b >> 51) & 1 == 1


def run(ctx):
    S = "src/geoarrow/geoarrow_type_inline.h"
    want = {}          # key -> (where, text, param index or None)
    u = wit.Unit(PRE)
    for sd in DIMS:
        for dd in DIMS:
            for si in (0, 1):
                ptrs, ss = src_layout(sd, si)
                for di in (0, 1):
                    for k in (0, 1):
                        for role in dd:
                            j = dd.index(role)
                            out = "dst[%s]" % ("%d" % ((2 + k) * len(dd) + j) if di else "%d" % (8 * j + 2 + k))
                            key = ("append", sd, dd, si, di, k, role)
                            u.add(key, "double", """
  double buf[16] = %s; double dst[32]; memset(dst, 0x55, sizeof(dst));
  struct GeoArrowCoordView src; memset(&src, 0, sizeof(src)); %s src.n_coords = 4; src.n_values = %d; src.coords_stride = %d;
  struct GeoArrowBuilder b; memset(&b, 0, sizeof(b)); b.view.schema_view.dimensions = %s; b.view.schema_view.coord_type = %s;
  %s b.view.coords.n_values = %d; b.view.coords.coords_stride = %d; b.view.coords.size_coords = 2; b.view.coords.capacity_coords = 4;
  GeoArrowBuilderCoordsAppend(&b, &src, %s, 1, 2); return %s;""" % (
                                INIT, " ".join("src.values[%d] = %s;" % (n, p) for n, p in enumerate(ptrs)), len(sd), ss,
                                D(dd), "GEOARROW_COORD_TYPE_INTERLEAVED" if di else "GEOARROW_COORD_TYPE_SEPARATE",
                                " ".join("b.view.coords.values[%d] = dst + %d;" % (n, n if di else 8 * n) for n in range(len(dd))),
                                len(dd), len(dd) if di else 1, D(sd), out), DP)
                            want[key] = (S + ":GeoArrowBuilderCoordsAppend", param(sd, si, 1 + k, role) if role in sd else None)
                    # geometry view to raw output, native and swapped
                    for swap in (0, 1):
                        for k in (0, 1, 2):
                            for role in dd:
                                if di and k == 1:
                                    continue
                                j = dd.index(role)
                                out = "dst[%d]" % (k * len(dd) + j if di else 8 * j + k)
                                key = ("generic", sd, dd, si, di, swap, k, role)
                                nodes = "".join("""
  n[%d].geometry_type = %s; n[%d].dimensions = %s; n[%d].flags = %s; n[%d].size = %d; %s""" % (
                                    q, gt, q, D(sd), q, "GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN" if swap else "0", q, size,
                                    " ".join("n[%d].coords[%d] = (const uint8_t*)(%s + %d); n[%d].coord_stride[%d] = %d;" % (
                                        q, m, p, off * ss, q, m, 8 * ss) for m, p in enumerate(ptrs)))
                                    for q, gt, size, off in ((0, "GEOARROW_GEOMETRY_TYPE_LINESTRING", 2, 0),
                                                             (1, "GEOARROW_GEOMETRY_TYPE_POINT", 1, 2)))
                                u.add(key, "uint64_t", """
  uint64_t buf[16] = %s; uint64_t dst[32]; memset(dst, 0x55, sizeof(dst)); struct GeoArrowGeometryNode n[2]; memset(n, 0, sizeof(n)); %s
  struct GeoArrowGeometryView g = {n, 2}; uint8_t* out[4] = {0, 0, 0, 0}; int32_t st[4] = {0, 0, 0, 0};
  %s GeoArrowGeometryViewCopyCoordsGeneric(g, out, st, %s); return %s;""" % (
                                    SWP if swap else INIT, nodes,
                                    " ".join("out[%d] = (uint8_t*)(dst + %d); st[%d] = %d;" % (m, m if di else 8 * m, m, 8 * (len(dd) if di else 1))
                                             for m in range(len(dd))), D(dd), out), UP)
                                want[key] = (S + ":GeoArrowGeometryViewCopyCoordsGeneric", param(sd, si, k, role) if role in sd else None)
    for sd in DIMS:
        for si in (0, 1):
            ptrs, ss = src_layout(sd, si)
            for swap in (0, 1):
                for k in (0, 1):
                    for role in sd:
                        key = ("sequence", sd, si, swap, k, role)
                        u.add(key, "uint64_t", """
  uint64_t buf[16] = %s; uint64_t dst[16]; struct GeoArrowGeometryNode n; memset(&n, 0, sizeof(n)); memset(dst, 0x55, sizeof(dst));
  n.geometry_type = GEOARROW_GEOMETRY_TYPE_LINESTRING; n.dimensions = %s; n.flags = %s; n.size = 2; %s
  GeoArrowGeometryNodeWriteSequence(&n, (uint8_t*)dst, sizeof(dst)); return dst[%d];""" % (
                            SWP if swap else INIT, D(sd), "GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN" if swap else "0",
                            " ".join("n.coords[%d] = (const uint8_t*)(%s); n.coord_stride[%d] = %d;" % (m, p, m, 8 * ss)
                                     for m, p in enumerate(ptrs)), k * len(sd) + sd.index(role)), UP)
                        want[key] = (S + ":GeoArrowGeometryNodeWriteSequence", param(sd, si, k, role))

    x = wit.Unit("#include <cstdlib>\n#include <cstring>\n#include \"geoarrow/geoarrow.hpp\"\nusing namespace geoarrow::array_util;\n",
                 cxx=True, fast_float=True)
    H = "src/geoarrow/hpp/array_util.hpp"
    for sd in DIMS:
        lst = ", ".join("p%d" % j for j in range(len(sd)))
        for role in "XYZM":
            key = ("accessor", sd, role)
            x.add(key, "double", "%s<double> c{%s}; return c.%s();" % (sd, lst, role.lower()), DP)
            want[key] = (H + ":" + sd, sd.index(role) if role in sd else None)
        for role in sd:
            key = ("from", sd, role)
            x.add(key, "double", "return %s<double>::FromXYZM(p0, p1, p2, p3)[%d];" % (sd, sd.index(role)), DP)
            want[key] = (H + ":FromXYZM", "XYZM".index(role))
        for dd in DIMS:
            for role in dd:
                j = dd.index(role)
                w = sd.index(role) if role in sd else None
                for nm, expr in (("cast", "CoordCast<{s}<double>, {d}<double>>(c)[%d]" % j),):
                    x.add((nm, sd, dd, role), "double", ("{s}<double> c{{{l}}}; return " + expr + ";").format(s=sd, d=dd, l=lst), DP)
                    want[(nm, sd, dd, role)] = (H + ":CoordCast", w)
                x.add(("vertex", sd, dd, role), "double", "%s<double> c{%s}; double out = 0; c.VisitVertices<%s<double>>([&](%s<double> v) { out = v[%d]; }); return out;"
                      % (sd, lst, dd, dd, j), DP)
                want[("vertex", sd, dd, role)] = (H + ":%s::VisitVertices" % sd, w)
                for e in (0, 1):
                    x.add(("edge", sd, dd, role, e), "double", "%s<double> c{%s}; double out = 0; c.VisitEdges<%s<double>>([&](%s<double> v, %s<double> w) { out = %s[%d]; }); return out;"
                          % (sd, lst, dd, dd, dd, "vw"[e], j), DP)
                    want[("edge", sd, dd, role, e)] = (H + ":%s::VisitEdges" % sd, w)
        for cls, fl in (("CoordSequence<%s<double>>", ""), ("UnalignedCoordSequence<%s<double>>", "U")):
            for inter in (0, 1):
                ptrs, ss = src_layout(sd, inter)
                if inter:
                    init = "s.InitInterleaved(3, buf);"
                else:
                    init = "s.InitSeparated(3, {%s});" % ", ".join(ptrs)
                for role in sd:
                    for k, get in ((1, "s.coord(1)[%d]"), (2, "s.Slice(1, 2).coord(1)[%d]"), (2, "s.begin()[2][%d]"), (2, "(*[&] { auto it = s.begin(); ++it; it += 1; return it; }())[%d]")):
                        key = ("seq", fl, sd, inter, role, get)
                        x.add(key, "double", "double buf[16] = %s; %s s; %s return %s;" % (INIT, cls % sd, init, get % sd.index(role)), DP)
                        want[key] = (H + ":" + (cls % sd), param(sd, inter, k, role))
                for vd in DIMS:
                    # attached to a C array view: accepted only if every role exists in the array
                    vptrs, vs = src_layout(vd, inter)
                    view = "struct GeoArrowArrayView v; memset(&v, 0, sizeof(v)); v.schema_view.dimensions = %s; v.length[0] = 2; v.offset[0] = 1; %s v.coords.n_coords = 4; v.coords.n_values = %d; v.coords.coords_stride = %d;" % (
                        D(vd), " ".join("v.coords.values[%d] = %s;" % (m, p) for m, p in enumerate(vptrs)), len(vd), vs)
                    for role in sd:
                        key = ("view", fl, sd, vd, inter, role)
                        x.add(key, "double", "double buf[16] = %s; %s %s s; if (s.InitFrom(&v)) return p15; return s.coord(1)[%d];" % (
                            INIT, view, cls % sd, sd.index(role)), DP)
                        want[key] = (H + ":" + (cls % sd) + "::InitFrom", ("either", 15, param(vd, inter, 2, role) if role in vd else 15))
                        if sd == vd:
                            want[key] = (H + ":" + (cls % sd) + "::InitFrom", param(vd, inter, 2, role))
    for unit in (u, x):
        r = unit.solve()
        for key, v in r.items():
            where, w = want[key]
            ctx.count("obligations")
            desc = "/".join(str(k) for k in key)
            role = next((k for k in reversed(key) if isinstance(k, str) and k in "XYZM" and len(k) == 1), "?")
            if v[0] == "open":
                ctx.violation("open/" + desc, where, "destination %s does not reduce to a source ordinate or NaN: %s" % (role, v[1][:200]))
                continue
            nan = (v[0] == "dbl" and isnan(v[1])) or (v[0] == "int" and isnan("0x%x" % (v[1] & (2**64 - 1))))
            if isinstance(w, tuple):
                ok = v[0] == "arg" and v[1] in w[1:]
            elif w is None:
                ok = nan
            else:
                ok = v == ("arg", w)
            if not ok:
                got = "NaN" if nan else "source element %d" % v[1] if v[0] == "arg" else "the constant %s" % (v[1:],)
                exp = "NaN" if w is None else "source element %s" % (w,)
                ctx.violation(desc, where, "%s: destination %s receives %s instead of %s" % (key[0] + " " + "->".join(
                    str(k) for k in key[1:3] if isinstance(k, str)), role, got, exp))
    callbacks(ctx)


class DimMon(slai.Monitor):
    """At calls that take (coord view, dimensions): the dimensions must be the announced ones."""

    def __init__(self):
        self.calls = []

    def on_exit(self, eng, st, fn, val):
        pass

    def before_call(self, eng, st, ins, name, fn, args):
        if fn is None or not fn.dtypes:
            return None
        ts = [strip_const(t or "").replace("const ", "") for t in fn.dtypes[1:]]
        for k in range(1, len(ts)):
            if ts[k].startswith("enum GeoArrowDimensions") and "GeoArrowCoordView*" in ts[k - 1]:
                self.calls.append((eng.entry, ins, args[k - 1], args[k], st.ghost.get("dims"), st.ghost.get("coords")))
        return None


def callbacks(ctx):
    mod = cmod.c_module()
    fams = {}
    for f in v02.visitor_stores(mod):
        mf = mod.functions[f]
        vmon = v02.Mon(mod, type("Q", (), {"violation": lambda *a: None})())
        if not any("GeoArrowNativeWriter" in short(mf.file) or "native" in short(mf.file) for _ in (0,)):
            continue
        eng = slai.Engine(mod, monitors=[vmon], inline=True, mem_checks=False, force_inline={mod.functions[x].dname for x in v02.visitor_stores(mod)})

        def setup(e, st, fn, args):
            if args and args[0][0] == "p":
                st.ghost["param"] = args[0][1]
            return args
        eng.run_entry(mf, setup)
        for sets in vmon.sets.get(mf.name, ()):
            if "coords" in sets and "geom_start" in sets:
                fams[(sets["geom_start"], sets["coords"])] = f
    ctx.require(len(fams) >= 3, "native writer callback families not found")
    byname = {}
    for f in mod.defined():
        if cmod.is_geoarrow(f):
            byname.setdefault(f.dname, f)
    n = 0
    for gs, co in sorted(fams):
        g, c = byname[gs], byname[co]
        mon = DimMon()
        eng = slai.Engine(mod, monitors=[mon], inline=True, mem_checks=False)
        eng.entry = g
        eng.stack, eng.steps = [], 0
        st = slai.State()
        args = eng.bind_params(st, g)
        dim = args[2]
        rets = eng.exec_function(g, st, args)
        eng.entry = c
        for s, v, _ in rets:
            if v is not None and v[0] == "i" and (s.num.prove_ne(v[1]) or (v[1][1] == () and v[1][0] != 0)):
                continue
            cargs = eng.bind_params(s, c)
            cargs = [args[0]] + list(cargs[1:])
            s.ghost["dims"] = dim
            eng.exec_function(c, s, cargs)
        for e, ins, cv, dv, want, _ in mon.calls:
            n += 1
            if dv != want:
                ctx.violation("callback/%s" % co, "%s:%d" % (short(c.file), ins.line or c.line),
                              "%s copies coordinates with source dimensions other than those %s was given" % (co, gs))
    ctx.count("callback_copies", n)
    ctx.note("callback_families", ["%s + %s" % k for k in sorted(fams)])
    ctx.require(n >= 4, "too few copying callbacks examined")
