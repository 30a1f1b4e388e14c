"""M06: counts of children and buffers are checked before entries are accessed.

For every supported type and every nesting level a witness function attaches an
array (or schema) which is right above that level and has a wrong count there:
any number of children below or above the right one, any wrong number of
buffers, both unconstrained parameters, and the entries are behind a pointer
which is itself an unconstrained parameter.  Constant propagation over the
current sources must reduce the function to a non-zero return code: then no
path from there accesses an entry or succeeds.  A load through the parameter
that is left in the reduced function, or a return of zero, is a violation.
Nothing is executed.
"""
import re

from vlib import build, wit

TECHNIQUE = ("witness functions with unconstrained wrong counts and unconstrained entry pointers, decided by the compiler's constant "
             "propagation: must reduce to an error code without a load through the pointer")
LEVEL = "proof"
EXPLANATION = (
    "For every native and serialized type and each nesting level, arrays and schemas which are right up to that level and have a wrong number "
    "of children or buffers there are attached in witness functions. The wrong count and the pointer to the entries are "
    "unconstrained parameters, so one function stands for all of them; constant propagation over the current sources has to reduce it to an error "
    "code, which leaves no access to an entry. A remaining load through the pointer or an accepted count is reported. What the "
    "types with large offsets and views do is decided by the vendored nanoarrow and is not looked at.")

AV = "src/geoarrow/array_view.c (GeoArrowArrayViewSetArray)"
SV = "src/geoarrow/schema_view.c (GeoArrowSchemaViewInitFromStorage)"
PRE = open(build.VERIF + "/witness/visit.h").read() + "\n"
STR = open(build.VERIF + "/witness/strings.h").read() + "\n"
C = '#include "geoarrow/schema_view.c"\n#include "geoarrow/array_view.c"\n'
GEOM = {"POINT": 0, "LINESTRING": 1, "POLYGON": 2, "MULTIPOINT": 1, "MULTILINESTRING": 2, "MULTIPOLYGON": 3}
DIMS = [("", "xy"), ("_Z", "xyz"), ("_M", "xym"), ("_ZM", "xyzm")]
OPTS = dict(internal=True, rounds=45, unroll=1000000)
PAR = "int64_t n, void** p, struct GeoArrowArrayView* restrict out"


class Cases:
    def __init__(self, prelude, **kw):
        self.u = wit.Unit(prelude, **OPTS, **kw)
        self.meta = {}

    def add(self, key, where, text, body, wrong):
        """`wrong`: the counts n looked at, or None for a case that must be accepted"""
        if wrong and wrong[2] == "<" and int(wrong[4:]) > 1:
            for i in range(1, int(wrong[4:])):
                self.add("%s, %d" % (key, i), where, "%s (%d)" % (text, i), body, "n == %d" % i)
            wrong = "n < 1"
        m = re.match(r'n (<|>|==) (\d+)$', wrong or "n == 0")
        k = int(m.group(2))
        pre = {"<": "n = %d - (int64_t)((uint64_t)n >> 1); " % (k - 1), ">": "n = %d + (int64_t)((uint64_t)n >> 2); " % (k + 1),
               "==": "n = %d; " % k}[m.group(1)]
        self.u.add(key, "int", pre + body, PAR)
        self.meta[key] = (where, text, wrong)

    def decide(self, ctx, part):
        res = self.u.solve()
        bodies = dict(re.findall(r'^define [^\n]*@(w_\d+)\([^\n]*\{\n(.*?)^\}', self.u.ir(), re.M | re.S))
        heads = dict(re.findall(r'^define [^\n]*@(w_\d+)\(([^\n]*?)\)[^\n]*\{', self.u.ir(), re.M))
        for w, key in self.u.keys.items():
            where, text, wrong = self.meta[key]
            r = res[key]
            if wrong is None:
                ctx.count("well formed %s" % part)
                if r != ("int", 0):
                    ctx.undecided["%s/%s" % (part, key)] = "a well formed one is not seen to be accepted"
                continue
            ctx.count("wrong counts (each for every value)")
            if r[0] == "int" and r[1] != 0:
                ctx.count("refused without access, for every value")
                continue
            if r == ("int", 0):
                ctx.violation("%s/%s" % (part, key), where, text + " is accepted")
                continue
            have = int(wrong.split()[2]) if wrong[2] == "=" else 0
            seen = through(bodies[w], heads[w])
            codes = codes_of(bodies[w])
            if codes and 0 in codes:
                ctx.violation("%s/%s" % (part, key), where, text + " is accepted for some counts")
            elif codes and wrong[2] == ">":
                ctx.count("refused after a look at entries which exist")
            elif any(i is None or i < 0 or i >= have for i in seen):
                ctx.violation("%s/%s" % (part, key), where, text + ": an entry is accessed all the same")
            elif not codes:
                ctx.undecided["%s/%s" % (part, key)] = "does not reduce: %s" % r[1][:120]
            else:
                ctx.count("refused after a look at entries which exist")


def through(body, head):
    """which entries behind the second parameter are loaded: a set of indices, with None for one that is not a constant"""
    par = re.findall(r'%[\w.]+', head)[1]
    at, out = {par: 0}, set()
    for _ in range(4):
        for m in re.finditer(r'^\s*(%[\w.]+) = (getelementptr|load|phi|select)\b([^\n]*)', body, re.M):
            used = set(re.findall(r'%[\w.]+', m.group(3))) & set(at)
            if not used:
                continue
            if m.group(2) == "load":
                out |= {at[u] for u in used}
                continue
            g = re.search(r', i64 (-?\d+)$', m.group(3)) if re.match(r'( inbounds)? ptr, ptr %s,' % re.escape(par), m.group(3)) else None
            at[m.group(1)] = int(g.group(1)) if g else None
    return out


def codes_of(body):
    """the constants a reduced body returns, if it returns nothing else"""
    rets = re.findall(r'^\s*ret i32 (\S+)', body, re.M)
    out = set()
    for r in rets:
        if re.match(r'^-?\d+$', r):
            out.add(int(r))
            continue
        m = re.search(r'^\s*%s = select i1 \S+, i32 (-?\d+), i32 (-?\d+)' % re.escape(r), body, re.M)
        if m:
            out |= {int(m.group(1)), int(m.group(2))}
            continue
        m = re.search(r'^\s*%s = phi i32 ([^\n]*)' % re.escape(r), body, re.M)
        if not m:
            return None
        vs = re.findall(r'\[ (\S+), ', m.group(1))
        if not all(re.match(r'^-?\d+$', v) for v in vs):
            return None
        out |= set(map(int, vs))
    return out


def lists(k):
    s = "static const int32_t T[] = {0, 1, 2}; static const double X[8]; const void* lb[2] = {0, T}; const void* xb[2] = {0, X}; const void* ab[1] = {0}; "
    s += "struct ArrowArray l[4], a, x[8]; struct ArrowArray *lp[4], *xp[8]; "
    s += "for (int i = 0; i < 8; i++) { xp[i] = &x[i]; Arr(&x[i], 8, 0, 2, xb, 0, 0); } "
    for j in range(k):
        s += "lp[%d] = %s; Arr(&l[%d], 1, 0, 2, lb, 1, lp + %d); " % (j, "&a" if j == k - 1 else "&l[%d]" % (j + 1), j, j)
    return s


def arrays(ctx, geom):
    c = Cases(PRE + C)
    k = GEOM[geom]
    for suf, dims in DIMS:
        for inter in (0, 1):
            ty = "%s%s%s" % ("INTERLEAVED_" if inter else "", geom, suf)
            nv = 1 if inter else len(dims)
            top = "&l[0]" if k else "&a"
            init = "struct GeoArrowArrayView av; if (GeoArrowArrayViewInitFromType(&av, GEOARROW_TYPE_%s)) return 1; " % ty
            done = init + "int r = GeoArrowArrayViewSetArray(&av, %s, 0); *out = av; return r;" % top
            good = lists(k) + "Arr(&a, 2, 0, 1, ab, %d, xp); " % nv
            c.add(ty, AV, "", good + done, None)
            for wrong, say in (("n < %d" % nv, "fewer"), ("n > %d" % nv, "more")):
                c.add("%s/coordinates have %s children" % (ty, say), AV, "a %s array whose coordinates have %s than %d children" % (ty, say, nv),
                      lists(k) + "Arr(&a, 2, 0, 1, ab, n, (struct ArrowArray**)p); " + done, wrong)
            for i in range(nv):
                for wrong, say in (("n < 2", "fewer"), ("n > 2", "more")):
                    c.add("%s/child %d %s buffers" % (ty, i, say), AV, "a %s array whose coordinate child %d has %s than 2 buffers" % (ty, i, say),
                          good + "x[%d].n_buffers = n; x[%d].buffers = (const void**)p; " % (i, i) + done, wrong)
            for j in range(k):
                for wrong, say in (("n < 1", "no child"), ("n > 1", "more than one child")):
                    c.add("%s/level %d has %s" % (ty, j, say), AV, "a %s array whose list at level %d has %s" % (ty, j, say),
                          good + "l[%d].n_children = n; l[%d].children = (struct ArrowArray**)p; " % (j, j) + done, wrong)
                    c.add("%s/empty level %d has %s" % (ty, j, say), AV, "a %s array whose list at level %d has no element and %s" % (ty, j, say),
                          good + "l[%d].length = 0; l[%d].n_children = n; l[%d].children = (struct ArrowArray**)p; " % (j, j, j) + done, wrong)
                for wrong, say in (("n < 2", "too few"), ("n > 2", "too many")):
                    c.add("%s/level %d has %s buffers" % (ty, j, say), AV, "a %s array whose list at level %d has %s buffers" % (ty, j, say),
                          good + "l[%d].n_buffers = n; l[%d].buffers = (const void**)p; " % (j, j) + done, wrong)
            if not k:
                c.add("%s/no buffers" % ty, AV, "a %s array without buffers" % ty,
                      good + "a.n_buffers = n; a.buffers = (const void**)p; " + done, "n < 1")
    c.decide(ctx, "arrays")


def others(ctx):
    c = Cases(PRE + C)
    for suf, dims in DIMS:
        ty = "BOX" + suf
        nv = 2 * len(dims)
        good = lists(0) + "Arr(&a, 2, 0, 1, ab, %d, xp); " % nv
        done = "struct GeoArrowArrayView av; if (GeoArrowArrayViewInitFromType(&av, GEOARROW_TYPE_%s)) return 1; " \
            "int r = GeoArrowArrayViewSetArray(&av, &a, 0); *out = av; return r;" % ty
        c.add(ty, AV, "", good + done, None)
        for wrong, say in (("n < %d" % nv, "fewer"), ("n > %d" % nv, "more")):
            c.add("%s/%s children" % (ty, say), AV, "a %s array with %s than %d children" % (ty, say, nv),
                  good + "a.n_children = n; a.children = (struct ArrowArray**)p; " + done, wrong)
        for i in range(nv):
            for wrong, say in (("n < 2", "fewer"), ("n > 2", "more")):
                c.add("%s/child %d %s buffers" % (ty, i, say), AV, "a %s array whose child %d has %s than 2 buffers" % (ty, i, say),
                      good + "x[%d].n_buffers = n; x[%d].buffers = (const void**)p; " % (i, i) + done, wrong)
        c.add("%s/no buffers" % ty, AV, "a %s array without buffers" % ty, good + "a.n_buffers = n; a.buffers = (const void**)p; " + done, "n < 1")
    for ty in ("WKB", "WKT"):
        done = "struct GeoArrowArrayView av; if (GeoArrowArrayViewInitFromType(&av, GEOARROW_TYPE_%s)) return 1; " \
            "int r = GeoArrowArrayViewSetArray(&av, &a, 0); *out = av; return r;" % ty
        good = lists(0) + "static const uint8_t D[8]; const void* sb[3] = {0, T, D}; Arr(&a, 1, 0, 3, sb, 0, 0); "
        c.add(ty, AV, "", good + done, None)
        for wrong, say in (("n < 3", "fewer"), ("n > 3", "more")):
            c.add("%s/%s buffers" % (ty, say), AV, "a %s array with %s than 3 buffers" % (ty, say),
                  good + "a.n_buffers = n; a.buffers = (const void**)p; " + done, wrong)
    c.decide(ctx, "arrays")


def schemas(ctx, geom):
    c = Cases(PRE + STR + '#include "geoarrow/metadata.c"\n#include "geoarrow/schema_view.c"\n', depth=max(1, GEOM.get(geom, 0)))
    ext = "geoarrow." + geom.lower()
    k = GEOM.get(geom, 0)
    base = "struct ArrowSchema l[4], a, x[8], d; struct ArrowSchema *lp[4], *xp[8]; struct GeoArrowStringView e = {\"%s\", %d}; " % (ext, len(ext))
    base += "for (int i = 0; i < 8; i++) { xp[i] = &x[i]; Sch(&x[i], \"g\", \"\", 0, 0); } "
    for j in range(k):
        base += "lp[%d] = %s; Sch(&l[%d], \"+l\", \"\", 1, lp + %d); " % (j, "&a" if j == k - 1 else "&l[%d]" % (j + 1), j, j)
    for suf, dims in DIMS:
        for inter in (0, 1) if geom != "BOX" else (0,):
            ty = "%s%s%s" % ("INTERLEAVED_" if inter else "", geom, suf)
            done = "struct GeoArrowSchemaView sv; int r = GeoArrowSchemaViewInitFromStorage(&sv, %s, e, 0); " % ("&l[0]" if k else "&a")
            bad = done + "return r;"
            if geom == "BOX":
                names = [q + m for m in ("min", "max") for q in dims]
                good = base + "".join("x[%d].name = \"%s\"; " % t for t in enumerate(names)) + "Sch(&a, \"+s\", \"\", %d, xp); " % len(names)
            elif inter:
                good = base + "x[0].name = \"%s\"; Sch(&a, \"+w:%d\", \"\", 1, xp); " % (dims, len(dims))
            else:
                good = base + "".join("x[%d].name = \"%s\"; " % t for t in enumerate(dims)) + "Sch(&a, \"+s\", \"\", %d, xp); " % len(dims)
            c.add(ty, SV, "", good + done + "return r ? r : sv.type != GEOARROW_TYPE_%s;" % ty, None)
            if geom == "BOX":
                ws = [("n < 4", "fewer than 4 children"), ("n == 5", "5 children"), ("n == 7", "7 children"), ("n > 8", "more than 8 children")]
            elif inter:
                ws = [("n < 1", "no child"), ("n > 1", "more than one child")]
            else:
                ws = [("n < 2", "fewer than 2 children"), ("n > 4", "more than 4 children")]
            if suf == "" or inter:
                for wrong, say in ws:
                    c.add("%s/coordinates have %s" % (ty, say), SV, "a %s schema whose coordinates have %s" % (ty, say),
                          good + "a.n_children = n; a.children = (struct ArrowSchema**)p; " + bad, wrong)
                for j in range(k):
                    for wrong, say in (("n < 1", "no child"), ("n > 1", "more than one child")):
                        c.add("%s/level %d has %s" % (ty, j, say), SV, "a %s schema whose list at level %d has %s" % (ty, j, say),
                              good + "l[%d].n_children = n; l[%d].children = (struct ArrowSchema**)p; " % (j, j) + bad, wrong)
                    for f in ("+L", "+w:2", "+s", "u") if suf == "" else ("+L",):
                        c.add("%s/level %d is %s" % (ty, j, f), SV, "a %s schema with '%s' where level %d should be a list" % (ty, f, j),
                              good + "l[%d].format = \"%s\"; " % (j, f) + bad, "n == 0")
                for f in ("+l", "u", "g", "+L", "i") if k == 0 else ("+l", "u"):
                    c.add("%s/coordinates are %s" % (ty, f), SV, "a %s schema whose coordinates are '%s'" % (ty, f),
                          good + "a.format = \"%s\"; " % f + bad, "n == 0")
            if geom.startswith("MULTI") and suf:
                continue
            for i in range(1 if inter else len(dims) * (2 if geom == "BOX" else 1)):
                for f in ("f", "l", "e") if k == 0 and suf == "" else ("f",):
                    c.add("%s/child %d is %s" % (ty, i, f), SV, "a %s schema whose coordinate child %d is '%s', not double" % (ty, i, f),
                          good + "x[%d].format = \"%s\"; " % (i, f) + bad, "n == 0")
                if not inter:
                    for nm in ("\"q\"", "\"\"", "0", "\"xyz\"", "\"zmin\"") if k == 0 and suf == "" else ("\"q\"",):
                        if geom == "BOX" and i == 2 and nm == "\"zmin\"" and len(dims) > 2:
                            continue
                        c.add("%s/child %d is called %s" % (ty, i, nm.replace("\"", "'")), SV, "a %s schema whose coordinate child %d is called %s"
                              % (ty, i, nm if nm != "0" else "nothing"), good + "x[%d].name = %s; " % (i, nm) + bad, "n == 0")
            if inter:
                for w in (1, 2, 3, 4, 5):
                    if w != len(dims):
                        c.add("%s/width %d" % (ty, w), SV, "a %s schema of width %d" % (ty, w), good + "a.format = \"+w:%d\"; " % w + bad, "n == 0")
    c.decide(ctx, "schemas")


def run(ctx):
    todo = [("arrays " + g, arrays, g) for g in sorted(GEOM, key=lambda g: -GEOM[g])]
    todo += [("arrays others", others)]
    todo += [("schemas " + g, schemas, g) for g in list(GEOM) + ["BOX"]]
    ctx.parts(todo)
