"""Abstract interpreter over the exported IR.

Domain: linear inequalities over integer symbols (lin.Num), memory as regions
with cells keyed by (possibly symbolic) offsets, typed lazily from debug info.
States are kept apart along paths up to a cap and then joined; loops get
invariants by a Houdini-style iteration; internal callees are interpreted in
place unless they are recursive or too large, in which case the type contracts
(slices, buffers, field ranges) are asserted before and assumed after the call.
"""
import re
import itertools
import sys

from . import lin
from .ir import val_ids, short
from .cty import Types, Contracts, strip_const, is_ptr, pointee_raw, struct_name, llvm_struct, INT_SIGN
from .build import AnalysisError

sys.setrecursionlimit(20000)

TOP = ("t",)
NULL = ("n",)
_rc = itertools.count(1)


class Region:
    __slots__ = ("id", "kind", "ty", "size", "label", "const", "name", "many", "site", "ext")

    def __init__(self, kind, ty=None, size=None, label="", const=False, name="", many=False, site=None):
        self.id = next(_rc)
        self.kind, self.ty, self.size, self.label = kind, ty, size, label
        self.const, self.name, self.many, self.site = const, name, many, site
        self.ext = False

    def __repr__(self):
        return "<R%d %s %s %s>" % (self.id, self.kind, self.ty, self.label)


class State:
    __slots__ = ("regs", "mem", "num", "ghost", "null", "written", "views", "prods")

    def __init__(self):
        self.regs = {}
        self.mem = {}
        self.num = lin.Num()
        self.ghost = {}
        self.null = {}
        self.written = set()
        self.views = {}
        self.prods = {}

    def copy(self):
        s = State.__new__(State)
        s.regs = dict(self.regs)
        s.mem = dict(self.mem)
        s.num = self.num.copy()
        s.ghost = dict(self.ghost)
        s.null = dict(self.null)
        s.written = set(self.written)
        s.views = dict(self.views)
        s.prods = dict(self.prods)
        return s


def width(t):
    if t.startswith("i") and t[1:].isdigit():
        return int(t[1:])
    return None


class Monitor:
    """Hooks; subclasses implement a property on top of the interpreter."""

    def before_call(self, eng, st, inst, name, fn, args):
        """Return None, or a list of (state, value) to replace the call."""
        return None

    def after_call(self, eng, st, inst, name, fn, args, val, mode):
        """May return a list of states; mode is 'model','inline','modular','unknown'."""
        return None

    def on_return(self, eng, st, fn, val, depth, inst):
        pass

    def on_exit(self, eng, st, fn, val):
        pass

    def on_store(self, eng, st, inst, region, off, val, size):
        pass

    def on_load(self, eng, st, inst, region, off, val, size):
        pass

    def on_null_deref(self, eng, st, inst, what):
        pass

    def ghost_key(self, st):
        return ()


class Limits(Exception):
    pass


class Engine:
    def __init__(self, mod, monitors=(), inline=True, K=8, KL=3, inline_limit=700, max_depth=14,
                 mem_checks=True, contracts=None, no_inline=(), force_inline=(), models=None,
                 step_limit=3000000, ranges=None):
        self.mod = mod
        self.types = Types(mod.structs)
        self.contracts = contracts or Contracts(self.types)
        self.monitors = list(monitors)
        self.inline = inline
        self.K, self.KL = K, KL
        self.inline_limit = inline_limit
        self.max_depth = max_depth
        self.mem_checks = mem_checks
        self.no_inline = set(no_inline)
        self.force_inline = set(force_inline)
        self.quiet = 0
        self.obl = {}
        self.regions = {}
        self.globals = {}
        self.steps = 0
        self.step_limit = step_limit
        self.stack = []
        self.entry = None
        self.analysed = set()
        self.modular_calls = set()
        self.ranges = ranges or {}
        self.range_fail = set()
        self.models = dict(MODELS)
        if models:
            self.models.update(models)
        self._wto = {}
        self._weight = {}
        self._rec = None
        self.assume_args = None
        self.max_heads = 24
        self.peel = 0          # loop iterations unrolled while the loop condition is decided
        self.rec_depth = 0     # how many activations of a recursive function may be inlined
        self.typed_ret = {}

    # ---------------------------------------------------------------- regions
    def new_region(self, *a, **k):
        r = Region(*a, **k)
        self.regions[r.id] = r
        return r

    def ptr(self, r, off=lin.ZERO):
        return ("p", r.id, off)

    def global_ptr(self, name):
        r = self.globals.get(name)
        if r is None:
            g = self.mod.globals.get(name)
            if g is None:
                r = self.new_region("opaque", name=name)
            else:
                ty = None
                if g.get("dtype"):
                    ty = strip_const(g["dtype"])
                r = self.new_region("global", ty=ty, size=lin.const(g["size"]), label="global:" + name,
                                    const=g["const"], name=name)
                if g["decl"]:
                    r.size = None
            self.globals[name] = r
        return ("p", r.id, lin.ZERO)

    def global_init_byte(self, r, off, size):
        g = self.mod.globals.get(r.name)
        if not g or not g["const"] or "init" not in g:
            return None
        v = const_at(g["init"], g["type"], off, size, self.mod)
        if v is not None and v[0] == "gref":
            return self.global_ptr(v[1])
        return v

    # ---------------------------------------------------------------- values
    def fresh(self, st, name="", lo=None, hi=None):
        s = lin.new_sym(name)
        if lo is not None:
            st.num.lo[s] = lo
        if hi is not None:
            st.num.hi[s] = hi
        return lin.var(s)

    def fresh_val(self, st, llty, dty=None, name=""):
        w = width(llty)
        if w is not None:
            if w == 1:
                return ("i", self.fresh(st, name, 0, 1))
            d = strip_const(dty) if dty else None
            if d and d.startswith("enum "):
                return ("i", self.fresh(st, name, 0, 2 ** (w - 1) - 1))
            sg = INT_SIGN.get(d) if d else None
            if sg and sg[0] * 8 == w:
                if sg[1]:
                    return ("i", self.fresh(st, name, -(1 << (w - 1)), (1 << (w - 1)) - 1))
                if w == 64:
                    # sizes and counts never reach 2^63 bytes
                    return ("i", self.fresh(st, name, 0, (1 << 63) - 1))
                return ("i", self.fresh(st, name, 0, (1 << w) - 1))
            if w == 64:
                return ("i", self.fresh(st, name, -(1 << 63), (1 << 63) - 1))
            return ("i", self.fresh(st, name))
        if llty == "ptr":
            return self.fresh_ptr(st, dty, name)
        if llty.startswith("{") or llty.startswith("%"):
            return ("agg", ())
        return TOP

    def fresh_ptr(self, st, dty, name="", label=None):
        if dty and is_ptr(strip_const(dty)):
            pt = pointee_raw(strip_const(dty))
            const = pt.startswith("const ")
            pts = strip_const(pt)
            if struct_name(pts) and struct_name(pts) in self.types.structs:
                r = self.new_region("obj", ty=pts, label=label or name, const=const, name=name, many=True)
            elif pts == "fn":
                r = self.new_region("fn", label=label or name, name=name)
            elif is_ptr(pts):
                r = self.new_region("obj", ty=pts, label=label or name, const=const, name=name, many=True)
            elif pts in INT_SIGN and INT_SIGN[pts][0] > 1:
                r = self.new_region("obj", ty=pts, label=label or name, const=const, name=name, many=True)
            else:
                r = self.new_region("opaque", label=label or name, const=const, name=name)
        else:
            r = self.new_region("opaque", label=label or name, name=name)
        return ("p", r.id, lin.ZERO)

    def value(self, st, v):
        k = v[0]
        if k == "v":
            return st.regs.get(v[1], TOP)
        if k == "c":
            if v[2] == 1:
                return ("i", lin.const(v[1] & 1))
            return ("i", lin.const(v[1]))
        if k == "n":
            return NULL
        if k == "u":
            return ("u",)
        if k == "f":
            return ("f", v[1])
        if k == "g":
            return self.global_ptr(v[1])
        if k == "gep":
            g = v[1]
            b = self.value(st, g["base"])
            return self.gep_value(st, g, b)
        if k == "ce":
            return TOP
        if k == "k":
            return ("agg0",) if v[1] and v[1][0] == "zero" else TOP
        return TOP

    def as_int(self, st, v, w=None, name=""):
        if v[0] == "i":
            return v[1]
        if v[0] == "b":
            c = self.cond_simplify(st, v[1])
            if c is True:
                return lin.const(1)
            if c is False:
                return lin.const(0)
            return self.fresh(st, name or "bool", 0, 1)
        if v[0] == "n":
            return lin.ZERO
        return self.fresh(st, name)

    def view(self, st, L, w, signed):
        """Integer expression equal to the signed/unsigned reading of L mod 2^w."""
        n = st.num
        if not L[1]:
            c = L[0] & ((1 << w) - 1)
            if signed and c >= 1 << (w - 1):
                c -= 1 << w
            return lin.const(c)
        if w >= 64 and signed:
            return L
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if w >= 64:
            hi = None
        if len(L[1]) == 1 and L[1][0][1] == 1 and L[0] == 0:
            s = L[1][0][0]
            if s not in n.lo and s not in n.hi and (L, w, not signed) not in st.views:
                n.set_lo(s, lo)
                if hi is not None:
                    n.set_hi(s, hi)
                return L
        ok = n.prove(lin.addc(L, -lo)) and (hi is None or n.prove(lin.sub(lin.const(hi), L)))
        key = (L, w, signed)
        memo = st.views.get(key)
        if ok:
            if memo is not None:
                del st.views[key]
                n.assume_eq(lin.sub(lin.var(memo), L))
            return L
        if memo is None:
            memo = lin.new_sym("view")
            st.views[key] = memo
            n.set_lo(memo, lo)
            if hi is not None:
                n.set_hi(memo, hi)
        return lin.var(memo)

    # ---------------------------------------------------------------- conditions
    def cond_of(self, st, v):
        if v[0] == "b":
            return v[1]
        if v[0] == "i":
            if not v[1][1]:
                return ("true",) if v[1][0] & 1 else ("false",)
            return ("ne", v[1])
        s = self.fresh(st, "cond", 0, 1)
        return ("ne", s)

    def icmp(self, st, pred, a, b, w):
        # pointers
        if a[0] in ("p", "n", "f") or b[0] in ("p", "n", "f"):
            if pred in ("eq", "ne"):
                c = self.ptr_eq(st, a, b)
                return c if pred == "eq" else neg(c)
            if a[0] == "p" and b[0] == "p" and a[1] == b[1]:
                return rel_cond(pred, a[2], b[2])
            return ("ne", self.fresh(st, "pcmp", 0, 1))
        # booleans against constants
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x[0] == "b" and y[0] == "i" and not y[1][1]:
                c = y[1][0]
                if pred in ("eq", "ne"):
                    if c == 0:
                        return neg(x[1]) if pred == "eq" else x[1]
                    if c == 1:
                        return x[1] if pred == "eq" else neg(x[1])
                    return ("false",) if pred == "eq" else ("true",)
                if not sw and c == 0:
                    if pred in ("sgt", "ugt"):
                        return x[1]
                    if pred in ("sle", "ule"):
                        return neg(x[1])
        if a[0] not in ("i", "b") or b[0] not in ("i", "b"):
            if a[0] == "fp" or b[0] == "fp":
                pass
        La, Lb = self.as_int(st, a, w), self.as_int(st, b, w)
        if w is None:
            return ("ne", self.fresh(st, "cmp", 0, 1))
        if w == 1:
            return rel_cond("eq" if pred == "eq" else "ne" if pred == "ne" else pred, La, Lb)
        if pred in ("eq", "ne"):
            d = lin.sub(La, Lb)
            if not d[1]:
                eq = d[0] % (1 << w) == 0
                return ("true",) if eq == (pred == "eq") else ("false",)
            # choose a common reading
            if not Lb[1]:
                sg = self.pref_sign(st, La, w)
            elif not La[1]:
                sg = self.pref_sign(st, Lb, w)
            else:
                sg = self.pref_sign(st, La, w) and self.pref_sign(st, Lb, w)
            va, vb = self.view(st, La, w, sg), self.view(st, Lb, w, sg)
            return (pred, lin.sub(va, vb))
        sg = pred[0] == "s"
        va, vb = self.view(st, La, w, sg), self.view(st, Lb, w, sg)
        return rel_cond(pred, va, vb)

    def pref_sign(self, st, L, w):
        """True when the signed reading is exact (or nothing is known)."""
        if not L[1] or w >= 64:
            return True
        n = st.num
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        m, M = n.minval(L), n.maxval(L)
        if m is not None and m >= lo and M is not None and M <= hi:
            return True
        if m is not None and m >= 0 and M is not None and M < (1 << w):
            return False
        return n.prove(lin.addc(L, -lo)) and n.prove(lin.sub(lin.const(hi), L)) or not n.prove(L)

    def ptr_eq(self, st, a, b):
        if a[0] == "n" and b[0] == "n":
            return ("true",)
        if b[0] == "n":
            a, b = b, a
        if a[0] == "n":
            if b[0] == "f":
                return ("false",)
            if b[0] == "p":
                if st.null.get(b[1]) is True:
                    return ("true",)
                r = self.regions[b[1]]
                if st.null.get(b[1]) is False or r.kind in ("alloca", "global", "heap"):
                    return ("false",)
                return ("null", b[1])
            return ("ne", self.fresh(st, "isnull", 0, 1))
        if a[0] == "f" and b[0] == "f":
            return ("true",) if a[1] == b[1] else ("false",)
        if a[0] == "p" and b[0] == "p":
            if a[1] == b[1]:
                return ("eq", lin.sub(a[2], b[2]))
            ra, rb = self.regions[a[1]], self.regions[b[1]]
            if ra.kind in ("alloca", "global", "heap") and rb.kind in ("alloca", "global", "heap"):
                return ("false",)
            if st.null.get(a[1]) is True and st.null.get(b[1]) is True:
                return ("true",)
        if (a[0] == "f" and b[0] == "p") or (b[0] == "f" and a[0] == "p"):
            p = a if a[0] == "p" else b
            f = a if a[0] == "f" else b
            if st.null.get(p[1]) is True:
                return ("false",)
            return ("fneq", p[1], f[1])
        return ("ne", self.fresh(st, "peq", 0, 1))

    def cond_simplify(self, st, c):
        """True/False when decided in st, else the condition."""
        k = c[0]
        n = st.num
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "ge":
            if n.prove(c[1]):
                return True
            if n.prove(lin.addc(lin.scale(c[1], -1), -1)):
                return False
        elif k == "eq":
            if n.prove_eq(c[1]):
                return True
            if n.prove_ne(c[1]):
                return False
        elif k == "ne":
            if n.prove_ne(c[1]):
                return True
            if n.prove_eq(c[1]):
                return False
        elif k == "null":
            v = st.null.get(c[1])
            if v is not None:
                return v
        elif k == "not":
            r = self.cond_simplify(st, c[1])
            if r is True:
                return False
            if r is False:
                return True
        elif k in ("and", "or"):
            a = self.cond_simplify(st, c[1])
            b = self.cond_simplify(st, c[2])
            if k == "and":
                if a is False or b is False:
                    return False
                if a is True and b is True:
                    return True
            else:
                if a is True or b is True:
                    return True
                if a is False and b is False:
                    return False
        return c

    def assume(self, st, c, truth):
        """States (0..n) of st refined by c == truth.  Consumes st."""
        k = c[0]
        if k == "true":
            return [st] if truth else []
        if k == "false":
            return [] if truth else [st]
        if k == "not":
            return self.assume(st, c[1], not truth)
        if k == "ge":
            ok = st.num.assume(c[1] if truth else lin.addc(lin.scale(c[1], -1), -1)) \
                if not st.num.prove(lin.addc(lin.scale(c[1], -1), -1) if truth else c[1]) else False
            return [st] if ok else []
        if k == "eq" or k == "ne":
            if (k == "eq") == truth:
                if st.num.prove_ne(c[1]):
                    return []
                return [st] if st.num.assume_eq(c[1]) else []
            return [st] if st.num.assume_ne(c[1]) else []
        if k == "null":
            v = st.null.get(c[1])
            if v is not None:
                return [st] if v == truth else []
            st.null[c[1]] = truth
            return [st]
        if k == "fneq":
            if truth:
                st.null[c[1]] = False
                st.ghost[("fnptr", c[1])] = c[2]
            return [st]
        if k in ("and", "or"):
            conj = (k == "and") == truth
            if conj:
                out = []
                for s in self.assume(st, c[1], truth):
                    out += self.assume(s, c[2], truth)
                return out
            s2 = st.copy()
            out = self.assume(st, c[1], truth)
            for s in self.assume(s2, c[1], not truth):
                out += self.assume(s, c[2], truth)
            return out
        return [st]

    # ---------------------------------------------------------------- memory
    def set_type(self, r, ty):
        if r.ty is None and r.kind in ("opaque", "heap"):
            if r.kind == "opaque":
                r.kind = "obj"
                r.many = True
            r.ty = ty

    def elem_size(self, r):
        return self.types.sizeof(r.ty) if r.ty else None

    def leaf(self, r, off, size):
        """(owner struct, base LE of owner, member, type) for an access."""
        if r.ty is None:
            return None
        es = self.elem_size(r)
        if not es:
            return None
        c = off[0]
        base_extra = []
        for s, k in off[1]:
            if k % es != 0:
                # symbolic index inside the element: try array of equal leaves
                return None
        o = c % es
        x = self.types.leaf(r.ty, o, size)
        if x is None:
            return None
        own, b, mem, ty, rest = x
        return own, (off[0] - o + b, off[1]), mem, ty, rest

    def materialise_slice(self, st, r, own, base, group):
        p, n, es, cap, kind = group
        mp, mn = self.types.member(own, p), self.types.member(own, n)
        d = st.mem.get(r.id, {})
        kp = lin.addc(base, mp["off"])
        kn = lin.addc(base, mn["off"])
        kc = lin.addc(base, self.types.member(own, cap)["off"]) if cap else None
        have_p = kp in d or self._covered(d, kp, 8)
        have_n = kn in d or self._covered(d, kn, 8)
        have_c = kc is not None and (kc in d or self._covered(d, kc, 8))
        nd = dict(d)
        tag = "%s.%s" % (own, p)
        if have_n:
            sz = nd[kn][1][1] if kn in nd and nd[kn][1][0] == "i" else self.fresh(st, own + "." + n)
        else:
            sz = self.fresh(st, own + "." + n, 0, 1 << 62)
            nd[kn] = (mn["size"] or 8, ("i", sz))
        if cap:
            if have_c:
                cp = nd[kc][1][1] if kc in nd and nd[kc][1][0] == "i" else self.fresh(st, own + "." + cap)
            else:
                cp = self.fresh(st, own + "." + cap, 0, 1 << 62)
                nd[kc] = (8, ("i", cp))
                if not have_n:
                    st.num.assume(lin.sub(cp, sz))
        else:
            cp = sz
        if not have_p:
            if (have_n and not cap) or have_c:
                # the size was replaced while the pointer is still unknown:
                # nothing can be said about the extent
                ext = self.fresh(st, tag + ".extent", 0)
            else:
                ext = lin.scale(cp, es)
            pty = strip_const(mp["type"])
            ety = None
            const = False
            if is_ptr(pty):
                e = pointee_raw(pty)
                const = e.startswith("const ")
                ety = strip_const(e)
                if ety in ("void", "char", "uint8_t"):
                    ety = None
            nr = self.new_region(kind, ty=ety, size=ext, label=tag, const=const, name=tag, many=True)
            nd[kp] = (8, ("p", nr.id, lin.ZERO))
        st.mem[r.id] = nd

    def _covered(self, d, key, size):
        for k, c in d.items():
            if k == "fill":
                if not key[1] and any(a <= key[0] and key[0] + size <= z for a, z, _ in c):
                    return True
            elif k[1] == key[1] and k[0] < key[0] + size and key[0] < k[0] + c[0]:
                return True
        return False

    def apply_range(self, st, own, mem, val):
        if mem is None or val[0] != "i":
            return val
        rg = self.ranges.get((own, mem["name"]))
        if rg:
            lo, hi = rg
            if lo is not None:
                st.num.assume(lin.addc(val[1], -lo))
            if hi is not None:
                st.num.assume(lin.sub(lin.const(hi), val[1]))
        return val

    def load_cell(self, st, r, off, size, llty):
        d = st.mem.get(r.id)
        if d is not None:
            c = d.get(off)
            if c is not None and c[0] == size:
                return c[1]
            if c is not None and c[0] > size and c[1][0] == "i" and not c[1][1][1]:
                v = c[1][1][0] & ((1 << (8 * size)) - 1)
                if v >= 1 << (8 * size - 1):
                    v -= 1 << (8 * size)
                return ("i", lin.const(v))
            f = d.get("fill")
            if f and not off[1] and (c is None):
                for lo, hi, b in f:
                    if lo <= off[0] and off[0] + size <= hi:
                        if b == 0:
                            if llty == "ptr":
                                return NULL
                            if width(llty):
                                return ("i", lin.ZERO)
                            return ("fp0",)
                        break
        # constant globals
        if r.kind == "global" and not off[1]:
            v = self.global_init_byte(r, off[0], size)
            if v is not None:
                return v
        if r.kind == "alloca" and (st.null.get(("havoc", r.id)) is None):
            # uninitialised (or partially overwritten) local
            v = self.fresh_val(st, llty)
            self.put(st, r, off, size, v)
            return v
        lf = self.leaf(r, off, size)
        if lf is None:
            v = self.fresh_val(st, llty, name=r.name)
            if llty != "double":
                self.put(st, r, off, size, v)
            return v
        own, base, mem, ty, rest = lf
        if own is not None and mem is not None:
            gs = self.contracts.involving(own, mem["name"])
            if gs and ("broken", r.id) not in st.null:
                for g in gs:
                    self.materialise_slice(st, r, own, base, g)
                c = st.mem[r.id].get(off)
                if c is not None and c[0] == size:
                    return c[1]
        nm = "%s.%s" % (own, mem["name"]) if mem else (r.name or "elem")
        if rest:
            ty = None
        v = self.fresh_val(st, llty, ty, nm)
        v = self.apply_range(st, own, mem, v)
        self.put(st, r, off, size, v)
        return v

    def put(self, st, r, off, size, v):
        d = dict(st.mem.get(r.id, {}))
        d[off] = (size, v)
        st.mem[r.id] = d

    def store_cell(self, st, r, off, size, v):
        d = dict(st.mem.get(r.id, {}))
        kill = []
        for k, c in d.items():
            if k == "fill":
                continue
            if k == off:
                if c[0] != size:
                    kill.append(k)
                continue
            if k[1] == off[1]:
                if k[0] < off[0] + size and off[0] < k[0] + c[0]:
                    kill.append(k)
            else:
                # different symbolic parts: disjoint only when provable
                df = lin.sub(off, k)
                if st.num.prove(lin.addc(df, -c[0])) or st.num.prove(lin.addc(lin.scale(df, -1), -size)):
                    continue
                if self.array_disjoint(r, k, c[0], off, size):
                    continue
                kill.append(k)
        for k in kill:
            del d[k]
            st.written.add((r.id, k))
        f = d.get("fill")
        if f:
            if off[1]:
                d["fill"] = ()
            else:
                nf = []
                for lo, hi, b in f:
                    if off[0] + size <= lo or off[0] >= hi:
                        nf.append((lo, hi, b))
                    else:
                        if lo < off[0]:
                            nf.append((lo, off[0], b))
                        if off[0] + size < hi:
                            nf.append((off[0] + size, hi, b))
                d["fill"] = tuple(nf)
        d[off] = (size, v)
        st.mem[r.id] = d
        st.written.add((r.id, off))

    def array_disjoint(self, r, k, ks, off, size):
        """A symbolic index into a member array stays inside that array (the
        in-bounds obligation is discharged separately)."""
        es = self.elem_size(r)
        if not es or r.ty is None:
            return False
        a, b = (k, off) if off[1] else (off, k)
        # b symbolic, a constant or other
        if a[1]:
            return False
        sn = struct_name(r.ty)
        if not sn:
            return False
        m = self.array_member(sn, b[0] % es)
        if m is None:
            return False
        lo, sz = m
        o = a[0] % es
        return not (lo <= o < lo + sz)

    def array_member(self, sname, off):
        for m in self.types.members(sname):
            if m["off"] <= off < m["off"] + m["size"]:
                if m["type"].endswith("]"):
                    return m["off"], m["size"]
                s = struct_name(m["type"])
                if s and not is_ptr(m["type"]):
                    x = self.array_member(s, off - m["off"])
                    if x:
                        return m["off"] + x[0], x[1]
        return None

    def forget(self, st, rid, const_ok=True):
        """Drop everything known about region rid."""
        r = self.regions[rid]
        if r.kind in ("global", "fn"):
            return
        st.mem.pop(rid, None)
        st.null[("havoc", rid)] = True
        st.written = {w for w in st.written if w[0] != rid}

    def record(self, cls, inst, desc, ok, detail=""):
        if self.quiet:
            return
        loc = inst.loc[0] if inst.loc else (inst.fn.line, inst.fn.file, inst.fn.name)
        key = (cls, short(loc[1]), loc[0], loc[2], desc)
        o = self.obl.get(key)
        if o is None:
            o = self.obl[key] = [0, 0, None]
        if ok:
            o[0] += 1
        else:
            o[1] += 1
            if o[2] is None:
                path = " <- ".join(["%s:%d" % (f.dname, i.line) for f, i in reversed(self.stack)][:6])
                o[2] = detail + ((" via " + path) if path else "") + " [entry %s]" % (
                    self.entry.dname if self.entry else "?")

    def check_access(self, st, inst, r, off, size, write):
        if not self.mem_checks or self.quiet:
            # still assume the access succeeded
            return True
        n = st.num
        if isinstance(size, int):
            size = lin.const(size)
        if r.size is not None:
            ok = n.prove(off) and n.prove(lin.sub(r.size, lin.add(off, size)))
            if not ok and not size[1] and size[0] == 0:
                ok = True
            kind = {"alloca": "local", "slice": "slice", "buffer": "buffer", "table": "table",
                    "nodes": "nodes", "heap": "heap", "global": "global"}.get(r.kind, r.kind)
            self.record(("store" if write else "load", kind, r.label), inst,
                        "%s of %s" % ("store" if write else "load", r.label or r.kind), ok,
                        "cannot bound offset %s size %s by extent %s" % (
                            lin.fmt(off), lin.fmt(size), lin.fmt(r.size)))
            return ok
        if r.kind == "obj" and r.ty and not off[1] and not r.many:
            es = self.elem_size(r)
            if es and not size[1]:
                ok = 0 <= off[0] and off[0] + size[0] <= es
                self.record(("store" if write else "load", "obj", r.ty), inst, "member of " + r.ty, ok,
                            "offset %d outside %s" % (off[0], r.ty))
        return True

    def deref(self, st, inst, v, write):
        """Region/offset of a pointer about to be dereferenced; None: stop."""
        if v[0] == "p":
            if st.null.get(v[1]) is True:
                for m in self.monitors:
                    m.on_null_deref(self, st, inst, self.regions[v[1]])
                return None
            return self.regions[v[1]], v[2]
        if v[0] == "n":
            for m in self.monitors:
                m.on_null_deref(self, st, inst, None)
            return None
        return False

    # ---------------------------------------------------------------- gep
    def gep_value(self, st, g, b, inst=None):
        if b[0] != "p":
            if b[0] == "n":
                return ("p0",) if g.get("off") or g.get("vars") else NULL
            return TOP
        r = self.regions[b[1]]
        sn = llvm_struct(g["srcty"])
        if sn and r.ty is None and sn in self.types.structs and b[2] == lin.ZERO:
            self.set_type(r, "struct " + sn)
        if "off" not in g:
            return ("p", b[1], self.fresh(st, "gep"))
        off = lin.addc(b[2], g["off"])
        for v, k in g.get("vars", ()):
            L = self.as_int(st, self.value(st, v), 64)
            off = lin.add(off, lin.scale(L, k))
        if inst is not None and self.mem_checks and not self.quiet:
            for iv, nel in g.get("arr", ()):
                if iv[0] == "c":
                    continue
                L = self.as_int(st, self.value(st, iv), 64)
                ok = st.num.prove(L) and st.num.prove(lin.sub(lin.const(nel - 1), L))
                what = self.array_desc(r, b[2])
                self.record(("index", "array", what), inst, "index into %s" % what, ok,
                            "cannot bound index %s by %d elements" % (lin.fmt(L), nel))
        return ("p", b[1], off)

    def array_desc(self, r, off):
        if r.ty and struct_name(r.ty):
            es = self.elem_size(r)
            if es:
                x = self.types.leaf(r.ty, off[0] % es, 1)
                if x and x[2]:
                    return "%s.%s" % (x[0], x[2]["name"])
        return r.label or r.name or r.kind

    # ---------------------------------------------------------------- execution
    def wto(self, fn):
        w = self._wto.get(fn.name)
        if w is None:
            rpo = fn.rpo()
            num = {b: i for i, b in enumerate(rpo)}
            w = self._wto[fn.name] = self._mkwto(fn, set(rpo), fn.entry, num)
        return w

    def _mkwto(self, fn, blocks, entry, num):
        # SCCs in topological order
        index, low, onst, st, out = {}, {}, set(), [], []
        cnt = [0]

        def strong(v):
            work = [(v, iter([s for s in fn.blocks[v].succ if s in blocks]))]
            index[v] = low[v] = cnt[0]
            cnt[0] += 1
            st.append(v)
            onst.add(v)
            while work:
                u, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter([s for s in fn.blocks[w].succ if s in blocks])))
                        adv = True
                        break
                    elif w in onst:
                        low[u] = min(low[u], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == index[u]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == u:
                            break
                    out.append(comp)
        for b in sorted(blocks, key=lambda x: num[x]):
            if b not in index:
                strong(b)
        res = []
        for comp in reversed(out):
            cs = set(comp)
            if len(comp) == 1 and comp[0] not in fn.blocks[comp[0]].succ:
                res.append(comp[0])
            else:
                h = min(comp, key=lambda x: num[x])
                res.append((h, self._mkwto(fn, cs - {h}, h, num), cs))
        return res

    def key(self, st):
        if not self.monitors:
            return ()
        return tuple(m.ghost_key(st) for m in self.monitors)

    def exec_function(self, fn, st, args):
        """Interpret fn from st; returns [(state, retval, ret inst)]."""
        st.regs = {}
        for p, a in zip(fn.params, args):
            st.regs[p["id"]] = a
        self.analysed.add(fn.name)
        rets = []
        pending = {fn.entry: [(None, st)]}
        self.run(fn, self.wto(fn), pending, rets)
        return self.merge_rets(rets)

    def merge_rets(self, rets):
        if len(rets) <= self.K:
            return rets
        groups = {}
        for st, v, i in rets:
            if v is None:
                kv = None
            elif v[0] == "i":
                if not v[1][1]:
                    kv = "z" if v[1][0] == 0 else "nz"
                else:
                    kv = "nz" if st.num.prove_ne(v[1]) else ("z" if st.num.prove_eq(v[1]) else "any")
            else:
                kv = v[0]
            groups.setdefault((self.key(st), kv), []).append((st, v, i))
        out = []
        per = max(2, self.K // max(1, len(groups)))
        for g in groups.values():
            for st, v, _ in g:
                st.regs = {"ret": v} if v is not None else {}
            l = [x[0] for x in g]
            l = self.reduce(l, per, None)
            for s in l:
                out.append((s, s.regs.get("ret"), g[0][2]))
        return out

    def run(self, fn, elems, pending, rets):
        for e in elems:
            if isinstance(e, tuple):
                self.run_loop(fn, e, pending, rets)
            else:
                inc = pending.pop(e, None)
                if not inc:
                    continue
                sts = self.enter_block(fn, e, inc)
                for s in sts:
                    for succ, ns in self.exec_block(fn, e, s, rets):
                        pending.setdefault(succ, []).append((e, ns))

    def enter_block(self, fn, b, inc):
        """Apply phis, prune dead registers, merge."""
        blk = fn.blocks[b]
        live = fn.liveness()[b]
        out = []
        for pred, s in inc:
            new = {}
            for i in blk.insts:
                if i.op != "phi":
                    break
                for v, p in i.j["inc"]:
                    if p == pred:
                        new[i.id] = self.value(s, v)
                        break
            regs = {k: v for k, v in s.regs.items() if k in live}
            regs.update(new)
            s.regs = regs
            out.append(s)
        return self.merge(out)

    def merge(self, sts):
        if len(sts) <= 1:
            return sts
        groups = {}
        for s in sts:
            groups.setdefault(self.key(s), []).append(s)
        out = []
        for g in groups.values():
            out += self.reduce(g, self.K)
        return out

    def reduce(self, g, k, live=None):
        if len(g) <= 1:
            return g
        # drop duplicates
        uniq = []
        for s in g:
            for u in uniq:
                if u.regs == s.regs and u.mem == s.mem and u.num.lo == s.num.lo and u.num.hi == s.num.hi \
                        and u.num.rels == s.num.rels and u.num.ne == s.num.ne and u.null == s.null:
                    break
            else:
                uniq.append(s)
        g = uniq
        while len(g) > k:
            # join the pair that differs least (adjacent candidates only)
            best = None
            m = min(len(g), 10)
            for i in range(m):
                for j in range(i + 1, m):
                    c = self.distance(g[i], g[j])
                    if best is None or c < best[0]:
                        best = (c, i, j)
            _, i, j = best
            x = self.join(g[i], g[j])
            g = [s for n, s in enumerate(g) if n not in (i, j)] + [x]
        return g

    def distance(self, a, b):
        d = 0
        for k, v in a.regs.items():
            w = b.regs.get(k)
            if v != w and w is not None:
                d += 1
                if v[0] != w[0]:
                    d += 6
                elif v[0] == "p" and v[1] != w[1]:
                    d += 6
        for rid, ca in a.mem.items():
            cb = b.mem.get(rid)
            if cb is None:
                continue
            if ca is cb:
                continue
            for k, c in ca.items():
                x = cb.get(k)
                if x is None:
                    d += 1
                elif x != c:
                    d += 2
        d += len(a.num.rels ^ b.num.rels)
        return d

    # ---------------------------------------------------------------- join
    def join(self, a, b):
        """Join two states into a fresh one."""
        # materialise written cells that exist only in one of them
        self.align(a, b)
        self.align(b, a)
        r = State()
        r.ghost = dict(a.ghost)
        n = r.num
        gens = []
        # numeric first: bounds and relations common to both
        for s, v in a.num.lo.items():
            w = b.num.lo.get(s)
            if w is not None:
                n.lo[s] = min(v, w)
        for s, v in a.num.hi.items():
            w = b.num.hi.get(s)
            if w is not None:
                n.hi[s] = max(v, w)
        rels = set()
        for x in a.num.rels:
            if x in b.num.rels or b.num.prove(x):
                rels.add(x)
        for x in b.num.rels:
            if x not in rels and a.num.prove(x):
                rels.add(x)
        n.rels = frozenset(rels)
        n.ne = a.num.ne & b.num.ne | frozenset(
            e for e in a.num.ne if b.num.prove_ne(e)) | frozenset(e for e in b.num.ne if a.num.prove_ne(e))
        for k, v in a.null.items():
            if b.null.get(k) == v:
                r.null[k] = v
            elif isinstance(k, tuple):
                r.null[k] = v
        for k, v in b.null.items():
            if isinstance(k, tuple) and k not in r.null:
                r.null[k] = v
        for k, v in a.views.items():
            if b.views.get(k) == v:
                r.views[k] = v
        for k, v in a.prods.items():
            if b.prods.get(k) == v:
                r.prods[k] = v
        memo = {}
        for k, v in a.regs.items():
            w = b.regs.get(k)
            if w is not None:
                r.regs[k] = self.join_val(r, a, b, v, w, gens, memo)
        for rid, ca in a.mem.items():
            cb = b.mem.get(rid)
            if cb is None:
                continue
            if ca is cb:
                r.mem[rid] = ca
                continue
            d = {}
            for k, c in ca.items():
                x = cb.get(k)
                if k == "fill":
                    if x:
                        d["fill"] = tuple(y for y in c if y in x)
                    continue
                if x is None or x[0] != c[0]:
                    continue
                d[k] = c if x == c else (c[0], self.join_val(r, a, b, c[1], x[1], gens, memo))
            r.mem[rid] = d
        r.written = a.written | b.written
        # relations between generalised values
        for i in range(len(gens)):
            g, va, vb = gens[i]
            d1 = lin.sub(vb, va)
            for j in range(i):
                g2, wa, wb = gens[j]
                d2 = lin.sub(wb, wa)
                pq = proportional(d1, d2)
                if pq:
                    p, q = pq
                    e = lin.sub(lin.sub(lin.scale(lin.var(g), q), lin.scale(lin.var(g2), p)),
                                lin.sub(lin.scale(va, q), lin.scale(wa, p)))
                    n.assume_eq(e)
        return r

    def align(self, a, b):
        for rid, off in list(a.written):
            if isinstance(off, str):
                continue
            ca = a.mem.get(rid, {}).get(off)
            if ca is None:
                continue
            cb = b.mem.get(rid)
            if cb is not None and off in cb:
                continue
            r = self.regions[rid]
            llty = "ptr" if ca[1][0] in ("p", "n", "f") else ("i%d" % (8 * ca[0]))
            if ca[1][0] in ("fp0", "t"):
                continue
            self.load_cell(b, r, off, ca[0], llty)

    def join_val(self, r, a, b, v, w, gens, memo):
        if v == w:
            return v
        mk = (v, w)
        if mk in memo:
            return memo[mk]
        res = TOP
        if v[0] in ("i", "b") and w[0] in ("i", "b"):
            va = v[1] if v[0] == "i" else self.as_int(a, v)
            vb = w[1] if w[0] == "i" else self.as_int(b, w)
            res = ("i", self.join_le(r, a, b, va, vb, gens))
        elif v[0] == "p" and w[0] == "p" and v[1] == w[1]:
            res = ("p", v[1], self.join_le(r, a, b, v[2], w[2], gens))
        elif v[0] == "u":
            res = w if self.closed(r, w) else TOP
        elif w[0] == "u":
            res = v if self.closed(r, v) else TOP
        elif v[0] == "p" and w[0] == "p":
            ra, rb = self.regions[v[1]], self.regions[w[1]]
            if ra.kind == rb.kind and ra.ty == rb.ty and ra.kind in ("obj", "opaque", "fn"):
                res = v if False else self.fresh_like(r, ra)
        memo[mk] = res
        return res

    def closed(self, r, v):
        return True

    def fresh_like(self, st, ra):
        n = self.new_region(ra.kind, ty=ra.ty, size=None, label=ra.label, const=ra.const, name=ra.name, many=True)
        return ("p", n.id, lin.ZERO)

    def join_le(self, r, a, b, va, vb, gens):
        if va == vb:
            return va
        g = lin.new_sym("phi")
        G = lin.var(g)
        la, lb = a.num.minval(va), b.num.minval(vb)
        if la is not None and lb is not None:
            r.num.lo[g] = min(la, lb)
        ha, hb = a.num.maxval(va), b.num.maxval(vb)
        if ha is not None and hb is not None:
            r.num.hi[g] = max(ha, hb)
        # order relations with either side
        for x in (va, vb):
            if not x[1]:
                continue
            if a.num.prove(lin.sub(va, x)) and b.num.prove(lin.sub(vb, x)):
                r.num.assume(lin.sub(G, x))
            elif a.num.prove(lin.sub(x, va)) and b.num.prove(lin.sub(x, vb)):
                r.num.assume(lin.sub(x, G))
        # constraints of one side on its value that also hold on the other
        cnt = 0
        for (n1, v1, n2, v2) in ((a.num, va, b.num, vb), (b.num, vb, a.num, va)):
            if len(v1[1]) == 1 and abs(v1[1][0][1]) == 1:
                s, k = v1[1][0]
                # s = k*(G - c)
                inv = lin.scale(lin.addc(G, -v1[0]), k)
                for rel, _ in n1.index().get(s, ()):
                    cnt += 1
                    if cnt > 24:
                        break
                    c = lin.subst(rel, {s: inv})
                    if n2.prove(lin.subst(c, {g: v2})):
                        r.num.assume(c)
        if a.num.prove_ne(va) and b.num.prove_ne(vb):
            r.num.ne = r.num.ne | {G}
        gens.append((g, va, vb))
        return G

    # ---------------------------------------------------------------- loops
    def run_loop(self, fn, comp, pending, rets):
        h, inner, blocks = comp
        inc = pending.pop(h, None)
        if not inc:
            return
        entries = self.enter_block(fn, h, inc)
        groups = {}
        for s in entries:
            groups.setdefault(self.key(s), []).append(s)
        entries = []
        for g in groups.values():
            entries += self.reduce(g, self.KL)
        for _ in range(self.peel):
            if len(entries) != 1:
                break
            lp, lr, backs = {}, [], []
            self.run_body(fn, h, inner, blocks, entries[0], lp, lr, backs)
            for b, l in lp.items():
                pending.setdefault(b, []).extend(l)
            rets += lr
            entries = backs
            if lp and backs:
                break
        for ent in entries:
            heads = {}
            k0 = self.key(ent)
            heads[k0] = Head(self, fn, h, ent)
            dirty = [k0]
            rounds = 0
            self.quiet += 1
            try:
                while dirty:
                    rounds += 1
                    k = dirty.pop(0)
                    hd = heads[k]
                    backs = []
                    lp = {}
                    lr = []
                    self.run_body(fn, h, inner, blocks, hd.instance(), lp, lr, backs)
                    for bs in backs:
                        kb = self.key(bs)
                        if kb not in heads:
                            if len(heads) > self.max_heads:
                                raise AnalysisError("too many ghost states at loop in " + fn.name)
                            heads[kb] = Head(self, fn, h, bs)
                            if kb not in dirty:
                                dirty.append(kb)
                        else:
                            if heads[kb].absorb(bs, rounds > 14) and kb not in dirty:
                                dirty.append(kb)
                    if rounds > 60 + 3 * max(0, self.max_heads - 24):
                        raise AnalysisError("loop does not stabilise in %s (%s)" % (fn.name, fn.blocks[h].insts[0].where()))
            finally:
                self.quiet -= 1
            for k, hd in heads.items():
                lp = {}
                backs = []
                self.run_body(fn, h, inner, blocks, hd.instance(), lp, rets, backs)
                for b, l in lp.items():
                    pending.setdefault(b, []).extend(l)
                if not self.quiet and self.mem_checks:
                    t = fn.blocks[h].insts[-1]
                    for bs in backs:
                        for rid in list(bs.mem):
                            if rid > hd.base_region and self.regions[rid].kind == "obj":
                                self.assert_region(bs, t, rid, "at the end of an iteration")

    def run_body(self, fn, h, inner, blocks, st, exits, rets, backs):
        local = {}

        def route(src, succ, ns):
            if succ == h:
                backs.append((src, ns))
            elif succ in blocks:
                local.setdefault(succ, []).append((src, ns))
            else:
                exits.setdefault(succ, []).append((src, ns))
        for succ, ns in self.exec_block(fn, h, st, rets):
            route(h, succ, ns)
        # run inner elements; anything landing outside goes to exits
        for e in inner:
            if isinstance(e, tuple):
                p = {e[0]: local.pop(e[0], [])}
                if not p[e[0]]:
                    continue
                self.run_loop(fn, e, p, rets)
                for b, l in p.items():
                    for src, ns in l:
                        route(src, b, ns)
            else:
                inc = local.pop(e, None)
                if not inc:
                    continue
                for s in self.enter_block(fn, e, inc):
                    for succ, ns in self.exec_block(fn, e, s, rets):
                        route(e, succ, ns)
        if backs:
            merged = self.enter_block(fn, h, list(backs))
            backs[:] = merged

    # ---------------------------------------------------------------- instructions
    def exec_block(self, fn, b, st, rets):
        insts = fn.blocks[b].insts
        out = []
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            n = len(insts)
            dead = False
            while i < n:
                ins = insts[i]
                op = ins.op
                if op == "phi":
                    i += 1
                    continue
                self.steps += 1
                if self.steps > self.step_limit:
                    raise Limits("step limit in %s" % (self.entry.name if self.entry else fn.name))
                if op == "br":
                    j = ins.j
                    if "cond" not in j:
                        out.append((j["succ"][0], s))
                    else:
                        c = self.cond_of(s, self.value(s, j["cond"]))
                        d = self.cond_simplify(s, c)
                        t, f = j["succ"]
                        if d is True:
                            out.append((t, s))
                        elif d is False:
                            out.append((f, s))
                        else:
                            s2 = s.copy()
                            for x in self.assume(s, c, True):
                                out.append((t, x))
                            for x in self.assume(s2, c, False):
                                out.append((f, x))
                    dead = True
                    break
                if op == "ret":
                    v = self.value(s, ins.ops[0]) if ins.ops else None
                    if v is not None and v[0] == "b":
                        pass
                    for m in self.monitors:
                        m.on_return(self, s, fn, v, len(self.stack), ins)
                    rets.append((s, v, ins))
                    dead = True
                    break
                if op == "switch":
                    self.do_switch(s, ins, out)
                    dead = True
                    break
                if op == "unreachable":
                    dead = True
                    break
                if op in ("call", "invoke"):
                    res = self.do_call(s, ins)
                    if op == "invoke":
                        for x in res:
                            out.append((ins.j["succ"][0], x))
                        dead = True
                        break
                    if not res:
                        dead = True
                        break
                    for x in res[1:]:
                        work.append((x, i + 1))
                    s = res[0]
                    i += 1
                    continue
                if op == "select":
                    c = self.cond_of(s, self.value(s, ins.ops[0]))
                    d = self.cond_simplify(s, c)
                    if d is True or d is False:
                        s.regs[ins.id] = self.value(s, ins.ops[1 if d else 2])
                    elif ins.type == "i1":
                        a = self.value(s, ins.ops[1])
                        bb = self.value(s, ins.ops[2])
                        ca, cb = self.cond_of(s, a), self.cond_of(s, bb)
                        if cb == ("false",):
                            s.regs[ins.id] = ("b", ("and", c, ca))
                        elif ca == ("true",):
                            s.regs[ins.id] = ("b", ("or", c, cb))
                        else:
                            s.regs[ins.id] = ("b", ("or", ("and", c, ca), ("and", neg(c), cb)))
                    else:
                        s2 = s.copy()
                        xs = []
                        for x in self.assume(s, c, True):
                            x.regs[ins.id] = self.value(x, ins.ops[1])
                            xs.append(x)
                        for x in self.assume(s2, c, False):
                            x.regs[ins.id] = self.value(x, ins.ops[2])
                            xs.append(x)
                        if not xs:
                            dead = True
                            break
                        for x in xs[1:]:
                            work.append((x, i + 1))
                        s = xs[0]
                    i += 1
                    continue
                if op in ("mul", "shl") and self.split_mul:
                    xs = self.do_mul(s, ins)
                    if not xs:
                        dead = True
                        break
                    for x in xs[1:]:
                        work.append((x, i + 1))
                    s = xs[0]
                    i += 1
                    continue
                r = self.step(s, ins)
                if r is False:
                    dead = True
                    break
                i += 1
            if not dead:
                pass
        return out

    split_mul = True

    def do_switch(self, s, ins, out):
        v = self.value(s, ins.j["cond"])
        L = self.as_int(s, v)
        # width from the operand: use the signed reading when exact
        w = 32
        d = ins.fn.defs.get(ins.j["cond"][1]) if ins.j["cond"][0] == "v" else None
        if d is not None and width(d.type):
            w = width(d.type)
        else:
            for p in ins.fn.params:
                if ins.j["cond"][0] == "v" and p["id"] == ins.j["cond"][1]:
                    w = width(p["type"]) or 32
        sg = self.pref_sign(s, L, w)
        V = self.view(s, L, w, sg)
        bydest = {}
        for c, t in ins.j["cases"]:
            if not sg:
                c &= (1 << w) - 1
            e = lin.addc(V, -c)
            if s.num.prove_ne(e):
                continue
            x = s.copy()
            if x.num.assume_eq(e):
                out.append((t, x))
        x = s
        ok = True
        cs = sorted((c if sg else c & ((1 << w) - 1)) for c, _ in ins.j["cases"])
        # trim both ends repeatedly so intervals tighten
        for c in cs + cs[::-1]:
            e = lin.addc(V, -c)
            if not x.num.assume_ne(e):
                ok = False
                break
        if ok:
            out.append((ins.j["default"], x))

    def do_mul(self, s, ins):
        w = width(ins.type)
        if w is None:
            s.regs[ins.id] = TOP
            return [s]
        a = self.as_int(s, self.value(s, ins.ops[0]), w)
        b = self.as_int(s, self.value(s, ins.ops[1]), w)
        if ins.op == "shl":
            if b[1]:
                s.regs[ins.id] = ("i", self.fresh(s, "shl"))
                return [s]
            s.regs[ins.id] = ("i", lin.scale(a, 1 << b[0]))
            return [s]
        if not b[1]:
            s.regs[ins.id] = ("i", lin.scale(a, b[0]))
            return [s]
        if not a[1]:
            s.regs[ins.id] = ("i", lin.scale(b, a[0]))
            return [s]
        # split on a small range
        for x, y in ((a, b), (b, a)):
            lo, hi = s.num.minval(x), s.num.maxval(x)
            if lo is not None and hi is not None and 0 <= hi - lo <= 4:
                out = []
                for c in range(lo, hi + 1):
                    t = s if c == hi else s.copy()
                    if t.num.prove_ne(lin.addc(x, -c)):
                        continue
                    if t.num.assume_eq(lin.addc(x, -c)):
                        t.regs[ins.id] = ("i", lin.scale(y, c))
                        out.append(t)
                return out
        # symbolic product; exactness needs both readings to be non-negative and
        # the result to fit, which view() checks later through the bounds
        sg = bool(ins.j.get("nsw"))
        va, vb = self.view(s, a, w, sg or w >= 64), self.view(s, b, w, sg or w >= 64)
        key = (min(va, vb), max(va, vb))
        p = s.prods.get(key)
        if p is None:
            p = lin.new_sym("prod")
            s.prods[key] = p
            P = lin.var(p)
            n = s.num
            if n.prove(va) and n.prove(vb):
                n.set_lo(p, 0)
                for x, y in ((va, vb), (vb, va)):
                    lo, hi = n.minval(x), n.maxval(x)
                    if lo is not None:
                        n.assume(lin.sub(P, lin.scale(y, lo)))
                    if hi is not None and hi < (1 << 31):
                        n.assume(lin.sub(lin.scale(y, hi), P))
                for (x, y), q in list(s.prods.items()):
                    if q == p:
                        continue
                    for f, i1 in ((va, vb), (vb, va)):
                        for g, i2 in ((x, y), (y, x)):
                            if f == g:
                                # i1*f vs i2*f
                                if n.prove(lin.addc(lin.sub(i2, i1), -1)):
                                    n.assume(lin.sub(lin.sub(lin.var(q), P), f))
                                elif n.prove(lin.sub(i2, i1)):
                                    n.assume(lin.sub(lin.var(q), P))
                                elif n.prove(lin.sub(i1, i2)):
                                    n.assume(lin.sub(P, lin.var(q)))
        s.regs[ins.id] = ("i", lin.var(p))
        return [s]

    def step(self, st, ins):
        op = ins.op
        regs = st.regs
        if op == "getelementptr":
            g = ins.j["gep"]
            regs[ins.id] = self.gep_value(st, g, self.value(st, g["base"]), ins)
            return
        if op == "load":
            v = self.value(st, ins.ops[0])
            x = self.deref(st, ins, v, False)
            if x is None:
                return False
            if x is False:
                regs[ins.id] = self.fresh_val(st, ins.type)
                return
            r, off = x
            size = ins.j["size"]
            self.check_access(st, ins, r, off, size, False)
            val = self.load_cell(st, r, off, size, ins.type)
            if val[0] == "p" and st.null.get(val[1]) is True:
                pass
            regs[ins.id] = val
            for m in self.monitors:
                m.on_load(self, st, ins, r, off, val, size)
            return
        if op == "store":
            v = self.value(st, ins.ops[1])
            x = self.deref(st, ins, v, True)
            if x is None:
                return False
            if x is False:
                return
            r, off = x
            val = self.value(st, ins.ops[0])
            size = ins.j["size"]
            self.check_access(st, ins, r, off, size, True)
            w = width(ins.j["vtype"])
            if val[0] == "i" and w and w < 64 and val[1][1]:
                # store the reading the member type asks for, when it is exact
                pass
            if val[0] == "u":
                val = self.fresh_val(st, ins.j["vtype"])
            for m in self.monitors:
                m.on_store(self, st, ins, r, off, val, size)
            self.store_cell(st, r, off, size, val)
            return
        if op == "alloca":
            sn = llvm_struct(ins.j["aty"])
            ty = ("struct " + sn) if sn and sn in self.types.structs else None
            nm = ins.fn.varnames.get(ins.id, "local")
            r = self.new_region("alloca", ty=ty, size=lin.const(ins.j["size"]), label="local:" + nm, name=nm, site=ins.fn)
            regs[ins.id] = ("p", r.id, lin.ZERO)
            return
        if op == "icmp":
            w = width(ins.j["opty"])
            a, b = self.value(st, ins.ops[0]), self.value(st, ins.ops[1])
            regs[ins.id] = ("b", self.icmp(st, ins.j["pred"], a, b, w))
            return
        w = width(ins.type)
        if op in ("add", "sub"):
            a = self.as_int(st, self.value(st, ins.ops[0]), w)
            b = self.as_int(st, self.value(st, ins.ops[1]), w)
            regs[ins.id] = ("i", lin.add(a, b) if op == "add" else lin.sub(a, b))
            return
        if op in ("mul", "shl"):
            self.do_mul(st, ins)
            return
        if op == "zext":
            v = self.value(st, ins.ops[0])
            if v[0] == "b":
                regs[ins.id] = v
                return
            fw = width(ins.j["from"])
            L = self.as_int(st, v, fw)
            regs[ins.id] = ("i", self.view(st, L, fw, False))
            return
        if op == "sext":
            v = self.value(st, ins.ops[0])
            fw = width(ins.j["from"])
            if v[0] == "b":
                regs[ins.id] = ("i", lin.scale(self.as_int(st, v), -1)) if fw == 1 else v
                return
            L = self.as_int(st, v, fw)
            regs[ins.id] = ("i", self.view(st, L, fw, True))
            return
        if op == "trunc":
            v = self.value(st, ins.ops[0])
            if v[0] == "b":
                regs[ins.id] = v
                return
            L = self.as_int(st, v)
            if w == 1:
                lo, hi = st.num.minval(L), st.num.maxval(L)
                if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                    regs[ins.id] = ("b", ("ne", L))
                else:
                    regs[ins.id] = ("i", self.fresh(st, "trunc1", 0, 1))
                return
            regs[ins.id] = ("i", L)
            return
        if op in ("and", "or", "xor"):
            a, b = self.value(st, ins.ops[0]), self.value(st, ins.ops[1])
            if w == 1:
                ca, cb = self.cond_of(st, a), self.cond_of(st, b)
                if op == "and":
                    c = ("and", ca, cb)
                elif op == "or":
                    c = ("or", ca, cb)
                else:
                    if cb == ("true",):
                        c = neg(ca)
                    elif ca == ("true",):
                        c = neg(cb)
                    else:
                        c = ("ne", self.fresh(st, "xor", 0, 1))
                regs[ins.id] = ("b", c)
                return
            if op == "or":
                # (a != 0) | (b != 0) on ints: keep non-zeroness
                La, Lb = self.as_int(st, a, w), self.as_int(st, b, w)
                if not La[1] and not Lb[1]:
                    regs[ins.id] = ("i", lin.const(La[0] | Lb[0]))
                    return
                f = self.fresh(st, "or")
                if st.num.prove_ne(La) or st.num.prove_ne(Lb):
                    st.num.ne = st.num.ne | {f}
                ha, hb = st.num.maxval(La), st.num.maxval(Lb)
                la, lb = st.num.minval(La), st.num.minval(Lb)
                if None not in (ha, hb, la, lb) and la >= 0 and lb >= 0:
                    m = (1 << max(ha.bit_length(), hb.bit_length())) - 1
                    st.num.set_lo(f[1][0][0], max(la, lb))
                    st.num.set_hi(f[1][0][0], m)
                regs[ins.id] = ("i", f)
                return
            La, Lb = self.as_int(st, a, w), self.as_int(st, b, w)
            if not La[1] and not Lb[1]:
                x, y = La[0], Lb[0]
                regs[ins.id] = ("i", lin.const(x & y if op == "and" else x ^ y))
                return
            if op == "and":
                for x, y in ((La, Lb), (Lb, La)):
                    if not y[1] and y[0] >= 0:
                        f = self.fresh(st, "and", 0, y[0])
                        mx = st.num.maxval(x)
                        mn = st.num.minval(x)
                        if mn is not None and mn >= 0:
                            st.num.assume(lin.sub(x, f))
                        regs[ins.id] = ("i", f)
                        return
            regs[ins.id] = ("i", self.fresh(st, op))
            return
        if op in ("lshr", "ashr", "udiv", "sdiv"):
            a = self.as_int(st, self.value(st, ins.ops[0]), w)
            b = self.as_int(st, self.value(st, ins.ops[1]), w)
            va = self.view(st, a, w, op in ("ashr", "sdiv"))
            if not b[1]:
                k = (1 << b[0]) if op in ("lshr", "ashr") else b[0]
                if k > 0:
                    if not va[1]:
                        q = va[0] // k if va[0] >= 0 or op == "ashr" else -((-va[0]) // k)
                        regs[ins.id] = ("i", lin.const(q))
                        return
                    f = self.fresh(st, "div")
                    if st.num.prove(va) or op == "ashr":
                        st.num.assume(lin.sub(va, lin.scale(f, k)))
                        st.num.assume(lin.addc(lin.sub(lin.scale(f, k), va), k - 1))
                    else:
                        # truncation toward zero
                        st.num.assume(lin.addc(lin.sub(va, lin.scale(f, k)), k - 1))
                        st.num.assume(lin.addc(lin.sub(lin.scale(f, k), va), k - 1))
                    regs[ins.id] = ("i", f)
                    return
            f = self.fresh(st, "div")
            if st.num.prove(va) and st.num.prove(self.view(st, b, w, op in ("ashr", "sdiv"))):
                st.num.assume(f)
                st.num.assume(lin.sub(va, f))
            regs[ins.id] = ("i", f)
            return
        if op in ("urem", "srem"):
            a = self.as_int(st, self.value(st, ins.ops[0]), w)
            b = self.as_int(st, self.value(st, ins.ops[1]), w)
            va = self.view(st, a, w, op == "srem")
            if not b[1] and b[0] > 0:
                k = b[0]
                if not va[1] and va[0] >= 0:
                    regs[ins.id] = ("i", lin.const(va[0] % k))
                    return
                nn = st.num.prove(va)
                f = self.fresh(st, "rem", 0 if (nn or op == "urem") else -(k - 1), k - 1)
                if nn:
                    q = self.fresh(st, "quot", 0)
                    st.num.assume_eq(lin.sub(va, lin.add(lin.scale(q, k), f)))
                regs[ins.id] = ("i", f)
                return
            regs[ins.id] = ("i", self.fresh(st, "rem"))
            return
        if op == "extractvalue":
            v = self.value(st, ins.ops[0])
            ix = tuple(ins.j["idx"])
            if v[0] == "agg":
                d = dict(v[1])
                if ix in d:
                    regs[ins.id] = d[ix]
                    return
            if v[0] == "agg0":
                regs[ins.id] = NULL if ins.type == "ptr" else ("i", lin.ZERO)
                return
            regs[ins.id] = self.fresh_val(st, ins.type)
            return
        if op == "insertvalue":
            v = self.value(st, ins.ops[0])
            d = dict(v[1]) if v[0] == "agg" else {}
            d[tuple(ins.j["idx"])] = self.value(st, ins.ops[1])
            regs[ins.id] = ("agg", tuple(sorted(d.items())))
            return
        if op in ("bitcast", "freeze", "addrspacecast"):
            regs[ins.id] = self.value(st, ins.ops[0])
            return
        if op == "ptrtoint":
            v = self.value(st, ins.ops[0])
            if v[0] == "p":
                regs[ins.id] = ("i", lin.add(self.addr_sym(v[1]), v[2]))
                return
            regs[ins.id] = ("i", self.fresh(st, "addr"))
            return
        if op == "inttoptr":
            regs[ins.id] = self.fresh_val(st, "ptr")
            return
        if ins.type == "void":
            return
        regs[ins.id] = self.fresh_val(st, ins.type)

    def addr_sym(self, rid):
        k = ("addr", rid)
        s = self._addr.get(k) if hasattr(self, "_addr") else None
        if s is None:
            if not hasattr(self, "_addr"):
                self._addr = {}
            s = self._addr[k] = lin.var(lin.new_sym("addr"))
        return s

    # ---------------------------------------------------------------- calls
    def weight(self, fn, seen=None):
        """Instruction count of fn with everything it would inline."""
        w = self._weight.get(fn.name)
        if w is not None:
            return w
        self._weight[fn.name] = 10 ** 9  # recursion
        tot = sum(len(b.insts) for b in fn.blocks.values())
        for c in fn.calls():
            if c.callee and c.callee[0] == "f":
                g = self.mod.functions.get(c.callee[1])
                if g is not None and not g.decl and g.dname not in self.models and g.dname not in self.no_inline:
                    x = self.weight(g)
                    if x >= 10 ** 9 or x > self.inline_limit:
                        continue  # would be modular
                    tot += x
        self._weight[fn.name] = tot
        return tot

    def recursive(self, fn):
        if self._rec is None:
            self._rec = recursive_functions(self.mod)
        return fn.name in self._rec

    def do_call(self, st, ins):
        cal = self.value(st, ins.callee)
        args = [self.value(st, a) for a in ins.args]
        name = None
        fn = None
        if cal[0] == "p" and ("fnptr", cal[1]) in st.ghost:
            cal = ("f", st.ghost[("fnptr", cal[1])])
        if cal[0] == "f":
            fn = self.mod.functions.get(cal[1])
            name = fn.dname if fn else cal[1]
        if name and name.startswith("llvm."):
            return self.intrinsic(st, ins, name, args)
        res = None
        mode = None
        for m in self.monitors:
            res = m.before_call(self, st, ins, name, fn, args)
            if res is not None:
                mode = "monitor"
                break
        if res is None and name in self.models:
            res = self.models[name](self, st, ins, args)
            mode = "model"
        if res is None and fn is not None and not fn.decl:
            self.weight(fn)
            if ((self.inline and self._weight[fn.name] <= self.inline_limit and name not in self.no_inline) or
                    name in self.force_inline) and \
                    (not self.recursive(fn) or sum(1 for g, _ in self.stack if g is fn) + (self.entry is fn) < self.rec_depth) \
                    and len(self.stack) < self.max_depth:
                saved = st.regs
                self.stack.append((ins.fn, ins))
                try:
                    rr = self.exec_function(fn, st, args)
                finally:
                    self.stack.pop()
                res = []
                multi = len(rr) > 1
                for s, v, _ in rr:
                    s.regs = dict(saved) if multi else saved
                    res.append((s, v))
                mode = "inline"
            else:
                res = self.modular_call(st, ins, fn, args)
                mode = "modular"
        if res is None:
            res = self.unknown_call(st, ins, name, cal, args)
            mode = "unknown"
        out = []
        for s, v in res:
            if ins.type != "void":
                s.regs[ins.id] = v if v is not None else self.fresh_val(s, ins.type)
            ex = [s]
            for m in self.monitors:
                nx = []
                for y in ex:
                    r = m.after_call(self, y, ins, name, fn, args,
                                     y.regs.get(ins.id) if ins.type != "void" else None, mode)
                    nx += [y] if r is None else r
                ex = nx
            out += ex
        return out

    def ret_val(self, st, ins, fn):
        dt = fn.dtypes[0] if fn is not None and fn.dtypes else None
        nm = (fn.dname if fn else "ret") + "()"
        if ins.type.startswith("{") or ins.type.startswith("%"):
            # small struct returned by value: apply its slice contract
            sn = struct_name(dt) if dt else None
            if sn and sn in self.types.structs:
                for (s, p), (n, es, cap, kind) in self.contracts.slices.items():
                    if s == sn and self.types.member(sn, p)["off"] == 0 and not cap:
                        sz = self.fresh(st, nm + ".size", 0, 1 << 62)
                        r = self.new_region(kind, size=lin.scale(sz, es), label="%s.%s" % (sn, p), const=True, name=nm)
                        return ("agg", (((0,), ("p", r.id, lin.ZERO)), ((1,), ("i", sz))))
            return ("agg", ())
        return self.fresh_val(st, ins.type, dt, nm)

    def modular_call(self, st, ins, fn, args):
        self.modular_calls.add(fn.name)
        dt = param_types(fn, self.types)
        for a, t in zip(args, dt):
            self.assert_contracts(st, ins, a, "argument of " + fn.dname, self.extent_of(st, a, t))
        for a, t in zip(args, dt):
            ro = t is not None and is_ptr(strip_const(t)) and pointee_raw(strip_const(t)).startswith("const ")
            if not ro:
                self.havoc_reach(st, a, self.extent_of(st, a, t))
        return [(st, self.ret_val(st, ins, fn) if ins.type != "void" else None)]

    def extent_of(self, st, v, t):
        """Byte range of v's region a callee taking a `t` may touch; None: all of it."""
        if v[0] != "p" or t is None or not is_ptr(strip_const(t)) or v[2][1]:
            return None
        sn = struct_name(strip_const(pointee_raw(strip_const(t))))
        if not sn or sn not in self.types.structs:
            return None
        r = self.regions[v[1]]
        if r.kind not in ("obj", "heap", "alloca"):
            return None
        if r.ty is None or struct_name(r.ty) is None:
            return None
        n = self.types.sizeof("struct " + sn)
        if not n or struct_name(r.ty) == sn:
            return None
        return (v[2][0], v[2][0] + n)

    def unknown_call(self, st, ins, name, cal, args):
        """External function or callback: may change what its arguments reach."""
        for a in args:
            if a[0] == "p":
                r = self.regions[a[1]]
                if r.const or r.kind in ("global", "fn"):
                    continue
                sn = struct_name(r.ty) if r.ty else None
                if sn in ("GeoArrowVisitor", "GeoArrowCoordView", "GeoArrowGeometryView"):
                    continue
                if sn in ("GeoArrowError", "ArrowError"):
                    continue
                self.assert_contracts(st, ins, a, "argument of callback")
                self.havoc_reach(st, a)
        if ins.type == "void":
            return [(st, None)]
        return [(st, self.fresh_val(st, ins.type, name=(name or "callback") + "()"))]

    def reach(self, st, v, acc, depth=0, ext=None):
        if v[0] == "agg":
            for _, x in v[1]:
                self.reach(st, x, acc, depth)
            return
        if v[0] != "p" or v[1] in acc or depth > 6:
            return
        acc[v[1]] = ext or True
        for k, c in st.mem.get(v[1], {}).items():
            if k == "fill":
                continue
            if ext and (k[1] or not ext[0] <= k[0] < ext[1]):
                continue
            self.reach(st, c[1], acc, depth + 1)

    def havoc_reach(self, st, v, ext=None):
        acc = {}
        self.reach(st, v, acc, 0, ext)
        for rid, e in acc.items():
            r = self.regions[rid]
            if r.const:
                continue
            if e is not True:
                self.forget_part(st, r, e)
            else:
                self.forget(st, rid)

    def forget_part(self, st, r, e):
        d = st.mem.get(r.id)
        if d is None:
            return
        nd = {}
        for k, c in d.items():
            if k == "fill":
                out = []
                for lo, hi, b in c:
                    if lo < e[0]:
                        out.append((lo, min(hi, e[0]), b))
                    if hi > e[1]:
                        out.append((max(lo, e[1]), hi, b))
                if out:
                    nd[k] = tuple(out)
                continue
            if k[1] or (k[0] < e[1] and e[0] < k[0] + c[0]):
                continue
            nd[k] = c
        if r.kind in ("alloca", "heap"):
            st.null[("havoc", r.id)] = True
        st.mem[r.id] = nd
        st.written = {w for w in st.written if w[0] != r.id or not isinstance(w[1], tuple) or
                      (not w[1][1] and not e[0] <= w[1][0] < e[1])}

    def assert_contracts(self, st, ins, v, what, ext=None):
        if self.quiet or not self.mem_checks:
            return
        acc = {}
        self.reach(st, v, acc, 0, ext)
        for rid, e in acc.items():
            self.assert_region(st, ins, rid, what, None if e is True else e)

    def region_groups(self, st, r):
        """(own, base, group) for every contract group with a present cell."""
        d = st.mem.get(r.id)
        if not d or r.ty is None:
            return
        seen = set()
        for k, c in list(d.items()):
            if k == "fill":
                continue
            lf = self.leaf(r, k, c[0])
            if lf is None or lf[0] is None or lf[2] is None:
                continue
            own, base, mem, ty, rest = lf
            for g in self.contracts.involving(own, mem["name"]):
                key = (own, base, g[0])
                if key in seen:
                    continue
                seen.add(key)
                yield own, base, g

    def group_ok(self, st, r, own, base, g):
        p, n, es, cap, kind = g
        d = st.mem.get(r.id, {})
        cp = d.get(lin.addc(base, self.types.member(own, p)["off"]))
        cn = d.get(lin.addc(base, self.types.member(own, n)["off"]))
        cc = d.get(lin.addc(base, self.types.member(own, cap)["off"])) if cap else None
        if cp is None or cn is None or (cap and cc is None):
            # partially known: pull in the rest lazily
            for m, c in ((p, cp), (n, cn)) + (((cap, cc),) if cap else ()):
                if c is None:
                    mm = self.types.member(own, m)
                    off = lin.addc(base, mm["off"])
                    self.load_cell(st, r, off, 8, "ptr" if m == p else "i64")
            d = st.mem.get(r.id, {})
            cp = d.get(lin.addc(base, self.types.member(own, p)["off"]))
            cn = d.get(lin.addc(base, self.types.member(own, n)["off"]))
            cc = d.get(lin.addc(base, self.types.member(own, cap)["off"])) if cap else None
            if cp is None or cn is None or (cap and cc is None):
                return True
        num = st.num
        if cn[1][0] != "i":
            return True
        size = cn[1][1]
        if not num.prove(size):
            return False
        lim = size
        if cap:
            if cc[1][0] != "i":
                return True
            lim = cc[1][1]
            if not num.prove(lin.sub(lim, size)):
                return False
        pv = cp[1]
        if pv[0] == "n" or pv[0] == "fp0":
            return num.prove(lin.scale(lim, -1)) or kind in ("slice",) and num.prove_eq(size)
        if pv[0] != "p":
            return pv[0] == "t" and False
        rr = self.regions[pv[1]]
        if st.null.get(pv[1]) is True:
            return True
        if rr.size is None:
            return True
        return num.prove(pv[2]) and num.prove(lin.sub(rr.size, lin.add(pv[2], lin.scale(lim, es))))

    def assert_region(self, st, ins, rid, what, ext=None):
        r = self.regions[rid]
        for own, base, g in list(self.region_groups(st, r)):
            if ext and (base[1] or not ext[0] <= base[0] < ext[1]):
                continue
            keys = [(rid, lin.addc(base, self.types.member(own, x)["off"])) for x in (g[0], g[1], g[3]) if x]
            if not any(k in st.written for k in keys):
                continue
            ok = self.group_ok(st, r, own, base, g)
            self.record(("contract", g[4], "%s.%s" % (own, g[0])), ins,
                        "extent of %s.%s (%s)" % (own, g[0], what), ok,
                        "pointer/size pair not shown consistent")
        if self.ranges:
            d = st.mem.get(rid, {})
            for k, c in list(d.items()):
                if k == "fill" or (rid, k) not in st.written or c[1][0] != "i":
                    continue
                lf = self.leaf(r, k, c[0])
                if lf is None or lf[2] is None:
                    continue
                rg = self.ranges.get((lf[0], lf[2]["name"]))
                if rg:
                    w = c[0] * 8
                    lo, hi = rg
                    okl = lo is None or st.num.prove(lin.addc(c[1][1], -lo))
                    okh = hi is None or st.num.prove(lin.sub(lin.const(hi), c[1][1]))
                    if not okl:
                        self.range_fail.add((lf[0], lf[2]["name"], "lo", ins.where()))
                    if not okh:
                        self.range_fail.add((lf[0], lf[2]["name"], "hi", ins.where()))

    # ---------------------------------------------------------------- intrinsics
    def intrinsic(self, st, ins, name, args):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            self.memcpy(st, ins, args[0], args[1], self.as_int(st, args[2], 64))
            return [st]
        if name.startswith("llvm.memset"):
            self.memset(st, ins, args[0], args[1], self.as_int(st, args[2], 64))
            return [st]
        if name.startswith("llvm.assume") or name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") \
                or name.startswith("llvm.va_"):
            return [st]
        if name.startswith("llvm.trap"):
            return []
        if ins.type != "void":
            w = width(ins.type)
            if name.startswith(("llvm.smax", "llvm.umax", "llvm.smin", "llvm.umin")) and w:
                sg = name[5] == "s"
                a = self.view(st, self.as_int(st, args[0]), w, sg)
                b = self.view(st, self.as_int(st, args[1]), w, sg)
                out = []
                s2 = st.copy()
                c = ("ge", lin.sub(a, b))
                mx = "max" in name
                for x in self.assume(st, c, True):
                    x.regs[ins.id] = ("i", a if mx else b)
                    out.append(x)
                for x in self.assume(s2, c, False):
                    x.regs[ins.id] = ("i", b if mx else a)
                    out.append(x)
                return out
            if name.startswith("llvm.bswap") and w and args[0][0] == "i" and not args[0][1][1]:
                v = int.from_bytes((args[0][1][0] & ((1 << w) - 1)).to_bytes(w // 8, "little"), "big")
                st.regs[ins.id] = ("i", lin.const(v - (1 << w) if v >= 1 << (w - 1) else v))
                return [st]
            st.regs[ins.id] = self.fresh_val(st, ins.type)
        return [st]

    def clear_range(self, st, r, off, n):
        d = dict(st.mem.get(r.id, {}))
        for k, c in list(d.items()):
            if k == "fill":
                nf = []
                for lo, hi, b in c:
                    if not off[1] and not n[1]:
                        a, z = off[0], off[0] + n[0]
                        if z <= lo or a >= hi:
                            nf.append((lo, hi, b))
                        else:
                            if lo < a:
                                nf.append((lo, a, b))
                            if z < hi:
                                nf.append((z, hi, b))
                d["fill"] = tuple(nf)
                continue
            df = lin.sub(k, off)
            if not df[1] and not n[1]:
                if df[0] >= n[0] or df[0] + c[0] <= 0:
                    continue
            elif st.num.prove(lin.sub(df, n)) or st.num.prove(lin.addc(lin.scale(df, -1), -c[0])):
                continue
            del d[k]
            st.written.add((r.id, k))
        st.mem[r.id] = d

    def memcpy(self, st, ins, dst, src, n):
        n = n if n[1] == () else n
        cells = {}
        fill = []
        if src[0] == "p" and st.null.get(src[1]) is not True:
            r = self.regions[src[1]]
            self.check_access(st, ins, r, src[2], n, False)
            if not n[1] and n[0] <= 4096:
                # make typed members visible before copying a whole struct
                if (r.kind == "obj" or (r.kind == "global" and r.const)) and r.ty and struct_name(r.ty):
                    self.touch_all(st, r, src[2], n[0])
                if r.kind == "global" and r.const and not src[2][1] and n[0] <= 64:
                    m = re.match(r"^\[\d+ x (i8|i16|i32|i64|ptr)\]$", (self.mod.globals.get(r.name) or {}).get("type", ""))
                    es = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8}[m.group(1)] if m else 0
                    if es and src[2][0] % es == 0:
                        for o in range(0, n[0] - es + 1, es):
                            v = self.global_init_byte(r, src[2][0] + o, es)
                            if v is not None:
                                cells[o] = (es, v)
                for k, c in st.mem.get(r.id, {}).items():
                    if k == "fill":
                        if not src[2][1]:
                            for lo, hi, b in c:
                                a, z = max(lo, src[2][0]), min(hi, src[2][0] + n[0])
                                if a < z:
                                    fill.append((a - src[2][0], z - src[2][0], b))
                        continue
                    df = lin.sub(k, src[2])
                    if not df[1] and 0 <= df[0] and df[0] + c[0] <= n[0]:
                        cells[df[0]] = c
        elif src[0] == "n" or (src[0] == "p" and st.null.get(src[1]) is True):
            if not st.num.prove(lin.scale(n, -1)):
                for m in self.monitors:
                    m.on_null_deref(self, st, ins, None)
        if dst[0] == "p" and st.null.get(dst[1]) is not True:
            r = self.regions[dst[1]]
            self.check_access(st, ins, r, dst[2], n, True)
            for m in self.monitors:
                m.on_store(self, st, ins, r, dst[2], None, n)
            if r.ty is None and not n[1] and src[0] == "p":
                sr = self.regions[src[1]]
                if sr.ty and sr.kind != "slice" and src[2] == lin.ZERO and dst[2] == lin.ZERO and \
                        r.kind == "opaque":
                    self.set_type(r, sr.ty)
            self.clear_range(st, r, dst[2], n)
            d = dict(st.mem[r.id])
            for o, c in cells.items():
                k = lin.addc(dst[2], o)
                d[k] = c
                st.written.add((r.id, k))
            if fill and not dst[2][1]:
                d["fill"] = d.get("fill", ()) + tuple((a + dst[2][0], z + dst[2][0], b) for a, z, b in fill)
            st.mem[r.id] = d
        elif dst[0] == "n" or (dst[0] == "p" and st.null.get(dst[1]) is True):
            if not st.num.prove(lin.scale(n, -1)):
                for m in self.monitors:
                    m.on_null_deref(self, st, ins, None)

    def touch_all(self, st, r, off, n):
        sn = struct_name(r.ty)
        es = self.elem_size(r)
        if off[1] or off[0] % es != 0 or n < es:
            return
        self._touch(st, r, sn, off)

    def _touch(self, st, r, sn, base):
        for m in self.types.members(sn):
            s = struct_name(m["type"])
            if s and not is_ptr(m["type"]) and s in self.types.structs:
                if m["type"].startswith("union"):
                    self.load_if_absent(st, r, lin.addc(base, m["off"]), 8, "ptr")
                else:
                    self._touch(st, r, s, lin.addc(base, m["off"]))
            elif is_ptr(m["type"]):
                self.load_if_absent(st, r, lin.addc(base, m["off"]), 8, "ptr")
            elif m["size"] in (1, 2, 4, 8) and strip_const(m["type"]) != "double" and not m["type"].endswith("]"):
                self.load_if_absent(st, r, lin.addc(base, m["off"]), m["size"], "i%d" % (8 * m["size"]))

    def load_if_absent(self, st, r, off, size, ty):
        if off not in st.mem.get(r.id, {}):
            v = self.load_cell(st, r, off, size, ty)
            if r.kind == "global" and off not in st.mem.get(r.id, {}):
                self.put(st, r, off, size, v)

    def memset(self, st, ins, dst, byte, n):
        if dst[0] != "p" or st.null.get(dst[1]) is True:
            if dst[0] == "n" or dst[0] == "p":
                if not st.num.prove(lin.scale(n, -1)):
                    for m in self.monitors:
                        m.on_null_deref(self, st, ins, None)
            return
        r = self.regions[dst[1]]
        self.check_access(st, ins, r, dst[2], n, True)
        self.clear_range(st, r, dst[2], n)
        if not n[1] and not dst[2][1] and byte[0] == "i" and not byte[1][1]:
            d = dict(st.mem[r.id])
            d["fill"] = d.get("fill", ()) + ((dst[2][0], dst[2][0] + n[0], byte[1][0]),)
            st.mem[r.id] = d
            # zeroed contract members count as written
        for m in self.monitors:
            m.on_store(self, st, ins, r, dst[2], ("i", byte[1]) if byte[0] == "i" else TOP, n)

    # ---------------------------------------------------------------- entries
    def bind_params(self, st, fn):
        args = []
        dts = param_types(fn, self.types, detail=True)
        i = 0
        ps = fn.params
        while i < len(ps):
            p = ps[i]
            t = dts[i] if i < len(dts) else None
            if t is not None and t[0] == "pair":
                # struct passed in two registers
                sn = t[1]
                sl = None
                for (s, pm), g in self.contracts.slices.items():
                    if s == sn and self.types.member(sn, pm)["off"] == 0 and not g[2]:
                        sl = (pm, g)
                if sl and p["type"] == "ptr":
                    sz = self.fresh(st, "%s.size" % p["name"], 0, 1 << 62)
                    r = self.new_region(sl[1][3], size=lin.scale(sz, sl[1][1]), label="%s.%s" % (sn, sl[0]),
                                        const=True, name=p["name"])
                    args += [("p", r.id, lin.ZERO), ("i", sz)]
                else:
                    args.append(self.fresh_val(st, p["type"], None, p["name"]))
                    args.append(self.fresh_val(st, ps[i + 1]["type"], None, p["name"]))
                i += 2
                continue
            dt = t[1] if t is not None else None
            if t is not None and t[0] == "byval":
                r = self.new_region("obj", ty=dt, label="param:" + p["name"], name=p["name"])
                args.append(("p", r.id, lin.ZERO))
            else:
                v = self.fresh_val(st, p["type"], dt, p["name"])
                if v[0] == "p":
                    r = self.regions[v[1]]
                    r.name = p["name"]
                    st.null.setdefault(v[1], False) if r.kind == "obj" and self.params_nonnull else None
                args.append(v)
            i += 1
        return args

    params_nonnull = False

    def run_entry(self, fn, setup=None):
        self.entry = fn
        self.stack = []
        self.steps = 0
        st = State()
        args = self.bind_params(st, fn)
        if setup:
            r = setup(self, st, fn, args)
            if r is not None:
                args = r
        rets = self.exec_function(fn, st, args)
        for s, v, ins in rets:
            for rid in list(s.mem):
                r = self.regions[rid]
                if r.kind in ("obj", "heap") and self.mem_checks:
                    self.assert_region(s, ins, rid, "at exit")
            for m in self.monitors:
                m.on_exit(self, s, fn, v)
        return rets


class Head:
    """Loop-head state: entry state generalised until inductive."""

    def __init__(self, eng, fn, h, entry):
        self.eng = eng
        self.fn = fn
        self.h = h
        self.entry = entry.copy()
        self.st = entry
        self.phis = [i.id for i in fn.blocks[h].insts if i.op == "phi"]
        self.gen = {}     # loc -> sym (or None when TOP)
        self.init = {}    # sym -> LE at entry
        self.base = lin.new_sym("loopbase")
        self.syms = set()
        self.tried = set()
        self.rounds = 0
        self.left = {}
        self.ctries = {}
        self.base_region = max(eng.regions) if eng.regions else 0

    def instance(self):
        return self.st.copy()

    def get(self, st, loc):
        if loc[0] == "r":
            return st.regs.get(loc[1])
        c = st.mem.get(loc[1], {}).get(loc[2])
        return c[1] if c else None

    def put(self, st, loc, v):
        if loc[0] == "r":
            st.regs[loc[1]] = v
        else:
            d = dict(st.mem.get(loc[1], {}))
            c = d.get(loc[2])
            d[loc[2]] = (c[0] if c else 8, v)
            st.mem[loc[1]] = d

    def absorb(self, b, give_up=False):
        eng, H = self.eng, self.st
        self.rounds += 1
        changed = False
        # written cells the head does not know yet
        for rid, off in list(b.written):
            if off == "fill":
                continue
            cb = b.mem.get(rid, {}).get(off)
            hc = H.mem.get(rid, {})
            if off in hc:
                continue
            if cb is None:
                continue
            if ("forgot", rid, off) in self.tried or ("killed", rid, off) in self.tried:
                continue
            if rid > self.base_region and rid not in H.mem:
                continue
            r = eng.regions[rid]
            known_here = self.visible_le(off) and (rid in H.mem or r.kind in ("obj", "opaque", "heap") or True)
            if not known_here:
                continue
            if r.kind == "alloca" and rid not in H.mem:
                continue
            if cb[1][0] in ("t", "fp0", "u"):
                continue
            llty = "ptr" if cb[1][0] in ("p", "n", "f") else "i%d" % (8 * cb[0])
            v = eng.load_cell(H, r, off, cb[0], llty)
            # the entry state gets the same cell so that inits agree
            eng.put(self.entry, r, off, cb[0], v)
            for s in lin.syms(v[1]) if v[0] == "i" else ():
                if s in H.num.lo:
                    self.entry.num.lo[s] = H.num.lo[s]
                if s in H.num.hi:
                    self.entry.num.hi[s] = H.num.hi[s]
            changed = self.note(1, locals())
        locs = [("r", p) for p in self.phis if p in H.regs]
        for rid, cells in H.mem.items():
            bc = b.mem.get(rid)
            if bc is cells:
                continue
            for k in cells:
                locs.append(("m", rid, k))
        m = {}
        newg = []
        for loc in locs:
            if loc[0] == "m" and loc[2] == "fill":
                f = H.mem[loc[1]].get("fill")
                g = b.mem.get(loc[1], {}).get("fill", ())
                nf = tuple(x for x in f if x in g)
                if nf != f:
                    # keep what both agree on; cells are materialised lazily
                    nf = intersect_fill(f, g)
                    if nf != f:
                        d = dict(H.mem[loc[1]])
                        d["fill"] = nf
                        H.mem[loc[1]] = d
                        changed = self.note(2, locals())
                continue
            vh, vb = self.get(H, loc), self.get(b, loc)
            if vh is None:
                continue
            if vb is None:
                if loc[0] == "m":
                    # killed in the body: forget it
                    d = dict(H.mem[loc[1]])
                    d.pop(loc[2], None)
                    H.mem[loc[1]] = d
                    self.tried.add(("killed", loc[1], loc[2]))
                    self.break_contract(loc, b)
                    if loc in self.gen:
                        del self.gen[loc]
                    changed = self.note(3, locals())
                continue
            if vh == vb:
                continue
            g = self.gen.get(loc)
            if g is not None:
                if vb[0] in ("i", "b") and vh[0] == "i":
                    m[g] = eng.as_int(b, vb)
                    continue
                if vb[0] == "p" and vh[0] == "p" and vb[1] == vh[1]:
                    m[g] = vb[2]
                    continue
            if vh == TOP:
                continue
            if g is None and vh[0] in ("i", "b") and vb[0] in ("i", "b"):
                e0 = eng.as_int(H, vh)
                self.generalise(loc, "i", None, e0, eng.as_int(b, vb), m, newg)
                changed = self.note(4, locals())
                continue
            if g is None and vh[0] == "p" and vb[0] == "p" and vh[1] == vb[1]:
                self.generalise(loc, "p", vh[1], vh[2], vb[2], m, newg)
                changed = self.note(5, locals())
                continue
            # a slice member whose block changed: forget the whole group if the
            # contract holds at the back edge
            if loc[0] == "m" and self.forget_group(loc, b):
                changed = self.note(6, locals())
                continue
            # null / non-null mixture or different blocks
            if loc[0] == "m":
                d = dict(H.mem[loc[1]])
                c = d.get(loc[2])
                if vh[0] == "p" and vb[0] == "p":
                    ra, rb = eng.regions[vh[1]], eng.regions[vb[1]]
                    if ra.kind == rb.kind and ra.ty == rb.ty and ra.kind in ("obj", "opaque", "fn"):
                        if loc in self.gen:
                            # already a fresh representative
                            if vh[1] == self.gen[loc]:
                                continue
                        nv = eng.fresh_like(H, ra)
                        d[loc[2]] = (c[0], nv)
                        H.mem[loc[1]] = d
                        self.gen[loc] = nv[1]
                        changed = self.note(7, locals())
                        continue
                d[loc[2]] = (c[0], TOP)
                H.mem[loc[1]] = d
            else:
                if vh[0] == "p" and vb[0] == "p":
                    ra, rb = eng.regions[vh[1]], eng.regions[vb[1]]
                    if ra.kind == rb.kind and ra.ty == rb.ty and ra.kind in ("obj", "opaque", "fn"):
                        if self.gen.get(loc) == vh[1]:
                            continue
                        nv = eng.fresh_like(H, ra)
                        H.regs[loc[1]] = nv
                        self.gen[loc] = nv[1]
                        changed = self.note(8, locals())
                        continue
                H.regs[loc[1]] = TOP
            self.gen[loc] = None
            changed = self.note(9, locals())
        # null facts
        for k, v in list(H.null.items()):
            if b.null.get(k) != v and not isinstance(k, tuple):
                del H.null[k]
                changed = self.note(10, locals())
        for k, v in b.null.items():
            if isinstance(k, tuple) and k not in H.null and k[1] in H.mem:
                H.null[k] = v
        # relations from co-moving values
        if newg:
            allg = [(g, self.init.get(g), lin.sub(m[g], self.headval[g])) for g in m if g in self.init]
            for i in range(len(allg)):
                for j in range(i):
                    g1, i1, d1 = allg[i]
                    g2, i2, d2 = allg[j]
                    if g1 not in newg and g2 not in newg:
                        continue
                    pq = proportional(d1, d2)
                    if pq:
                        p, q = pq
                        e = lin.sub(lin.sub(lin.scale(lin.var(g1), q), lin.scale(lin.var(g2), p)),
                                    lin.sub(lin.scale(i1, q), lin.scale(i2, p)))
                        H.num.assume_eq(e)
        # retain only what the back edge re-establishes
        if m:
            moving = {g for g in m if m[g] != lin.var(g)}
            drop = set()
            for r in H.num.rels:
                if any(s in moving for s, _ in r[1]):
                    if give_up or not b.num.prove(lin.subst(r, m)):
                        drop.add(r)
            if drop:
                H.num.rels = H.num.rels - drop
                H.num._idx = None
                changed = self.note(11, locals())
            dn = {e for e in H.num.ne if any(s in moving for s, _ in e[1]) and not b.num.prove_ne(lin.subst(e, m))}
            if dn:
                H.num.ne = H.num.ne - dn
                changed = self.note(12, locals())
            for g in moving:
                lo, hi = H.num.lo.get(g), H.num.hi.get(g)
                if lo is not None and not b.num.prove(lin.addc(m[g], -lo)):
                    changed = self.note(13, locals())
                    self.widen_bound(H, g, 0, give_up)
                if hi is not None and not b.num.prove(lin.sub(lin.const(hi), m[g])):
                    changed = self.note(14, locals())
                    self.widen_bound(H, g, 1, give_up)
        # new candidates from the guards
            if not give_up and self.rounds > 1:
                if self.propose(b, m, moving):
                    changed = self.note(15, locals())
        # views keyed on moved symbols stay valid (symbols are immutable)
        return changed

    debug = False

    def note(self, n, loc):
        if Head.debug:
            l = loc.get("loc")
            extra = ""
            if n in (1,):
                extra = "%s %s" % (loc.get("rid"), loc.get("off"))
            print("  loop %s@%s r%d change %d %s %s vh=%s vb=%s r=%s" % (
                self.fn.dname, self.fn.blocks[self.h].insts[0].line, self.rounds, n, l, extra, loc.get("vh"), loc.get("vb"),
                lin.fmt(loc["r"]) if isinstance(loc.get("r"), tuple) else loc.get("r")), "hi", loc.get("hi"), "t", loc.get("t"), "m", loc.get("m"))
        return True

    headval = None
    TRIES = ((0, -1, -(1 << 31), -(1 << 63)), ((1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1))

    def widen_bound(self, H, g, side, give_up):
        d = H.num.hi if side else H.num.lo
        cur = d.pop(g)
        left = self.left.setdefault((g, side), list(self.TRIES[side]))
        while left and not give_up:
            t = left.pop(0)
            if (t > cur) if side else (t < cur):
                d[g] = t
                return

    def generalise(self, loc, kind, rid, e0, eb, m, newg):
        H, eng = self.st, self.eng
        g = lin.new_sym("inv")
        G = lin.var(g)
        self.put(H, loc, ("i", G) if kind == "i" else ("p", rid, G))
        self.gen[loc] = g
        self.syms.add(g)
        ev = self.get(self.entry, loc)
        init = None
        if ev is not None:
            if ev[0] == "i" and kind == "i":
                init = ev[1]
            elif ev[0] == "p" and kind == "p":
                init = ev[2]
        if init is None:
            init = e0
        self.init[g] = init
        if self.headval is None:
            self.headval = {}
        self.headval[g] = e0
        m[g] = eb
        newg.append(g)
        n = self.entry.num
        lo, hi = n.minval(init), n.maxval(init)
        if lo is not None:
            H.num.lo[g] = lo
        if hi is not None:
            H.num.hi[g] = hi
        if init[1]:
            H.num.assume(lin.sub(G, init))
            H.num.assume(lin.sub(init, G))
            # keep both as separate candidates: drop logic removes what fails
        if n.prove_ne(init):
            H.num.ne = H.num.ne | {G}
        # head value for later deltas is the symbol itself
        self.eng_after = True

    def propose(self, b, m, moving):
        H = self.st
        added = False
        delta = {}
        for g in moving:
            d = lin.sub(m[g], lin.var(g))
            delta[g] = lin.sub(lin.var(g), d)
        ent = {g: self.init[g] for g in self.init}
        cands = set()
        for g in moving:
            for r, _ in b.num.index().get(g, ()):
                cands.add(r)
            for side, db, dh in ((1, b.num.hi, H.num.hi), (0, b.num.lo, H.num.lo)):
                if g in db and g not in dh and self.ctries.get((g, side), 0) < 2:
                    self.ctries[(g, side)] = self.ctries.get((g, side), 0) + 1
                    cands.add((db[g], ((g, -1),)) if side else (-db[g], ((g, 1),)))
        for r in cands:
            c = lin.subst(r, delta)
            if not c[1] or c in self.tried or c in H.num.rels:
                continue
            if not all(s in self.syms or s < self.base or s in H.num.lo or s in H.num.hi for s, _ in c[1]):
                continue
            self.tried.add(c)
            if H.num.prove(c):
                continue
            e = lin.subst(c, ent)
            if not self.entry.num.prove(e):
                continue
            if not b.num.prove(lin.subst(c, m)):
                continue
            H.num.assume(c)
            added = True
        return added

    def break_contract(self, loc, b):
        """A member of a slice group is unknown at the head: its contract may be
        assumed again only when the back edge satisfies it."""
        eng, H = self.eng, self.st
        r = eng.regions[loc[1]]
        lf = eng.leaf(r, loc[2], 8)
        if lf is None or lf[0] is None or lf[2] is None:
            return
        own, base, mem, ty, rest = lf
        for g in eng.contracts.involving(own, mem["name"]):
            if not eng.group_ok(b.copy(), r, own, base, g):
                H.null[("broken", loc[1])] = True

    def visible_le(self, off):
        return all(s < self.base or s in self.syms for s, _ in off[1])

    def forget_group(self, loc, b):
        """Drop a slice group whose block is replaced inside the loop."""
        eng, H = self.eng, self.st
        rid, off = loc[1], loc[2]
        r = eng.regions[rid]
        c = H.mem[rid][off]
        lf = eng.leaf(r, off, c[0])
        if lf is None or lf[0] is None or lf[2] is None:
            return False
        own, base, mem, ty, rest = lf
        gs = eng.contracts.involving(own, mem["name"])
        if not gs:
            return False
        for g in gs:
            if not eng.group_ok(b.copy(), r, own, base, g) or not eng.group_ok(H.copy(), r, own, base, g):
                return False
        d = dict(H.mem[rid])
        for g in gs:
            for x in (g[0], g[1], g[3]):
                if x:
                    k = lin.addc(base, eng.types.member(own, x)["off"])
                    d.pop(k, None)
                    self.tried.add(("forgot", rid, k))
                    self.gen.pop(("m", rid, k), None)
        H.mem[rid] = d
        H.null[("havoc", rid)] = True
        return True


def intersect_fill(f, g):
    out = []
    for lo, hi, b in f:
        for lo2, hi2, b2 in g:
            if b == b2:
                a, z = max(lo, lo2), min(hi, hi2)
                if a < z:
                    out.append((a, z, b))
    return tuple(out)


def proportional(d1, d2):
    """(p, q) with q*d1 == p*d2, both non-zero; None otherwise."""
    if d1 == lin.ZERO or d2 == lin.ZERO:
        return None
    if not d1[1] and not d2[1]:
        p, q = d1[0], d2[0]
    else:
        if [s for s, _ in d1[1]] != [s for s, _ in d2[1]]:
            return None
        if not d1[1]:
            return None
        p, q = d1[1][0][1], d2[1][0][1]
    if q < 0:
        p, q = -p, -q
    from math import gcd
    g = gcd(abs(p), q)
    p, q = p // g, q // g
    if lin.scale(d1, q) == lin.scale(d2, p):
        return p, q
    return None


def neg(c):
    k = c[0]
    if k == "true":
        return ("false",)
    if k == "false":
        return ("true",)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "ge":
        return ("ge", lin.addc(lin.scale(c[1], -1), -1))
    if k == "not":
        return c[1]
    return ("not", c)


def rel_cond(pred, a, b):
    p = pred[-2:]
    d = lin.sub(a, b)
    if pred in ("eq", "ne"):
        if not d[1]:
            return ("true",) if (d[0] == 0) == (pred == "eq") else ("false",)
        return (pred, d)
    if p == "ge":
        e = d
    elif p == "gt":
        e = lin.addc(d, -1)
    elif p == "le":
        e = lin.scale(d, -1)
    else:
        e = lin.addc(lin.scale(d, -1), -1)
    if not e[1]:
        return ("true",) if e[0] >= 0 else ("false",)
    return ("ge", e)


def const_at(init, ty, off, size, mod=None):
    k = init[0]
    if k == "zero":
        return ("i", lin.ZERO) if size <= 8 else None
    if k == "str":
        bs = init[1].encode("utf-8")
        if off + size <= len(bs):
            v = int.from_bytes(bs[off:off + size], "little")
            if v >= 1 << (8 * size - 1):
                v -= 1 << (8 * size)
            return ("i", lin.const(v))
        return None
    if k == "bytes":
        bs = bytes(init[1])
        if off + size <= len(bs):
            v = int.from_bytes(bs[off:off + size], "little")
            if v >= 1 << (8 * size - 1):
                v -= 1 << (8 * size)
            return ("i", lin.const(v))
        return None
    if k == "arr":
        import re
        m = re.match(r"^\[(\d+) x (.*)\]$", ty)
        if m:
            es = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "double": 8}.get(m.group(2))
            if es is None:
                mm = re.match(r"^\[(\d+) x i(\d+)\]$", m.group(2))
                if mm:
                    es = int(mm.group(1)) * int(mm.group(2)) // 8
            if es:
                i = off // es
                if i < len(init[1]):
                    return const_at(init[1][i], m.group(2), off - i * es, size, mod)
            sn = m.group(2).strip("%").replace("struct.", "")
            if mod is not None and sn in mod.structs and mod.structs[sn]["size"]:
                es = mod.structs[sn]["size"]
                i = off // es
                if i < len(init[1]):
                    return const_at(init[1][i], m.group(2), off - i * es, size, mod)
            return None
        sn = ty.strip("%").replace("struct.", "")
        if mod is not None and sn in mod.structs:
            ms = mod.structs[sn].get("members", [])
            if len(ms) == len(init[1]):
                for x, c in zip(ms, init[1]):
                    if x["off"] <= off < x["off"] + x["size"]:
                        t = x["type"]
                        lt = "ptr" if t.endswith("*") else "i%d" % (8 * x["size"])
                        q = strip_const(t).replace("struct ", "")
                        if q in mod.structs:
                            lt = "%struct." + q
                        if "[" in t:
                            return None
                        return const_at(c, lt, off - x["off"], size, mod)
        return None
    if k == "c" and off == 0:
        return ("i", lin.const(init[1]))
    if k == "n" and off == 0:
        return NULL
    if k == "f" and off == 0:
        return ("f", init[1])
    if k == "g" and off == 0:
        return ("gref", init[1])
    return None


def param_types(fn, types, detail=False):
    """C type of each IR parameter; structs by value are expanded."""
    out = []
    dts = list(fn.dtypes or [])
    if not dts:
        return [None] * len(fn.params)
    ps = fn.params
    i = 0
    ret = dts[0]
    sr = struct_name(ret)
    if fn.ret == "void" and sr and not is_ptr(ret) and ps and ps[0]["type"] == "ptr":
        out.append(("plain", ret + "*") if detail else ret + "*")
        i = 1
    for t in dts[1:]:
        if i >= len(ps):
            break
        sn = struct_name(t)
        if sn and not is_ptr(strip_const(t)):
            size = types.sizeof(t) or 16
            if ps[i]["type"] == "ptr" and size > 16:
                out.append(("byval", strip_const(t)) if detail else t + "*")
                i += 1
            elif size > 8:
                out.append(("pair", sn) if detail else None)
                out.append(("pair2", sn) if detail else None)
                i += 2
            else:
                out.append(None)
                i += 1
        else:
            out.append(("plain", t) if detail else t)
            i += 1
    while len(out) < len(ps):
        out.append(None)
    return out


def recursive_functions(mod):
    g = {}
    for f in mod.defined():
        g[f.name] = {c.callee[1] for c in f.calls() if c.callee and c.callee[0] == "f"}
    res = set()
    for f in g:
        seen, st = set(), list(g[f])
        while st:
            x = st.pop()
            if x == f:
                res.add(f)
                break
            if x in seen or x not in g:
                continue
            seen.add(x)
            st.extend(g[x])
    return res


# -------------------------------------------------------------------- models
def m_malloc(eng, st, ins, args):
    n = eng.as_int(st, args[-1] if ins.fn is None else args[0], 64)
    s2 = st.copy()
    r = eng.new_region("heap", size=n, label="heap", name="malloc", site=ins)
    return [(st, ("p", r.id, lin.ZERO)), (s2, NULL)]


def m_realloc(eng, st, ins, args):
    n = eng.as_int(st, args[1], 64)
    s2 = st.copy()
    old = args[0]
    ty = eng.regions[old[1]].ty if old[0] == "p" else None
    r = eng.new_region("heap", ty=ty, size=n, label="heap", name="realloc", site=ins)
    if old[0] == "p":
        st.mem[r.id] = {k: c for k, c in st.mem.get(old[1], {}).items() if k != "fill"}
    return [(st, ("p", r.id, lin.ZERO)), (s2, NULL)]


def m_free(eng, st, ins, args):
    return [(st, None)]


def m_buffer_reserve(eng, st, ins, args):
    """ArrowBufferReserve: on success capacity >= size + additional."""
    b = args[0]
    fail = st.copy()
    rc = eng.fresh(fail, "reserve_rc", 1, 255)
    out = [(fail, ("i", rc))]
    if b[0] == "p":
        r = eng.regions[b[1]]
        eng.set_type(r, "struct ArrowBuffer")
        off = b[2]
        size = eng.load_cell(st, r, lin.addc(off, 8), 8, "i64")
        lf = eng.leaf(r, off, 8)
        ms = eng.types.member("ArrowBuffer", "size_bytes")["off"]
        mc = eng.types.member("ArrowBuffer", "capacity_bytes")["off"]
        md = eng.types.member("ArrowBuffer", "data")["off"]
        size = eng.load_cell(st, r, lin.addc(off, ms), 8, "i64")
        cap0 = eng.load_cell(st, r, lin.addc(off, mc), 8, "i64")
        add = eng.as_int(st, args[1], 64)
        cap = eng.fresh(st, "ArrowBuffer.capacity", 0, 1 << 62)
        st.num.assume(lin.sub(cap, eng.as_int(st, size)))
        st.num.assume(lin.sub(cap, lin.add(eng.as_int(st, size), add)))
        st.num.assume(lin.sub(cap, eng.as_int(st, cap0)))
        nr = eng.new_region("buffer", size=cap, label="ArrowBuffer.data", name="reserved")
        eng.store_cell(st, r, lin.addc(off, md), 8, ("p", nr.id, lin.ZERO))
        eng.store_cell(st, r, lin.addc(off, mc), 8, ("i", cap))
    out.append((st, ("i", lin.ZERO)))
    return out


def m_buffer_resize(eng, st, ins, args):
    b = args[0]
    fail = st.copy()
    rc = eng.fresh(fail, "resize_rc", 1, 255)
    out = [(fail, ("i", rc))]
    if b[0] == "p":
        r = eng.regions[b[1]]
        eng.set_type(r, "struct ArrowBuffer")
        off = b[2]
        ms = eng.types.member("ArrowBuffer", "size_bytes")["off"]
        mc = eng.types.member("ArrowBuffer", "capacity_bytes")["off"]
        md = eng.types.member("ArrowBuffer", "data")["off"]
        n = eng.as_int(st, args[1], 64)
        st.num.assume(n)
        cap = eng.fresh(st, "ArrowBuffer.capacity", 0, 1 << 62)
        st.num.assume(lin.sub(cap, n))
        nr = eng.new_region("buffer", size=cap, label="ArrowBuffer.data", name="resized")
        eng.store_cell(st, r, lin.addc(off, md), 8, ("p", nr.id, lin.ZERO))
        eng.store_cell(st, r, lin.addc(off, mc), 8, ("i", cap))
        eng.store_cell(st, r, lin.addc(off, ms), 8, ("i", n))
    out.append((st, ("i", lin.ZERO)))
    return out


def m_errset(eng, st, ins, args):
    return [(st, ("i", lin.ZERO) if ins.type != "void" else None)]


def m_strlen(eng, st, ins, args):
    v = args[0]
    if v[0] == "p":
        r = eng.regions[v[1]]
        if r.kind == "global" and not v[2][1]:
            g = eng.mod.globals.get(r.name)
            if g and g["const"] and g.get("init", [""])[0] == "str":
                s = g["init"][1].encode()
                i = s.find(b"\0", v[2][0])
                if i >= 0:
                    return [(st, ("i", lin.const(i - v[2][0])))]
    return [(st, ("i", eng.fresh(st, "strlen", 0, 1 << 62)))]


def m_snprintf(eng, st, ins, args):
    # snprintf(buf, n, ...): writes at most n bytes
    if args[0][0] == "p":
        r = eng.regions[args[0][1]]
        n = eng.as_int(st, args[1], 64)
        eng.check_access(st, ins, r, args[0][2], n, True)
        eng.clear_range(st, r, args[0][2], n)
    return [(st, ("i", eng.fresh(st, "snprintf", -(1 << 31), (1 << 31) - 1)))]


def m_vsnprintf(eng, st, ins, args):
    return m_snprintf(eng, st, ins, args)


def m_strncmp(eng, st, ins, args):
    """memcmp/strncmp(a, b, n): reads at most n bytes of each."""
    n = eng.as_int(st, args[2], 64)
    for a in args[:2]:
        if a[0] == "p":
            r = eng.regions[a[1]]
            if r.kind in ("slice", "buffer"):
                eng.check_access(st, ins, r, a[2], n, False)
    return [(st, ("i", eng.fresh(st, "cmp", -(1 << 31), (1 << 31) - 1)))]


def m_pure_int(eng, st, ins, args):
    return [(st, eng.fresh_val(st, ins.type, name="lib") if ins.type != "void" else None)]


def m_noop(eng, st, ins, args):
    return [(st, eng.fresh_val(st, ins.type, name="lib") if ins.type != "void" else None)]


MODELS = {
    "ArrowMalloc": m_malloc, "malloc": m_malloc, "ArrowRealloc": m_realloc, "realloc": m_realloc,
    "ArrowFree": m_free, "free": m_free,
    "ArrowBufferReserve": m_buffer_reserve, "ArrowBufferResize": m_buffer_resize,
    "ArrowErrorSet": m_errset, "GeoArrowErrorSet": m_errset, "ArrowErrorInit": m_noop,
    "strlen": m_strlen, "snprintf": m_snprintf, "vsnprintf": m_vsnprintf,
    "strncmp": m_strncmp, "memcmp": m_strncmp, "strcmp": m_pure_int,
    "atoi": m_pure_int, "strtod": m_pure_int,
    "strtol": m_pure_int, "strtoll": m_pure_int,
}
