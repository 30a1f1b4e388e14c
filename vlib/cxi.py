"""Path enumeration over the IR of small C++ functions.

Values: ("i", n) constants, ("p", base, off) pointers (base names an object, off is an
integer), ("f", name) functions, and terms: ("ld", base, off, size, version), ("call", n, name),
("op", opcode, a, b, ...).  Memory is a map of exact cells; what was never written reads as a term that stays
the same until something may write it.  Functions of the wrappers are followed, everything else is an event."""
import os

from .build import AnalysisError

ZERO = ("i", 0)
STRING = ("_ZNSt7__cxx1112basic_string", "_ZNKSt7__cxx1112basic_string")


class Unsupported(AnalysisError):
    pass


class St:
    __slots__ = ("mem", "ver", "facts", "events", "n", "status", "ret", "stack", "known", "strs", "under")

    def __init__(self):
        self.mem, self.ver, self.facts, self.events, self.n = {}, {}, {}, [], 0
        self.status, self.ret, self.stack, self.known, self.strs, self.under = None, None, [], {}, {}, {}

    def copy(self):
        s = St()
        s.mem, s.ver, s.facts, s.events, s.n = dict(self.mem), dict(self.ver), dict(self.facts), list(self.events), self.n
        s.status, s.ret, s.stack, s.known = self.status, self.ret, list(self.stack), dict(self.known)
        s.strs, s.under = dict(self.strs), dict(self.under)
        return s


def sx(n, bits):
    n &= (1 << bits) - 1
    return n - (1 << bits) if bits > 1 and n >> (bits - 1) else n


def bits_of(t):
    return int(t[1:]) if t[0] == "i" and t[1:].isdigit() else 64


def simple_name(f):
    """Name of a function without namespaces and template arguments."""
    d = f.dem
    depth = 0
    out = []
    for ch in d:
        if ch == "(" and depth == 0 and out:
            break
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif depth == 0:
            out.append(ch)
    return "".join(out).split()[-1] if out else d


def split_args(text):
    """Parameter types of a demangled signature that starts after its '('."""
    out, cur, depth = [], "", 0
    for ch in text:
        if ch in "<([":
            depth += 1
        elif ch in ">)]":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def signature(dem):
    """What follows the opening bracket of the parameters of a demangled function."""
    depth = 0
    i = len(dem) - 1
    while i >= 0 and dem[i] != ")":
        i -= 1
    while i >= 0:
        depth += {")": 1, "(": -1}.get(dem[i], 0)
        if depth == 0:
            return dem[i + 1:]
        i -= 1
    return ""


class Interp:
    max_paths = 4000
    max_visits = 3
    max_depth = 12

    def __init__(self, mod, follow, effects=None):
        self.mod, self.follow, self.effects = mod, follow, effects

    # ------------------------------------------------------------- values
    def val(self, v, regs):
        k = v[0]
        if k == "v":
            return regs.get(v[1], ("op", "undef", v[1]))
        if k == "c":
            return ("i", sx(v[1], v[2]))
        if k == "n":
            return ZERO
        if k == "f":
            return ("f", v[1])
        if k == "g":
            return ("p", ("glob", v[1]), 0)
        if k == "u":
            return ("op", "undef")
        return ("op", "const", str(v))

    def gep(self, g, regs, st):
        b = self.val(g["base"], regs)
        if b[0] == "p" and "off" in g and not g.get("vars"):
            return ("p", b[1], b[2] + g["off"])
        if b[0] == "p":
            idx = [(self.val(x[0] if isinstance(x[0], list) else x, regs), x[1] if isinstance(x[0], list) else 1) for x in g.get("vars", [])]
            off = g.get("off", 0)
            sym = []
            for v, sc in idx:
                if v[0] == "i" and isinstance(sc, int):
                    off += v[1] * sc
                else:
                    sym.append((v, str(sc)))
            if not sym:
                return ("p", b[1], b[2] + off)
            return ("op", "gep", b, off, tuple(sym))
        if "off" in g and not g.get("vars"):
            if g["off"] == 0:
                return b
            return ("p", b, g["off"]) if b[0] != "i" else ("i", b[1] + g["off"])
        return ("op", "gep", b, g.get("off", 0), tuple(str(x) for x in g.get("vars", [])))

    def ptr(self, v):
        """Pointers are objects with an offset."""
        if v[0] == "p":
            return v
        if v[0] in ("i", "f"):
            return None
        return ("p", v, 0)

    def load(self, st, p, size):
        c = st.mem.get((p[1], p[2]))
        if c and c[0] == size:
            return c[1]
        if c is None or c[0] != size:
            for (b, o), (sz, v) in st.mem.items():
                if b == p[1] and o < p[2] + size and p[2] < o + sz:
                    if v == ZERO and o <= p[2] and p[2] + size <= o + sz:
                        return ZERO
                    return ("op", "part", p, size, v)
        return self.initial(st, p, size)

    def initial(self, st, p, size):
        v = self.version(st, p)
        for o, n, s, src, stamp in reversed(st.under.get(p[1], ())):
            if stamp > v and o <= p[2] and p[2] + size <= o + n:
                return self.load(src, ("p", s[1], s[2] + p[2] - o), size)
        return ("ld", p[1], p[2], size, self.version(st, p))

    def version(self, st, p):
        return max([v for (b, lo), (v, hi) in st.ver.items() if b == p[1] and lo <= p[2] and (hi is None or p[2] < hi)] or [0])

    def store(self, st, p, size, v):
        for k in [k for k, (sz, _) in st.mem.items() if k[0] == p[1] and k[1] < p[2] + size and p[2] < k[1] + sz]:
            sz, old = st.mem.pop(k)
            if old == ZERO:         # keep the zeroes around a partial overwrite
                if k[1] < p[2]:
                    st.mem[k] = (p[2] - k[1], ZERO)
                if k[1] + sz > p[2] + size:
                    st.mem[(k[0], p[2] + size)] = (k[1] + sz - p[2] - size, ZERO)
        st.mem[(p[1], p[2])] = (size, v)
        st.events.append(("store", p, size, v))

    def havoc(self, st, p, lo=None, hi=None):
        st.n += 1
        for k in [k for k, c in st.mem.items() if k[0] == p[1] and (hi is None and k[1] + c[0] > p[2] or hi is not None and k[1] < p[2] + hi and k[1] + c[0] > p[2])]:
            del st.mem[k]
        st.ver[(p[1], p[2])] = (st.n, p[2] + hi if hi is not None else None)

    def copy(self, st, d, s, n):
        src = st.copy()
        st.n += 1
        for k in [k for k, c in st.mem.items() if k[0] == d[1] and k[1] < d[2] + n and d[2] < k[1] + c[0]]:
            del st.mem[k]
        st.under[d[1]] = st.under.get(d[1], ()) + ((d[2], n, s, src, st.n),)
        st.events.append(("copy", d, s, n))

    # ------------------------------------------------------------- conditions
    def truth(self, st, c):
        if c[0] == "i":
            return c[1] != 0
        if c in st.facts:
            return st.facts[c]
        if c[0] == "op" and c[1] == "icmp":
            p, a, b = c[2], c[3], c[4]
            if a[0] == "i" and b[0] != "i" and p in ("eq", "ne"):
                a, b = b, a
            if p in ("eq", "ne"):
                if a == b or a[0] == "i" and b[0] == "i":
                    return (a == b) == (p == "eq")
                if a[0] == "p" and b == ZERO and isinstance(a[1], tuple) and a[1][0] in ("obj", "alloca", "new", "glob"):
                    return p == "ne"
                if a[0] == "p" and b[0] == "p" and a[1] != b[1] and all(isinstance(x[1], tuple) and x[1][0] in ("alloca", "new", "glob") for x in (a, b)):
                    return p == "ne"
                if a[0] == "f" and b == ZERO:
                    return p == "ne"
                if b[0] == "i" and a in st.known:
                    return (st.known[a] == b[1]) == (p == "eq")
                k = ("eq", a, b)
                if k in st.facts:
                    return st.facts[k] == (p == "eq")
            elif a[0] == "i" and b[0] == "i":
                x, y = a[1], b[1]
                if p[0] == "u":
                    x, y = x & (2**64 - 1), y & (2**64 - 1)
                return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]]
            else:
                k = (p, a, b)
                if k in st.facts:
                    return st.facts[k]
        return None

    def assume(self, st, c, t):
        """Assume a condition; False when that contradicts something."""
        st.facts[c] = t
        if c[0] == "op" and c[1] == "icmp":
            p, a, b = c[2], c[3], c[4]
            if a[0] == "i" and b[0] != "i" and p in ("eq", "ne"):
                a, b = b, a
            if p in ("eq", "ne"):
                st.facts[("eq", a, b)] = t == (p == "eq")
                st.events.append(("test", a, b, t == (p == "eq")))
                if b[0] == "i" and t == (p == "eq"):
                    st.known[a] = b[1]
            else:
                st.facts[(p, a, b)] = t

    def nonzero(self, st, v):
        """True / False / None: is a value known to be (non)zero?"""
        if v[0] == "i":
            return v[1] != 0
        if v in st.known:
            return st.known[v] != 0
        f = st.facts.get(("eq", v, ZERO))
        return None if f is None else not f

    # ------------------------------------------------------------- running
    def run(self, f, args=None, st=None):
        """Final states of every path."""
        st = st or St()
        if args is None:
            args = self.arguments(f)
        self.count = 0
        out = []
        for s, v in self.call_body(f, args, st, 0):
            if s.status is None:
                s.status, s.ret = "ret", v
            out.append(s)
        return out

    def arguments(self, f):
        out = []
        for i, p in enumerate(f.params):
            n = p["name"] or "arg%d" % i
            if p["type"] == "ptr":
                out.append(("p", ("obj", n), 0) if n == "this" else ("p", ("arg", n), 0))
            else:
                out.append(("arg", n))
        return out

    def call_body(self, f, args, st, depth):
        if depth > self.max_depth:
            raise Unsupported("calls nest too deeply in %s" % f.dem)
        regs = {p["id"]: a for p, a in zip(f.params, args)}
        st.stack.append(f.dem)
        todo = [(f.entry, None, regs, st, {})]
        done = []
        while todo:
            b, prev, regs, s, visits = todo.pop()
            self.count += 1
            if self.count > 60000:
                raise Unsupported("too many paths in %s" % f.dem)
            visits = dict(visits)
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > self.max_visits:
                continue
            for r in self.block(f, b, prev, regs, s, depth):
                if r[0] == "end":
                    if r[1].stack:
                        r[1].stack.pop()
                    done.append((r[1], r[2]))
                else:
                    todo.append((r[1], b, r[2], r[3], visits))
            if len(done) > self.max_paths:
                raise Unsupported("too many paths in %s" % f.dem)
        return done

    def block(self, f, b, prev, regs, st, depth):
        insts = f.blocks[b].insts
        regs = dict(regs)
        # phis read the values on entry together
        new = {}
        for ins in insts:
            if ins.op != "phi":
                break
            for v, p in ins.j["inc"]:
                if p == prev:
                    new[ins.id] = self.val(v, regs)
        regs.update(new)
        work = [(0, regs, st)]
        out = []
        while work:
            i, regs, st = work.pop()
            ins = insts[i]
            op = ins.op
            if op == "phi":
                work.append((i + 1, regs, st))
                continue
            ops = [self.val(o, regs) for o in (ins.ops or [])]
            if op == "ret":
                out.append(("end", st, ops[0] if ops else None))
                continue
            if op in ("unreachable", "resume"):
                st.status = st.status or ("throw" if op == "resume" else op)
                out.append(("end", st, None))
                continue
            if op == "br":
                succ = ins.j["succ"]
                if "cond" not in ins.j:
                    out.append(("go", succ[0], regs, st))
                    continue
                c = self.val(ins.j["cond"], regs)
                t = self.truth(st, c)
                for side, target in ((True, succ[0]), (False, succ[1])):
                    if t is None or t == side:
                        s = st.copy() if t is None else st
                        if t is None:
                            self.assume(s, c, side)
                        out.append(("go", target, dict(regs), s))
                continue
            if op == "switch":
                v = self.val(ins.j["cond"], regs)
                bits = 32
                known = v[1] if v[0] == "i" else st.known.get(v)
                cases = [(c[0][1] if isinstance(c[0], list) else c[0], c[1]) for c in ins.j["cases"]]
                if known is not None:
                    tgt = [t for c, t in cases if sx(c, bits) == known] or [ins.j["default"]]
                    out.append(("go", tgt[0], regs, st))
                    continue
                excl = {b[1] for (k, a, b), t in ((k, t) for k, t in st.facts.items() if len(k) == 3 and k[0] == "eq") if a == v and t is False and b[0] == "i"}
                for c, t in cases:
                    if sx(c, bits) in excl:
                        continue
                    s = st.copy()
                    self.assume(s, ("op", "icmp", "eq", v, ("i", sx(c, bits))), True)
                    out.append(("go", t, dict(regs), s))
                for c, t in cases:
                    self.assume(st, ("op", "icmp", "eq", v, ("i", sx(c, bits))), False)
                out.append(("go", ins.j["default"], regs, st))
                continue
            if op == "invoke" or op == "call":
                for s, v in self.call(ins, regs, st, depth):
                    r = dict(regs)
                    if v is not None:
                        r[ins.id] = v
                    if s.status == "throw" and op == "invoke":
                        s.status = None         # the cleanup on the way out
                        out.append(("go", ins.j["succ"][1], r, s))
                    elif s.status is not None:
                        out.append(("end", s, None))
                    elif op == "invoke":
                        out.append(("go", ins.j["succ"][0], r, s))
                    else:
                        work.append((i + 1, r, s))
                continue
            if op == "select":
                t = self.truth(st, ops[0])
                for side in (True, False):
                    if t is None or t == side:
                        s = st.copy() if t is None else st
                        r = dict(regs)
                        if t is None:
                            self.assume(s, ops[0], side)
                        r[ins.id] = ops[1] if side else ops[2]
                        work.append((i + 1, r, s))
                continue
            regs[ins.id] = self.simple(ins, ops, regs, st)
            work.append((i + 1, regs, st))
        return out

    def simple(self, ins, ops, regs, st):
        op = ins.op
        if op == "alloca":
            st.n += 1
            return ("p", ("alloca", ins.fn.dname, ins.id, st.n), 0)
        if op == "getelementptr":
            return self.gep(ins.j["gep"], regs, st)
        if op == "load":
            p = self.ptr(ops[0])
            if p is None:
                st.status = "null"
                return ("op", "undef")
            size = ins.get("size", 8)
            v = self.load(st, p, size)
            if v[0] not in ("i", "p", "f") and v in st.known:
                v = ("i", st.known[v])
            return v
        if op == "store":
            p = self.ptr(ops[1])
            if p is None:
                st.status = "null"
                return None
            self.store(st, p, ins.get("size", 8), ops[0])
            return None
        if op == "icmp":
            c = ("op", "icmp", ins.get("pred"), ops[0], ops[1])
            t = self.truth(st, c)
            return ("i", 1 if t else 0) if t is not None else c
        if op in ("bitcast", "freeze", "inttoptr", "ptrtoint", "addrspacecast"):
            return ops[0]
        if op in ("sext", "zext", "trunc"):
            if ops[0][0] == "i":
                n = ops[0][1]
                w = bits_of(ins.type)
                if op == "zext":
                    fb = bits_of(ins.get("opty", "i1")) if ins.get("opty") else None
                    if fb:
                        n &= (1 << fb) - 1
                    elif n < 0:
                        n &= 1
                return ("i", sx(n, w))
            if op in ("sext", "zext"):
                return ops[0]
            return ops[0] if ops[0][0] == "op" and ops[0][1] == "icmp" else ("op", op, ops[0], ins.type)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "sdiv", "udiv", "ashr", "lshr"):
            a, b = ops
            if a[0] == "i" and b[0] == "i":
                w = bits_of(ins.type)
                x, y = a[1], b[1]
                try:
                    r = {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y}[op] if op in ("add", "sub", "mul", "and", "or", "xor") else \
                        {"shl": x << y, "ashr": x >> y, "lshr": (x & ((1 << w) - 1)) >> y}.get(op)
                except ValueError:
                    r = None
                if r is not None:
                    return ("i", sx(r, w))
            if op == "xor" and b == ("i", -1) or op == "xor" and b == ("i", 1) and ins.type == "i1":
                if a[0] == "op" and a[1] == "icmp" and a[2] in ("eq", "ne"):
                    return ("op", "icmp", "ne" if a[2] == "eq" else "eq", a[3], a[4])
            if op in ("add", "sub") and b == ZERO:
                return a
            if op == "mul" and b == ("i", 1):
                return a
            if op in ("add", "mul", "and", "or", "xor"):
                a, b = sorted((a, b), key=repr)
            return ("op", op, a, b)
        if op == "extractvalue":
            idx = tuple(ins.get("idx", ()) or ())
            a = ops[0]
            while a[0] == "op" and a[1] == "insertvalue" and len(idx) == 1:
                if tuple(a[4:]) == idx:
                    return a[3]
                a = a[2]
        if op in ("landingpad", "extractvalue", "insertvalue", "va_arg", "fence"):
            return ("op", op) + tuple(ops) + tuple(ins.get("idx", ()) or ())
        return ("op", op) + tuple(ops)

    # ------------------------------------------------------------- calls
    def call(self, ins, regs, st, depth):
        args = [self.val(a, regs) for a in ins.args]
        cal = self.val(ins.callee, regs) if ins.callee else ("op", "asm")
        if cal[0] != "f":
            st.n += 1
            r = ("call", st.n, "indirect")
            st.events.append(("icall", cal, tuple(args), r, ins))
            for a in args:
                p = self.ptr(a)
                if p:
                    self.havoc(st, p)
            return [(st, r)]
        name = cal[1]
        if name.startswith("llvm."):
            return self.intrinsic(name, args, st)
        g = self.mod.functions.get(name)
        h = self.special(name, g, args, ins, st)
        if h is not None:
            return h
        if g is not None and not g.decl and self.follow(g):
            st.events.append(("enter", g.dem, tuple(args), ins))
            out = []
            for s, v in self.call_body(g, args, st, depth + 1):
                if s.status is None:
                    s.events.append(("leave", g.dem, v, g))
                out.append((s, v))
            return out
        st.n += 1
        r = ("call", st.n, name)
        st.events.append(("call", g.dem if g else name, tuple(args), r, ins, g))
        if ins.get("noreturn") or name in ("abort", "_ZSt9terminatev", "__clang_call_terminate"):
            st.status = "terminate"
            return [(st, None)]
        eff = self.effects(g, name) if self.effects else None
        for i, a in enumerate(args):
            p = self.ptr(a)
            n = eff[i] if eff is not None and i < len(eff) else None
            if p and n != 0 and not (isinstance(p[1], tuple) and p[1][0] == "glob"):
                self.havoc(st, p, None, n)
        return [(st, r)]

    def intrinsic(self, name, args, st):
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            d, s, n = self.ptr(args[0]), self.ptr(args[1]), args[2]
            if d and s and n[0] == "i":
                self.copy(st, d, s, n[1])
            elif d:
                self.havoc(st, d)
            return [(st, None)]
        if name.startswith("llvm.memset"):
            d, v, n = self.ptr(args[0]), args[1], args[2]
            if d and n[0] == "i" and v == ZERO:
                self.store(st, d, n[1], ZERO)
            elif d:
                self.havoc(st, d)
            return [(st, None)]
        if name.startswith("llvm.trap"):
            st.status = "terminate"
        st.n += 1
        return [(st, ("call", st.n, name))]

    def special(self, name, g, args, ins, st):
        """The C++ runtime and std::string."""
        if name == "__cxa_throw":
            st.status = "throw"
            st.events.append(("throw", args[0], ins))
            return [(st, None)]
        if name in ("_Znwm", "__cxa_allocate_exception"):
            st.n += 1
            p = ("p", ("new", st.n, name), 0)
            st.events.append(("alloc", name, args[0], p, ins))
            return [(st, p)]
        if name in ("_ZdlPv", "_ZdlPvm"):
            st.events.append(("delete", args[0], ins))
            return [(st, None)]
        if name in ("__cxa_free_exception",):
            return [(st, None)]
        if g is not None and name.startswith(STRING):
            return self.string(g, args, ins, st)
        return None

    def string(self, g, args, ins, st):
        """Member functions of std::string: what its contents are made from, and until when pointers into it hold."""
        n = simple_name(g).split("::")[-1]
        p = self.ptr(args[0]) if args else None
        if p is None:
            return None
        ver = self.string_version(st, p)
        if n in ("data", "c_str") or n in ("operator[]", "at") and args[1:2] == [ZERO] or n in ("begin", "front"):
            return [(st, ("str", "data", p, ver))]
        if n in ("size", "length", "empty"):
            v = ("str", "size", p, ver)
            return [(st, v if n != "empty" else ("op", "icmp", "eq", v, ZERO))]
        if n in ("operator[]", "at", "end", "back", "find", "substr", "compare"):
            st.n += 1
            if n == "substr":
                return None
            return [(st, ("op", n, p, ver) + tuple(args[1:]))]
        st.n += 1
        r = ("call", st.n, n)
        sig = signature(g.dem)
        types = [x.strip() for x in split_args(sig)]
        st.events.append(("string", n, tuple(args), p, ins))
        content = ("unknown", st.n)
        others = [(i, self.ptr(a)) for i, a in enumerate(args[1:]) if i < len(types) and types[i].startswith("std::__cxx11::basic_string")]
        if n in ("basic_string", "operator=", "assign", "swap"):
            if others:
                content = self.content(st, others[0][1])
            elif types[:1] == ["char const*"]:
                content = ("bytes", args[1], args[2]) if types[1:2] == ["unsigned long"] else ("cstr", args[1])
            elif types[:2] == ["unsigned long", "char"]:
                content = ("fill", args[1], args[2])
            elif types == [""] or types[:1] == ["void"] or not types:
                content = ("empty",)
        elif n in ("clear", "~basic_string"):
            content = ("empty",)
        elif n == "resize" and self.content(st, p) == ("empty",):
            content = ("fill", args[1], ZERO)
        same = others and others[0][1][1:] == p[1:]
        if not (same and n in ("operator=", "assign")):
            st.strs[p[1:]] = (st.n, content)
        if others and types[others[0][0]].endswith("&&"):
            o = others[0][1]
            st.strs[o[1:]] = (st.n, ("moved",))
            st.events.append(("moved", o, ins))
        return [(st, p if n.startswith("operator") or n == "assign" else r)]

    def string_version(self, st, p):
        return max(st.strs.get(p[1:], (0, None))[0], self.version(st, p))

    def content(self, st, p):
        v, c = st.strs.get(p[1:], (0, None))
        if c is None or self.version(st, p) > v:
            return ("content", p[1], p[2], self.version(st, p))
        return c

def wrappers(f):
    return ("/geoarrow/hpp/" in f.file or f.file.endswith("geoarrow_type_inline.h") or "/build/gen/wrap-" in f.file) and not f.decl
