"""Termination arguments for loops and bounds for recursion, read off the IR.

A loop is bounded when
  * a header variable moves one way on every trip and a test against a value that does not change during the loop,
    taken on every trip, leaves the loop in that direction, or
  * a counter in memory (the bytes left of an input) shrinks on every trip, callees included.
A recursive cycle is bounded when some argument or member is advanced on the way to the recursive call and the call
is only reached through a test of that quantity."""
from .cty import Types, llvm_struct
from .slai import param_types

BINCMP = {"slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge", "eq", "ne"}
NEG = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}
SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "eq": "eq", "ne": "ne"}
CASTS = ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze")
WIDTH = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "ptr": 64, "i128": 128}
BAD = -(1 << 20)        # the measure may grow
TOP = 1 << 20


def const(v):
    return v[1] if v[0] == "c" else None


class Measures:
    """How far functions move counters in memory they are given a pointer to."""

    def __init__(self, mod):
        self.mod = mod
        self.sum = {}
        self.rets = {}
        self.dirty = False

    def root(self, f, v):
        """(base value, byte offset) of an address; None when it is not a constant distance from a base."""
        off = 0
        for _ in range(64):
            if v[0] == "gep":
                g = v[1]
            elif v[0] == "v":
                d = f.defs.get(v[1])
                if d is None or d.op != "getelementptr":
                    if d is not None and d.op in ("bitcast", "freeze"):
                        v = d.ops[0]
                        continue
                    return (("v", v[1]), off)
                g = d.j["gep"]
            elif v[0] == "g":
                return (("g", v[1]), off)
            else:
                return None
            if g.get("vars"):
                return None
            off += g["off"]
            v = g["base"]
        return None

    def shift(self, f, i, m):
        """How a store to the measure changes it: units consumed (0: not at all, known), ("a", k) for parameter k, BAD."""
        v = i.ops[0]

        def ev(v, n=0):
            """(coefficient of the old value, constant, params subtracted) or None"""
            if n > 12:
                return None
            c = const(v)
            if c is not None:
                return (0, c, ())
            if v[0] != "v":
                return None
            d = f.defs.get(v[1])
            if d is None:
                for k, p in enumerate(f.params):
                    if p["id"] == v[1]:
                        return (0, 0, ((1, ("a", k)),))
                return None
            if d.op == "load" and self.root(f, d.ops[0]) == m:
                return (1, 0, ())
            if d.op in CASTS:
                r = ev(d.ops[0], n + 1)
                return r if r is not None else (0, 0, ((1, ("x",)),))
            if d.op == "sub" and all(x[0] == "v" and x[1] in f.defs and f.defs[x[1]].op == "ptrtoint" for x in d.ops):
                return (0, 0, ((1, ("x",)),))
            if d.op in ("add", "sub"):
                a, b = ev(d.ops[0], n + 1), ev(d.ops[1], n + 1)
                s = 1 if d.op == "add" else -1
                if a is None:
                    return None
                if b is None:
                    b = (0, 0, ((1, ("x",)),))
                return (a[0] + s * b[0], a[1] + s * b[1], a[2] + tuple((s * x, y) for x, y in b[2]))
            return (0, 0, ((1, ("x",)),))
        r = ev(v)
        if r is None or r[0] != 1:
            return BAD
        if not r[2]:
            return -r[1] if abs(r[1]) <= 64 else (1 << 10 if r[1] < 0 else BAD)
        if any(x > 0 for x, y in r[2]) or r[1] > 0:
            return BAD
        # an unknown amount is taken off: taken to be no less than nothing
        ks = [y for x, y in r[2]]
        if len(ks) == 1 and ks[0][0] == "a" and r[1] == 0:
            return ks[0]
        return -r[1]

    def summary(self, name, k, off):
        """{result is zero: 0 / not zero: 1 -> consumption} of parameter k's counter at off; settled by settle()."""
        key = (name, k, off)
        if key not in self.sum:
            f = self.mod.functions.get(name)
            if f is None or f.decl or k >= len(f.params):
                return {0: 0, 1: 0}
            self.sum[key] = {0: TOP, 1: TOP}
            self.dirty = True
        return self.sum[key]

    def settle(self):
        """Greatest solution: holds for every call that returns."""
        while self.dirty:
            self.dirty = False
            for key in list(self.sum):
                new = self.compute(*key)
                if new != self.sum[key]:
                    self.sum[key] = new
                    self.dirty = True

    def compute(self, name, k, off):
        f = self.mod.functions[name]
        m = (("v", f.params[k]["id"]), off)
        st = self.flow(f, m, f.entry, None, None)
        out = {0: TOP, 1: TOP}
        for b in f.order:
            t = f.blocks[b].insts[-1]
            if t.op == "ret" and b in st:
                self.classes(f, t.ops[0] if t.ops else ["u"], b, st, out, st[b], m)
        return out

    def classes(self, f, v, b, st, out, e, m):
        """Settle the consumption at a return by whether the result is zero."""
        d = f.defs.get(v[1]) if v[0] == "v" else None
        if d is not None and d.op == "phi" and d.block.id == b:
            for x, p in d.j["inc"]:
                if p in st:
                    n = {}
                    for k, y in self.edge(f, p, b, st[p]).items():
                        put(n, k, self.block(f, b, y, m))
                    self.classes(f, x, p, st, out, n, m)
            return
        c = const(v)
        for k, y in e.items():
            if c is not None:
                z = 1 if c else 0
                out[z] = meet(out[z], res(y))
            elif d is not None and d.op in ("call", "invoke") and y[1] is not None and y[1][0] == d.id:
                out[0] = meet(out[0], plus(y[0], y[1][1]))
                out[1] = meet(out[1], plus(y[0], y[1][2]))
            else:
                for z in (0, 1):
                    if d is None or (d.id, 1 - z) not in k:
                        out[z] = meet(out[z], res(y))

    def returned(self, f):
        """Calls whose result the function may return."""
        if f.name not in self.rets:
            out, seen = set(), set()
            st = [i.ops[0] for i in f.insts() if i.op == "ret" and i.ops]
            while st:
                v = st.pop()
                if v[0] != "v" or v[1] in seen:
                    continue
                seen.add(v[1])
                d = f.defs.get(v[1])
                if d is None:
                    continue
                if d.op in ("call", "invoke"):
                    out.add(d.id)
                elif d.op == "phi":
                    st += [x for x, _ in d.j["inc"]]
            self.rets[f.name] = out
        return self.rets[f.name]

    def flow(self, f, m, start, body, stop):
        """States at the end of each block, by what is known of the results of calls:
        {results: (consumed so far, pending call or None)}."""
        out = {}
        ins = {start: {frozenset(): (0, None)}}
        work = [start]
        while work:
            b = work.pop(0)
            e = {}
            for k, x in ins[b].items():
                put(e, k, self.block(f, b, x, m))
            if out.get(b) == e:
                continue
            out[b] = e
            for s in f.blocks[b].succ:
                if body is not None and (s not in body or s == stop):
                    continue
                new = dict(ins.get(s, {}))
                for k, x in self.edge(f, b, s, e).items():
                    put(new, k, x)
                if len(new) > 24:
                    j = None
                    for x in new.values():
                        j = x if j is None else join(j, x)
                    new = {frozenset(): j}
                if new != ins.get(s):
                    ins[s] = new
                    work.append(s)
        return out

    def block(self, f, b, e, m):
        c, pend = e
        for i in f.blocks[b].insts:
            if i.op == "store":
                if self.root(f, i.ops[1]) == m:
                    c, pend = plus(res((c, pend)), self.shift(f, i, m)), None
            elif i.op in ("call", "invoke"):
                s = self.calls(f, i, m)
                if s is None:
                    continue
                c, pend = res((c, pend)), None
                if s[0] == s[1]:
                    c = plus(c, s[0])
                else:
                    pend = (i.id, s[0], s[1])
        return (c, pend)

    def edge(self, f, b, s, e):
        """States carried to successor s: a pending call is settled by the branch that tests it."""
        t = f.blocks[b].insts[-1]
        if t.op != "br" or "cond" not in t.j or t.j["succ"][0] == t.j["succ"][1]:
            return e
        r = self.tested(f, t.j["cond"])
        if r is None:
            return e
        cid = r[0]
        zero = r[1] == (t.j["succ"][0] == s)
        out = {}
        for k, (c, pend) in e.items():
            if (cid, 1 if zero else 0) in k:
                continue
            if pend is not None and pend[0] == cid:
                c, pend = plus(c, pend[1] if zero else pend[2]), None
            put(out, k | {(cid, 0 if zero else 1)} if cid in self.returned(f) else k, (c, pend))
        return out

    def calls(self, f, i, m):
        if i.callee[0] != "f":
            return None
        name = i.callee[1]
        for k, a in enumerate(i.args):
            r = self.root(f, a)
            if r is None or r[0] != m[0] or r[1] > m[1]:
                continue
            if name.startswith("llvm."):
                if name.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")) and k == 0:
                    return (BAD, BAD)
                continue
            s = self.summary(name, k, m[1] - r[1])

            def val(x):
                if isinstance(x, tuple):
                    y = const(i.args[x[1]]) if x[1] < len(i.args) else None
                    if y is not None:
                        return y if y >= 0 else BAD
                    a = i.args[x[1]] if x[1] < len(i.args) else None
                    if a is not None and a[0] == "v":
                        for kk, p in enumerate(f.params):
                            if p["id"] == a[1]:
                                return ("a", kk)
                    return 0
                return x
            return (val(s.get(0, 0)), val(s.get(1, 0)))
        return None

    def tested(self, f, v):
        """(call, truth value of v for which its result is zero)"""
        flip = False
        for _ in range(12):
            if v[0] != "v":
                return None
            d = f.defs.get(v[1])
            if d is None:
                return None
            if d.op in ("call", "invoke"):
                return (d.id, flip)
            if d.op == "icmp" and const(d.ops[1]) == 0 and d.j["pred"] in ("eq", "ne"):
                if d.j["pred"] == "eq":
                    flip = not flip
                v = d.ops[0]
            elif d.op == "xor" and const(d.ops[1]) in (1, -1, True) and d.type == "i1":
                flip = not flip
                v = d.ops[0]
            elif d.op in ("zext", "sext", "trunc", "freeze"):
                v = d.ops[0]
            else:
                return None
        return None


def plus(a, b):
    if a == BAD or b == BAD:
        return BAD
    if isinstance(a, tuple):
        return a if b == 0 else (b if isinstance(b, int) else a)
    if isinstance(b, tuple):
        return b if a == 0 else a
    if a == TOP or b == TOP:
        return TOP
    return BAD if a + b < -64 else min(a + b, 1 << 10)


def meet(a, b):
    if a == BAD or b == BAD:
        return BAD
    if a == TOP or b == TOP:
        return a if b == TOP else b
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a if a == b else 0
    return min(a, b)


def res(e):
    c, p = e[0], e[1]
    return c if p is None else plus(c, meet(p[1], p[2]))


def join(a, b):
    if a[1] == b[1]:
        return (meet(a[0], b[0]), a[1])
    return (meet(res(a), res(b)), None)


def put(d, k, x):
    d[k] = join(d[k], x) if k in d else x


class Loops:
    """Loops of a module and why each ends."""

    def __init__(self, mod, writes):
        """writes(call instruction) -> member names the callee may store to, None when unknown"""
        self.mod, self.types = mod, Types(mod.structs)
        self.ms = Measures(mod)
        self.writes = writes

    def loops(self, f):
        for h, body in f.loops().items():
            yield h, body, [p for p in f.blocks[h].pred if p in body]

    # ------------------------------------------------------------ header variables
    def signs(self, f, phi, h, body, latches):
        """How the variable moves on a trip: subset of {'0', '+', '-', '?'}, and the amounts that are not constant."""
        loose = set()

        def mv(ss, s):
            out = set()
            for x in ss:
                if s == "0":
                    out.add(x)
                elif x == "0":
                    out.add(s)
                else:
                    out.add(x if x == s else "?")
            return out
        memo = {}

        def step(f, v, neg):
            c = const(v)
            if c is not None:
                c = -c if neg else c
                return "+" if c > 0 else "-" if c < 0 else "0"
            loose.add(str(v))
            return "-" if neg else "+"

        def ev(v):
            if v[0] != "v":
                return {"?"}
            if v[1] == phi.id:
                return {"0"}
            d = f.defs.get(v[1])
            if d is None or d.block.id not in body:
                return {"?"}
            if v[1] in memo:
                return memo[v[1]]
            if d.op in CASTS:
                return ev(d.ops[0])
            if d.op == "add":
                for a, b in ((0, 1), (1, 0)):
                    if derives(d.ops[a]):
                        return mv(ev(d.ops[a]), step(f, d.ops[b], False)) if not derives(d.ops[b]) else {"?"}
                return {"?"}
            if d.op == "sub":
                return mv(ev(d.ops[0]), step(f, d.ops[1], True)) if derives(d.ops[0]) and not derives(d.ops[1]) else {"?"}
            if d.op == "getelementptr":
                g = d.j["gep"]
                if not derives(g["base"]):
                    return {"?"}
                if g.get("vars"):
                    loose.add("gep")
                    return mv(ev(g["base"]), "+") if g["off"] >= 0 else {"?"}
                return mv(ev(g["base"]), "+" if g["off"] > 0 else "-" if g["off"] < 0 else "0")
            if d.op in ("lshr", "ashr", "udiv", "sdiv") and const(d.ops[1]):
                return mv(ev(d.ops[0]), "-")
            if d.op in ("phi", "select"):
                memo[v[1]] = set()
                while True:
                    out = set()
                    for x in ([y[0] for y in d.j["inc"]] if d.op == "phi" else d.ops[1:]):
                        out |= ev(x)
                    if out == memo[v[1]]:
                        return out
                    memo[v[1]] = out
                    for k in [k for k in memo if k != v[1]]:
                        pass
            return {"?"}
        dm = {}

        def derives(v):
            if v[0] != "v":
                return False
            if v[1] == phi.id:
                return True
            if v[1] in dm:
                return dm[v[1]]
            dm[v[1]] = False
            d = f.defs.get(v[1])
            if d is None or d.block.id not in body:
                return False
            if d.op in CASTS or d.op in ("add", "sub", "phi", "select", "lshr", "ashr", "udiv", "sdiv"):
                dm[v[1]] = any(derives(x) for x in d.operands())
            elif d.op == "getelementptr":
                dm[v[1]] = derives(d.j["gep"]["base"])
            return dm[v[1]]
        out = set()
        for v, p in phi.j["inc"]:
            if p in latches:
                out |= ev(v)
        return out, loose

    def stable(self, f, v, h, body, n=0):
        """v is the same on every trip."""
        if v[0] != "v":
            return True
        d = f.defs.get(v[1])
        if d is None or d.block.id not in body:
            return True
        if n > 12:
            return False
        if d.op == "load":
            return self.stable(f, d.ops[0], h, body, n + 1) and not self.stored(f, d, body)
        if d.op == "getelementptr":
            g = d.j["gep"]
            return self.stable(f, g["base"], h, body, n + 1) and all(self.stable(f, x, h, body, n + 1) for x in g["idx"])
        if d.op in CASTS or d.op in ("add", "sub", "mul", "sdiv", "udiv", "and", "or", "shl", "lshr", "icmp"):
            return all(self.stable(f, x, h, body, n + 1) for x in d.ops)
        if d.op in ("call", "invoke") and d.callee[0] == "f":
            g = self.mod.functions.get(d.callee[1])
            w = self.writes(f, d)
            return (g is not None and not g.decl and w == set() or d.callee[1] in ("strlen",)) and \
                all(self.stable(f, a, h, body, n + 1) for a in d.args)
        return False

    def stored(self, f, load, body):
        """May the member the load reads be written inside the loop?"""
        ks = self.names(f, load.ops[0])
        for b in body:
            for i in f.blocks[b].insts:
                if i.op == "store":
                    r, o = self.ms.root(f, i.ops[1]), self.ms.root(f, load.ops[0])
                    if self.own(f, r) and (o is None or r[0] != o[0]):
                        continue
                    w = self.names(f, i.ops[1])
                    if not ks or not w or ks & w:
                        if not ks or not w:
                            if self.far(f, load, i):
                                continue
                        return True
                elif i.op in ("call", "invoke"):
                    w = self.writes(f, i)
                    if w and (ks & w):
                        return True
        return False

    def own(self, f, r):
        """A place in a local of the function."""
        d = f.defs.get(r[0][1]) if r is not None and r[0][0] == "v" else None
        return d is not None and d.op == "alloca"

    def far(self, f, load, st):
        """A store of floating point or bytes does not touch a counter."""
        return st.get("vtype") in ("double", "float", "i8") and load.type not in ("i8",) or st.get("vtype") != load.type

    def names(self, f, v):
        return self.q.keys(f, v)

    # ------------------------------------------------------------ tests
    def tests(self, f, h, body, latches):
        """(predicate, a, b): the loop only goes on while a predicate b, tested on every trip."""
        out = []
        for b in body:
            t = f.blocks[b].insts[-1]
            if t.op != "br" or "cond" not in t.j or not all(f.dominates(b, l) for l in latches):
                continue
            s = t.j["succ"]
            live = [x for x in s if x in body and self.returns(f, x, h, body, b)]
            if len(live) != 1:
                continue
            out += self.cond(f, t.j["cond"], s[0] == live[0], 0)
        return out

    def returns(self, f, x, h, body, frm):
        """Can the loop header be reached from x inside the loop?"""
        if x == h:
            return True
        seen, st = {x}, [x]
        while st:
            y = st.pop()
            for s in f.blocks[y].succ:
                if s == h:
                    return True
                if s in body and s not in seen:
                    seen.add(s)
                    st.append(s)
        return False

    def cond(self, f, v, pos, n):
        if v[0] != "v" or n > 8:
            return []
        d = f.defs.get(v[1])
        if d is None:
            return []
        if d.op == "icmp":
            a, b, p = d.ops[0], d.ops[1], d.j["pred"]
            if p in ("eq", "ne") and const(b) == 0 and a[0] == "v" and a[1] in f.defs and f.defs[a[1]].op in ("zext", "sext") and \
                    f.defs[a[1]].j.get("from") == "i1":
                return self.cond(f, f.defs[a[1]].ops[0], pos == (p == "ne"), n + 1)
            return [(p if pos else NEG[p], a, b)]
        if d.op == "xor" and d.type == "i1" and const(d.ops[1]) is not None:
            return self.cond(f, d.ops[0], not pos, n + 1)
        if d.op in ("zext", "trunc", "freeze"):
            return self.cond(f, d.ops[0], pos, n + 1)
        if d.op == "phi" and d.type == "i1":
            # a && b continued: both hold; a || b left: both fail
            rest = [x for x, _ in d.j["inc"] if const(x) is None]
            fixed = {bool(const(x)) for x, _ in d.j["inc"] if const(x) is not None}
            out = []
            if fixed <= {not pos}:
                for x in rest:
                    out += self.cond(f, x, pos, n + 1)
                live = [p for x, p in d.j["inc"] if const(x) is None or bool(const(x)) == pos]
                if len(live) == 1:
                    out += self.path(f, d.block.id, live[0], n + 1)
            return out
        if d.op in ("and", "or", "select") and d.type == "i1":
            if d.op == "and" and pos or d.op == "or" and not pos:
                return self.cond(f, d.ops[0], pos, n + 1) + self.cond(f, d.ops[1], pos, n + 1)
            if d.op == "select":
                if pos and const(d.ops[2]) == 0:
                    return self.cond(f, d.ops[0], True, n + 1) + self.cond(f, d.ops[1], True, n + 1)
                if not pos and const(d.ops[1]) in (1, -1):
                    return self.cond(f, d.ops[0], False, n + 1) + self.cond(f, d.ops[2], False, n + 1)
        return []

    def path(self, f, frm, p, n):
        """What holds when block frm was entered from p: the tests passed since the point that dominates frm."""
        top = f.dom().get(frm)
        out, b = [], p
        while b is not None:
            t = f.blocks[b].insts[-1]
            if t.op == "br" and "cond" in t.j and t.j["succ"][0] != t.j["succ"][1]:
                s = t.j["succ"]
                for k in (0, 1):
                    if only(f, b, s[k], [s[1 - k]], p) if b != p else s[k] == frm:
                        out += self.cond(f, t.j["cond"], k == 0, n + 1)
            if b == top or b == f.entry:
                break
            b = f.dom().get(b)
        return out

    def linear(self, f, v, phi, body, h, n=0):
        """Sign with which phi enters v (0: not at all), None when v is not of that form; widths passed through."""
        if v[0] == "v" and v[1] == phi.id:
            return 1
        if self.stable(f, v, h, body):
            return 0
        d = f.defs.get(v[1]) if v[0] == "v" else None
        if d is None or n > 10:
            return None
        if d.op in CASTS:
            return self.linear(f, d.ops[0], phi, body, h, n + 1)
        if d.op in ("add", "sub"):
            a, b = self.linear(f, d.ops[0], phi, body, h, n + 1), self.linear(f, d.ops[1], phi, body, h, n + 1)
            if a is None or b is None:
                return None
            r = a + (b if d.op == "add" else -b)
            return r if r in (-1, 0, 1) else None
        if d.op == "getelementptr":
            g = d.j["gep"]
            a = self.linear(f, g["base"], phi, body, h, n + 1)
            if not g.get("vars"):
                return a
            if a == 0 and len(g["idx"]) == 1:
                return self.linear(f, g["idx"][0], phi, body, h, n + 1)
            return None
        if d.op in ("phi", "select"):
            return None
        return None

    def counted(self, f, h, body, latches):
        """(variable, direction, test) when a header variable bounds the loop."""
        ts = self.tests(f, h, body, latches)
        why = []
        for i in f.blocks[h].insts:
            if i.op != "phi":
                break
            ss, loose = self.signs(f, i, h, body, latches)
            if ss not in ({"+"}, {"-"}):
                continue
            s = 1 if ss == {"+"} else -1
            for p, a, b in ts:
                la, lb = self.linear(f, a, i, body, h), self.linear(f, b, i, body, h)
                if la is None or lb is None or la - lb == 0:
                    continue
                k = (la - lb) * s
                good = p in ("slt", "sle", "ult", "ule") and k > 0 or p in ("sgt", "sge", "ugt", "uge") and k < 0 or p in ("ne", "eq")
                if not good:
                    why.append("moves away from its limit")
                    continue
                nar = self.narrow(f, i, a if la else b, b if la else a, p)
                return (i, s, (p, a, b), nar, loose)
        return None

    def narrow(self, f, phi, side, limit, p):
        """The counter is narrower than the limit it is held against."""
        w = WIDTH.get(phi.type, 64)
        c = const(limit)
        if c is not None:
            return None
        lw = self.width(f, limit)
        return (w, lw) if lw > w and p not in ("eq",) else None

    def width(self, f, v):
        """Bits a value can really need."""
        if v[0] == "c":
            return max(abs(v[1]).bit_length(), 1)
        if v[0] != "v":
            return 64
        d = f.defs.get(v[1])
        if d is None:
            for p in f.params:
                if p["id"] == v[1]:
                    return WIDTH.get(p["type"], 64)
            return 64
        if d.op in ("sext", "zext"):
            return min(self.width(f, d.ops[0]), WIDTH.get(d.j.get("from"), 64))
        if d.op in ("and",) and const(d.ops[1]) is not None:
            return const(d.ops[1]).bit_length()
        return WIDTH.get(d.type, 64)

    # ------------------------------------------------------------ counters in memory
    def shrinking(self, f, h, body, latches):
        """A counter in memory that every trip lowers."""
        cand = set()
        for b in body:
            for i in f.blocks[b].insts:
                if i.op == "store" and i.get("vtype") in ("i64", "i32"):
                    r = self.ms.root(f, i.ops[1])
                    if r and self.fixed(f, r, body):
                        cand.add(r)
                elif i.op in ("call", "invoke") and i.callee[0] == "f":
                    for k, a in enumerate(i.args):
                        r = self.ms.root(f, a)
                        if r is None or r[0][0] != "v" or not self.fixed(f, r, body):
                            continue
                        for off in self.counters(i.callee[1], k):
                            cand.add((r[0], r[1] + off))
        best = None
        for m in sorted(cand, key=str):
            while True:
                self.ms.settle()
                st = self.ms.flow(f, m, h, body, h)
                if not self.ms.dirty:
                    break
            if not st:
                continue
            vals = []
            for l in latches:
                if l in st:
                    vals += [res(e) for e in self.ms.edge(f, l, h, st[l]).values()]
            if vals and all(isinstance(v, int) and v >= 1 for v in vals):
                return m
        return None

    def fixed(self, f, r, body):
        """The base of the address is the same object on every trip."""
        d = f.defs.get(r[0][1]) if r[0][0] == "v" else None
        return d is None or d.block.id not in body

    def counters(self, name, k, seen=None):
        """Offsets of the integers a function lowers in what parameter k points to."""
        seen = set() if seen is None else seen
        if (name, k) in seen:
            return set()
        seen.add((name, k))
        f = self.mod.functions.get(name)
        if f is None or f.decl or k >= len(f.params):
            return set()
        base = ("v", f.params[k]["id"])
        out = set()
        for i in f.insts():
            if i.op == "store" and i.get("vtype") in ("i64", "i32"):
                r = self.ms.root(f, i.ops[1])
                if r and r[0] == base:
                    out.add(r[1])
            elif i.op in ("call", "invoke") and i.callee[0] == "f":
                for j, a in enumerate(i.args):
                    r = self.ms.root(f, a)
                    if r and r[0] == base:
                        out |= {r[1] + o for o in self.counters(i.callee[1], j, seen)}
        return out


class Recursion:
    """Why the recursive cycles of the call graph are bounded."""
    GROW = {"ArrowBufferReserve": 1, "ArrowBufferResize": 1, "ArrowBufferReallocate": 1}
    DEEP = 1 << 16

    def __init__(self, mod, loops):
        self.mod, self.L, self.ms = mod, loops, loops.ms

    # ------------------------------------------------------------ cycles
    def cycles(self, only):
        """Strongly connected parts of the call graph that contain a cycle, with the calls inside them."""
        g = {f.name: {} for f in self.mod.defined()}
        for f in self.mod.defined():
            for i in f.calls():
                if i.callee[0] == "f" and i.callee[1] in g:
                    g[f.name].setdefault(i.callee[1], []).append(i)
        for comp in scc({n: list(x) for n, x in g.items()}):
            if not any(only(self.mod.functions[n]) for n in comp):
                continue
            s = set(comp)
            edges = [(n, t, i) for n in comp for t, l in g[n].items() if t in s for i in l]
            if edges:
                yield comp, edges

    @staticmethod
    def cyclic(edges):
        g = {}
        for a, b, _ in edges:
            g.setdefault(a, []).append(b)
            g.setdefault(b, [])
        return any(len(c) > 1 or c[0] in g[c[0]] for c in scc(g))

    # ------------------------------------------------------------ values in terms of what the function was given
    def slot(self, f, v, n=0):
        """(slot, constant) when v is what a parameter, or a member behind one, held on entry plus a constant."""
        if v[0] != "v" or n > 12:
            return None
        d = f.defs.get(v[1])
        if d is None:
            for k, p in enumerate(f.params):
                if p["id"] == v[1]:
                    return (("p", k), 0)
            return None
        if d.op in ("zext", "sext", "trunc", "freeze"):
            return self.slot(f, d.ops[0], n + 1)
        if d.op in ("add", "sub"):
            for a, b in ((0, 1), (1, 0)) if d.op == "add" else ((0, 1),):
                c = const(d.ops[b])
                r = self.slot(f, d.ops[a], n + 1) if c is not None else None
                if r:
                    return (r[0], r[1] + (c if d.op == "add" else -c))
            return None
        if d.op == "load":
            r = self.ms.root(f, d.ops[0])
            if r:
                for k, p in enumerate(f.params):
                    if r[0] == ("v", p["id"]):
                        return (("m", k, r[1]), 0)
                w = self.held(f, r, d)
                if w is not None:
                    return self.slot(f, w, n + 1)
        return None

    def held(self, f, r, at):
        """The value a place in a local holds at an instruction: the only store to it that matters."""
        if not self.L.own(f, r):
            return None
        st = [i for i in f.insts() if i.op == "store" and self.ms.root(f, i.ops[1]) == r]
        return st[0].ops[0] if len(st) == 1 and before(f, st[0], at) else None

    def same(self, f, a, b):
        """Two pointers that lead to one object: one value, or one local read twice with nothing in between."""
        if a == b:
            return True
        x, y = (f.defs.get(v[1]) if v[0] == "v" else None for v in (a, b))
        if not (x and y and x.op == y.op == "load"):
            return False
        r = self.ms.root(f, x.ops[0])
        if r is None or r != self.ms.root(f, y.ops[0]) or not self.L.own(f, r):
            return False
        if before(f, y, x):
            x, y = y, x
        if not before(f, x, y):
            return False
        for i in between(f, x, y):
            if i.op == "store" and (self.ms.root(f, i.ops[1]) or (None,))[0] == r[0]:
                return False
            if i.op in ("call", "invoke") and any((self.ms.root(f, z) or (None,))[0] == r[0] for z in i.args):
                return False
        return True

    def passed(self, f, i, slot):
        """What a call hands over in a slot of the callee, in terms of the caller's own slots; or the constant."""
        if slot[1] >= len(i.args):
            return None
        a = i.args[slot[1]]
        if slot[0] == "p":
            c = const(a)
            return ("c", c) if c is not None else self.slot(f, a)
        r = self.ms.root(f, a)
        off = slot[2] + (r[1] if r else 0)
        # a store just before
        best = None
        for s in f.insts():
            if s.op != "store" or not before(f, s, i):
                continue
            w = self.ms.root(f, s.ops[1])
            if w and r and w[1] == off and self.same(f, list(w[0]), list(r[0])):
                if best is None or before(f, best, s):
                    best = s
        ks = {x for s in ([best] if best else []) for x in self.L.names(f, s.ops[1])}
        if best is not None:
            if any(self.writer(f, s, ks) for s in between(f, best, i)):
                return None
            c = const(best.ops[0])
            return ("c", c) if c is not None else self.slot(f, best.ops[0])
        if r:
            for k, p in enumerate(f.params):
                if r[0] == ("v", p["id"]):
                    return (("m", k, off), 0)
        return None

    def writer(self, f, s, ks):
        """May the instruction change the members?"""
        if s.op == "store":
            return bool(ks & self.L.names(f, s.ops[1]))
        return s.op in ("call", "invoke") and s.callee[0] == "f" and not s.callee[1].startswith("llvm.") and \
            bool(ks & (self.L.writes(f, s) or set()))

    # ------------------------------------------------------------ tests
    def guards(self, f, blk, deep=True):
        """(predicate, a, b) that hold whenever blk is reached."""
        out = []
        for b in f.order:
            if b == blk or not f.dominates(b, blk):
                continue
            t = f.blocks[b].insts[-1]
            if t.op == "br" and "cond" in t.j:
                s = t.j["succ"]
                for k in (0, 1):
                    if s[0] != s[1] and only(f, b, s[k], [s[1 - k]], blk):
                        out += self.L.cond(f, t.j["cond"], k == 0, 0)
                        if deep:
                            out += self.called(f, t.j["cond"], k == 0)
            elif t.op == "switch":
                cs = t.j["cases"]
                if only(f, b, t.j["default"], [c[1] for c in cs], blk):
                    out += [("ne", t.j["cond"], ["c", const(c[0]) if isinstance(c[0], list) else c[0]]) for c in cs]
        return out

    def called(self, f, v, pos):
        """What is known of the arguments of a helper whose result was tested: (predicate, ('arg', call, k, constant), limit)."""
        r = self.ms.tested(f, v)
        if r is None:
            return []
        i = f.defs[r[0]]
        g = self.mod.functions.get(i.callee[1]) if i.callee[0] == "f" else None
        if g is None or g.decl:
            return []
        zero = r[1] == pos
        per = None
        for b in g.order:
            t = g.blocks[b].insts[-1]
            if t.op != "ret" or not t.ops:
                continue
            for x, p in self.incoming(g, t.ops[0], b):
                c = const(x)
                if c is not None and (c == 0) != zero:
                    continue
                if c is None:
                    gs = self.L.cond(g, x, not zero, 0)
                else:
                    gs = []
                gs = gs + self.guards(g, p, False) + self.edge(g, p, b)
                here = set()
                for q, a, l in gs:
                    for a, l, q in ((a, l, q), (l, a, SWAP[q])):
                        s = self.slot(g, a)
                        if s and const(l) is not None:
                            here.add((q, s, const(l)))
                per = here if per is None else per & here
        out = []
        for q, s, l in per or ():
            out.append((q, ["slot", self.passed(f, i, s[0]), s[1]], ["c", l]))
        return out

    def incoming(self, g, v, b):
        d = g.defs.get(v[1]) if v[0] == "v" else None
        if d is not None and d.op == "phi" and d.block.id == b:
            return [(x, p) for x, p in d.j["inc"]]
        if d is not None and d.op in ("zext", "sext") and d.j.get("from") == "i1":
            e = g.defs.get(d.ops[0][1]) if d.ops[0][0] == "v" else None
            if e is not None and e.op == "phi" and e.block.id == b:
                return [(x, p) for x, p in e.j["inc"]]
            return [(d.ops[0], b)]
        return [(v, b)]

    def edge(self, g, p, b):
        """What holds on the edge from p to b."""
        t = g.blocks[p].insts[-1]
        if p == b or t.op != "br" or "cond" not in t.j or t.j["succ"][0] == t.j["succ"][1]:
            return []
        return self.L.cond(g, t.j["cond"], t.j["succ"][0] == b, 0)

    def limited(self, f, i, slot, way):
        """The call is only reached through a test that stops the slot's value from moving on."""
        for p, a, b in self.guards(f, i.block.id):
            for p, a, b in ((p, a, b), (SWAP[p], b, a)):
                if a[0] == "slot":
                    r = a[1] and a[1][0] != "c" and (a[1][0], a[1][1] + a[2])
                else:
                    r = self.slot(f, a)
                if not r or r[0] != slot:
                    continue
                c = const(b)
                if c is not None and abs(c) > self.DEEP:
                    continue
                if c is None and not self.member(f, b):
                    continue
                if p == "ne" or way > 0 and p in ("slt", "sle", "ult", "ule") or way < 0 and p in ("sgt", "sge", "ugt", "uge"):
                    return True
        return False

    def member(self, f, v):
        d = f.defs.get(v[1]) if v[0] == "v" else None
        while d is not None and d.op in CASTS:
            d = f.defs.get(d.ops[0][1]) if d.ops[0][0] == "v" else None
        return d is not None and d.op == "load" or v[0] == "v" and d is None

    # ------------------------------------------------------------ why a cycle is bounded
    def measured(self, comp, edges):
        """A quantity handed around the cycle that is advanced and tested on the way."""
        cands = set()
        for a, b, i in edges:
            f, g = self.mod.functions[a], self.mod.functions[b]
            for k in range(len(g.params)):
                if g.params[k]["type"] in ("i8", "i16", "i32", "i64"):
                    cands.add((b, ("p", k)))
            for x in g.insts():
                if x.op == "load" and x.type in ("i8", "i16", "i32", "i64"):
                    s = self.slot(g, ["v", x.id])
                    if s and s[0][0] == "m":
                        cands.add((b, s[0]))
        for start in sorted(cands, key=str):
            m = {start[0]: start[1]}
            step, ok, ch = {}, True, True
            while ch and ok:
                ch = False
                for a, b, i in edges:
                    if b not in m or i.id in step and (a, i.id) in step:
                        continue
                    if (a, i.id) in step:
                        continue
                    r = self.passed(self.mod.functions[a], i, m[b])
                    if r is None:
                        ok = False
                        break
                    if r[0] == "c":
                        ok = False
                        break
                    if m.setdefault(a, r[0]) != r[0]:
                        ok = False
                        break
                    step[(a, i.id)] = r[1]
                    ch = True
            if not ok or set(m) != set(comp):
                continue
            ways = {1 if c > 0 else -1 for c in step.values() if c}
            if len(ways) != 1:
                continue
            way = ways.pop()
            if self.cyclic([e for e in edges if not step[(e[0], e[2].id)]]):
                continue
            if self.cyclic([e for e in edges if not self.limited(self.mod.functions[e[0]], e[2], m[e[0]], way)]):
                continue
            bad = self.starts(comp, m, way)
            if bad:
                continue
            return start, way
        return None

    def starts(self, comp, m, way):
        """Calls from outside that start with a value that is not a constant or a member."""
        for f in self.mod.defined():
            if f.name in comp:
                continue
            for i in f.calls():
                if i.callee[0] == "f" and i.callee[1] in m:
                    r = self.passed(f, i, m[i.callee[1]])
                    if r is None or way < 0 and r[0] != "c" or r[0] == "c" and abs(r[1]) > self.DEEP:
                        return i
        return None

    def retry(self, comp, edges):
        """The cycle is only taken again after what was too small has been enlarged."""
        rest = []
        for a, b, i in edges:
            f = self.mod.functions[a]
            if not self.enlarged(f, i, comp):
                rest.append((a, b, i))
        if self.cyclic(rest):
            return None
        rest = [e for e in edges if not self.short(self.mod.functions[e[0]], e[2], comp)]
        return None if self.cyclic(rest) else "enlarged before it is tried again"

    def enlarged(self, f, i, comp):
        for c in f.calls():
            g = self.mod.functions.get(c.callee[1]) if c.callee[0] == "f" else None
            if g is None or g.dname not in self.GROW or not before(f, c, i):
                continue
            amount = c.args[self.GROW[g.dname]]
            if not self.checked(f, c, i):
                continue
            k = const(amount)
            if k is not None and k > 0:
                return True
            if k is None and any(same_ssa(f, amount, x) for p, a, b in self.guards(f, i.block.id) for x in (a, b)):
                return True
        return False

    def checked(self, f, c, i):
        """A failed call does not lead on to i."""
        for b in f.order:
            t = f.blocks[b].insts[-1]
            if t.op == "br" and "cond" in t.j and f.dominates(b, i.block.id):
                r = self.ms.tested(f, t.j["cond"])
                if r and r[0] == c.id:
                    s = t.j["succ"]
                    return only(f, b, s[0 if r[1] else 1], [s[1 if r[1] else 0]], i.block.id)
        return False

    def short(self, f, i, comp):
        """The call is reached only through a test of a member that is written on the way round."""
        for p, a, b in self.guards(f, i.block.id):
            for x in (a, b):
                for l in loads(f, x):
                    ks = self.L.names(f, l.ops[0])
                    for n in comp:
                        for c in self.mod.functions[n].calls():
                            w = self.L.writes(self.mod.functions[n], c)
                            if c.callee[0] == "f" and c.callee[1] not in comp and w and ks & w:
                                return True
        return False

    def descends(self, comp, edges):
        """Each call goes to something held by the object at hand, in a structure of the library's own."""
        for k in range(8):
            ok = True
            for a, b, i in edges:
                f, g = self.mod.functions[a], self.mod.functions[b]
                if k >= len(f.params) or k >= len(i.args) or f.params[k]["type"] != "ptr":
                    ok = False
                    break
                t = f.dtypes[k + 1] if f.dtypes and len(f.dtypes) > k + 1 else ""
                if "const" in t or not self.below(f, i.args[k], f.params[k]["id"]):
                    ok = False
                    break
            if ok and edges:
                return k
        return None

    def below(self, f, v, pid):
        n = 0
        for _ in range(12):
            d = f.defs.get(v[1]) if v[0] == "v" else None
            if d is None:
                return v[0] == "v" and v[1] == pid and n >= 2
            if d.op == "load":
                n += 1
                v = d.ops[0]
            elif d.op == "getelementptr":
                v = d.j["gep"]["base"]
            elif v[0] == "gep":
                v = v[1]["base"]
            else:
                return False
        return False


def loads(f, v, n=0):
    d = f.defs.get(v[1]) if v[0] == "v" else None
    if d is None or n > 8:
        return
    if d.op == "load":
        yield d
    elif d.op in CASTS or d.op in ("add", "sub", "mul"):
        for x in d.ops:
            yield from loads(f, x, n + 1)


def same_ssa(f, a, b):
    def strip(v):
        while v[0] == "v" and v[1] in f.defs and f.defs[v[1]].op in CASTS:
            v = f.defs[v[1]].ops[0]
        return v
    return strip(a) == strip(b)


def before(f, a, b):
    """a runs before b whenever b runs."""
    if a.block.id == b.block.id:
        return a.idx < b.idx
    return f.dominates(a.block.id, b.block.id)


def between(f, a, b):
    """Instructions that may run after a and before b."""
    if a.block.id == b.block.id:
        return a.block.insts[a.idx + 1:b.idx]
    out = list(a.block.insts[a.idx + 1:])
    # blocks on a way from a to b
    fwd, st = set(), list(f.blocks[a.block.id].succ)
    while st:
        x = st.pop()
        if x in fwd or x == a.block.id:
            continue
        fwd.add(x)
        if x != b.block.id:
            st += f.blocks[x].succ
    bwd, st = set(), [b.block.id]
    while st:
        x = st.pop()
        if x in bwd:
            continue
        bwd.add(x)
        if x != a.block.id:
            st += f.blocks[x].pred
    for x in fwd & bwd:
        out += f.blocks[x].insts if x != b.block.id else f.blocks[x].insts[:b.idx]
    return out


def scc(g):
    """Tarjan, without recursion."""
    idx, low, on, st, out, n = {}, {}, set(), [], [], 0
    for r in g:
        if r in idx:
            continue
        work = [(r, iter(g[r]))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in g:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g[w])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def only(f, b, s, other, blk):
    """blk is reached from b by way of s alone."""
    def reach(x):
        seen, st = {x}, [x]
        while st:
            y = st.pop()
            if y == blk:
                return True
            for z in f.blocks[y].succ:
                if z not in seen and z != b:
                    seen.add(z)
                    st.append(z)
        return False
    return (s == blk or reach(s)) and not any(o == blk or reach(o) for o in other)
