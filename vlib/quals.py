"""Which pointers may lead into memory a caller only lent, and what is written through them.

Each pointer value of a function gets labels:
  (k, 0)      parameter k itself, or memory next to it
  (k, 1)      memory reached from parameter k through at least one pointer
  ("A", i, o) the local i at offset o (None: anywhere)
  "IN"        lent memory, known because a structure member holds such a pointer
A function is summarised by what it writes through (labels of its parameters), what its result may be and what
it leaves in which structure members; a call applies the summary of the callee to the labels of the arguments.
Members are told apart by structure and offset, not by object."""
import re

from .cty import Types, is_ptr, llvm_struct, pointee_raw, strip_const, struct_name
from .libc import LIBC
from .slai import param_types

FRESH = {"malloc", "calloc", "ArrowMalloc"}
PTRISH = ("v", "g", "f", "gep", "ce")


class Quals:
    def __init__(self, mod, lent):
        """lent(self): {function name: set of parameter indices that are only lent}"""
        self.mod, self.types = mod, Types(mod.structs)
        self.V, self.C, self.F = {}, {}, {}
        self.W, self.FS, self.R = {}, {}, {}       # function -> {label: inst}, {(key, label): inst}, {label}
        self.bad, self.unknown = {}, {}
        self.slots = {}
        self.ptype = {}
        self.stats = {"functions": 0, "stores": 0, "calls": 0, "copies": 0}
        self.fns = [f for f in mod.defined()]
        self.callers = {}
        self.handed = None
        self.same = self.isomorphic()
        for f in self.fns:
            self.ptype[f.name] = param_types(f, self.types, detail=True)
        self.find_slots()
        self.lent = lent(self)
        self.out_of_line()
        self.solve()

    # ------------------------------------------------------------ slots
    def find_slots(self):
        """Functions kept in each structure member."""
        taken = set()
        for f in self.fns:
            for i in f.insts():
                if i.op == "store" and i.ops[0][0] == "f":
                    for k in self.keys(f, i.ops[1]):
                        self.slots.setdefault(k, set()).add(i.ops[0][1])
                    taken.add(i.ops[0][1])
                elif i.op in ("phi", "select", "call"):
                    for o in i.operands():
                        if o[0] == "f" and o is not i.callee:
                            taken.add(o[1])

        def walk(v):
            if isinstance(v, list):
                if len(v) == 2 and v[0] == "f" and isinstance(v[1], str):
                    taken.add(v[1])
                else:
                    for x in v:
                        walk(x)
        for g in self.mod.globals.values():
            walk(g.get("init"))
        self.taken = taken

    def targets(self, f, i):
        c = i.callee
        if c[0] == "f":
            return [c[1]]
        out = set()
        exact = False
        if c[0] == "v" and c[1] in f.defs and f.defs[c[1]].op == "load":
            for k in self.keys(f, f.defs[c[1]].ops[0]):
                if k in self.slots:
                    out |= self.slots[k]
        if not out:
            out = {t for t in self.taken if t in self.mod.functions and len(self.mod.functions[t].params) == len(i.args)}
        else:
            out = {t for t in out if t in self.mod.functions and len(self.mod.functions[t].params) == len(i.args)}
        return sorted(out)

    # ------------------------------------------------------------ member names
    def isomorphic(self):
        """One name for structures of equal shape: linking gives them a common type."""
        def shape(t):
            t = strip_const(t)
            if is_ptr(t):
                return "p"
            x = re.match(r"^(.*)\[(\d+)B\]$", t)
            if x:
                el = x.group(1).strip()
                return "[%d%s]" % (int(x.group(2)) // (self.types.sizeof(el) or 1), shape(el))
            s = struct_name(t)
            st = self.mod.structs.get(s) if s else None
            if st is None:
                return "d" if t == "double" else "i%s" % (self.types.sizeof(t) or t)
            if st["kind"] != "struct":
                return "u%s%s" % (s, st.get("size"))
            return "{%s}" % ",".join("%d%s" % (y["off"], shape(y["type"])) for y in st.get("members", []))
        rep, out = {}, {}
        for s in sorted(self.mod.structs):
            if self.mod.structs[s]["kind"] == "struct":
                out[s] = rep.setdefault(shape("struct " + s), s)
        return out

    def one(self, s):
        return self.same.get(s, s)

    def canon(self, s, off):
        """Innermost structure and offset in it of byte off of s."""
        l = self.types.leaf("struct " + s, off, 8)
        if l is None or l[0] is None:
            return ("m", self.one(s), off)
        return ("m", self.one(l[0]), l[2]["off"])

    def keys(self, f, v, seen=None):
        """Names of the memory an address denotes."""
        seen = set() if seen is None else seen
        if v[0] == "g":
            return {("g", v[1])}
        if v[0] == "gep":
            return self.gepkeys(f, v[1], seen)
        if v[0] != "v" or v[1] in seen:
            return set()
        seen.add(v[1])
        d = f.defs.get(v[1])
        if d is None:
            for k, p in enumerate(f.params):
                if p["id"] == v[1]:
                    return {("par", k)}
            return set()
        if d.op == "getelementptr":
            return self.gepkeys(f, d.j["gep"], seen)
        if d.op == "alloca":
            return {("loc", f.name, d.id)}
        if d.op == "load":
            return {("elt",) + (k if k[0] != "elt" else k[1:]) if k[0] != "par" else ("elt", "par", f.name, k[1]) for k in self.keys(f, d.ops[0], seen)}
        if d.op in ("phi", "select"):
            out = set()
            for o in (x[0] for x in d.j["inc"]) if d.op == "phi" else d.ops[1:]:
                out |= self.keys(f, o, seen)
            return out
        if d.op == "call":
            return {("ret", d.callee[1] if d.callee[0] == "f" else "?")}
        return set()

    def gepkeys(self, f, g, seen):
        s = llvm_struct(g["srcty"])
        if s is None or s not in self.mod.structs:
            return self.keys(f, g["base"], seen)
        inner = self.canon(s, self.goff(g))
        p = self.path(f, g)
        if p is None or p[0] == inner[1]:
            return {inner}
        # a member of a member: another name for it exists only where the address of the member is handed out
        return {("p",) + p, inner} if self.handed is None or not self.kept(p) else {("p",) + p}

    def kept(self, p):
        return not any(o == p[0] and a <= p[1] < a + n for o, a, n in self.handed)

    def path(self, f, g):
        """Outermost structure an address is formed in, and the offset there."""
        s, off = llvm_struct(g["srcty"]), self.goff(g)
        b = g["base"]
        while b[0] == "v" and b[1] in f.defs and f.defs[b[1]].op == "getelementptr":
            h = f.defs[b[1]].j["gep"]
            t = llvm_struct(h["srcty"])
            if t is None:
                if h["srcty"] == "i8":
                    return None
                b = h["base"]
                continue
            if t not in self.mod.structs:
                return None
            s, off = t, off + self.goff(h)
            b = h["base"]
        l = self.types.leaf("struct " + s, off, 8)
        if l is None or l[0] is None:
            return (self.one(s), off)
        return (self.one(s), l[1] + l[2]["off"])

    def out_of_line(self):
        """Members that are structures and whose address goes where it may be written through."""
        handed = set()
        for f in self.fns:
            for i in f.insts():
                if i.op != "getelementptr":
                    continue
                n = self.geptype(i.j["gep"])
                if n is None:
                    continue
                p = self.path(f, i.j["gep"])
                if p is None:
                    continue
                s, off = llvm_struct(i.j["gep"]["srcty"]), self.goff(i.j["gep"])
                p = self.outer(f, i.j["gep"])
                if p and self.goes_out(f, ["v", i.id]):
                    handed.add(p + (self.types.sizeof("struct " + n) or 1,))
        self.handed = handed

    def outer(self, f, g):
        s, off = llvm_struct(g["srcty"]), self.goff(g)
        b = g["base"]
        while b[0] == "v" and b[1] in f.defs and f.defs[b[1]].op == "getelementptr":
            h = f.defs[b[1]].j["gep"]
            t = llvm_struct(h["srcty"])
            if t is not None:
                s, off = t, off + self.goff(h)
            b = h["base"]
        return (self.one(s), off)

    def goes_out(self, f, v):
        for u in f.insts():
            if u.op == "store" and u.ops[0] == v or u.op in ("phi", "select", "ret", "insertvalue") and v in u.operands():
                return True
            if u.op in ("call", "invoke") and v in u.args:
                for t in self.targets(f, u):
                    if t.startswith("llvm."):
                        continue
                    for k, a in enumerate(u.args):
                        if a == v and k not in self.lent.get(t, ()):
                            return True
        return False

    def goff(self, g):
        s = llvm_struct(g["srcty"])
        if s is None:
            return g["off"] if g["srcty"] == "i8" and not g.get("vars") else 0
        size = (self.mod.structs.get(s) or {}).get("size")
        first = g["idx"][0]
        off = g["off"]
        if first[0] == "c" and size:
            off -= first[1] * size
        return off

    # ------------------------------------------------------------ labels
    def lab(self, f, v):
        if v[0] == "v":
            return self.V.get((f.name, v[1]), frozenset())
        return frozenset()

    def deeper(self, f, labels, n=8, off=True):
        out = set()
        for l in labels:
            if l == "IN":
                out.add("IN")
            elif l[0] == "A":
                for (fn, i, o), s in self.cells(f, l[1]):
                    if o is None or l[2] is None or not off or o == l[2]:
                        out |= s
            else:
                out.add((l[0], 1))
        return out

    def cells(self, f, i):
        return [((f.name, i, o), s) for o, s in self.C.get((f.name, i), {}).items()]

    def loadl(self, f, i):
        a = i.ops[0]
        la = self.lab(f, a)
        out = self.deeper(f, la)
        if not la or any(l == "IN" or l[0] != "A" or (f.name, l[1]) in self.escaped for l in la):
            for k in self.keys(f, a):
                if k in self.F:
                    out.add("IN")
        return out

    def put(self, f, v, labels):
        if not labels:
            return
        k = (f.name, v)
        o = self.V.get(k, frozenset())
        n = o | frozenset(labels)
        if n != o:
            self.V[k] = n
            self.ch = True

    def write(self, f, i, labels, msg=None):
        for l in labels:
            if l == "IN":
                self.bad.setdefault((f.name, i.id), (i, "a pointer kept in a structure member leads into lent memory"))
            elif l[0] != "A":
                w = self.W.setdefault(f.name, {})
                if l not in w:
                    w[l] = i
                    self.ch = True

    def keep(self, f, i, addr, labels, la=None):
        """Pointers with these labels are stored at addr."""
        if not labels:
            return
        la = self.lab(f, addr) if la is None else la
        local = la and all(l != "IN" and l[0] == "A" for l in la)
        for l in la:
            if l != "IN" and l[0] == "A":
                c = self.C.setdefault((f.name, l[1]), {}).setdefault(l[2], set())
                if not labels <= c:
                    c |= labels
                    self.ch = True
        if local:
            return
        self.remember(f, i, self.keys(f, addr), labels)

    def remember(self, f, i, keys, labels):
        for k in keys:
            if k[0] == "loc":
                continue
            for l in labels:
                if l == "IN" and k[0] != "par":
                    if k not in self.F:
                        self.F[k] = (f, i)
                        self.ch = True
                elif l == "IN" or l[0] != "A":
                    s = self.FS.setdefault(f.name, {})
                    if (k, l) not in s:
                        s[(k, l)] = i
                        self.ch = True

    def typeof(self, f, v):
        """Structure an address points to."""
        if v[0] == "gep":
            return self.geptype(v[1])
        if v[0] != "v":
            return None
        d = f.defs.get(v[1])
        if d is None:
            for k, p in enumerate(f.params):
                if p["id"] == v[1]:
                    t = self.ptype[f.name][k] if k < len(self.ptype[f.name]) else None
                    if t is None:
                        return None
                    if t[0] == "pair":
                        m = self.types.members(t[1])
                        return struct_name(strip_const(pointee_raw(m[0]["type"]))) if m and is_ptr(m[0]["type"]) else None
                    if t[0] == "byval":
                        return struct_name(t[1])
                    if t[0] == "plain" and is_ptr(strip_const(t[1])):
                        return struct_name(strip_const(pointee_raw(strip_const(t[1]))))
            return None
        if d.op == "getelementptr":
            return self.geptype(d.j["gep"])
        if d.op == "alloca":
            return llvm_struct(str(d.j.get("alloc") or d.j.get("ty") or d.j.get("aty") or ""))
        return None

    def geptype(self, g):
        s = llvm_struct(g["srcty"])
        if s is None or s not in self.mod.structs:
            return None
        off = self.goff(g)
        for m in self.types.members(s):
            if m["off"] == off:
                return struct_name(m["type"])
        return None

    def ptrs(self, s, base=0):
        """Offsets of the pointer members of a structure."""
        out = []
        for m in self.types.members(s):
            t = strip_const(m["type"])
            n = struct_name(t)
            if n and not is_ptr(t):
                out += self.ptrs(n, base + m["off"])
            elif is_ptr(t) or "*[" in t:
                out.append(base + m["off"])
        return out

    # ------------------------------------------------------------ solving
    def solve(self):
        self.escaped = set()
        for f in self.fns:
            self.stats["functions"] += 1
            for k, p in enumerate(f.params):
                if p["type"] == "ptr":
                    self.V[(f.name, p["id"])] = frozenset([(k, 0)])
            for i in f.insts():
                if i.op == "alloca":
                    self.V[(f.name, i.id)] = frozenset([("A", i.id, 0)])
        rounds = 0
        self.ch = True
        while self.ch:
            self.ch = False
            rounds += 1
            for f in self.fns:
                self.function(f)
            for fn, ks in self.lent.items():
                for (key, l), i in list(self.FS.get(fn, {}).items()):
                    if l != "IN" and l[0] in ks and key[0] != "par" and key not in self.F:
                        self.F[key] = (self.mod.functions[fn], i)
                        self.ch = True
        self.rounds = rounds
        for f in self.fns:
            for i in f.insts():
                if i.op == "store":
                    self.stats["stores"] += 1
                elif i.op in ("call", "invoke") and not (i.callee[0] == "f" and i.callee[1].startswith("llvm.")):
                    self.stats["calls"] += 1

    def function(self, f):
        for b in f.rpo():
            for i in f.blocks[b].insts:
                op = i.op
                if op == "getelementptr":
                    g = i.j["gep"]
                    k = 0 if llvm_struct(g["srcty"]) else None
                    out = set()
                    for l in self.lab(f, g["base"]):
                        if l != "IN" and l[0] == "A":
                            o = None
                            if l[2] is not None and not g.get("vars"):
                                o = l[2] + g["off"]
                            elif l[2] is not None and llvm_struct(g["srcty"]) is None and g["srcty"].startswith("["):
                                o = l[2] + g["off"]
                            out.add(("A", l[1], o))
                        else:
                            out.add(l)
                    self.put(f, i.id, out)
                elif op == "load":
                    if i.type == "ptr":
                        self.put(f, i.id, self.loadl(f, i))
                elif op == "store":
                    self.write(f, i, self.lab(f, i.ops[1]))
                    if i.ops[0][0] == "v":
                        l = self.lab(f, i.ops[0])
                        if l:
                            for x in l:
                                if x != "IN" and x[0] == "A":
                                    self.escaped.add((f.name, x[1]))
                            self.keep(f, i, i.ops[1], set(l))
                elif op == "phi":
                    for v, _ in i.j["inc"]:
                        self.put(f, i.id, self.lab(f, v))
                elif op == "select":
                    for v in i.ops[1:]:
                        self.put(f, i.id, self.lab(f, v))
                elif op in ("extractvalue", "insertvalue", "freeze", "bitcast", "inttoptr", "ptrtoint"):
                    for v in i.ops or ():
                        self.put(f, i.id, self.lab(f, v))
                elif op == "ret":
                    if i.ops:
                        l = {x for x in self.lab(f, i.ops[0]) if x == "IN" or x[0] != "A"}
                        r = self.R.setdefault(f.name, set())
                        if not l <= r:
                            r |= l
                            self.ch = True
                elif op in ("call", "invoke"):
                    self.call(f, i)

    def call(self, f, i):
        for n in self.targets(f, i):
            self.apply(f, i, n)
        if i.callee[0] == "v":
            self.write(f, i, [l for l in self.lab(f, i.callee) if l == "IN"])
            for l in self.lab(f, i.callee):
                # calling a callback of lent memory hands that memory's owner the right to change it
                if l != "IN" and l[0] != "A" and self.releases(f, i):
                    self.write(f, i, [l])

    def releases(self, f, i):
        d = f.defs.get(i.callee[1])
        if d is None or d.op != "load":
            return False
        return any(k[0] == "m" and k[1] in (self.one("ArrowArray"), self.one("ArrowSchema")) for k in self.keys(f, d.ops[0]))

    def apply(self, f, i, name):
        g = self.mod.functions.get(name)
        dn = g.dname if g is not None else name
        a = i.args
        if name.startswith("llvm."):
            b = name.split(".")[1]
            if b in ("memcpy", "memmove"):
                self.write(f, i, self.lab(f, a[0]))
                self.copymem(f, i, a[0], a[1], a[2])
            elif b == "memset":
                self.write(f, i, self.lab(f, a[0]))
            return
        if dn in FRESH:
            return
        if dn in ("realloc", "ArrowRealloc"):
            self.write(f, i, self.lab(f, a[0]))
            self.put(f, i.id, self.lab(f, a[0]))
            return
        if g is None or g.decl or dn in ("ArrowFree",):
            m = LIBC.get(dn)
            if m is None:
                self.unknown[dn] = i.where()
                m = (range(len(a)), None)
            for k in m[0]:
                if k < len(a):
                    self.write(f, i, self.lab(f, a[k]))
            if m[1] is not None:
                self.put(f, i.id, self.lab(f, a[m[1]]))
            if dn.startswith("strto"):
                self.keep(f, i, a[1], set(self.lab(f, a[0])))
            return
        for k, x in enumerate(a):
            for l in self.lab(f, x):
                if l != "IN" and l[0] == "A" and (f.name, l[1]) not in self.escaped:
                    self.escaped.add((f.name, l[1]))
                    self.ch = True

        def sub(l):
            return self.substitute(f, i, l)
        for l in list(self.W.get(name, ())):
            if name in self.lent and l[0] in self.lent[name]:
                continue        # reported there
            self.write(f, i, sub(l))
        r = set()
        for l in self.R.get(name, ()):
            r |= sub(l)
        self.put(f, i.id, r)
        for (key, l) in list(self.FS.get(name, ())):
            s = {x for x in sub(l)}
            if not s:
                continue
            if key[0] == "par":
                if key[1] < len(a):
                    self.keep(f, i, a[key[1]], s)
            else:
                self.remember(f, i, {key}, {x for x in s})

    def substitute(self, f, i, l):
        """Labels at call i of what the callee calls l."""
        if l == "IN":
            return {"IN"}
        if l[0] >= len(i.args):
            return set()
        la = self.lab(f, i.args[l[0]])
        return set(la) if l[1] == 0 else self.deeper(f, la, off=False)

    def copymem(self, f, i, d, s, n):
        ls = self.lab(f, s)
        ks = self.typeof(f, s) or self.typeof(f, d)
        self.stats["copies"] += 1
        if ks is None:
            # without a structure on either side only a block of known size moves pointers
            if n[0] != "c" or n[1] < 8:
                return
            la, ld = [l for l in ls if l != "IN" and l[0] == "A"], [l for l in self.lab(f, d) if l != "IN" and l[0] == "A"]
            if la or ld:
                self.keep(f, i, d, self.deeper(f, ls, off=False), la={("A", l[1], None) for l in ld} or None)
            return
        inl = bool(ls) and all(l != "IN" and l[0] == "A" and (f.name, l[1]) not in self.escaped for l in ls)
        for off in self.ptrs(ks):
            lab = set()
            for l in ls:
                if l != "IN" and l[0] == "A":
                    lab |= self.deeper(f, [("A", l[1], None if l[2] is None else l[2] + off)])
                else:
                    lab |= self.deeper(f, [l])
            if not inl and self.canon(ks, off) in self.F:
                lab.add("IN")
            if not lab:
                continue
            ld = self.lab(f, d)
            loc = {("A", l[1], None if l[2] is None else l[2] + off) for l in ld if l != "IN" and l[0] == "A"}
            if loc:
                self.keep(f, i, d, lab, la=loc)
            if not ld or len(loc) < len(ld):
                self.remember(f, i, {self.canon(ks, off)}, lab)
