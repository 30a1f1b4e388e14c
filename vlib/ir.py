"""Object model of the exported IR: functions, CFG, dominators, loops, liveness."""
import json


class Inst:
    __slots__ = ("op", "id", "type", "loc", "j", "callee", "args", "ops", "block", "fn", "idx")

    def __init__(self, j, fn, block, idx):
        self.op = j["op"]
        self.id = j["id"]
        self.type = j["type"]
        self.loc = j.get("loc")
        self.callee = j.get("callee")
        self.args = j.get("args")
        self.ops = j.get("ops")
        self.j = j
        self.fn = fn
        self.block = block
        self.idx = idx

    def get(self, k, d=None):
        return self.j.get(k, d)

    @property
    def line(self):
        # the outermost frame is the last of the chain; the first is the site
        return self.loc[0][0] if self.loc else 0

    @property
    def file(self):
        return self.loc[0][1] if self.loc else ""

    def where(self):
        if not self.loc:
            return self.fn.name
        l = self.loc[0]
        s = "%s:%d (%s)" % (short(l[1]), l[0], l[2] or self.fn.name)
        return s

    def succs(self):
        if self.op == "br":
            return self.j["succ"]
        if self.op == "switch":
            return [self.j["default"]] + [c[1] for c in self.j["cases"]]
        if self.op == "invoke":
            return self.j["succ"]
        return []

    def operands(self):
        j = self.j
        if self.op in ("call", "invoke"):
            return list(self.args) + [self.callee]
        if self.op == "phi":
            return [x[0] for x in j["inc"]]
        if self.op in ("br", "switch"):
            return [j["cond"]] if "cond" in j else []
        if self.op == "getelementptr":
            g = j["gep"]
            return [g["base"]] + list(g["idx"])
        return self.ops or []

    def __repr__(self):
        return "<%s %s %%%d>" % (self.where(), self.op, self.id)


def short(p):
    for m in ("/src/geoarrow/", "/src/vendor/nanoarrow/"):
        i = p.find(m)
        if i >= 0:
            return p[i + 1:]
    return p


class Block:
    __slots__ = ("id", "insts", "succ", "pred", "fn")


class Function:
    def __init__(self, j, mod):
        self.mod = mod
        self.name = j["name"]
        self.dem = j["dem"]
        self.dname = j.get("dname", j["name"])
        self.file = j.get("file", "")
        self.line = j.get("line", 0)
        self.dtypes = j.get("dtypes")
        self.params = j["params"]
        self.ret = j["ret"]
        self.decl = j["decl"]
        self.internal = j["internal"]
        self.vararg = j["vararg"]
        self.varnames = {int(k): v for k, v in j["vars"].items()}
        for p in self.params:
            self.varnames.setdefault(p["id"], p["name"])
        self.blocks = {}
        self.order = []
        self.defs = {}
        for bj in j["blocks"]:
            b = Block()
            b.id = bj["id"]
            b.fn = self
            b.insts = [Inst(ij, self, b, i) for i, ij in enumerate(bj["insts"])]
            t = b.insts[-1]
            b.succ = list(dict.fromkeys(t.succs()))
            b.pred = []
            self.blocks[b.id] = b
            self.order.append(b.id)
            for i in b.insts:
                self.defs[i.id] = i
        for b in self.blocks.values():
            for s in b.succ:
                self.blocks[s].pred.append(b.id)
        self.entry = self.order[0] if self.order else None
        self._rpo = self._dom = self._loops = self._live = None

    def __repr__(self):
        return "<fn %s>" % self.name

    def insts(self):
        for b in self.order:
            for i in self.blocks[b].insts:
                yield i

    def calls(self):
        for i in self.insts():
            if i.op in ("call", "invoke"):
                yield i

    def rpo(self):
        if self._rpo is None:
            seen, out = set(), []
            stack = [(self.entry, iter(self.blocks[self.entry].succ))]
            seen.add(self.entry)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.blocks[s].succ)))
                        break
                else:
                    out.append(b)
                    stack.pop()
            self._rpo = out[::-1]
        return self._rpo

    def dom(self):
        if self._dom is None:
            rpo = self.rpo()
            num = {b: i for i, b in enumerate(rpo)}
            idom = {self.entry: self.entry}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    new = None
                    for p in self.blocks[b].pred:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                a, c = p, new
                                while a != c:
                                    while num[a] > num[c]:
                                        a = idom[a]
                                    while num[c] > num[a]:
                                        c = idom[c]
                                new = a
                    if idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        d = self.dom()
        while True:
            if a == b:
                return True
            n = d.get(b)
            if n is None or n == b:
                return False
            b = n

    def loops(self):
        """header -> set(blocks) of the natural loop."""
        if self._loops is None:
            res = {}
            reach = set(self.rpo())
            for b in reach:
                for s in self.blocks[b].succ:
                    if self.dominates(s, b):
                        body = res.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(p for p in self.blocks[x].pred if p in reach)
            self._loops = res
        return self._loops

    def liveness(self):
        """block id -> set of value ids live on entry (phi results excluded)."""
        if self._live is None:
            use, df = {}, {}
            phi_use = {}
            for b in self.blocks.values():
                u, d = set(), set()
                for i in b.insts:
                    if i.op == "phi":
                        for v, p in i.j["inc"]:
                            for x in val_ids(v):
                                phi_use.setdefault(p, set()).add(x)
                    else:
                        for o in i.operands():
                            for x in val_ids(o):
                                if x not in d:
                                    u.add(x)
                    d.add(i.id)
                use[b.id], df[b.id] = u, d
            live = {b: set() for b in self.blocks}
            ch = True
            order = self.rpo()[::-1]
            while ch:
                ch = False
                for b in order:
                    out = set(phi_use.get(b, ()))
                    for s in self.blocks[b].succ:
                        out |= live[s]
                    n = use[b] | (out - df[b])
                    if n != live[b]:
                        live[b] = n
                        ch = True
            self._live = live
        return self._live


def val_ids(v):
    if not isinstance(v, list) or not v:
        return []
    if v[0] == "v":
        return [v[1]]
    if v[0] == "gep":
        g = v[1]
        r = val_ids(g["base"])
        for x in g["idx"]:
            r += val_ids(x)
        return r
    if v[0] == "ce":
        r = []
        for x in v[2]:
            r += val_ids(x)
        return r
    return []


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.globals = {g["name"]: g for g in j["globals"]}
        self.structs = j["structs"]
        self.functions = {}
        for f in j["functions"]:
            self.functions[f["name"]] = Function(f, self)
        self.by_dname = {}
        for f in self.functions.values():
            if not f.decl:
                self.by_dname.setdefault(f.dname, []).append(f)

    def defined(self):
        return [f for f in self.functions.values() if not f.decl]

    def fn(self, dname):
        l = self.by_dname.get(dname)
        return l[0] if l else None

    def struct(self, name):
        return self.structs.get(name)
