"""Ownership typestate: blocks, arrays, schemas, buffers, nested readers/writers."""
from . import cmod, slai, lin
from .cmod import short
from .cty import struct_name, strip_const, is_ptr, pointee_raw
from .slai import param_types

ALLOC = {"malloc", "calloc", "realloc", "ArrowMalloc", "ArrowRealloc", "strdup"}
FREE = {"free", "ArrowFree"}
IDEMPOTENT = {"ArrowBuffer", "ArrowBitmap"}
MARK = {"ArrowArray": "release", "ArrowSchema": "release", "ArrowBuffer": "data", "ArrowBitmap": "data",
        "GeoArrowKernel": "release", "GeoArrowScalarUdf": "release", "GeoArrowScalarUdfFactory": "release"}


class Summaries:
    """Which parameters a function fills with something to release, or releases."""

    def __init__(self, mod, types):
        self.mod, self.types = mod, types
        self.owned = {"ArrowArray", "ArrowSchema"}
        self.reset = {}
        for f in mod.functions.values():
            for suf in ("Reset",):
                if f.dname.endswith(suf):
                    t = f.dname[:-len(suf)]
                    if t in mod.structs and mod.structs[t].get("kind") == "struct":
                        self.owned.add(t)
                        self.reset[f.dname] = t
        self.marker = {}
        for t in self.owned:
            m = MARK.get(t)
            if m is None:
                m = "private_data" if types.member(t, "private_data") else None
            self.marker[t] = m
        self.acq, self.rel = {}, {}
        self.track = {}
        self.build()

    def derive(self, f):
        """value id -> (param index, byte offset) for addresses inside a parameter's object."""
        d = self.track.get(f.name)
        if d is not None:
            return d
        d = {p["id"]: (k, 0) for k, p in enumerate(f.params)}
        for b in (f.rpo() if f.entry is not None else []):
            for i in f.blocks[b].insts:
                if i.op == "getelementptr":
                    g = i.j["gep"]
                    base = g["base"]
                    if base[0] == "v" and base[1] in d and "off" in g and not g.get("vars"):
                        k, o = d[base[1]]
                        d[i.id] = (k, o + g["off"])
        self.track[f.name] = d
        return d

    def at(self, f, v):
        d = self.derive(f)
        if v[0] == "v":
            return d.get(v[1])
        if v[0] == "gep":
            g = v[1]
            b = self.at(f, g["base"])
            if b and "off" in g and not g.get("vars"):
                return (b[0], b[1] + g["off"])
        return None

    def ptype(self, f, k):
        dt = param_types(f, self.types)
        t = dt[k] if k < len(dt) else None
        if t and is_ptr(strip_const(t)):
            return struct_name(strip_const(pointee_raw(strip_const(t))))
        return None

    def sub(self, f, k, off):
        """Owned type located at byte off of parameter k's object."""
        t = self.ptype(f, k)
        return self.owned_at(t, off)

    def owned_at(self, t, off):
        while t is not None:
            if off == 0 and t in self.owned:
                return t
            nx = None
            for m in self.types.members(t):
                if m["off"] <= off < m["off"] + max(1, m["size"]):
                    nx = m
            if nx is None:
                return None
            off -= nx["off"]
            mt = strip_const(nx["type"])
            if mt.endswith("]"):
                es = self.types.sizeof(mt.split("[")[0].strip())
                if es:
                    off %= es
                mt = mt.split("[")[0].strip()
            t = struct_name(mt) if not is_ptr(mt) else None
        return None

    def build(self):
        fns = self.mod.defined()
        for f in fns:
            self.acq[f.name] = set()
            self.rel[f.name] = set()
        # models
        byd = {}
        for f in self.mod.functions.values():
            byd.setdefault(f.dname, []).append(f)
        for n in ("ArrowBufferReserve", "ArrowBufferResize"):
            for f in byd.get(n, []):
                self.acq.setdefault(f.name, set()).add((0, 0))
        ch = True
        while ch:
            ch = False
            for f in fns:
                a, r = self.acq[f.name], self.rel[f.name]
                n0 = len(a) + len(r)
                if f.dname in self.reset:
                    r.add((0, 0))
                for i in f.insts():
                    if i.op == "store" and i.ops[0][0] not in ("n",):
                        p = self.at(f, i.ops[1])
                        if p:
                            for t, m in self.marker.items():
                                if m and t not in IDEMPOTENT:
                                    mm = self.types.member(t, m)
                                    if mm and p[1] >= mm["off"] and self.sub(f, p[0], p[1] - mm["off"]) == t and \
                                            (m != "private_data" or t.startswith("GeoArrow")):
                                        a.add((p[0], p[1] - mm["off"]))
                    if i.op == "call":
                        if i.callee[0] == "f":
                            g = i.callee[1]
                            gn = self.mod.functions[g].dname if g in self.mod.functions else g
                            mv = self.move_of(gn)
                            if mv:
                                src, dst = self.at(f, i.args[mv[0]]), self.at(f, i.args[mv[1]])
                                if src:
                                    r.add(src)
                                if dst and gn != "ArrowBufferMove":
                                    a.add(dst)
                                continue
                            for (k, o) in self.acq.get(g, ()):
                                p = self.at(f, i.args[k]) if k < len(i.args) else None
                                if p:
                                    a.add((p[0], p[1] + o))
                            for (k, o) in self.rel.get(g, ()):
                                p = self.at(f, i.args[k]) if k < len(i.args) else None
                                if p:
                                    r.add((p[0], p[1] + o))
                        elif i.callee[0] == "v" and i.type == "void" and len(i.args) == 1:
                            if self.release_slot(f, i.callee):
                                p = self.at(f, i.args[0])
                                if p:
                                    r.add(p)
                if len(a) + len(r) != n0:
                    ch = True

    def move_of(self, name):
        """(source arg, destination arg) of a whole-object move."""
        return {"ArrowArrayMove": (0, 1), "ArrowSchemaMove": (0, 1), "ArrowBufferMove": (0, 1),
                "ArrowArrayStreamMove": (0, 1), "ArrowArrayViewMove": (0, 1)}.get(name)

    def release_slot(self, f, callee):
        for d in cmod.flow_sources(f, callee):
            if d.op == "load":
                p = d.ops[0]
                g = f.defs.get(p[1]) if p[0] == "v" else None
                if g is not None and g.op == "getelementptr":
                    for t in self.owned:
                        m = self.marker.get(t)
                        if m == "release":
                            mm = self.types.member(t, m)
                            if g.j["gep"].get("off") == mm["off"] and t in g.j["gep"]["srcty"]:
                                return True
        return False


class OwnMonitor(slai.Monitor):
    def __init__(self, mod, summ, fallible, report):
        self.mod, self.S, self.fallible, self.report = mod, summ, fallible, report
        self.counts = {"acquire_sites": set(), "release_sites": set(), "exits": 0, "frees": set()}
        self.static = set()
        self.fail_acq = {}

    # ghost helpers
    def g(self, st, k):
        return st.ghost.get(k, frozenset())

    def ghost_key(self, st):
        self.scan_null(st)
        r = self.eng.regions
        own = frozenset((r[a].label, b) for a, b, t in self.g(st, "own"))
        heap = frozenset(r[a].site.where() for a in self.g(st, "heap"))
        fr = frozenset(r[a].label for a in self.g(st, "freed"))
        rel = frozenset((r[a].label, b) for a, b, t in self.g(st, "rel"))
        return own, heap, fr, rel, st.ghost.get("failed")

    def start(self, eng, f):
        self.eng = eng
        self.entry = f

    def key(self, v):
        return (v[1], v[2])

    def owned_type_at(self, region, off):
        t = struct_name(region.ty) if region.ty else None
        if t is None or off[1]:
            return None
        es = self.eng.elem_size(region)
        o = off[0] % es if es else off[0]
        return self.S.owned_at(t, o)

    def marker_null(self, st, rid, off, t):
        m = self.S.marker.get(t)
        mm = self.S.types.member(t, m) if m else None
        if t == "ArrowBitmap":
            mm = {"off": self.S.types.member("ArrowBuffer", "data")["off"]}
        if mm is None:
            return False
        c = st.mem.get(rid, {}).get(lin.addc(off, mm["off"]))
        if c is None:
            # zero-filled
            for lo, hi, b in st.mem.get(rid, {}).get("fill", ()) or ():
                if not off[1] and lo <= off[0] + mm["off"] and off[0] + mm["off"] + 8 <= hi and b == 0:
                    return True
            return False
        v = c[1]
        return v[0] == "n" or (v[0] == "p" and st.null.get(v[1]) is True)

    def scan_null(self, st):
        """Objects whose marker is known null need no release."""
        rel = set(self.g(st, "rel"))
        own = set(self.g(st, "own"))
        n = len(rel) + len(own)
        for rid in list(st.mem):
            r = self.eng.regions[rid]
            t = struct_name(r.ty) if r.ty else None
            if r.kind not in ("obj", "heap", "alloca") or t is None:
                continue
            for off, ot in self.members(t):
                o = lin.const(off)
                if self.marker_null(st, rid, o, ot):
                    rel.add((rid, o, ot))
                    own.discard((rid, o, ot))
        if len(rel) + len(own) != n or True:
            st.ghost["rel"] = frozenset(rel)
            st.ghost["own"] = frozenset(own)

    _mem = None

    def members(self, t):
        if self._mem is None:
            self._mem = {}
        if t in self._mem:
            return self._mem[t]
        out = []

        def walk(t, base, depth):
            if t in self.S.owned:
                out.append((base, t))
                return
            for m in self.S.types.members(t):
                mt = strip_const(m["type"])
                if is_ptr(mt):
                    continue
                n = 1
                if mt.endswith("]"):
                    el = mt.split("[")[0].strip()
                    es = self.S.types.sizeof(el)
                    n = m["size"] // es if es else 0
                    mt = el
                else:
                    es = 0
                s = struct_name(mt)
                if s and depth < 6 and (self.mod.structs.get(s) or {}).get("kind") == "struct":
                    for k in range(min(n, 64)):
                        walk(s, base + m["off"] + k * es, depth + 1)
        walk(t, 0, 0)
        self._mem[t] = out
        return out

    # ---------------------------------------------------------------- events
    def before_call(self, eng, st, ins, name, fn, args):
        self.scan_null(st)
        if name in FREE:
            self.free(eng, st, ins, args[0])
            return None
        g = fn.name if fn is not None else None
        if name and self.S.move_of(name):
            a, b = self.S.move_of(name)
            self.release(eng, st, ins, args[a], "move")
            self.acquire(eng, st, ins, args[b], None)
            return None
        inl = self.inlined(eng, fn, name)
        if fn is not None and not inl and name not in ALLOC:
            if name in self.S.reset:
                self.release(eng, st, ins, args[0], name)
        if fn is None and ins.callee[0] == "v" and ins.type == "void" and len(args) == 1 and \
                self.S.release_slot(ins.fn, ins.callee):
            self.release(eng, st, ins, args[0], "release callback")
        return None

    def inlined(self, eng, fn, name):
        return fn is not None and name in eng.force_inline

    def after_call(self, eng, st, ins, name, fn, args, val, mode):
        if name in ALLOC:
            if val is not None and val[0] == "p":
                st.ghost["heap"] = self.g(st, "heap") | {val[1]}
                self.counts["acquire_sites"].add(ins.where())
            return None
        if mode == "inline":
            # locals of the callee go out of scope
            self.scan_null(st)
            for k in list(self.g(st, "own")):
                r = eng.regions[k[0]]
                if r.kind == "alloca" and r.site is fn:
                    self.rep(eng, "leak-local/%s/%s" % (fn.dname, r.name), ins.where(),
                             "%s leaves its local %s unreleased" % (fn.dname, r.name))
            return None
        if name in FREE or (name and self.S.move_of(name)) or name in self.S.reset:
            return None
        fall = ins.type == "i32" and ((fn is not None and fn.name in self.fallible) or
                                      (fn is None and ins.callee[0] == "v"))
        acq = self.S.acq.get(fn.name, ()) if fn is not None else ()
        rel = self.S.rel.get(fn.name, ()) if fn is not None else ()
        if fn is None and fall:
            # callback: an ArrowArray/ArrowSchema it fills belongs to the caller
            acq = []
            for k, a in enumerate(args):
                if a[0] == "p" and a[2] == lin.ZERO:
                    t = struct_name(eng.regions[a[1]].ty) if eng.regions[a[1]].ty else None
                    if t in ("ArrowArray", "ArrowSchema") and not eng.regions[a[1]].const and a[1] in self.argout:
                        acq.append((k, 0))
        # escaping through an untyped parameter
        if mode in ("modular", "unknown") and self.g(st, "heap"):
            for a in args:
                if a[0] == "p" and a[1] in self.g(st, "heap") and a[2] == lin.ZERO and ins.type != "i32" \
                        and (ins.type != "void" or self.untyped(fn, args, a)):
                    st.ghost["esc"] = self.g(st, "esc") | {(a[1], None, None)}
        out = [st]
        if fall and val is not None:
            if val[0] != "i":
                val = ("i", eng.fresh(st, "rc"))
            if val[1][1]:
                bad, out = st.copy(), []
                st.num.assume_eq(val[1])
                if not st.num.bottom:
                    st.regs[ins.id] = ("i", lin.ZERO)
                    out.append(st)
                bad.num.assume_ne(val[1])
                if not bad.num.bottom:
                    bad.regs[ins.id] = val
                    out.append(bad)
                    ok = out[:-1]
                else:
                    ok = out
            else:
                ok = out if val[1][0] == 0 else []
        else:
            ok = out
        for s in out:
            if s in ok:
                continue
            if fn is not None:
                for k, o in self.fail_acq.get(fn.name, ()):
                    if k < len(args) and args[k][0] == "p":
                        self.acquire(eng, s, ins, ("p", args[k][1], lin.addc(args[k][2], o)), name)
            for k, o in acq:
                # a failed step leaves its output in an unknown state
                if k < len(args) and args[k][0] == "p":
                    off = lin.addc(args[k][2], o)
                    t = self.owned_type_at(eng.regions[args[k][1]], off)
                    s.ghost["rel"] = self.g(s, "rel") - {(args[k][1], off, t)}
        for s in ok:
            for k, o in rel:
                if k < len(args) and args[k][0] == "p":
                    self.release(eng, s, ins, ("p", args[k][1], lin.addc(args[k][2], o)), name, via=True)
            for k, o in acq:
                if k < len(args) and args[k][0] == "p":
                    self.acquire(eng, s, ins, ("p", args[k][1], lin.addc(args[k][2], o)), name)
        return out

    def untyped(self, fn, args, a):
        """The callee takes this argument as a plain void pointer."""
        if fn is None:
            return False
        dt = param_types(fn, self.S.types)
        for k, x in enumerate(args):
            if x is a and k < len(dt) and dt[k] and strip_const(dt[k]).replace(" ", "") == "void*":
                return True
        return False

    def acquire(self, eng, st, ins, v, name):
        if v[0] != "p":
            return
        r = eng.regions[v[1]]
        self.counts["acquire_sites"].add(ins.where())
        t = self.owned_type_at(r, v[2])
        if t is None:
            return
        k = (v[1], v[2], t)
        own, rel = self.g(st, "own"), self.g(st, "rel")
        if t not in IDEMPOTENT and name is not None and k not in rel:
            init = self.is_init(name)
            if k in own and init:
                self.rep(eng, "overwrite/%s/%s" % (ins.fn.dname, t), ins.where(),
                         "%s overwrites a live %s acquired earlier in the call" % (name, t))
            elif init and r.kind == "obj" and v[1] not in self.argout and k not in own and \
                    not self.marker_null(st, v[1], v[2], t):
                self.rep(eng, "overwrite/%s/%s" % (ins.fn.dname, t), ins.where(),
                         "%s may overwrite a live %s held by an earlier call" % (name, t))
            if not init and k not in own and (r.kind == "obj"):
                return       # an update of something that already exists
        if r.kind == "obj" and t in IDEMPOTENT:
            return           # a growing buffer that belongs to an existing object
        st.ghost["own"] = own | {k}
        st.ghost["rel"] = rel - {k}

    def is_init(self, name):
        return name is None or "Init" in name or "DeepCopy" in name or "Move" in name or "Start" in name

    def release(self, eng, st, ins, v, name, via=False):
        if v[0] != "p":
            return
        r = eng.regions[v[1]]
        self.counts["release_sites"].add(ins.where())
        t = self.owned_type_at(r, v[2])
        if v[2][1]:
            # element of an array member: the whole member counts as released
            self.release_array(st, r, v[2])
            return
        if t is None:
            return
        k = (v[1], v[2], t)
        own, rel = self.g(st, "own"), self.g(st, "rel")
        if not via and k in rel and k not in own and t not in IDEMPOTENT and name != "move" and \
                not self.tolerant(name):
            self.rep(eng, "twice/%s/%s" % (ins.fn.dname, t), ins.where(), "%s is released twice" % t)
        if v[1] in self.g(st, "freed"):
            self.rep(eng, "after-free/%s/%s" % (ins.fn.dname, t), ins.where(),
                     "%s is released after the block holding it was freed" % t)
        st.ghost["own"] = own - {k}
        st.ghost["rel"] = rel | {k}
        m = self.S.marker.get(t)
        mm = self.S.types.member(t, m) if m == "private_data" else None
        if mm is not None and name != "move":
            c = st.mem.get(v[1], {}).get(lin.addc(v[2], mm["off"]))
            if c is not None and c[1][0] == "p" and c[1][1] in self.g(st, "heap"):
                b = c[1][1]
                st.ghost["heap"] = self.g(st, "heap") - {b}
                st.ghost["freed"] = self.g(st, "freed") | {b}
                st.ghost["own"] = frozenset(x for x in self.g(st, "own") if x[0] != b)

    def tolerant(self, name):
        """Reset functions that test their own marker before releasing."""
        f = self.mod.fn(name) if name else None
        if f is None:
            return False
        for i in f.insts():
            if i.op == "icmp" and any(o[0] == "n" for o in i.ops):
                return True
        return False

    def release_array(self, st, r, off):
        t = struct_name(r.ty) if r.ty else None
        if t is None:
            return
        add, rem = set(), set()
        x = self.eng.array_member(t, off[0])
        if not x:
            return
        # how far the index is known to range
        for o, ot in self.members(t):
            if x[0] <= o < x[0] + x[1]:
                # covered only when the loop's bounds allow this element
                d = lin.sub(off, lin.const(o))
                if not st.num.prove_ne(d):
                    add.add((r.id, lin.const(o), ot))
        st.ghost["rel"] = self.g(st, "rel") | add
        st.ghost["own"] = self.g(st, "own") - add

    def free(self, eng, st, ins, v):
        if v[0] == "n":
            return
        if v[0] != "p":
            return
        self.counts["frees"].add(ins.where())
        rid = v[1]
        r = eng.regions[rid]
        if st.null.get(rid) is True:
            return
        if rid in self.g(st, "freed"):
            self.rep(eng, "twice/%s/block" % ins.fn.dname, ins.where(), "a block is freed twice")
        t = struct_name(r.ty) if r.ty else None
        own = self.g(st, "own")
        for k in own:
            if k[0] == rid:
                self.rep(eng, "leak-in-block/%s/%s" % (ins.fn.dname, k[2]), ins.where(),
                         "the block is freed while the %s inside it is still live" % k[2])
        if t and rid not in self.g(st, "heap") and r.kind == "obj":
            for off, ot in self.members(t):
                k = (rid, lin.const(off), ot)
                if k not in self.g(st, "rel") and (t, off) in self.may_own:
                    self.rep(eng, "unreleased/%s/%s+%d" % (ins.fn.dname, ot, off), ins.where(),
                             "struct %s is freed on a path that does not release its %s at offset %d" % (t, ot, off))
        st.ghost["own"] = frozenset(k for k in own if k[0] != rid)
        st.ghost["heap"] = self.g(st, "heap") - {rid}
        st.ghost["freed"] = self.g(st, "freed") | {rid}

    may_own = frozenset()
    argout = frozenset()

    def on_store(self, eng, st, ins, region, off, val, size):
        if region.id in self.g(st, "freed"):
            self.rep(eng, "after-free/%s/store" % ins.fn.dname, ins.where(), "a freed block is written")
        if region.kind == "alloca":
            return
        esc = {e for e in self.g(st, "esc") if not (e[1] == region.id and e[2] == off)}
        if val is not None and val[0] == "p" and val[1] in self.g(st, "heap"):
            esc.add((val[1], region.id, off))
        st.ghost["esc"] = frozenset(esc)

    def on_load(self, eng, st, ins, region, off, val, size):
        if region.id in self.g(st, "freed"):
            self.rep(eng, "after-free/%s/load" % ins.fn.dname, ins.where(), "a freed block is read")

    def on_exit(self, eng, st, fn, val):
        self.scan_null(st)
        self.counts["exits"] += 1
        where = "%s:%d %s" % (short(fn.file), fn.line, fn.dname)
        failed = fn.ret == "i32" and fn.name in self.fallible and val is not None and val[0] == "i" and \
            st.num.prove_ne(val[1])
        reach = set()
        for a in self.args:
            if a[0] == "p":
                x = {}
                eng.reach(st, a, x)
                reach |= set(x)
        if val is not None and val[0] == "p":
            x = {}
            eng.reach(st, val, x)
            reach |= set(x)
        esc = {e[0] for e in self.g(st, "esc") if e[1] is None or e[1] in reach or
               eng.regions[e[1]].kind == "obj"}
        # escaping into another block that itself escaped
        for _ in range(4):
            esc |= {e[0] for e in self.g(st, "esc") if e[1] in esc}
        rv = val[1] if val is not None and val[0] == "p" else None
        for h in self.g(st, "heap"):
            if h in esc and not failed or h == rv:
                continue
            self.rep(eng, "leak-block/%s%s" % (fn.dname, "/on-failure" if failed else ""),
                     eng.regions[h].site.where(),
                     "the block allocated here is neither freed nor handed over when %s %s" % (
                         fn.dname, "fails" if failed else "returns"))
        for k in self.g(st, "own"):
            r = eng.regions[k[0]]
            if r.kind == "alloca":
                self.rep(eng, "leak-local/%s/%s" % (fn.dname, r.name), where,
                         "local %s is left unreleased on a path%s" % (r.name, " that fails" if failed else ""))
            elif failed and k[0] in self.argout and k[1] == lin.ZERO and fn.internal and \
                    not cmod.address_taken(self.mod, fn.name):
                # a helper's callers are told that failing still leaves it filled
                for n, a in enumerate(self.args):
                    if a[0] == "p" and a[1] == k[0]:
                        self.fail_acq.setdefault(fn.name, set()).add((n, 0))
            elif failed and k[0] in self.argout and k[1] == lin.ZERO:
                self.rep(eng, "leak-out/%s/%s" % (fn.dname, k[2]), where,
                         "the function fails but leaves its %s output holding resources" % k[2])
        # markers
        for rid in self.g(st, "freed"):
            for a in reach:
                for off, c in st.mem.get(a, {}).items():
                    if off == "fill" or a in self.g(st, "freed"):
                        continue
                    if c[1][0] == "p" and c[1][1] == rid and not self.cleared_release(st, a, off):
                        r = eng.regions[a]
                        if not self.is_marker(r, off):
                            continue
                        self.rep(eng, "dangling/%s" % fn.dname, where,
                                 "%s still points to the block the function freed" % (r.label or r.ty or "an object"),
                                 prop="R02")

        self.check_cleared(eng, st, fn, where)

    def is_marker(self, r, off):
        """The cell is one an owner tests before releasing the object it belongs to."""
        t = struct_name(r.ty) if r.ty else None
        if t is None or off[1]:
            return False
        for o, ot in self.members(t) + [(0, t)]:
            for m in ("private_data", "release"):
                mm = self.S.types.member(ot, m)
                if mm and (ot in self.S.owned or ot in MARK) and o + mm["off"] == off[0]:
                    return True
        return False

    def check_cleared(self, eng, st, fn, where):
        """Release callbacks null release; reset functions null private_data."""
        m = None
        if fn.dname in self.S.reset:
            m, t = self.S.marker.get(self.S.reset[fn.dname]), self.S.reset[fn.dname]
        elif fn.name in self.release_fns:
            m, t = "release", self.release_fns[fn.name]
        if m is None or not self.args or self.args[0][0] != "p":
            return
        mm = self.S.types.member(t, m)
        if mm is None:
            return
        self.counts["marker_exits"] = self.counts.get("marker_exits", 0) + 1
        self.counts.setdefault("release_entry_points", set()).add(fn.dname)
        a = self.args[0]
        c = st.mem.get(a[1], {}).get(lin.addc(a[2], mm["off"]))
        ok = c is not None and (c[1][0] == "n" or (c[1][0] == "p" and st.null.get(c[1][1]) is True) or
                                (c[1][0] == "i" and st.num.prove_eq(c[1][1])))
        if not ok:
            self.rep(eng, "not-cleared/%s" % fn.dname, where,
                     "%s can return with %s->%s still set" % (fn.dname, t, m), prop="R02")

    release_fns = {}

    def cleared_release(self, st, rid, off):
        r = self.eng.regions[rid]
        t = struct_name(r.ty) if r.ty else None
        mm = self.S.types.member(t, "release") if t else None
        if mm is None:
            return False
        c = st.mem.get(rid, {}).get(lin.const(mm["off"]))
        return c is not None and (c[1][0] == "n" or (c[1][0] == "p" and st.null.get(c[1][1]) is True))

    def rep(self, eng, key, where, msg, prop="R01"):
        if eng.quiet:
            return
        self.report(prop, key, where, msg + " (entry %s)" % self.entry.dname)


def release_functions(mod, types):
    """Functions installed in the release slot of a released-by-callback struct."""
    res = {}
    for f in mod.defined():
        if not cmod.is_geoarrow(f):
            continue
        for i in f.insts():
            if i.op != "store" or i.ops[0][0] != "f" or i.ops[1][0] != "v":
                continue
            g = f.defs.get(i.ops[1][1])
            if g is None or g.op != "getelementptr":
                continue
            from .cty import llvm_struct
            t = llvm_struct(g.j["gep"]["srcty"])
            mm = types.member(t, "release") if t else None
            if mm and g.j["gep"].get("off") == mm["off"]:
                res[i.ops[0][1]] = t
    return res


def may_own_members(mod, summ):
    """(struct, offset) pairs of private structs some function puts a resource in."""
    res = set()
    for f in mod.defined():
        if not cmod.is_geoarrow(f):
            continue
        d = {}
        for i in f.insts():
            if i.op == "call":
                tgt = []
                if i.callee[0] == "f":
                    g = i.callee[1]
                    gn = mod.functions[g].dname if g in mod.functions else g
                    mv = summ.move_of(gn)
                    tgt = [(mv[1], 0)] if mv else list(summ.acq.get(g, ()))
                for k, o in tgt:
                    if k >= len(i.args):
                        continue
                    a = i.args[k]
                    g = f.defs.get(a[1]) if a[0] == "v" else None
                    off = None
                    st = None
                    chain = []
                    while g is not None and g.op == "getelementptr":
                        chain.append(g.j["gep"])
                        b = g.j["gep"]["base"]
                        g = f.defs.get(b[1]) if b[0] == "v" else None
                    if not chain:
                        continue
                    # outermost struct
                    tot = o
                    for c in chain:
                        tot += c.get("off", 0)
                    from .cty import llvm_struct
                    st = llvm_struct(chain[-1]["srcty"])
                    if st:
                        res.add((st, tot))
                        # array members: any element
                        if any(c.get("vars") for c in chain):
                            x = array_member(summ.types, st, tot)
                            for q in range(x[0], x[0] + x[1]) if x else ():
                                res.add((st, q))
    return res


def array_member(types, sname, off):
    for m in types.members(sname):
        if m["off"] <= off < m["off"] + m["size"]:
            if m["type"].endswith("]"):
                return m["off"], m["size"]
            s = struct_name(m["type"])
            if s and not is_ptr(m["type"]):
                x = array_member(types, s, off - m["off"])
                if x:
                    return m["off"] + x[0], x[1]
    return None


_runs = {}


def run_all():
    """Run the ownership analysis once; returns {prop: {key: (where, msg)}}, counts."""
    if "r" in _runs:
        return _runs["r"]
    mod = cmod.c_module()
    fall = cmod.fallible_functions(mod)
    from .cty import Types
    types = Types(mod.structs)
    summ = Summaries(mod, types)
    reports = {}

    def report(prop, key, where, msg):
        reports.setdefault(prop, {}).setdefault(key, (where, msg))
    mon = OwnMonitor(mod, summ, fall, report)
    mon.may_own = may_own_members(mod, summ)
    mon.release_fns = release_functions(mod, types)
    rec = slai.recursive_functions(mod)
    touches = interesting(mod, summ)
    static = {f.dname for f in mod.defined() if f.internal and cmod.is_geoarrow(f) and f.name not in rec
              and not cmod.address_taken(mod, f.name) and f.name in touches}
    n = 0
    order = sorted(cmod.lib_functions(mod), key=lambda f: not (f.internal and f.name in rec))
    for f in order:
        if f.name not in touches and f.name not in mon.release_fns or f.dname in static:
            continue
        n += 1
        eng = slai.Engine(mod, monitors=[mon], inline=False, mem_checks=False, force_inline=static, max_depth=30)
        mon.start(eng, f)

        def setup(e, st, fn, args):
            mon.args = args
            out = set()
            for p, a in zip(fn.params, args):
                if a[0] == "p":
                    t = struct_name(e.regions[a[1]].ty) if e.regions[a[1]].ty else None
                    if t in summ.owned or t in MARK:
                        out.add(a[1])
            mon.argout = out
            return args
        eng.run_entry(f, setup)
    _runs["r"] = (reports, dict(mon.counts, functions=n, inlined=len(static), owned_types=sorted(summ.owned)))
    return _runs["r"]


def interesting(mod, summ):
    """Functions that allocate, free, acquire or release something, transitively."""
    res = set()
    ch = True
    while ch:
        ch = False
        for f in mod.defined():
            if f.name in res or not cmod.is_geoarrow(f):
                continue
            hit = bool(summ.acq.get(f.name) or summ.rel.get(f.name))
            for c in f.calls():
                if hit:
                    break
                if c.callee[0] == "f":
                    g = c.callee[1]
                    gn = mod.functions[g].dname if g in mod.functions else g
                    if gn in ALLOC or gn in FREE or g in res or summ.acq.get(g) or summ.rel.get(g) or summ.move_of(gn):
                        hit = True
                elif c.callee[0] == "v" and summ.release_slot(f, c.callee):
                    hit = True
            if hit:
                res.add(f.name)
                ch = True
    return res
