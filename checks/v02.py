"""V02: every visitor initialiser installs the complete callback set."""
from vlib import cmod, slai, lin
from vlib.cmod import short
from vlib.cty import strip_const, llvm_struct

TECHNIQUE = "static analysis: abstract interpretation of every visitor initialiser (final contents of all slots)"
LEVEL = "other"
EXPLANATION = (
    "Every public or callback function that stores into the slots of a GeoArrowVisitor (directly or through helpers) "
    "is interpreted over all paths with a visitor of unknown previous content. At each successful exit all eight "
    "callback slots must hold definite functions of the slot's signature that are not another slot's callback, the "
    "private data must point to an object of the type the installed callbacks cast it to, and the error slot must "
    "still hold the caller's value. Kernel visitors, which are initialised to void first and then overridden, are "
    "checked for the same on every overriding function.")

SLOTS = ("feat_start", "null_feat", "geom_start", "ring_start", "coords", "ring_end", "geom_end", "feat_end")
NPARAM = {"geom_start": 3, "coords": 2}


def visitor_stores(mod):
    """Functions with a store of a function into a GeoArrowVisitor slot."""
    out = set()
    for f in mod.defined():
        if not cmod.is_geoarrow(f):
            continue
        for i in f.insts():
            if i.op == "store" and i.ops[0][0] == "f" and i.ops[1][0] == "v":
                d = f.defs.get(i.ops[1][1])
                if d is not None and d.op == "getelementptr":
                    if "GeoArrowVisitor" in d.j["gep"]["srcty"]:
                        out.add(f.name)
                elif d is None and any("struct GeoArrowVisitor*" in t for t in (f.dtypes or [])):
                    out.add(f.name)
    return out


def cb_private_types(mod, f):
    """Struct types a callback accesses v->private_data through; None when it never loads it."""
    loads, types = [], set()
    vid = f.params[0]["id"]
    for i in f.insts():
        if i.op == "load" and i.ops[0][0] == "v":
            d = f.defs.get(i.ops[0][1])
            if d is not None and d.op == "getelementptr" and d.j["gep"]["base"] == ["v", vid] and \
                    llvm_struct(d.j["gep"]["srcty"]) == "GeoArrowVisitor" and d.j["gep"].get("off") == 64:
                loads.append(i.id)
    if not loads:
        return None
    for i in f.insts():
        if i.op == "getelementptr" and i.j["gep"]["base"][0] == "v" and i.j["gep"]["base"][1] in loads:
            t = llvm_struct(i.j["gep"]["srcty"])
            if t:
                types.add(t)
    return types


class Mon(slai.Monitor):
    def __init__(self, mod, ctx):
        self.mod, self.ctx = mod, ctx
        self.exits = 0
        self.sets = {}
        self.objs = 0
        self.raw = cmod.c_module(passes="function(sroa)")
        self.vtypes = void_member_types(self.raw)

    def layout(self, t):
        """Identity of a struct type up to layout (the linker merges identically laid out types)."""
        s = self.mod.structs.get(t)
        if not s:
            return t
        return tuple((m["off"], m["size"], m["type"] if "struct" in m["type"] and "*" not in m["type"]
                      else m["type"].endswith("*")) for m in s.get("members", ()))

    def nested(self, t, off):
        """Struct types an address `off` bytes into t may be viewed as."""
        out = set()
        for _ in range(6):
            s = self.mod.structs.get(t)
            if s is None:
                break
            if off == 0:
                out.add(t)
            for m in s.get("members", ()):
                if m["off"] <= off < m["off"] + max(1, m["size"]):
                    t, off = strip_const(m["type"]).replace("struct ", ""), off - m["off"]
                    break
            else:
                break
        return out

    def vt(self, name):
        if not name or "." not in name:
            return None
        sn, mem = name.split(".", 1)
        out = set()
        for k, ts in self.vtypes.items():
            a, b = k.split(".", 1)
            if b == mem and self.layout(a) == self.layout(sn):
                out |= ts
        return out

    def ghost_key(self, st):
        fam = []
        for rid, base in {(a, b) for a, b, _ in st.ghost.get("vis", ())}:
            cells = st.mem.get(rid, {})
            for k in range(8):
                c = cells.get((base + 8 * k, ()))
                fam.append((rid, base, k, c[1][1] if c and c[1][0] == "f" else None))
        return tuple(sorted(fam, key=str))

    def on_store(self, eng, st, inst, r, off, val, size):
        if off[1]:
            return
        if val is None and size is not None and not isinstance(size, int):
            if size[1]:
                return
            for o in range(off[0], off[0] + size[0], 8):
                self.mark(eng, st, r, (o, ()), 8)
            return
        self.mark(eng, st, r, off, size)

    def mark(self, eng, st, r, off, size):
        lf = eng.leaf(r, off, size)
        if not lf or lf[0] != "GeoArrowVisitor" or lf[2] is None:
            return
        nm = lf[2]["name"]
        if nm in SLOTS or nm in ("private_data", "error"):
            base = off[0] - lf[2]["off"]
            st.ghost["vis"] = tuple(sorted(set(st.ghost.get("vis", ())) | {(r.id, base, nm)}))

    def on_exit(self, eng, st, fn, val):
        if fn.ret == "i32" and val is not None and val[0] == "i" and st.num.prove_ne(val[1]):
            return
        if fn.ret == "i32" and val is not None and val[0] == "i" and val[1][1] == () and val[1][0] != 0:
            return
        self.exits += 1
        vis = {}
        for rid, base, nm in st.ghost.get("vis", ()):
            vis.setdefault((rid, base), set()).add(nm)
        p = st.ghost.get("param")
        for rid in list(st.mem):
            r = eng.regions[rid]
            sn = strip_const(r.ty).replace("struct ", "") if r.kind == "heap" and r.ty else None
            for m in (self.mod.structs.get(sn) or {}).get("members", ()) if sn else ():
                if strip_const(m["type"]).replace("struct ", "") == "GeoArrowVisitor":
                    vis.setdefault((rid, m["off"]), set())
        if p is not None:
            vis.setdefault((p, 0), set())
        for (rid, base), names in vis.items():
            self.one(eng, st, fn, rid, base, names)

    def one(self, eng, st, fn, rid, base, names):
        ctx = self.ctx
        where = "%s:%d" % (short(fn.file), fn.line)
        r = eng.regions[rid]
        mine = r.kind == "obj"                          # existed before the call
        full = (st.ghost.get("param") == rid) or not mine
        cells = st.mem.get(rid, {})
        self.objs += 1
        own = {}
        for k, s in enumerate(SLOTS):
            c = cells.get((base + 8 * k, ()))
            v = c[1] if c else None
            if v is None or v[0] != "f":
                if full or s in names:
                    ctx.violation("%s/%s" % (fn.dname, s), where,
                                  "%s can return success leaving %s %s" % (
                                      fn.dname, s, "NULL" if v and v[0] == "n" else "unset or unknown"))
                continue
            g = self.mod.functions[v[1]]
            own[s] = g
            want = NPARAM.get(s, 1)
            ok = len(g.params) == want and (g.dtypes or ["", ""])[1].endswith("GeoArrowVisitor*")
            if s == "coords" and ok:
                ok = "GeoArrowCoordView" in g.dtypes[2]
            if not ok:
                ctx.violation("%s/%s/signature" % (fn.dname, s), where,
                              "%s installs %s as %s although its signature is another" % (fn.dname, g.dname, s))
            for o in SLOTS:
                if o != s and g.dname.startswith(o + "_"):
                    ctx.violation("%s/%s/slot" % (fn.dname, s), where,
                                  "%s installs %s, the callback for %s, as %s" % (fn.dname, g.dname, o, s))
        for s in own:
            for o in own:
                if s < o and own[s].name == own[o].name and not trivial(own[s]):
                    ctx.violation("%s/%s-%s" % (fn.dname, s, o), where, "%s installs %s both as %s and as %s" % (
                        fn.dname, own[s].dname, s, o))
        need = {}
        for s, g in own.items():
            t = cb_private_types(self.mod, self.raw.functions[g.name])
            if t:
                need[s] = t
            elif t is not None:
                need.setdefault(s, set())
        self.sets.setdefault(fn.name, []).append({s: g.dname for s, g in own.items()})
        if need:
            c = cells.get((base + 64, ()))
            v = c[1] if c else None
            if v is None or v[0] != "p" or "private_data" not in names:
                ctx.violation("%s/private_data" % fn.dname, where,
                              "%s does not connect the visitor's private_data, which %s uses" % (
                                  fn.dname, sorted(own[s].dname for s in need)[0]))
            else:
                pr = eng.regions[v[1]]
                ty = strip_const(pr.ty).replace("struct ", "") if pr.ty else None
                for s, ts in sorted(need.items()):
                    here = self.nested(ty, v[2][0]) if ty and not v[2][1] else set()
                    bad = [t for t in ts if ty and ty != "void" and not v[2][1] and
                           self.layout(t) not in {self.layout(x) for x in here}]
                    if bad:
                        ctx.violation("%s/%s/type" % (fn.dname, s), where,
                                      "%s connects a %s but %s treats its private data as %s" % (
                                          fn.dname, ty, own[s].dname, bad[0]))
                    vt = self.vt(pr.name) if not ty or ty == "void" else None
                    if vt and ts and not ({self.layout(t) for t in ts} & {self.layout(t) for t in vt}):
                        ctx.violation("%s/%s/type" % (fn.dname, s), where,
                                      "%s connects %s, a %s, but %s treats its private data as %s" % (
                                          fn.dname, pr.name, "/".join(sorted(vt)), own[s].dname, "/".join(sorted(ts))))
                    if not ty or ty == "void":
                        # untyped storage: all callbacks must at least agree
                        alls = set().union(*need.values())
                        if len(alls) > 1:
                            ctx.violation("%s/mixed" % fn.dname, where, "%s mixes callbacks for %s" % (
                                fn.dname, ", ".join(sorted(alls))))
        if full and mine:
            e0 = st.ghost.get("err0")
            c = cells.get((base + 72, ()))
            v = c[1] if c else None
            voidinit = not need
            if v != e0 and not (v is None and e0 is None):
                if v is not None and v[0] == "n" and voidinit:
                    return
                what = "cleared" if v is not None and v[0] == "n" else "changed"
                ctx.violation("%s/error-%s" % (fn.dname, what), where,
                              "%s leaves the caller's error slot %s" % (fn.dname, what))


def void_member_types(mod):
    """(struct, member) -> struct types that pointers loaded from that void* member are used as."""
    out = {}
    for f in mod.defined():
        if not cmod.is_geoarrow(f):
            continue
        src = {}
        for i in f.insts():
            if i.op == "load" and i.type == "ptr" and i.ops[0][0] == "v":
                d = f.defs.get(i.ops[0][1])
                if d is not None and d.op == "getelementptr" and not d.j["gep"].get("vars"):
                    sn = llvm_struct(d.j["gep"]["srcty"])
                    off = d.j["gep"].get("off")
                    for m in (mod.structs.get(sn) or {}).get("members", ()) if sn else ():
                        if m["off"] == off and m["type"] == "void*":
                            src[i.id] = "%s.%s" % (sn, m["name"])
            elif i.op == "getelementptr" and i.j["gep"]["base"][0] == "v" and i.j["gep"]["base"][1] in src:
                t = llvm_struct(i.j["gep"]["srcty"])
                if t:
                    out.setdefault(src[i.j["gep"]["base"][1]], set()).add(t)
    return out


def unused_statics():
    """Names of static functions of the library nothing refers to (compiler's own diagnosis)."""
    import os
    import re
    import shutil
    import subprocess
    import tempfile
    from concurrent.futures import ThreadPoolExecutor
    from vlib import build
    tmp = tempfile.mkdtemp(prefix="ga_un_")
    try:
        build.make_config(tmp, False, False)

        def one(s):
            return subprocess.run([build.CLANG, "-std=gnu99", "-fsyntax-only", "-Wno-everything", "-Wunused-function", "-I" + tmp,
                                   "-I" + build.REPO + "/src", "-I" + build.REPO + "/src/vendor", s],
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp).stdout
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, [s for s in build.c_sources() if s.endswith(".c")]))
        return set(re.findall(r"unused function '(\w+)'", "".join(outs)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def trivial(f):
    return not any(i.op in ("store", "call") for i in f.insts())


def run(ctx):
    mod = cmod.c_module()
    direct = visitor_stores(mod)
    clo = set(direct)
    while True:
        n = len(clo)
        for f in mod.defined():
            if f.name not in clo and cmod.is_geoarrow(f) and \
                    any(c.callee[0] == "f" and c.callee[1] in clo for c in f.calls()):
                clo.add(f.name)
        if len(clo) == n:
            break
    # initialisers proper: they take a visitor to initialise, or belong to the kernels
    entries = []
    for n in sorted(clo):
        f = mod.functions[n]
        if f.internal and not cmod.address_taken(mod, n):
            continue
        entries.append(f)
    mon = Mon(mod, ctx)
    used = []
    for f in entries:
        eng = slai.Engine(mod, monitors=[mon], inline=True, mem_checks=False,
                          force_inline={mod.functions[x].dname for x in clo}, max_depth=30)
        pidx = [k for k, t in enumerate((f.dtypes or [None])[1:]) if t and t.replace("struct ", "") == "GeoArrowVisitor*"]

        def setup(e, st, fn, args):
            if pidx and args[pidx[0]][0] == "p":
                r = e.regions[args[pidx[0]][1]]
                st.ghost["param"] = r.id
                st.ghost["err0"] = e.load_cell(st, r, (72, ()), 8, "ptr")
            return args
        eng.run_entry(f, setup)
        used.append(f.dname)
    # a callback that exists for this consumer but is not the one installed
    installed = {g for sets in mon.sets.values() for d in sets for g in d.values()}
    fam = {}
    for n, sets in mon.sets.items():
        for d in sets:
            suf = [g[len(s) + 1:] for s, g in d.items() if g.startswith(s + "_")]
            if len(suf) >= 3:
                best = max(sorted(set(suf)), key=suf.count)
                if suf.count(best) * 2 > len(suf):
                    fam.setdefault(best, []).append((n, d))
    names = {f.dname for f in mod.defined() if cmod.is_geoarrow(f)} | unused_statics()
    for best, uses in fam.items():
        for n, d in uses:
            f = mod.functions[n]
            for s, g in d.items():
                want = s + "_" + best
                if g != want and want in names and want not in installed:
                    ctx.violation("%s/%s/family" % (f.dname, s), "%s:%d" % (short(f.file), f.line),
                                  "%s installs %s although %s exists and is used nowhere" % (f.dname, g, want))
    ctx.note("initialisers", used)
    ctx.count("exits", mon.exits)
    ctx.count("visitor_objects", mon.objs)
    ctx.note("families", sorted(fam))
    ctx.require(len(direct) >= 7, "visitor initialisers vanished")
    ctx.require(mon.objs >= 10, "too few visitor objects examined")
