"""E02: an allocation that returns nothing is reported, never dereferenced."""
from vlib import cmod, slai, lin
from vlib.cmod import short

TECHNIQUE = "static analysis: path-sensitive null-state dataflow over LLVM IR"
LEVEL = "other"
EXPLANATION = (
    "Every call that can return a null block (malloc family, nanoarrow allocation wrappers, allocator "
    "callbacks) in the C library is interpreted with both outcomes. On the null outcome, no path may "
    "load, store, copy through or index the null block or hand it to a callee other than a release, "
    "the function must end with a nonzero code (or a null/void result when it has no code), and a "
    "grown block's old address must not be overwritten by the null. The C++ headers are instantiated "
    "and every use of a malloc-family result must be guarded by a null test.")

ALLOC = {"malloc", "calloc", "realloc", "ArrowMalloc", "ArrowRealloc", "strdup", "aligned_alloc", "strndup"}
FREE = {"free", "ArrowFree"}


class OomMonitor(slai.Monitor):
    def __init__(self, ctx, fallible):
        self.ctx = ctx
        self.fallible = fallible
        self.sites = set()
        self.checked = 0

    def ghost_key(self, st):
        return st.ghost.get("oom"),

    def after_call(self, eng, st, ins, name, fn, args, val, mode):
        if name in ALLOC:
            self.sites.add(ins.where())
            if val is not None and val[0] == "n":
                st.ghost["oom"] = (name, ins.where(), ins.fn.dname)
                if name.endswith("ealloc") and args[0][0] == "p":
                    st.ghost["oomold"] = args[0][1]
            return None
        if "oom" in st.ghost and mode in ("modular", "unknown") and name not in FREE:
            for k, a in enumerate(args):
                if a[0] in ("n", "p0") and ins.args[k][0] != "n":
                    if a[0] == "p0" or self.derefs(eng, fn, k, set()):
                        self.bad(eng, st, ins, "the null block is passed to %s" % (name or "a callback"))
        return None

    def derefs(self, eng, fn, k, seen):
        """Does fn access memory through its k-th parameter without testing it?"""
        if fn is None or fn.decl or (fn.name, k) in seen:
            return False
        seen.add((fn.name, k))
        pid = fn.params[k]["id"]
        tested = False
        used = False
        for i in fn.insts():
            if i.op == "icmp" and any(o[:2] == ["v", pid] for o in (i.ops or [])):
                tested = True
            if i.op == "load" and i.ops[0][:2] == ["v", pid]:
                used = True
            if i.op == "store" and i.ops[1][:2] == ["v", pid]:
                used = True
            if i.op == "getelementptr" and i.j["gep"]["base"][:2] == ["v", pid]:
                used = True
            if i.op == "call" and i.callee[0] == "f":
                g = eng.mod.functions.get(i.callee[1])
                for n, a in enumerate(i.args):
                    if a[:2] == ["v", pid] and g is not None and n < len(g.params) and \
                            self.derefs(eng, g, n, seen):
                        used = True
        return used and not tested

    def on_null_deref(self, eng, st, ins, what):
        if "oom" in st.ghost:
            self.bad(eng, st, ins, "the null block is accessed")

    def on_store(self, eng, st, ins, region, off, val, size):
        if "oomold" in st.ghost and val[0] == "n":
            c = st.mem.get(region.id, {}).get(off)
            if c is not None and c[1][0] == "p" and c[1][1] == st.ghost["oomold"]:
                self.bad(eng, st, ins, "the old block's address is overwritten by the failed growth")

    def on_exit(self, eng, st, fn, val):
        o = st.ghost.get("oom")
        if not o:
            return
        self.checked += 1
        if fn.ret == "void":
            return self.rep(fn, o, "%s returns nothing, so the failure is lost" % fn.dname)
        if fn.ret == "i32" and fn.name in self.fallible:
            if val is not None and val[0] == "i" and st.num.prove_ne(val[1]):
                return
            return self.rep(fn, o, "%s can still return success" % fn.dname)
        if fn.ret == "ptr":
            if val is not None and val[0] != "n":
                return self.rep(fn, o, "%s returns a non-null pointer" % fn.dname)

    def bad(self, eng, st, ins, what):
        self.rep(ins.fn, st.ghost["oom"], "%s at %s" % (what, ins.where()))

    def rep(self, fn, o, what):
        self.ctx.violation("%s/%s/%s" % (fn.dname, o[0], what.split(" at ")[0]), o[1],
                           "after %s returns null, %s" % (o[0], what))


def alloc_wrappers(mod):
    """Library functions that hand on an allocation result unchecked."""
    res = {}
    changed = True
    while changed:
        changed = False
        for f in mod.defined():
            if f.ret != "ptr" or f.dname in res or not cmod.is_geoarrow(f):
                continue
            for b in f.blocks.values():
                t = b.insts[-1]
                if t.op != "ret":
                    continue
                for i in cmod.flow_sources(f, t.ops[0]):
                    if i.op == "call" and i.callee[0] == "f":
                        g = mod.functions.get(i.callee[1])
                        n = g.dname if g else i.callee[1]
                        if n in ALLOC or n in res:
                            res[f.dname] = n
                            changed = True
    return res


def m_alloc_any(eng, st, ins, args):
    s2 = st.copy()
    r = eng.new_region("heap", label="heap", name="alloc", site=ins)
    return [(st, ("p", r.id, lin.ZERO)), (s2, slai.NULL)]


def has_alloc(mod, f):
    for c in f.calls():
        if c.callee and c.callee[0] == "f":
            g = mod.functions.get(c.callee[1])
            if (g.dname if g else c.callee[1]) in ALLOC:
                return True
    return False


def run(ctx):
    mod = cmod.c_module()
    fall = cmod.fallible_functions(mod)
    mon = OomMonitor(ctx, fall)
    n = 0
    wrappers = alloc_wrappers(mod)
    ALLOC.update(wrappers)
    models = {w: m_alloc_any for w in wrappers}
    models.update({a: m_alloc_any for a in ("calloc", "strdup", "strndup", "aligned_alloc")})
    for f in cmod.lib_functions(mod):
        if not has_alloc(mod, f):
            continue
        n += 1
        eng = slai.Engine(mod, monitors=[mon], inline=False, mem_checks=False, models=models)
        eng.run_entry(f)
    ctx.note("c_functions_with_allocations", n)
    ctx.note("c_allocation_sites", len(mon.sites))
    ctx.note("null_outcome_exits", mon.checked)
    ctx.require(len(mon.sites) >= 5, "allocation sites vanished: %d" % len(mon.sites))
