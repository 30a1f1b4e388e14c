"""V01: producers drive visitors with well-nested, complete call sequences."""
from vlib import cmod, slai, lin
from vlib.cmod import short

TECHNIQUE = "static analysis: path-sensitive typestate (visitor event stack) over LLVM IR"
LEVEL = "other"
EXPLANATION = (
    "Every function that (transitively) invokes visitor callbacks is interpreted over all paths with a "
    "ghost stack of open features, geometries and rings. Obligations: ends match starts, features are "
    "never nested, each feature holds exactly one top-level geometry or one null, rings occur only in a "
    "polygon, coordinates only in a point/linestring or ring, children only in a collection type that "
    "admits them, success exits leave the stack as found, and no callback follows a failed one. Static "
    "helpers are followed into; recursive and public producers are checked separately and used by "
    "their (checked) balanced contract at call sites.")

SLOTS = ("feat_start", "null_feat", "geom_start", "ring_start", "coords", "ring_end", "geom_end", "feat_end")
POINT, LINESTRING, POLYGON, MPOINT, MLINE, MPOLY, COLL, BOX = 1, 2, 3, 4, 5, 6, 7, 990
EAGAIN = 11
CHILD = {MPOINT: (POINT,), MLINE: (LINESTRING,), MPOLY: (POLYGON,)}
ALL = (0, POINT, LINESTRING, POLYGON, MPOINT, MLINE, MPOLY, COLL, BOX)


def slot_of(eng, st, ins):
    """Name of the visitor slot an indirect call goes through."""
    v = eng.value(st, ins.callee)
    if v[0] != "p":
        return None
    n = eng.regions[v[1]].name or ""
    if n.startswith("GeoArrowVisitor."):
        s = n.split(".", 1)[1]
        return s if s in SLOTS else None
    return None


class StackMonitor(slai.Monitor):
    def __init__(self, ctx, fallible, producers, summaries, final):
        self.ctx, self.fallible, self.producers = ctx, fallible, producers
        self.summaries = summaries
        self.final = final
        self.needs = {}
        self.sites = set()
        self.exits = 0
        self.entries = 0
        self.reports = {}

    def ghost_key(self, st):
        return (st.ghost.get("stk", ()), st.ghost.get("cberr"), st.ghost.get("need"))

    # stack items: ("F", done) ; ("G", type LE or const) ; ("R",)
    def types(self, st, t):
        """Geometry types this open geometry may have here."""
        if t is None:
            return None
        if not t[1]:
            return (t[0],)
        return tuple(x for x in ALL if not st.num.prove_ne(lin.addc(t, -x)))

    def before_call(self, eng, st, ins, name, fn, args):
        if fn is not None and fn.name in self.producers and fn.name in self.summaries:
            need = self.summaries[fn.name]
            if need:
                self.require(eng, st, ins, need, "call of " + fn.dname)
                if need in ("F|G",):
                    self.child(eng, st, ins, None)
        return None

    def child(self, eng, st, ins, ty):
        """A geometry starts (ty: its type LE or None) inside the current top."""
        stk = st.ghost.get("stk", ())
        if not stk:
            return
        top = stk[-1]
        if top[0] == "F":
            if top[1]:
                self.bad(eng, st, ins, "a second geometry or null in one feature")
            st.ghost["stk"] = stk[:-1] + (("F", True),)
        elif top[0] == "G":
            tt = self.types(st, top[1])
            if tt is None:
                return
            ct = self.types(st, ty) if ty is not None else None
            for t in tt:
                if t in (POINT, LINESTRING, POLYGON):
                    self.bad(eng, st, ins, "a child geometry inside a geometry of type %d" % t)
                elif ct is not None and len(ct) == 1 and t in CHILD and len(tt) == 1 and ct[0] not in CHILD[t]:
                    self.bad(eng, st, ins, "a child of type %d inside a geometry of type %d" % (ct[0], t))

    def require(self, eng, st, ins, need, what):
        stk = st.ghost.get("stk", ())
        if not stk:
            have = st.ghost.get("need")
            if need == "none":
                if have not in (None, "none"):
                    self.bad(eng, st, ins, "%s although the function works inside an open element" % what)
                st.ghost["need"] = "none"
            elif have == "none":
                self.bad(eng, st, ins, "%s outside any feature" % what)
            else:
                st.ghost["need"] = meet(have, need)
                if st.ghost["need"] is None:
                    self.bad(eng, st, ins, "%s in a place other calls rule out" % what)
                    st.ghost["need"] = have
            return
        top = stk[-1][0]
        if need == "none":
            self.bad(eng, st, ins, "%s inside an open element" % what)
        elif top not in need.split("|"):
            self.bad(eng, st, ins, "%s directly inside %s" % (
                what, {"F": "a feature", "G": "a geometry", "R": "a ring"}[top]))

    def event(self, eng, st, ins, slot, args):
        self.sites.add((slot, ins.where()))
        stk = st.ghost.get("stk", ())
        ev = st.ghost.get("cbval")
        if st.ghost.get("cberr") and ev is not None and st.num.prove_eq(lin.addc(ev, -EAGAIN)):
            # the consumer asked to stop this feature early; it is still open
            st.ghost["cberr"] = None
            stk = stk + (("F", True),)
            st.ghost["stk"] = stk
        if st.ghost.get("cberr"):
            self.bad(eng, st, ins, "%s is called after a callback failed at %s" % (slot, st.ghost["cberr"]))
            return
        if slot == "feat_start":
            self.require(eng, st, ins, "none", "feat_start")
            st.ghost["stk"] = stk + (("F", False),)
        elif slot == "geom_start":
            self.require(eng, st, ins, "F|G", "geom_start")
            ty = args[1][1] if len(args) > 1 and args[1][0] == "i" else None
            self.child(eng, st, ins, ty)
            st.ghost["stk"] = st.ghost.get("stk", ()) + (("G", ty),)
        elif slot == "ring_start":
            self.require(eng, st, ins, "G", "ring_start")
            if stk and stk[-1][0] == "G":
                for t in self.types(st, stk[-1][1]) or ():
                    if t != POLYGON:
                        self.bad(eng, st, ins, "a ring inside a geometry of type %d" % t)
            st.ghost["stk"] = stk + (("R",),)
        elif slot == "coords":
            self.require(eng, st, ins, "G|R", "coords")
            if stk and stk[-1][0] == "G":
                for t in self.types(st, stk[-1][1]) or ():
                    if t not in (POINT, LINESTRING):
                        self.bad(eng, st, ins, "coordinates directly inside a geometry of type %d" % t)
        elif slot == "null_feat":
            self.require(eng, st, ins, "F", "null_feat")
            if stk and stk[-1][0] == "F":
                if stk[-1][1]:
                    self.bad(eng, st, ins, "a null after a geometry in one feature")
                st.ghost["stk"] = stk[:-1] + (("F", True),)
        else:
            want = {"ring_end": "R", "geom_end": "G", "feat_end": "F"}[slot]
            if not stk:
                self.bad(eng, st, ins, "%s closes something this function did not open" % slot)
            elif stk[-1][0] != want:
                self.bad(eng, st, ins, "%s while %s is open" % (
                    slot, {"F": "only a feature", "G": "a geometry", "R": "a ring"}[stk[-1][0]]))
            else:
                if slot == "feat_end" and not stk[-1][1]:
                    self.bad(eng, st, ins, "a feature ends without a geometry or null")
                st.ghost["stk"] = stk[:-1]
        if len(st.ghost.get("stk", ())) > 10:
            self.bad(eng, st, ins, "elements pile up without being closed")
            raise slai.Limits()

    def after_call(self, eng, st, ins, name, fn, args, val, mode):
        slot = slot_of(eng, st, ins) if ins.callee[0] == "v" else None
        if slot:
            self.event(eng, st, ins, slot, args)
        prod = slot or (fn is not None and fn.name in self.producers and mode == "modular")
        fall = prod or (fn is not None and fn.name in self.fallible and mode != "inline") or \
            (ins.callee[0] == "v" and ins.type == "i32")
        if not fall or ins.type != "i32" or val is None:
            return None
        if val[0] != "i":
            val = ("i", eng.fresh(st, "rc"))
        if not val[1][1]:
            return [st]
        bad, out = st.copy(), []
        st.num.assume_eq(val[1])
        if not st.num.bottom:
            st.regs[ins.id] = ("i", lin.ZERO)
            out.append(st)
        bad.num.assume_ne(val[1])
        if not bad.num.bottom:
            if prod and not bad.ghost.get("cberr"):
                bad.ghost["cberr"] = ins.where()
                bad.ghost["cbval"] = val[1]
            bad.regs[ins.id] = val
            out.append(bad)
        return out

    def on_exit(self, eng, st, fn, val):
        self.exits += 1
        need = st.ghost.get("need")
        if need:
            self.needs.setdefault(fn.name, set()).add(need)
        if st.ghost.get("cberr"):
            ev = st.ghost.get("cbval")
            if fn.ret == "i32" and val is not None and val[0] == "i" and st.num.prove_eq(val[1]) \
                    and ev is not None and st.num.prove_eq(lin.addc(ev, -EAGAIN)):
                self.rep(eng, fn.dname, "%s:%d" % (short(fn.file), fn.line),
                         "the function returns success leaving a feature it stopped early open")
            return
        if val is not None and val[0] == "i" and fn.ret == "i32":
            if st.num.prove_ne(val[1]):
                return
        elif fn.ret == "i32" and val is not None and val[0] != "i":
            pass
        if st.ghost.get("stk"):
            self.rep(eng, fn.dname, "%s:%d" % (short(fn.file), fn.line),
                     "the function can return success leaving %s open" % describe(st.ghost["stk"]))

    def bad(self, eng, st, ins, what):
        self.rep(eng, ins.fn.dname, ins.where(), what)

    def rep(self, eng, fname, where, what):
        w = what.split(" at src")[0]
        self.reports.setdefault("%s/%s" % (fname, w), (where, what + " (entry %s)" % eng.entry.dname))


def describe(stk):
    return "/".join({"F": "feature", "G": "geometry", "R": "ring"}[x[0]] for x in stk)


def meet(a, b):
    if a is None:
        return b
    s = [x for x in a.split("|") if x in b.split("|")]
    return "|".join(s) if s else None


def find_producers(mod):
    """Functions that call visitor slots, directly or not; (direct, all)."""
    direct = set()
    for f in mod.defined():
        if not cmod.is_geoarrow(f):
            continue
        for c in f.calls():
            if c.callee[0] == "v" and c.type == "i32" and visitor_load(f, c.callee):
                direct.add(f.name)
    allp = set(direct)
    ch = True
    while ch:
        ch = False
        for f in mod.defined():
            if f.name in allp or not cmod.is_geoarrow(f):
                continue
            for c in f.calls():
                if c.callee[0] == "f" and c.callee[1] in allp:
                    allp.add(f.name)
                    ch = True
                    break
    return direct, allp


def visitor_load(f, callee):
    """Is this callee loaded from a GeoArrowVisitor-shaped object?"""
    for d in cmod.flow_sources(f, callee):
        if d.op == "load":
            p = d.ops[0]
            if p[0] == "v":
                g = f.defs.get(p[1])
                if g is not None and g.op == "getelementptr" and "GeoArrowVisitor" in g.j["gep"]["srcty"] \
                        and "Kernel" not in g.j["gep"]["srcty"]:
                    return True
                if g is None:       # parameter: first member
                    for q in f.params:
                        if q["id"] == p[1]:
                            return True
            if p[0] == "gep" and "GeoArrowVisitor" in p[1]["srcty"]:
                return True
    return False


def run_pass(ctx, mod, fall, prods, summaries, final):
    mon = StackMonitor(ctx, fall, prods, summaries, final)
    rec = slai.recursive_functions(mod)
    static = {n for n in prods if mod.functions[n].internal and n not in rec
              and not cmod.address_taken(mod, n)}
    entries = [n for n in sorted(prods) if n not in static]
    seen = set()
    for n in entries:
        f = mod.functions[n]
        if (f.dname, f.line) in seen:
            continue
        seen.add((f.dname, f.line))
        eng = slai.Engine(mod, monitors=[mon], inline=False, mem_checks=False,
                          force_inline={mod.functions[x].dname for x in static}, max_depth=30)
        try:
            eng.run_entry(f)
        except slai.Limits:
            pass
        mon.entries += 1
    return mon, static


def run(ctx):
    mod = cmod.c_module()
    fall = cmod.fallible_functions(mod)
    direct, prods = find_producers(mod)
    ctx.require(len(direct) >= 8, "visitor producers vanished: %s" % sorted(direct))
    summ, prev = {}, None
    for _ in range(4):
        mon, static = run_pass(ctx, mod, fall, prods, summ, True)
        if mon.needs == prev:
            break
        prev = mon.needs
        summ = {}
        for n, s in mon.needs.items():
            summ[n] = sorted(s)[0] if len(s) == 1 else ("none" if "none" in s else sorted(s, key=len)[0])
    ctx.viol.update(mon.reports)
    for n, s in mon.needs.items():
        if "none" in s and len(s) > 1:
            f = mod.functions[n]
            ctx.violation("%s/mixed" % f.dname, "%s:%d" % (short(f.file), f.line),
                          "%s emits whole features on some paths and feature parts on others" % f.dname)
    ctx.note("entry_functions", mon.entries)
    ctx.note("direct_producers", len(direct))
    ctx.note("followed_helpers", len(static))
    ctx.note("callback_sites", len(mon.sites))
    ctx.note("exits_checked", mon.exits)
    ctx.note("contracts", {mod.functions[k].dname: v for k, v in summ.items()})
    ctx.require(len(mon.sites) >= 30, "too few visitor call sites: %d" % len(mon.sites))
