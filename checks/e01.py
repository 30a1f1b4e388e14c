"""E01: a failing step makes the whole operation fail (C library)."""
from vlib import cmod, slai, lin
from vlib.cmod import short

TECHNIQUE = "static analysis: path-sensitive error-code dataflow over LLVM IR"
LEVEL = "other"
EXPLANATION = (
    "Path-sensitive error dataflow over the LLVM IR of every C library function: each call whose "
    "result is an error code (declared error-code type, errno-valued int, or any int callback) is "
    "split into a success and a failure outcome; from a failure outcome every feasible path must "
    "leave the function with a provably nonzero result (or, for an errno the caller tests for by "
    "value, continue deliberately). Setting an error message is treated as a failure outcome too.")

# Callback results that are not error codes: C library routines and predicates.
EAGAIN = 11


class ErrMonitor(slai.Monitor):
    def __init__(self, ctx, fallible, setters):
        self.setters = setters
        self.ctx = ctx
        self.fallible = fallible
        self.sites = set()

    def ghost_key(self, st):
        return st.ghost.get("err"),

    def is_fallible(self, name, fn, ins):
        if ins.type != "i32":
            return False
        if fn is not None:
            return fn.name in self.fallible
        return name is None and ins.callee[0] == "v"

    def before_call(self, eng, st, ins, name, fn, args):
        if name in self.setters:
            # a message is only lost when there was somewhere to put it
            if "err" not in st.ghost:
                st.ghost["err"] = ("error message recorded", ins.where())
                self.note_site(eng, ins, "message")
            return None
        if self.is_fallible(name, fn, ins):
            self.note_site(eng, ins, "call")
        return None

    def note_site(self, eng, ins, kind):
        self.sites.add((kind, ins.where()))

    def after_call(self, eng, st, ins, name, fn, args, val, mode):
        if not self.is_fallible(name, fn, ins):
            return None
        if mode == "inline":
            return None
        if val is None or val[0] not in ("i",):
            val = ("i", eng.fresh(st, "rc"))
        callee = name or callee_desc(ins)
        if not val[1][1]:
            if val[1][0] != 0 and "err" not in st.ghost:
                st.ghost["err"] = (callee, ins.where())
            return [st]
        bad = st.copy()
        ok = st
        out = []
        ok.num.assume_eq(val[1])
        if not ok.num.bottom:
            ok.regs[ins.id] = ("i", lin.ZERO)
            out.append(ok)
        bad.num.assume_ne(val[1])
        if not bad.num.bottom:
            if "err" not in bad.ghost:
                bad.ghost["err"] = (callee, ins.where())
                bad.ghost["errval"] = val[1]
            bad.regs[ins.id] = val
            out.append(bad)
        return out

    def on_exit(self, eng, st, fn, val):
        e = st.ghost.get("err")
        if not e or fn.dname in self.setters:
            return
        ev = st.ghost.get("errval")
        if ev is not None and st.num.prove_eq(lin.addc(ev, -EAGAIN)):
            return      # tested for by value
        if fn.ret == "void":
            return self.report(fn, e, "returns nothing, so the failure is lost")
        if fn.ret != "i32" or fn.name not in self.fallible:
            return self.report(fn, e, "has no error result, so the failure is lost")
        if val is not None and val[0] == "i" and st.num.prove_ne(val[1]):
            return
        if val is not None and val[0] == "i" and ev is not None and st.num.prove_eq(lin.sub(val[1], ev)):
            return
        self.report(fn, e, "can still return success")

    def report(self, fn, e, what):
        self.ctx.violation("%s/%s" % (fn.dname, e[0]), "%s:%d %s" % (short(fn.file), fn.line, fn.dname),
                           "after %s fails at %s the function %s" % (e[0], e[1], what))


def callee_desc(ins):
    return "callback"


def run(ctx):
    mod = cmod.c_module()
    fall = cmod.fallible_functions(mod)
    fns = cmod.lib_functions(mod)
    ctx.require(len(fns) > 150, "only %d library functions found" % len(fns))
    mon = ErrMonitor(ctx, fall, cmod.message_setters(mod))
    for f in fns:
        eng = slai.Engine(mod, monitors=[mon], inline=False, mem_checks=False)
        eng.run_entry(f)
        ctx.count("functions")
    ctx.note("error_sites", len(mon.sites))
    ctx.require(len(mon.sites) > 200, "too few error sites: %d" % len(mon.sites))
