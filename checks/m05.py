"""M05: loops end and recursion is bounded, whatever the input."""
from vlib import build, cmod, ir, prog, quals

TECHNIQUE = "interprocedural termination analysis over LLVM IR: loop ranking by counters and by consumed input (greatest-fixpoint consumption summaries), recursion ranking over call-graph components"
LEVEL = "proof"
EXPLANATION = (
    "Every loop needs a reason to end: a variable that moves one way on every trip and is tested, on every trip, against a value "
    "the loop does not change (in a type wide enough for that value), or a byte count in memory that every trip lowers, callees "
    "included. Every cycle of the call graph needs a quantity handed around it that is advanced on the way and tested against a limit "
    "before the cycle is closed (starting from a constant), or an allocation that enlarges what was too small before it is tried again. "
    "Anything else is a violation.")


class NoNames:
    def keys(self, f, v):
        return set()


def setup(mod, q):
    W = {}

    def writes(f, i):
        if i.callee[0] != "f":
            return set()
        out = set()
        for t in q.targets(f, i) if hasattr(q, "targets") else [i.callee[1]]:
            out |= W.get(t, set())
        return out
    L = prog.Loops(mod, writes)
    L.q = q
    for f in mod.defined():
        s = set()
        for i in f.insts():
            if i.op == "store" and not L.own(f, L.ms.root(f, i.ops[1])):
                s |= {k for k in q.keys(f, i.ops[1]) if k[0] not in ("loc", "par")}
        W[f.name] = s
    ch = True
    while ch:
        ch = False
        for f in mod.defined():
            for i in f.calls():
                if i.callee[0] == "f" and i.callee[1] in W and not W[i.callee[1]] <= W[f.name]:
                    W[f.name] |= W[i.callee[1]]
                    ch = True
    return L


def loops(ctx, L, mod, mine):
    n = 0
    for f in sorted((f for f in mod.defined() if mine(f)), key=lambda f: f.name):
        for h, body, latches in L.loops(f):
            n += 1
            at = place(f, h, body)
            r = L.counted(f, h, body, latches)
            if r:
                ctx.count("loops with a counter")
                if r[3]:
                    ctx.violation("narrow/%s" % f.dname, at, "the counter of a loop in %s has %d bits, its limit %d: it never gets there" % (
                        f.dname, r[3][0], r[3][1]))
                if r[4]:
                    ctx.assume("the step of the loop at %s is positive" % at)
                continue
            r = L.shrinking(f, h, body, latches)
            if r:
                ctx.count("loops that consume input")
                ctx.sample("%s: every trip lowers the count at offset %d behind %s" % (at, r[1], pname(f, r[0])))
                continue
            ctx.violation("loop/%s" % f.dname, at, "nothing shows that the loop in %s ends: no counter moves one way towards a limit "
                          "that is tested on every trip, and no count of remaining input is lowered on every trip" % f.dname)
    return n


def pname(f, v):
    for p in f.params:
        if v == ("v", p["id"]):
            return p["name"].split(".")[0]
    return f.varnames.get(v[1], "a local") if v[0] == "v" else v[1]


def place(f, h, body):
    for b in [h] + sorted(body):
        for i in f.blocks[b].insts:
            if i.loc:
                return i.where()
    return f.name


def recursion(ctx, L, mod, mine):
    R = prog.Recursion(mod, L)
    n = 0
    for comp, edges in R.cycles(mine):
        n += 1
        who = " > ".join(sorted({mod.functions[x].dname for x in comp}))
        if any(mod.functions[x].dname.startswith("~") for x in comp):
            ctx.sample("%s: destruction goes as deep as the object was built" % who)
            continue
        r = R.measured(comp, edges)
        if r:
            g = mod.functions[r[0][0]]
            s = r[0][1]
            ctx.sample("%s: %s%s goes %s and is limited" % (who, g.params[s[1]]["name"].split(".")[0],
                                                           "" if s[0] == "p" else "'s member at %d" % s[2], "up" if r[1] > 0 else "down"))
        elif R.retry(comp, edges):
            ctx.sample("%s: %s" % (who, R.retry(comp, edges)))
        elif R.descends(comp, edges) is not None:
            ctx.sample("%s: follows the library's own array structure" % who)
        else:
            e = sorted(edges, key=lambda e: (e[2].file, e[2].line))[0]
            ctx.violation("recursion/%s" % "+".join(sorted({mod.functions[x].dname for x in comp})), e[2].where(),
                          "nothing limits the depth of the recursion %s: no value handed along it is advanced and tested against a limit before "
                          "each round" % who)
    return n


def c_part(ctx):
    mod = cmod.c_module(passes="function(sroa)")
    L = setup(mod, quals.Quals(mod, lambda q: {}))
    n = loops(ctx, L, mod, cmod.is_geoarrow)
    m = recursion(ctx, L, mod, cmod.is_geoarrow)
    ctx.count("C loops", n)
    ctx.count("C recursive cycles", m)
    ctx.require(n >= 80, "fewer than 80 loops found in the C sources")
    ctx.require(m >= 5, "fewer than 5 recursive cycles found in the C sources")


def cxx_part(ctx):
    mod = ir.Module(build.build_cxx_module(passes="function(sroa)", srcs=[build.VERIF + "/witness/wkb.cpp"], tag="cxxwkb"))

    def mine(f):
        return "/src/geoarrow/" in f.file and not f.file.endswith(".c")
    L = setup(mod, NoNames())
    n = loops(ctx, L, mod, mine)
    m = recursion(ctx, L, mod, mine)
    ctx.count("C++ loops", n)
    ctx.count("C++ recursive cycles", m)
    ctx.require(n >= 2, "fewer than 2 loops found in the C++ headers")
    ctx.require(m >= 1, "the recursion of the C++ WKB parser was not found")


def run(ctx):
    ctx.assume("strings given to the C library's string functions are terminated and allocation sizes fit in memory")
    ctx.assume("callbacks (visitors, release functions, array streams) return and do not call back into the function that called them")
    ctx.parts([("c", c_part), ("cxx", cxx_part)])
