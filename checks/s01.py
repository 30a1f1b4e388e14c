"""S01: no writable static or global state, no calls that keep or change process-wide state."""
from vlib import build, cmod, ir
from vlib.cmod import short
from vlib.cty import strip_const, is_ptr

TECHNIQUE = "static analysis: whole-library effect analysis of globals (flow of their addresses) and of stateful libc calls"
LEVEL = "other"
EXPLANATION = (
    "Every global and function-local static of the C library, the bundled number code and the instantiated C++ "
    "headers is enumerated from LLVM IR. A constant object is safe; for any other the flow of its address is "
    "followed through pointer arithmetic, phi/select, calls, returns and stores, and a store through it, its use "
    "as a written libc argument, or its escape into a slot that is not a pointer-to-const is a violation. Calls "
    "to libc functions that keep hidden state or change process-wide state are violations.")

# keeps every member access as a typed address computation
PASSES = "function(sroa)"

STATEFUL = {
    "strtok", "setlocale", "uselocale", "localeconv", "localtime", "gmtime", "asctime", "ctime", "rand", "srand",
    "random", "srandom", "drand48", "lrand48", "srand48", "setenv", "putenv", "unsetenv", "getenv", "strerror",
    "tmpnam", "ecvt", "fcvt", "signal", "sigaction", "atexit", "fesetround", "feenableexcept", "fesetenv", "tzset",
    "chdir", "umask", "setbuf", "setvbuf", "mktime", "basename", "dirname", "readdir", "ttyname", "getpwnam", "hcreate",
    "hsearch", "strsignal", "l64a", "ptsname", "setrlimit", "exit", "_exit", "abort_handler", "pthread_setspecific"}
# libc: argument positions written through
WRITES = {"memcpy": {0}, "memmove": {0}, "memset": {0}, "strcpy": {0}, "strncpy": {0}, "snprintf": {0}, "sprintf": {0},
          "vsnprintf": {0}, "strcat": {0}, "free": {0}, "realloc": {0}, "strtol": {1}, "strtod": {1}, "qsort": {0}}


def own(file):
    return "/src/geoarrow/" in (file or "")


class Flow:
    def __init__(self, mod, ctx, g):
        self.mod, self.ctx, self.g = mod, ctx, g
        self.seen = set()
        self.bad = []

    def rooted(self, v):
        """Does the constant operand v denote (part of) the global?"""
        if v[0] == "g":
            return v[1] == self.g
        if v[0] == "gep":
            return self.rooted(v[1]["base"])
        if v[0] == "ce":
            return any(self.rooted(x) for x in v[2])
        return False

    def run(self):
        for f in self.mod.defined():
            for i in f.insts():
                for o in i.operands():
                    if isinstance(o, list) and o and o[0] in ("g", "gep", "ce") and self.rooted(o):
                        self.use(f, i, o)
        for n, gg in self.mod.globals.items():
            if n != self.g and gg.get("init") is not None and self.in_init(gg["init"]) and not gg["const"]:
                pass        # pointed to by another global: the loads of that one are checked on their own
        return self.bad

    def in_init(self, v):
        if not isinstance(v, list):
            return False
        if v[0] in ("g", "gep", "ce"):
            return self.rooted(v)
        return any(self.in_init(x) for x in v[1:] if isinstance(x, list)) or \
            (v[0] == "arr" and any(self.in_init(x) for x in v[1]))

    def value(self, f, vid):
        if (f.name, vid) in self.seen:
            return
        self.seen.add((f.name, vid))
        for i in f.insts():
            for o in i.operands():
                if vid in ir.val_ids(o):
                    self.use(f, i, o)

    def use(self, f, i, o):
        if i.op == "load" or i.op == "icmp" or i.op == "switch":
            return
        if i.op == "store":
            if i.ops[1] == o or self.same(i.ops[1], o):
                self.bad.append((i.where(), "is written"))
            if self.same(i.ops[0], o):
                if not self.const_slot(f, i):
                    self.bad.append((i.where(), "escapes into memory as a writable pointer"))
            return
        if i.op in ("getelementptr", "phi", "select", "bitcast", "addrspacecast"):
            self.value(f, i.id)
            return
        if i.op == "ptrtoint":
            return
        if i.op in ("call", "invoke"):
            if i.callee[0] != "f":
                if any(self.same(a, o) for a in i.args):
                    self.bad.append((i.where(), "is passed to an unknown function"))
                return
            n = i.callee[1]
            g = self.mod.functions.get(n)
            for k, a in enumerate(i.args):
                if not self.same(a, o):
                    continue
                base = n.split(".")[1] if n.startswith("llvm.") and "." in n else n
                if n.startswith("llvm."):
                    if base in WRITES and k in WRITES[base]:
                        self.bad.append((i.where(), "is written by %s" % base))
                    continue
                if g is not None and not g.decl:
                    if k < len(g.params):
                        self.value(g, g.params[k]["id"])
                    else:
                        self.bad.append((i.where(), "is passed through varargs"))
                elif n in WRITES:
                    if k in WRITES[n]:
                        self.bad.append((i.where(), "is written by %s" % n))
                elif n in ("strlen", "memcmp", "strcmp", "strncmp", "memchr", "strchr") or n.startswith("__cxa_guard"):
                    if n.startswith("__cxa_guard"):
                        self.bad.append((i.where(), "is initialised at run time"))
                elif n.startswith("_ZNSt") or n.startswith("_ZSt") or n.startswith("_ZNKSt") or n.startswith("__cxa"):
                    pass        # exception objects, type information, iostream plumbing
                else:
                    self.bad.append((i.where(), "is passed to %s" % n))
            return
        if i.op == "ret":
            for h in self.mod.defined():
                for c in h.calls():
                    if c.callee[0] == "f" and c.callee[1] == f.name:
                        self.value(h, c.id)
            if not f.internal and not self.const_ret(f):
                self.bad.append((i.where(), "is handed to callers as a writable pointer"))
            return
        if i.op in ("atomicrmw", "cmpxchg"):
            self.bad.append((i.where(), "is written"))

    def same(self, a, o):
        if a is o:
            return True
        if o[0] == "v":
            return a == o
        return isinstance(a, list) and a and a[0] in ("g", "gep", "ce") and self.rooted(a)

    def const_ret(self, f):
        t = (f.dtypes or [None])[0]
        return bool(t) and t.startswith("const ") and t.rstrip().endswith("*")

    def const_slot(self, f, i):
        """The stored-to slot is declared as pointer to const (or is a local whose loads are followed)."""
        p = i.ops[1]
        while p[0] == "v":
            d = f.defs.get(p[1])
            if d is None:
                return self.const_param_slot(f, p[1])
            if d.op == "getelementptr":
                r = const_member(self.mod, d.j["gep"])
                if r is not None:
                    return r
                p = d.j["gep"]["base"]
                continue
            if d.op == "alloca":
                # a local array or struct of pointers: its loads give the global's address again
                for j in f.insts():
                    if j.op == "load" and j.ops[0][0] == "v" and base_is(f, j.ops[0], d.id):
                        self.value(f, j.id)
                return True
            return False
        return False

    def const_param_slot(self, f, vid):
        for k, q in enumerate(f.params):
            if q["id"] == vid and f.dtypes and k + 1 < len(f.dtypes):
                t = f.dtypes[k + 1].replace(" ", "")
                return t.startswith("const") and t.count("*") >= 2
        return False


def base_is(f, q, rid):
    while q[0] == "v":
        if q[1] == rid:
            return True
        d = f.defs.get(q[1])
        if d is None or d.op != "getelementptr":
            return False
        q = d.j["gep"]["base"]
    return False


def const_member(mod, gep):
    """True/False: the addressed member is (not) declared pointer-to-const; None: not a member access."""
    from vlib.cty import llvm_struct
    t = llvm_struct(gep["srcty"])
    s = mod.structs.get(t) if t else None
    if s is None:
        return None
    off = gep.get("off")
    if off is None:
        off = gep["idx"][1][1] if len(gep["idx"]) > 1 and gep["idx"][1][0] == "c" else None
        if off is None:
            return False
    for _ in range(6):
        m = None
        for x in s.get("members", []):
            if x["off"] <= off < x["off"] + max(1, x["size"]):
                m = x
        if m is None:
            return False
        t = strip_const(m["type"])
        if "*" in m["type"]:
            return m["type"].replace(" ", "").startswith("const")
        s = mod.structs.get(t.split("[")[0].replace("struct ", "").replace("union ", "").strip())
        if s is None:
            return False
        off -= m["off"]
    return False


def modules():
    yield "C library (portable number code)", ir.Module(build.build_c_module(passes=PASSES))
    yield "C library (Ryu printer)", ir.Module(build.build_c_module(ryu=True, passes=PASSES))
    yield "C++ layer", ir.Module(build.build_cxx_module(passes=PASSES))


def run(ctx):
    nglob = ncalls = nfn = 0
    for name, mod in modules():
        for n, g in sorted(mod.globals.items()):
            if g["decl"] or n.startswith("llvm."):
                continue
            mine = own(g.get("file"))
            if not mine and not (g.get("dname") is None and (n.startswith("_ZGV") and "geoarrow" in n)):
                continue
            nglob += 1
            if g["const"] or (g.get("dtype") or "").startswith("const ") or n.startswith("_ZGV"):
                continue        # constants, incl. C++ constants initialised once under the compiler's guard
            for where, what in Flow(mod, ctx, n).run():
                ctx.violation("global/%s" % g.get("dname", n), "%s:%d" % (short(g.get("file", "")), g.get("line", 0)),
                              "%s %s at %s (%s)" % (g.get("dname", n), what, where, name))
        for f in mod.defined():
            if not own(f.file):
                continue
            nfn += 1
            for c in f.calls():
                if c.callee[0] != "f":
                    continue
                ncalls += 1
                t = mod.functions.get(c.callee[1])
                if c.callee[1] in STATEFUL and (t is None or t.decl):
                    ctx.violation("call/%s/%s" % (f.dname, c.callee[1]), c.where(),
                                  "calls %s, which keeps or changes process-wide state" % c.callee[1])
    ctx.count("globals", nglob)
    ctx.count("functions", nfn)
    ctx.count("calls", ncalls)
    ctx.assume("libc's formatting and parsing functions only read the process locale")
    ctx.require(nglob >= 10 and nfn > 300, "anchors vanished")
