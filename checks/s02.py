"""S02: nothing is written through a pointer that leads into memory the caller only lent."""
from vlib import cmod, quals
from vlib.cty import Types, is_ptr, pointee_raw, strip_const, struct_name

TECHNIQUE = "interprocedural deep-const (type qualifier) inference over typed LLVM IR with member-based heap"
LEVEL = "proof"
EXPLANATION = (
    "Lent memory is everything reachable from a pointer-to-const parameter, or from a by-value view, of a public function or "
    "callback, and from the schema and arrays handed to a kernel or scalar function. Labels follow these pointers through locals, "
    "members of reader and view structures, returned values and calls (summaries per function, so that helpers used on owned and "
    "on lent memory are kept apart). Every store, block copy, C library write, free, realloc and release callback whose target can "
    "carry such a label is a violation.")

# slots that take inputs without const: (structure, member, parameter)
SLOTS = [("GeoArrowKernel", "start", 1), ("GeoArrowKernel", "push_batch", 1),
         ("GeoArrowScalarUdf", "init", 1), ("GeoArrowScalarUdf", "execute", 1)]
# parameters whose memory the function takes over
TAKEN = {("GeoArrowBuilderSetOwnedBuffer", "value")}


def const_pointee(ct):
    if not is_ptr(strip_const(ct)):
        return False
    q = ct[:-1].strip() if ct.startswith("const ") else pointee_raw(strip_const(ct))
    return q.startswith("const ") and not is_ptr(q)


def lent_params(mod, q):
    T = Types(mod.structs)
    lent = {}
    for f in mod.defined():
        if not cmod.is_geoarrow(f) or f.internal and f.name not in q.taken:
            continue
        for k, t in enumerate(q.ptype[f.name]):
            if t is None or f.params[k]["type"] != "ptr" or (f.dname, f.params[k]["name"].split(".")[0]) in TAKEN:
                continue
            kind, ct = t
            m = T.members(ct) if kind in ("pair", "byval") else None
            if kind == "pair" and m and is_ptr(m[0]["type"]) and const_pointee(m[0]["type"]) or \
                    kind == "plain" and const_pointee(ct):
                lent.setdefault(f.name, set()).add(k)
    for s, mem, k in SLOTS:
        m = T.member(s, mem)
        if m is None:
            continue
        for fn in q.slots.get(("m", q.one(s), m["off"]), ()):
            d = mod.functions[fn].dtypes if fn in mod.functions else None
            if d and len(d) > k + 1 and struct_name(strip_const(d[1]).rstrip("* ")) == s:
                lent.setdefault(fn, set()).add(k)
    return lent


def culprit(q, mod, f, l):
    """The instruction that writes, behind the calls, and the path to it."""
    path, seen = [], set()
    i = q.W[f][l]
    while i.op in ("call", "invoke") and (f, l) not in seen:
        seen.add((f, l))
        path.append(mod.functions[f].dname)
        nxt = None
        for t in q.targets(mod.functions[f], i):
            for m in q.W.get(t, ()):
                s = q.substitute(mod.functions[f], i, m)
                if l in s:
                    nxt = (t, m)
        if nxt is None:
            break
        f, l = nxt
        i = q.W[f][l]
    return i, path


def pname(mod, fn, k):
    return mod.functions[fn].params[k]["name"].split(".")[0]


def run(ctx):
    mod = cmod.c_module(passes="function(sroa)")
    q = quals.Quals(mod, lambda q: lent_params(mod, q))
    lent = q.lent
    ctx.count("functions", q.stats["functions"])
    ctx.count("lent parameters", sum(len(x) for x in lent.values()))
    ctx.count("stores", q.stats["stores"])
    ctx.count("calls", q.stats["calls"])
    ctx.count("block copies", q.stats["copies"])
    ctx.count("structure members that hold lent pointers", len(q.F))
    for t in sorted(lent):
        ctx.sample("%s: %s" % (mod.functions[t].dname, ", ".join(pname(mod, t, k) for k in sorted(lent[t]))))
    for k, (f, i) in sorted(q.F.items(), key=str):
        ctx.sample("%s.%s holds a lent pointer since %s" % (k[1], k[2:], i.where()))
    ctx.require(len(lent) >= 40, "fewer than 40 functions with lent parameters found")
    ctx.require(sum(1 for k in q.F if k[0] in ("m", "p")) >= 8, "lent pointers were not followed into the reader structures")
    for n, w in sorted(q.unknown.items()):
        ctx.assume("%s (%s) writes through every pointer it is given" % (n, w))
    for i, why in q.bad.values():
        ctx.violation("store/%s/%s" % (i.fn.dname, what(i)), i.where(), "%s writes to memory its caller only lent (%s)" % (i.fn.dname, why))
    for fn in sorted(lent):
        for l in q.W.get(fn, ()):
            if l[0] not in lent[fn]:
                continue
            i, path = culprit(q, mod, fn, l)
            ctx.violation("lent/%s/%s" % (mod.functions[fn].dname, pname(mod, fn, l[0])), i.where(),
                          "%s%s is written%s, though %s is only lent" % (
                              "memory reached from " if l[1] else "", pname(mod, fn, l[0]),
                              " by way of " + " > ".join(path) if path else " by " + mod.functions[fn].dname, pname(mod, fn, l[0])))


def what(i):
    return (i.callee[1] if i.callee[0] == "f" else "callback") if i.op in ("call", "invoke") else i.op
