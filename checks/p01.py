"""P01: every failure below the Python bindings becomes a Python exception, every result is returned."""
import os

from vlib import pyx, build

TECHNIQUE = "path-enumerating abstract interpretation of Cython's syntax tree: typestate of every status, output and error object; effect (nounwind) analysis of the C++ methods on LLVM IR"
LEVEL = "proof"
EXPLANATION = ("Cython's own parser gives the syntax tree of the bindings; every path of every method is enumerated with "
               "symbolic values, inlining the module's helpers, properties and constructors. Each call of an extern function or "
               "kernel callback that returns a status must be followed by a test of that status before anything else is called, and "
               "the failing side must raise GeoArrowCException with that status and the message of the error object it was given; "
               "outputs are written into fresh holders that are returned. C++ methods declared without 'except +' must be unable "
               "to throw (nounwind after inlining).")

REL = "python/geoarrow-c/src/geoarrow/c/_lib.pyx"
OUT = {"GeoArrowKernel.start": 3, "GeoArrowKernel.push_batch": 2, "GeoArrowKernel.finish": 1, "GeoArrowBuilderFinish": 1,
       "GeometryDataType.InitSchema": 0, "GeometryDataType.InitStorageSchema": 0}
ERR = {"GeoArrowKernel.start": 4, "GeoArrowKernel.push_batch": 3, "GeoArrowKernel.finish": 2, "GeoArrowBuilderFinish": 2,
       "GeoArrowArrayViewInitFromSchema": 2, "GeoArrowArrayViewSetArray": 2, "GeoArrowBuilderInitFromSchema": 2}
# binding -> (C call, index of the argument that is the (n-th) parameter, is an output passed)
KERNEL = {"start": ("GeoArrowKernel.start", {"schema": 1, "options": 2}, True),
          "push_batch": ("GeoArrowKernel.push_batch", {"array": 1}, True),
          "push_batch_agg": ("GeoArrowKernel.push_batch", {"array": 1}, False),
          "finish": ("GeoArrowKernel.finish", {}, False),
          "finish_agg": ("GeoArrowKernel.finish", {}, True)}


def module():
    return pyx.Module(os.path.join(build.REPO, REL))


def roots(m):
    """Functions callable from Python.  Private helpers used inside the module are analysed where they are called."""
    used = set()
    for f in m.all_funcs():
        for n in pyx.walk(f.node, lambda n: n["k"] in ("AttributeNode", "NameNode")):
            used.add(n.get("attribute") or n.get("name"))
    for f in m.all_funcs():
        private = f.name.startswith("_") and not f.name.startswith("__")
        if (private or f.cdef) and f.name in used:
            continue
        yield f


def where(f, line):
    return "%s:%s (%s)" % (REL, line, f.qual)


def mentions(v, x):
    if v == x:
        return True
    if isinstance(v, tuple):
        return any(mentions(i, x) for i in v)
    if isinstance(v, frozenset):
        return any(mentions(i, x) for i in v)
    return False


def holder_of(arg):
    """&holder.c_xxx -> holder"""
    if isinstance(arg, tuple) and arg[0] == "addr" and isinstance(arg[1], tuple) and arg[1][0] == "fld":
        return arg[1][1]
    return None


def strict(v):
    """Does a value contain the decoding of a C message that can fail?"""
    if not isinstance(v, tuple):
        return False
    if v[:3] == ("op", "pycall", "decode") and mentions(v[3], "message"):
        return not any(x in (("str", "replace"), ("str", "ignore"), ("str", "backslashreplace"), ("str", "surrogateescape"),
                             ("str", "latin-1"), ("str", "latin1")) for x in v[4:])
    return any(strict(x) for x in v)


def statuses(ctx, m, f, paths):
    for s in paths:
        ev = s.events
        pend = None
        for i, e in enumerate(ev + [("end",)]):
            if e[0] == "test" and pend and e[1] == ("nz", pend[4]):
                bad = e[2]
                call = pend
                pend = None
                if bad:
                    ctx.count("failing sides")
                    # nothing else may be called, and the status must be raised
                    for x in ev[i + 1:]:
                        if x[0] == "ccall" and not x[1].endswith(".release") and "Reset" not in x[1]:
                            ctx.violation("%s/after-failure:%s" % (f.qual, call[1]), where(f, x[5]),
                                          "%s() is called after %s() has failed" % (x[1], call[1]))
                    if s.status != "raise":
                        ctx.violation("%s/not-raised:%s" % (f.qual, call[1]), where(f, call[5]),
                                      "a failure of %s() does not raise" % call[1])
                    elif s.ret[1] != "GeoArrowCException" or not any(a == call[4] for a in s.ret[2]):
                        ctx.violation("%s/exception:%s" % (f.qual, call[1]), where(f, call[5]),
                                      "a failure of %s() raises %s, not GeoArrowCException with the status of the call" % (call[1], s.ret[1]))
                    elif call[1] in ERR and len(call[3]) > ERR[call[1]]:
                        err = call[3][ERR[call[1]]]
                        if err == ("null",):
                            ctx.violation("%s/no-error:%s" % (f.qual, call[1]), where(f, call[5]),
                                          "%s() is given nowhere to leave its message, which the exception lacks" % call[1])
                        elif any(strict(a) for a in s.ret[2]):
                            ctx.violation("%s/decode:%s" % (f.qual, call[1]), where(f, call[5]),
                                          "the message is decoded strictly: a message quoting bytes that are not UTF-8 (or cut inside a character) raises UnicodeDecodeError instead")
                        else:
                            o = err[1] if isinstance(err, tuple) and err[0] == "addr" else err
                            if not any(mentions(a, ("fld", o, "message")) for a in s.ret[2]):
                                ctx.violation("%s/message:%s" % (f.qual, call[1]), where(f, call[5]),
                                              "the message %s() left in its error object is not raised" % call[1])
                continue
            if pend and e[0] in ("ccall", "end"):
                ctx.violation("%s/unchecked:%s" % (f.qual, pend[1]), where(f, pend[5]),
                              "the status of %s() is not tested before %s" % (pend[1], "the function returns" if e[0] == "end" else e[1] + "() is called"))
                pend = None
            if e[0] == "ccall" and e[7]:
                ctx.count("status calls on paths")
                pend = e
            if e[0] == "noattr":
                ctx.violation("%s/attribute:%s.%s" % (f.qual, e[1], e[2]), where(f, e[3]),
                              "%s has no attribute %s" % (e[1], e[2]))


def outputs(ctx, m, f, paths):
    for s in paths:
        for e in s.events:
            if e[0] != "ccall":
                continue
            name, recv, args, line = e[1], e[2], e[3], e[5]
            if name.startswith("GeoArrowKernel.") and name != "GeoArrowKernel.release":
                if not args or args[0] != ("addr", recv):
                    ctx.violation("%s/receiver:%s" % (f.qual, name), where(f, line), "%s() is not given the kernel it belongs to" % name)
            if name in ERR and len(args) > ERR[name]:
                h = holder_of(args[ERR[name]])
                if args[ERR[name]] != ("null",) and not (h and h[0] == "obj" and h[2] == "Error" and str(h[1]).startswith("new#")):
                    ctx.violation("%s/error-object:%s" % (f.qual, name), where(f, line), "%s() is not given an error object of its own" % name)
            if name not in OUT or len(args) <= OUT[name]:
                continue
            o = args[OUT[name]]
            if o == ("null",):
                continue
            ctx.count("outputs")
            h = holder_of(o)
            if not (h and h[0] == "obj" and str(h[1]).startswith("new#")):
                ctx.violation("%s/output:%s" % (f.qual, name), where(f, line), "the output of %s() is not a fresh holder" % name)
                continue
            if sum(1 for a in args if holder_of(a) == h) > 1:
                ctx.violation("%s/output-aliased:%s" % (f.qual, name), where(f, line), "the output of %s() is also one of its inputs" % name)
            if s.status is None and s.ret != h:
                ctx.violation("%s/output-lost:%s" % (f.qual, name), where(f, line), "the output of %s() is not returned" % name)


def kernel(ctx, m):
    c = m.classes.get("CKernel")
    ctx.require(c, "class CKernel not found")
    for meth, (cname, params, out) in KERNEL.items():
        f = c["methods"].get(meth)
        if f is None:
            ctx.violation("CKernel/%s" % meth, REL, "CKernel has no method %s()" % meth)
            continue
        for s in pyx.Interp(m).run(f):
            if s.status is not None:
                continue
            calls = [e for e in s.events if e[0] == "ccall" and e[7]]
            if [e[1] for e in calls] != [cname]:
                ctx.violation("CKernel.%s/forward" % meth, where(f, f.line), "calls %s instead of %s() exactly once" % ([e[1] for e in calls], cname))
                continue
            ctx.count("kernel methods")
            a = calls[0][3]
            names = [x["name"] for x in f.args[1:]]
            for i, (p, k) in enumerate(params.items()):
                v = a[k] if k < len(a) else None
                h = holder_of(v)
                want = names[i] if i < len(names) else None
                if not (h == ("obj", want, (h or (0, 0, 0))[2]) if p != "options" else mentions(v, want)):
                    ctx.violation("CKernel.%s/argument:%s" % (meth, p), where(f, calls[0][5]), "argument %s is not passed on" % p)
            has = a[OUT[cname]] != ("null",)
            if has != out:
                ctx.violation("CKernel.%s/output" % meth, where(f, calls[0][5]),
                              "an output is passed" if has else "no output is passed")


def translated(ctx, m):
    """C++ methods that can throw must be declared 'except +' with a standard translation."""
    from vlib import pydecl
    throwing = pydecl.may_throw(ctx, m)
    for (cls, meth, i), (bt, d, line, why) in sorted(throwing.items()):
        ctx.count("C++ methods")
        if why and not d.get("exception_check") == "+":
            ctx.violation("%s::%s/untranslated" % (cls, meth), "%s:%s" % (REL, line),
                          "%s() can throw but is declared without 'except +': an exception terminates the interpreter" % meth)


def paths_of(ctx):
    m = module()
    n = 0
    for f in roots(m):
        n += 1
        try:
            paths = pyx.Interp(m).run(f)
        except pyx.Unsupported as e:
            ctx.undecided[f.qual] = str(e)
            continue
        ctx.count("functions")
        ctx.count("paths", len(paths))
        statuses(ctx, m, f, paths)
        outputs(ctx, m, f, paths)
    ctx.require(n >= 30, "the bindings have only %d functions" % n)
    called = {e.get("name") or e.get("attribute") for f in m.all_funcs() for e in pyx.walk(f.node, lambda x: x["k"] in ("NameNode", "AttributeNode"))}
    for need in ("GeoArrowArrayViewSetArray", "GeoArrowBuilderFinish", "push_batch"):
        ctx.require(need in called, "%s is not used by the bindings" % need)


def kern(ctx):
    kernel(ctx, module())


def exc(ctx):
    translated(ctx, module())


def run(ctx):
    ctx.assume("Cython compiles the tree its parser returns; exceptions raised by Python code propagate")
    ctx.parts([("statuses and outputs", paths_of), ("kernel methods", kern), ("exceptions of C++", exc)])
