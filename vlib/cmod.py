"""Shared access to the C library module and its classification."""
from . import build, ir
from .ir import short, val_ids

_cache = {}
ERR_TYPES = ("GeoArrowErrorCode", "ArrowErrorCode")


def c_module(**kw):
    k = tuple(sorted(kw.items()))
    if k not in _cache:
        _cache[k] = ir.Module(build.build_c_module(**kw))
    return _cache[k]


ERRNOS = {5, 11, 12, 22, 34, 61, 75, 84, 95}


def flow_consts(f, v, seen=None):
    seen = set() if seen is None else seen
    if v[0] == "c":
        return {v[1]}
    out = set()
    if v[0] != "v" or v[1] in seen:
        return out
    seen.add(v[1])
    d = f.defs.get(v[1])
    if d is not None and d.op == "phi":
        for w, _ in d.j["inc"]:
            out |= flow_consts(f, w, seen)
    elif d is not None and d.op == "select":
        for w in (d.ops or [])[1:]:
            out |= flow_consts(f, w, seen)
    return out


def is_geoarrow(fn):
    return "/src/geoarrow/" in fn.file and "/ryu/" not in fn.file


def lib_functions(mod):
    """Defined functions of the library itself (static inline helpers once)."""
    seen = set()
    out = []
    for f in mod.defined():
        if not is_geoarrow(f):
            continue
        base = (f.dname, f.file, f.line)
        if base in seen:
            continue
        seen.add(base)
        out.append(f)
    return out


def fallible_functions(mod):
    """Names of functions whose int result is an error code.

    Declared error-code types, plus functions returning a plain int of which
    some returned value is the result of a fallible call or an errno constant
    chosen next to one.
    """
    res = set()
    for f in mod.functions.values():
        dt = f.dtypes[0] if f.dtypes else None
        if dt in ERR_TYPES:
            res.add(f.name)
    for f in mod.defined():
        if f.ret != "i32" or f.name in res or (f.dtypes and f.dtypes[0] not in ("int", None)):
            continue
        consts = set()
        other = False
        for b in f.blocks.values():
            t = b.insts[-1]
            if t.op == "ret" and t.ops:
                consts |= flow_consts(f, t.ops[0])
        if consts and consts <= ERRNOS | {0} and consts & ERRNOS:
            res.add(f.name)
    decl = {"ArrowBufferReserve", "ArrowBufferResize"}
    for f in mod.functions.values():
        if f.dname in decl:
            res.add(f.name)
    changed = True
    while changed:
        changed = False
        for f in mod.defined():
            if f.name in res or f.ret != "i32":
                continue
            for b in f.blocks.values():
                t = b.insts[-1]
                if t.op != "ret":
                    continue
                for i in flow_sources(f, t.ops[0] if t.ops else None):
                    if i.op == "call" and i.callee and i.callee[0] == "v" and i.type == "i32":
                        res.add(f.name)
                        changed = True
                    if i.op == "call" and i.callee and i.callee[0] == "f" and i.callee[1] in res:
                        res.add(f.name)
                        changed = True
    return res


def flow_sources(f, v, seen=None):
    """Instructions a value may come from through phi/select."""
    seen = set() if seen is None else seen
    out = []
    if v is None:
        return out
    for x in val_ids(v) if v[0] == "v" else []:
        if x in seen:
            continue
        seen.add(x)
        d = f.defs.get(x)
        if d is None:
            continue
        if d.op == "phi":
            for w, _ in d.j["inc"]:
                out += flow_sources(f, w, seen)
        elif d.op == "select":
            for w in (d.ops or [])[1:]:
                out += flow_sources(f, w, seen)
        else:
            out.append(d)
    return out


def message_setters(mod):
    """Void functions that only exist to record an error message."""
    res = {"ArrowErrorSet", "GeoArrowErrorSet"}
    changed = True
    while changed:
        changed = False
        for f in mod.defined():
            if f.dname in res or f.ret != "void" or not is_geoarrow(f):
                continue
            for c in f.calls():
                g = mod.functions.get(c.callee[1]) if c.callee and c.callee[0] == "f" else None
                if (g.dname if g else c.callee[1]) in res:
                    res.add(f.dname)
                    changed = True
                    break
    return res


_taken = {}


def address_taken(mod, name):
    s = _taken.get(id(mod))
    if s is None:
        s = set()

        def walk(v):
            if isinstance(v, list):
                if len(v) >= 2 and v[0] == "f" and isinstance(v[1], str):
                    s.add(v[1])
                for x in v:
                    if isinstance(x, (list, dict)):
                        walk(x)
            elif isinstance(v, dict):
                for x in v.values():
                    if isinstance(x, (list, dict)):
                        walk(x)
        for f in mod.defined():
            for i in f.insts():
                for o in (i.args or []) if i.op in ("call", "invoke") else i.operands():
                    walk(o)
        for g in mod.globals.values():
            walk(g.get("init"))
        _taken[id(mod)] = s
    return name in s
