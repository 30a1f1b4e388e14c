"""Chaining of public entry points in the abstract interpreter.

`Drive` keeps a set of abstract states and applies library calls to each;
output buffers are given one region each, so that the bytes a writer appends
stay readable from the state."""
from . import lin, slai, strs


class BufMon(strs.StrFacts):
    """Keeps ArrowBuffer contents in one region and lets allocations succeed."""

    def before_call(self, eng, st, ins, name, fn, args):
        r = super().before_call(eng, st, ins, name, fn, args)
        if r is not None:
            return r
        if name in ("ArrowMalloc", "malloc"):
            n = eng.as_int(st, args[0], 64)
            h = eng.new_region("heap", size=n, label="heap", name="malloc", site=ins)
            st.null[h.id] = False
            return [(st, ("p", h.id, lin.ZERO))]
        if name in ("ArrowBufferReserve", "ArrowBufferResize") and args[0][0] == "p":
            return self.reserve(eng, st, name, args)
        if name == "ArrowBufferAllocatorDefault":
            return [(st, None)]
        return None

    def reserve(self, eng, st, name, args):
        b = args[0]
        r = eng.regions[b[1]]
        eng.set_type(r, "struct ArrowBuffer")
        m = {k: lin.addc(b[2], eng.types.member("ArrowBuffer", k)["off"]) for k in ("data", "size_bytes", "capacity_bytes")}
        d = eng.load_cell(st, r, m["data"], 8, "ptr")
        if not (d[0] == "p" and eng.regions[d[1]].label == "arena"):
            a = eng.new_region("heap", size=lin.const(1 << 40), label="arena", name="arena")
            st.null[a.id] = False
            eng.store_cell(st, r, m["data"], 8, ("p", a.id, lin.ZERO))
        eng.store_cell(st, r, m["capacity_bytes"], 8, ("i", lin.const(1 << 40)))
        if name == "ArrowBufferResize":
            eng.store_cell(st, r, m["size_bytes"], 8, ("i", eng.as_int(st, args[1], 64)))
        return [(st, ("i", lin.ZERO))]


def arena_bytes(eng, st):
    """Contents of the arenas of a state, as {region: bytes up to the first unknown}; None for a byte that is not known."""
    out = {}
    for rid, cells in st.mem.items():
        if eng.regions[rid].label != "arena":
            continue
        b = []
        end = 0
        for k, c in cells.items():
            if k != "fill" and not k[1]:
                end = max(end, k[0] + c[0])
        while len(b) < end:
            c = cells.get(lin.const(len(b)))
            if c is not None and c[1][0] == "i" and not c[1][1][1]:
                b += list((c[1][1][0] & ((1 << (8 * c[0])) - 1)).to_bytes(c[0], "little"))
            elif c is not None:
                b += [None] * c[0]
            else:
                b.append(None)
        out[rid] = b
    return out


class Drive:
    def __init__(self, eng, st=None):
        self.eng = eng
        self.states = [st or slai.State()]
        self.eng.stack, self.eng.steps = [], 0

    def obj(self, ty, name="obj"):
        r = self.eng.new_region("obj", ty="struct " + ty, label=ty, name=name)
        for s in self.states:
            s.null[r.id] = False
        return ("p", r.id, lin.ZERO)

    def call(self, fn, args, ok=True):
        """Apply fn in every state; args is a list or a function of the state.  Keeps the states whose result may be 0 (ok)."""
        out = []
        self.eng.entry = fn
        for s in self.states:
            a = args(s) if callable(args) else list(args)
            a = list(a)
            full = self.eng.bind_params(s, fn)
            a += full[len(a):]
            for t, v, _ in self.eng.exec_function(fn, s, a):
                if v is not None and v[0] == "i" and ok:
                    if t.num.prove_ne(v[1]) or (not v[1][1] and v[1][0] != 0):
                        continue
                out.append(t)
        self.states = out
        return out

    def slot(self, s, obj, sname, member):
        """The function a function-pointer member holds in state s."""
        r = self.eng.regions[obj[1]]
        v = self.eng.load_cell(s, r, lin.addc(obj[2], self.eng.types.member(sname, member)["off"]), 8, "ptr")
        return self.eng.mod.functions.get(v[1]) if v[0] == "f" else None
