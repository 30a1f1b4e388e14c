"""String comparisons as path facts for the abstract interpreter.

`strcmp`/`strncmp`/`memcmp` against a string whose bytes are known splits the
state: on the equal side the fact "the text at this location is <literal>" is
recorded (with whether the length of the text was compared as well), on the
other side the result is non-zero.  A fact dies when the location that held the
pointer is overwritten."""
from . import lin, slai


def text(eng, st, v, limit=256):
    """Bytes of the NUL-terminated text v points to, when all are known."""
    if v is None or v[0] != "p" or v[2][1]:
        return None
    r = eng.regions[v[1]]
    off = v[2][0]
    if r.kind == "global":
        g = eng.mod.globals.get(r.name)
        b = init_bytes(g)
        if b is not None:
            e = b.find(b"\0", off)
            return b[off:e] if e >= 0 else None
    cells = st.mem.get(r.id, {})
    out = bytearray()
    while len(out) < limit:
        c = byte_at(cells, off + len(out))
        if c is None:
            return None
        if c == 0:
            return bytes(out)
        out.append(c)
    return None


def nbytes(eng, st, v, n):
    """The first n bytes at v, when known."""
    if v is None or v[0] != "p" or v[2][1]:
        return None
    r = eng.regions[v[1]]
    off = v[2][0]
    if r.kind == "global":
        g = eng.mod.globals.get(r.name)
        b = init_bytes(g)
        return b[off:off + n] if b is not None and off + n <= len(b) else None
    cells = st.mem.get(r.id, {})
    out = bytearray()
    for i in range(n):
        c = byte_at(cells, off + i)
        if c is None:
            return None
        out.append(c)
    return bytes(out)


def init_bytes(g):
    if not g or not g["const"]:
        return None
    i = g.get("init") or [""]
    if i[0] == "str":
        return i[1].encode("utf-8")
    if i[0] == "bytes":
        return bytes(x & 255 for x in i[1])
    if i[0] == "zero":
        return b"\0" * min(g["size"], 64)
    return None


def byte_at(cells, o):
    c = cells.get((o, ()))
    if c is None:
        for d in range(1, 8):
            c = cells.get((o - d, ()))
            if c is not None and c[0] > d and c[1][0] == "i" and not c[1][1][1]:
                return (c[1][1][0] >> (8 * d)) & 255
        f = cells.get("fill")
        for lo, hi, b in f or ():
            if lo <= o < hi and b == 0:
                return 0
        return None
    if c[1][0] != "i" or c[1][1][1]:
        return None
    return c[1][1][0] & 255


def new_text(eng, st, s, name="text"):
    """A region holding the given text, as a pointer value."""
    r = eng.new_region("obj", label=name, const=True, name=name)
    b = (s if isinstance(s, bytes) else s.encode()) + b"\0"
    st.null[r.id] = False
    st.mem[r.id] = {lin.const(i): (1, ("i", lin.const(c))) for i, c in enumerate(b)}
    return ("p", r.id, lin.ZERO)


class StrFacts(slai.Monitor):
    keep_past = False       # keep what was found out about a cell's earlier contents

    def __init__(self, negative=False):
        self.literals = set()

    def facts(self, st):
        return st.ghost.get("facts", ())

    def ghost_key(self, st):
        return tuple(sorted((f[1], f[2], f[3]) for f in self.facts(st)))

    def drop(self, st):
        st.ghost["facts"] = ()

    def locate(self, eng, st, p, op=None):
        """(cell location of the pointer, size value stored next to it); op is
        the instruction that produced the pointer, when there is one"""
        loaded = st.ghost.get("loaded", ())
        if not any(v == p and i == op for v, _, _, i in loaded):
            for a, z in reversed(st.ghost.get("pairs", ())):
                if a == p:
                    return ("val", p), z
        for v, rid, k, _ in sorted(reversed(loaded), key=lambda x: x[3] != op):
            if v == p:
                c = st.mem.get(rid, {}).get(k)
                if c is not None and c[1] == p:
                    nx = st.mem[rid].get(lin.addc(k, 8))
                    return (rid, k), nx[1] if nx is not None and nx[0] == 8 and nx[1][0] == "i" else None
        for rid, cells in st.mem.items():
            for k, c in cells.items():
                if k != "fill" and c[1] == p and c[0] == 8:
                    nx = cells.get(lin.addc(k, 8))
                    if nx is not None and nx[0] == 8 and nx[1][0] == "i":
                        return (rid, k), nx[1]
        return ("val", p), None

    def after_call(self, eng, st, ins, name, fn, args, val, mode):
        if val is not None and val[0] == "agg":
            d = dict(val[1])
            a, z = d.get((0,)), d.get((1,))
            if a is not None and z is not None and a[0] == "p" and z[0] == "i":
                st.ghost["pairs"] = (st.ghost.get("pairs", ()) + ((a, z),))[-8:]
        return None

    def on_load(self, eng, st, ins, region, off, val, size):
        if size == 8 and ins.type == "ptr" and val is not None and val[0] == "t" and region.id in st.mem:
            # give a text whose address was lost in a join a name of its own
            n = eng.new_region("opaque", label="text")
            val = ("p", n.id, lin.ZERO)
            st.regs[ins.id] = val
            st.mem[region.id] = dict(st.mem[region.id])
            st.mem[region.id][off] = (8, val)
        if size == 8 and val is not None and val[0] == "p":
            st.ghost["loaded"] = (st.ghost.get("loaded", ()) + ((val, region.id, off, ins.id),))[-6:]

    def on_store(self, eng, st, ins, region, off, val, size):
        fs = self.facts(st)
        if fs and any(f[0] == (region.id, off) for f in fs):
            st.ghost["facts"] = tuple((("past", f[0]),) + f[1:] if f[0] == (region.id, off) else f for f in fs
                                      if self.keep_past or f[0] != (region.id, off))

    def before_call(self, eng, st, ins, name, fn, args):
        if name in ("strcmp", "strncmp", "memcmp", "strncasecmp", "strcasecmp"):
            return self.compare(eng, st, ins, name, args)
        if name == "strlen":
            t = text(eng, st, args[0])
            if t is not None:
                return [(st, ("i", lin.const(len(t))))]
        return None

    def compare(self, eng, st, ins, name, args):
        a, b = args[0], args[1]
        n = None
        if len(args) > 2:
            if args[2][0] != "i" or args[2][1][1]:
                return None
            n = args[2][1][0]
        if name == "memcmp":
            ta, tb = nbytes(eng, st, a, n), nbytes(eng, st, b, n)
        else:
            ta, tb = text(eng, st, a), text(eng, st, b)
            if n is not None:
                # a text without terminator inside the first n bytes is enough
                ta = ta if ta is not None else nbytes(eng, st, a, n)
                tb = tb if tb is not None else nbytes(eng, st, b, n)
        if ta is not None and tb is not None:
            x, y = (ta, tb) if n is None else (ta[:n], tb[:n])
            return [(st, ("i", lin.const((x > y) - (x < y))))]
        if ta is None and tb is None:
            return None
        p, lit = (a, tb) if ta is None else (b, ta)
        full = n is None or (name != "memcmp" and n > len(lit))
        lit = lit if n is None else lit[:n]
        self.literals.add(lit)
        op = ins.args[0 if ta is None else 1]
        loc, size = self.locate(eng, st, p, op[1] if isinstance(op, (list, tuple)) and len(op) > 1 else op)
        for f in self.facts(st):
            if f[0] == loc and f[3] == "exact":
                x, y = f[1], lit
                if n is not None and not full:
                    x = x[:n]
                return [(st, ("i", lin.const((x > y) - (x < y))))]
        how = "exact" if full else "unknown"
        if not full and size is not None:
            d = lin.addc(eng.as_int(st, size), -len(lit))
            how = "exact" if st.num.prove_eq(d) else "prefix"
        other = st.copy()
        r = eng.fresh(other, "cmp", -(1 << 31), (1 << 31) - 1)
        out = []
        if other.num.assume_ne(r):
            out.append((other, ("i", r)))
        st.ghost["facts"] = self.facts(st) + ((loc, lit, how == "unknown", how),)
        out.append((st, ("i", lin.ZERO)))
        return out
