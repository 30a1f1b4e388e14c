"""C type information (from debug info) used to type lazily created memory."""
import re

PTR = 8
INT_SIGN = {"int8_t": (1, True), "int16_t": (2, True), "int32_t": (4, True), "int64_t": (8, True),
            "uint8_t": (1, False), "uint16_t": (2, False), "uint32_t": (4, False), "uint64_t": (8, False),
            "char": (1, True), "signed char": (1, True), "unsigned char": (1, False), "short": (2, True),
            "unsigned short": (2, False), "int": (4, True), "unsigned int": (4, False), "long": (8, True),
            "unsigned long": (8, False), "long long": (8, True), "unsigned long long": (8, False),
            "size_t": (8, False), "ssize_t": (8, True), "ptrdiff_t": (8, True), "_Bool": (1, False),
            "bool": (1, False), "uintptr_t": (8, False), "intptr_t": (8, True),
            "GeoArrowErrorCode": (4, True), "ArrowErrorCode": (4, True)}


def strip_const(t):
    t = t.strip()
    while t.startswith("const ") or t.startswith("volatile "):
        t = t.split(" ", 1)[1]
    return t


def is_ptr(t):
    return t.endswith("*") or t.endswith("&")


def pointee(t):
    return strip_const(t)[:-1] if not t.startswith("const ") else strip_const(t)[:-1]


def pointee_raw(t):
    """Type pointed to, keeping a leading const of the pointee."""
    t = t.strip()
    assert is_ptr(t)
    return t[:-1].strip()


def struct_name(t):
    t = strip_const(t)
    m = re.match(r"^(?:struct|union) (\w[\w:<>, ]*)$", t)
    return m.group(1) if m else None


def llvm_struct(t):
    """'%struct.Foo.12' -> 'Foo'."""
    m = re.match(r'^%"?(?:struct|union|class)\.([\w:<>, ]+?)(?:\.\d+)?"?$', t)
    return m.group(1).split("::")[-1] if m else None


class Types:
    def __init__(self, structs):
        self.structs = structs
        self.cache = {}

    def sizeof(self, t):
        t = strip_const(t)
        if is_ptr(t):
            return PTR
        m = re.match(r"^(.*)\[(\d+)B\]$", t)
        if m:
            return int(m.group(2))
        if t in INT_SIGN:
            return INT_SIGN[t][0]
        s = struct_name(t)
        if s and s in self.structs:
            return self.structs[s].get("size")
        if t.startswith("enum "):
            return 4
        if t == "double":
            return 8
        if t == "float":
            return 4
        return None

    def members(self, sname):
        s = self.structs.get(sname)
        return s["members"] if s and s.get("kind") == "struct" else []

    def member(self, sname, mname):
        for m in self.members(sname):
            if m["name"] == mname:
                return m
        return None

    def leaf(self, t, off, size):
        """Innermost (owner struct, base offset of owner, member dict, type, offset-in-type)
        of the scalar found at byte `off` of type t.  None when unknown."""
        key = (t, off, size)
        if key in self.cache:
            return self.cache[key]
        r = self._leaf(t, off, size, None, 0, None)
        self.cache[key] = r
        return r

    def _leaf(self, t, off, size, owner, base, mem):
        t0 = strip_const(t)
        m = re.match(r"^(.*)\[(\d+)B\]$", t0)
        if m:
            el = m.group(1).strip()
            es = self.sizeof(el)
            if not es:
                return None
            k = off // es
            if off >= int(m.group(2)):
                return None
            return self._leaf(el, off - k * es, size, owner, base, mem)
        s = struct_name(t0)
        if s and not is_ptr(t0):
            best = None
            for x in self.members(s):
                if x["off"] <= off < x["off"] + max(x["size"], 1):
                    r = self._leaf(x["type"], off - x["off"], size, s, base, x)
                    if r is None:
                        continue
                    own, b, mm, ty, rest = r
                    if own == s:
                        r = (s, 0, mm, ty, rest)
                    else:
                        r = (own, b + x["off"], mm, ty, rest)
                    if rest == 0 and self.sizeof(ty) == size:
                        return r
                    best = best or r
            return best
        return (owner, 0, mem, t, off)


class Contracts:
    """Which pointer members are slices, and of what extent."""

    EXPLICIT = {
        ("ArrowArray", "buffers"): ("n_buffers", 8, None, "table"),
        ("ArrowArray", "children"): ("n_children", 8, None, "table"),
        ("ArrowSchema", "children"): ("n_children", 8, None, "table"),
        ("ArrowBuffer", "data"): ("size_bytes", 1, "capacity_bytes", "buffer"),
        ("GeoArrowGeometry", "root"): ("size_nodes", None, "capacity_nodes", "nodes"),
        ("GeoArrowGeometryView", "root"): ("size_nodes", None, None, "nodes"),
    }

    NOT_SLICES = {("ArrowSchema", "metadata"), ("ArrowMetadataReader", "metadata")}

    def __init__(self, types):
        self.types = types
        self.slices = {}
        for sname, s in types.structs.items():
            if s.get("kind") != "struct":
                continue
            ms = s["members"]
            for i, m in enumerate(ms):
                key = (sname, m["name"])
                if key in self.EXPLICIT:
                    n, es, cap, kind = self.EXPLICIT[key]
                    if types.member(sname, n) is None or (cap and types.member(sname, cap) is None):
                        continue
                    if es is None:
                        es = types.sizeof(strip_const(pointee_raw(m["type"])))
                    self.slices[key] = (n, es, cap, kind)
                    continue
                t = m["type"]
                bytep = is_ptr(t) and strip_const(pointee_raw(t)) in ("char", "uint8_t", "unsigned char", "void")
                union = t in ("union ArrowBufferViewData", "union GeoArrowWritableBufferViewData")
                if (sname, m["name"]) in self.NOT_SLICES:
                    continue
                if (bytep or union) and i + 1 < len(ms):
                    nx = ms[i + 1]
                    if strip_const(nx["type"]) == "int64_t" and nx["off"] == m["off"] + 8:
                        cap = None
                        if i + 2 < len(ms) and ms[i + 2]["name"].startswith("capacity"):
                            cap = ms[i + 2]["name"]
                        self.slices[key] = (nx["name"], 1, cap, "slice" if not cap else "buffer")

    def of(self, sname, mname):
        return self.slices.get((sname, mname))

    def involving(self, sname, mname):
        """slice keys whose pointer, size or capacity member is mname."""
        out = []
        for (s, p), (n, es, cap, kind) in self.slices.items():
            if s == sname and mname in (p, n, cap):
                out.append((p, n, es, cap, kind))
        return out
