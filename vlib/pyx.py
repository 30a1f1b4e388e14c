"""Abstract interpretation of Cython modules over Cython's own syntax tree.

The tree comes from vlib/pyxdump.py (Cython's parser; nothing is compiled or imported).
A method is analysed by enumerating its paths with symbolic values: the objects passed in
are symbols, fields of C structures are access paths, calls of extern functions are
recorded as events with a symbolic result, and a branch on an unknown condition forks and
remembers the fact on either side.  Calls of functions, methods, properties and
constructors defined in the module are inlined, so extracting a helper changes nothing.

Values (tuples, compared structurally):
  int                      a known integer
  ('obj', id, cls)         an instance of a class of the module
  ('sym', name)            an unknown value
  ('fld', base, name)      field of a C structure or C++ object, or of an instance
  ('idx', base, index)     element of an array
  ('addr', lvalue)         address of
  ('get', recv, name)      result of a C++ method without arguments
  ('call', n, name)        result of the n-th extern call of the path
  ('enum', name) ('str', s) ('none',) ('null',) ('list', id) ('exc', cls, args)
  ('lin', frozenset)       linear expression over other values
  ('op', name, args...)    anything else, uninterpreted
"""
import json
import os
import subprocess

from .build import AnalysisError

PY = "/opt/vp/venv/bin/python"
DUMP = os.path.join(os.path.dirname(os.path.abspath(__file__)), "pyxdump.py")


class Unsupported(AnalysisError):
    pass


def parse(path):
    p = subprocess.run([PY, "-B", DUMP, path], capture_output=True, text=True)
    if p.returncode != 0:
        raise AnalysisError("Cython can't parse %s: %s" % (path, p.stderr[-1500:]))
    return json.loads(p.stdout)


def walk(n, f):
    if isinstance(n, list):
        for x in n:
            yield from walk(x, f)
    elif isinstance(n, dict):
        if f(n):
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v, f)


def stats(n):
    """The statements of a body, as a list."""
    if n is None:
        return []
    if isinstance(n, list):
        return [s for x in n for s in stats(x)]
    if n["k"] == "StatListNode":
        return [s for x in n.get("stats", []) for s in stats(x)]
    return [n]


def declname(d):
    while d is not None and d["k"] != "CNameDeclaratorNode":
        d = d.get("base")
    return d.get("name") if d else None


def declnode(d):
    while d is not None and d["k"] != "CNameDeclaratorNode":
        d = d.get("base")
    return d


def basetype(t):
    """Name of the base type, qualifiers dropped (None for objects)."""
    while t is not None and t["k"] in ("CQualifierTypeNode", "CConstTypeNode", "CConstOrVolatileTypeNode"):
        t = t.get("base_type")
    if t is None:
        return None
    if t["k"] == "MemoryViewSliceTypeNode":
        return "memoryview[]"
    if t.get("is_basic_c_type") and t.get("signed") == 0 and t.get("name") == "char":
        return "unsigned char"
    return t.get("name")


def ctype(base, decl):
    """C++ spelling (as a template type expression) of a declared type.  const is kept."""
    def b(t):
        if t["k"] in ("CQualifierTypeNode", "CConstTypeNode", "CConstOrVolatileTypeNode"):
            inner = b(t["base_type"])
            return "const " + inner if t.get("is_const") else inner
        n = t.get("name")
        if n is None:
            raise Unsupported("type at line %d" % t["line"])
        n = {"string": "std::string", "bint": "int"}.get(n, n)
        if t.get("is_basic_c_type"):
            if t.get("signed") == 0:
                n = "unsigned " + n
            lg = t.get("longness", 0) or 0
            n = {-1: "short", 0: n, 1: "long " + n if n != "long" else n, 2: "long long"}.get(lg, n)
        return n

    def d(x, s):
        k = x["k"]
        if k == "CNameDeclaratorNode":
            return s
        if k == "CPtrDeclaratorNode":
            return d(x["base"], s + "*" if not s.endswith("]") else s)
        if k == "CReferenceDeclaratorNode":
            return d(x["base"], s + "&")
        if k == "CArrayDeclaratorNode":
            dim = x.get("dimension")
            return d(x["base"], "arr<%s, %s>" % (s, dim.get("value") if dim else "0"))
        if k == "CFuncDeclaratorNode":
            a = ", ".join(ctype(p["base_type"], p["declarator"]) for p in x.get("args", []))
            return d(x["base"], "fun<%s(%s)>" % (s, a))
        raise Unsupported("declarator " + k)

    return d(decl, b(base))


class Func:
    def __init__(self, node, cls, kind):
        self.node = node
        self.cls = cls
        self.line = node["line"]
        self.prop = self.static = self.setter = self.classmethod = False
        self.cdef = kind == "CFuncDefNode"
        if kind == "DefNode":
            self.name = node["name"]
            args = node.get("args", [])
        else:
            self.name = declname(node["declarator"])
            fd = node["declarator"]
            while fd["k"] != "CFuncDeclaratorNode":
                fd = fd["base"]
            args = fd.get("args", [])
        for d in node.get("decorators") or []:
            x = d["decorator"]
            n = x.get("name") or x.get("attribute")
            self.prop |= n == "property"
            self.static |= n == "staticmethod"
            self.classmethod |= n == "classmethod"
            self.setter |= n == "setter"
        self.args = []
        for a in args:
            dn = declnode(a["declarator"])
            name = dn.get("name") if dn else None
            t = basetype(a["base_type"])
            if not name:  # cdef (Type) without a name: untyped argument
                name, t = a["base_type"].get("name"), None
            self.args.append(dict(name=name, type=t, not_none=bool(a.get("not_none")), node=a,
                                  default=a.get("default") or (dn or {}).get("default")))
        # cdef methods of a static kind have no self; Cython marks it on the node
        if self.cdef and node.get("is_static_method"):
            self.static = True
        self.star = bool(node.get("star_arg") or node.get("starstar_arg"))

    @property
    def qual(self):
        return "%s.%s" % (self.cls, self.name) if self.cls else self.name


class Module:
    def __init__(self, path):
        self.path = path
        self.tree = parse(path)
        self.classes = {}     # name -> {methods, props, attrs}
        self.funcs = {}
        self.enums = {}       # name -> [(item, node)]
        self.structs = {}     # name -> {field: (base, declarator, line)}
        self.cfuncs = {}      # extern function -> declaration
        self.cpp = {}         # cppclass -> {cname, methods: {name: [decl]}}
        self.constants = {}
        self.header = {}      # declared name -> header
        self.pyclasses = {}
        self.enumitems = {}
        self.toplevel = []
        self._top(self.tree["body"], None)

    def _cvar(self, n, header):
        for d in n.get("declarators", []):
            yield declname(d), d

    def _top(self, body, header):
        for s in stats(body):
            k = s["k"]
            if k == "CDefExternNode":
                self._top(s["body"], s.get("include_file"))
            elif k == "CStructOrUnionDefNode":
                f = {}
                for a in s.get("attributes") or []:
                    for d in a.get("declarators", []):
                        f[declname(d)] = (a["base_type"], d, a["line"])
                self.structs[s["name"]] = f
                self.header[s["name"]] = header
            elif k == "CEnumDefNode":
                self.enums[s["name"]] = [(i["name"], i) for i in s.get("items", [])]
                self.header[s["name"]] = header
                for i in s.get("items", []):
                    self.enumitems[i["name"]] = s["name"]
            elif k == "CppClassNode":
                m = {}
                for a in s.get("attributes") or []:
                    decos = a.get("decorators") or []
                    inner = stats(a) if a["k"] == "StatListNode" else [a]
                    for x in inner:
                        for d in x.get("declarators", []):
                            m.setdefault(declname(d), []).append((x["base_type"], d, x["line"],
                                                                  bool(decos or x.get("decorators")), x))
                self.cpp[s["name"]] = dict(cname=s.get("cname") or s["name"], methods=m)
                self.header[s["name"]] = header
            elif k == "CVarDefNode" and header:
                for d in s.get("declarators", []):
                    n = declname(d)
                    if d["k"] == "CFuncDeclaratorNode" or (d["k"] == "CPtrDeclaratorNode" and
                                                           d["base"]["k"] == "CFuncDeclaratorNode"):
                        self.cfuncs[n] = (s["base_type"], d, s["line"])
                    else:
                        self.constants[n] = (s["base_type"], d, s["line"])
                    self.header[n] = header
            elif k == "CTypeDefNode" and header:
                pass
            elif k == "CClassDefNode":
                c = dict(methods={}, props={}, attrs={}, line=s["line"], base=None)
                for x in stats(s.get("body")):
                    if x["k"] == "CVarDefNode":
                        for d in x.get("declarators", []):
                            c["attrs"][declname(d)] = (x["base_type"], d, x["line"])
                    elif x["k"] in ("DefNode", "CFuncDefNode"):
                        f = Func(x, s["class_name"], x["k"])
                        if f.prop:
                            c["props"][f.name] = f
                        elif not f.setter:
                            c["methods"][f.name] = f
                self.classes[s["class_name"]] = c
            elif k in ("DefNode", "CFuncDefNode"):
                f = Func(s, None, k)
                self.funcs[f.name] = f
            elif k == "PyClassDefNode":
                self.pyclasses[s["name"]] = s
            elif k not in ("FromCImportStatNode", "CImportStatNode", "FromImportStatNode"):
                self.toplevel.append(s)

    def all_funcs(self):
        for c in self.classes.values():
            yield from c["methods"].values()
            yield from c["props"].values()
        yield from self.funcs.values()

    def returns_code(self, bt, d):
        """Does a declaration return a status (GeoArrowErrorCode)?"""
        return basetype(bt) == "GeoArrowErrorCode"


class State:
    __slots__ = ("env", "heap", "facts", "events", "status", "ret", "lists", "n", "nogil", "depth")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = {}
        self.events = []
        self.status = None
        self.ret = None
        self.lists = {}
        self.n = 0
        self.nogil = 0
        self.depth = 0

    def clone(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.events = list(self.events)
        s.status, s.ret, s.n, s.nogil, s.depth = self.status, self.ret, self.n, self.nogil, self.depth
        s.lists = {k: list(v) for k, v in self.lists.items()}
        return s


def lin(v):
    """value -> {monomial: coefficient}; monomials are sorted tuples of atoms."""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return {(): v} if v else {}
    if isinstance(v, tuple) and v[0] == "lin":
        return dict(v[1])
    return {(v,): 1}


def unlin(d):
    d = {k: c for k, c in d.items() if c}
    if not d:
        return 0
    if set(d) == {()}:
        return d[()]
    if len(d) == 1:
        (k, c), = d.items()
        if c == 1 and len(k) == 1:
            return k[0]
    return ("lin", frozenset(d.items()))


def add(a, b, s=1):
    x = lin(a)
    for k, c in lin(b).items():
        x[k] = x.get(k, 0) + s * c
    return unlin(x)


def mul(a, b):
    out = {}
    for k, c in lin(a).items():
        for l, e in lin(b).items():
            m = tuple(sorted(k + l, key=repr))
            out[m] = out.get(m, 0) + c * e
    return unlin(out)


class Interp:
    """assume: {value: int} replaces field/element reads by known integers.
    known: {value: bool} facts to start with."""

    MAXPATHS = 6000

    def __init__(self, mod, assume=None, facts=None, sizeof=None):
        self.m = mod
        self.assume = assume or {}
        self.facts0 = facts or {}
        self.sizeof = sizeof or {"double": 8, "int32_t": 4, "int64_t": 8, "uint8_t": 1, "char": 1,
                                 "float": 4, "int": 4, "int16_t": 2, "uint32_t": 4}
        self.paths = 0
        self.nonneg = lambda v: False

    # -- types (names only)
    def typeof(self, v):
        if not isinstance(v, tuple):
            return None
        k = v[0]
        if k == "obj":
            return v[2]
        if k == "addr":
            return self.typeof(v[1])
        if k == "fld":
            t = self.typeof(v[1])
            if t in self.m.classes:
                a = self.m.classes[t]["attrs"].get(v[2])
                return basetype(a[0]) if a else None
            if t in self.m.structs:
                a = self.m.structs[t].get(v[2])
                return basetype(a[0]) if a else None
            return None
        if k == "idx":
            return self.typeof(v[1])
        if k == "call":
            return v[3] if len(v) > 3 else None
        if k == "typed":
            return v[2]
        return None

    # -- running
    def run(self, f, self_id="self"):
        """Paths of a function called from outside: list of final states."""
        st = State()
        st.facts = dict(self.facts0)
        args = []
        for i, a in enumerate(f.args):
            if i == 0 and f.cls and not f.static and not f.classmethod:
                args.append(("obj", self_id, f.cls))
            elif a["type"] in self.m.classes:
                args.append(("obj", a["name"], a["type"]))
            else:
                args.append(("typed", a["name"], a["type"]))
        self.paths = 0
        outs = self.invoke(f, args, {}, st, f.node)
        return [s for s, _ in outs]

    def invoke(self, f, args, kw, st, node):
        if st.depth > 12:
            raise Unsupported("call depth at line %d" % node["line"])
        if f.star:
            raise Unsupported("star arguments in %s" % f.qual)
        saved, sdepth = st.env, st.depth
        env = {}
        todo = []
        for i, a in enumerate(f.args):
            if i < len(args):
                env[a["name"]] = args[i]
            elif a["name"] in kw:
                env[a["name"]] = kw[a["name"]]
            elif a["default"] is not None and isinstance(a["default"], dict):
                todo.append(a)
            else:
                raise Unsupported("argument %s of %s (line %d)" % (a["name"], f.qual, node["line"]))
        st.env = env
        st.depth += 1
        sts = [st]
        for a in todo:
            n = []
            for s in sts:
                for s2, v in self.ev(a["default"], s):
                    s2.env[a["name"]] = v
                    n.append(s2)
            sts = n
        out = []
        for s in sts:
            for s2 in self.block(stats(f.node.get("body")), s):
                v = ("none",)
                if s2.status == "return":
                    v = s2.ret
                    s2.status = None if sdepth or True else None
                s2.ret = v if s2.status is None else s2.ret
                s2.env, s2.depth = dict(saved), sdepth
                out.append((s2, v))
        return out

    def block(self, ss, st):
        cur = [st]
        for s in ss:
            nxt = []
            for x in cur:
                if x.status is not None:
                    nxt.append(x)
                else:
                    nxt.extend(self.stmt(s, x))
            cur = nxt
            self.paths = max(self.paths, len(cur))
            if len(cur) > self.MAXPATHS:
                raise Unsupported("too many paths")
        return cur

    # -- statements
    def stmt(self, n, st):
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported("%s at line %d" % (k, n["line"]))
        return m(n, st)

    def s_PassStatNode(self, n, st):
        return [st]

    s_CStructOrUnionDefNode = s_GlobalNode = s_FromImportStatNode = s_PassStatNode

    def s_StatListNode(self, n, st):
        return self.block(stats(n), st)

    def s_ExprStatNode(self, n, st):
        return [s for s, _ in self.ev(n["expr"], st)]

    def s_CVarDefNode(self, n, st):
        cur = [st]
        for d in n.get("declarators", []):
            dn = declnode(d)
            nxt = []
            for s in cur:
                if s.status is not None:
                    nxt.append(s)
                    continue
                if isinstance(dn.get("default"), dict):
                    for s2, v in self.ev(dn["default"], s):
                        if s2.status is None:
                            s2.env[dn["name"]] = self.coerce(n["base_type"], d, v, s2, n)
                        nxt.append(s2)
                else:
                    t = basetype(n["base_type"])
                    s.env[dn["name"]] = ("typed", "local:" + dn["name"], t)
                    s.env["#decl:" + dn["name"]] = (n["base_type"], d)
                    nxt.append(s)
            for s in nxt:
                s.env["#decl:" + dn["name"]] = (n["base_type"], d)
            cur = nxt
        return cur

    def coerce(self, bt, d, v, st, n):
        t = basetype(bt)
        if t == "memoryview[]":
            ax = bt.get("axes", [])
            contig = len(ax) == 1 and (ax[0].get("step") or {}).get("value") == "1"
            return ("slice", v, basetype(bt.get("base_type_node")), len(ax), contig)
        if d["k"] == "CNameDeclaratorNode" and isinstance(v, tuple) and v[0] == "call" and len(v) == 3 and t:
            return v
        return v

    def assign(self, lhs, v, st, n):
        k = lhs["k"]
        if k == "NameNode":
            dc = st.env.get("#decl:" + lhs["name"])
            if dc:
                v = self.coerce(dc[0], dc[1], v, st, n)
            st.env[lhs["name"]] = v
            return [st]
        if k == "AttributeNode":
            out = []
            for s, o in self.ev(lhs["obj"], st):
                if s.status is None:
                    p = ("fld", o[1] if isinstance(o, tuple) and o[0] == "addr" else o, lhs["attribute"])
                    s.heap[p] = v
                    s.events.append(("set", p, v, n["line"]))
                out.append(s)
            return out
        if k == "IndexNode":
            out = []
            for s, o in self.ev(lhs["base"], st):
                for s2, i in ([(s, None)] if s.status else self.ev(lhs["index"], s)):
                    if s2.status is None:
                        p = ("idx", o, i)
                        s2.heap[p] = v
                        s2.events.append(("set", p, v, n["line"]))
                    out.append(s2)
            return out
        if k == "TupleNode":
            raise Unsupported("tuple assignment at line %d" % n["line"])
        raise Unsupported("assignment to %s at line %d" % (k, n["line"]))

    def s_SingleAssignmentNode(self, n, st):
        out = []
        for s, v in self.ev(n["rhs"], st):
            out.extend([s] if s.status is not None else self.assign(n["lhs"], v, s, n))
        return out

    def s_CascadedAssignmentNode(self, n, st):
        cur = self.ev(n["rhs"], st)
        for l in n["lhs_list"]:
            nxt = []
            for s, v in cur:
                nxt.extend([(s, v)] if s.status is not None else [(x, v) for x in self.assign(l, v, s, n)])
            cur = nxt
        return [s for s, _ in cur]

    def s_InPlaceAssignmentNode(self, n, st):
        out = []
        for s, a in self.ev(n["lhs"], st):
            for s2, b in ([(s, None)] if s.status else self.ev(n["rhs"], s)):
                if s2.status is not None:
                    out.append(s2)
                    continue
                if isinstance(a, tuple) and a[0] == "list" and n["operator"] == "+":
                    s2.lists[a[1]].extend(self.elements(b, s2, n))
                    out.append(s2)
                    continue
                out.extend(self.assign(n["lhs"], self.arith(n["operator"], a, b), s2, n))
        return out

    def elements(self, v, st, n):
        if isinstance(v, tuple) and v[0] == "list":
            return list(st.lists[v[1]])
        if isinstance(v, tuple) and v[0] == "tuple":
            return list(v[1:])
        raise Unsupported("elements at line %d" % n["line"])

    def s_ReturnStatNode(self, n, st):
        if n.get("value") is None:
            st.status, st.ret = "return", ("none",)
            return [st]
        out = []
        for s, v in self.ev(n["value"], st):
            if s.status is None:
                s.status, s.ret = "return", v
            out.append(s)
        return out

    def s_RaiseStatNode(self, n, st):
        if n.get("exc_type") is None:
            st.status, st.ret = "raise", ("exc", None, ())
            return [st]
        out = []
        for s, v in self.ev(n["exc_type"], st):
            if s.status is None:
                if isinstance(v, tuple) and v[0] == "pyclass":
                    v = ("exc", v[1], ())
                s.status, s.ret = "raise", v
                s.events.append(("raise", v, n["line"]))
            out.append(s)
        return out

    def s_AssertStatNode(self, n, st):
        out = []
        for s, b in self.cond(n.get("condition") or n.get("cond"), st):
            if s.status is None and not b:
                s.status, s.ret = "raise", ("exc", "AssertionError", ())
            out.append(s)
        return out

    def s_IfStatNode(self, n, st):
        cur, out = [st], []
        for c in n["if_clauses"]:
            nxt = []
            for s in cur:
                for s2, b in self.cond(c["condition"], s):
                    if s2.status is not None:
                        out.append(s2)
                    elif b:
                        out.extend(self.block(stats(c["body"]), s2))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            out.extend(self.block(stats(n.get("else_clause")), s))
        return out

    def s_GILStatNode(self, n, st):
        d = 1 if n.get("state") == "nogil" else -1
        st.nogil += d
        out = self.block(stats(n["body"]), st)
        for s in out:
            s.nogil -= d
        return out

    def s_TryFinallyStatNode(self, n, st):
        out = []
        for s in self.block(stats(n["body"]), st):
            status, ret = s.status, s.ret
            s.status = None
            for s2 in self.block(stats(n.get("finally_clause")), s):
                if s2.status is None:
                    s2.status, s2.ret = status, ret
                out.append(s2)
        return out

    def s_BreakStatNode(self, n, st):
        st.status = "break"
        return [st]

    def s_ContinueStatNode(self, n, st):
        st.status = "continue"
        return [st]

    def loop(self, n, items, st):
        cur, out = [st], []
        for it in items:
            nxt = []
            for s in cur:
                for s1 in self.assign(n["target"], it, s, n):
                    for s2 in self.block(stats(n["body"]), s1):
                        if s2.status == "break":
                            s2.status = None
                            out.append(s2)
                        elif s2.status == "continue":
                            s2.status = None
                            nxt.append(s2)
                        elif s2.status is None:
                            nxt.append(s2)
                        else:
                            out.append(s2)
            cur = nxt
        for s in cur:
            out.extend(self.block(stats(n.get("else_clause")), s))
        return out

    def s_ForInStatNode(self, n, st):
        seq = n["iterator"]["sequence"]
        if seq["k"] == "SimpleCallNode" and seq["function"].get("name") in ("range", "enumerate") \
                and seq["function"]["name"] == "range":
            out = []
            for s, a in self.evs(seq.get("args", []), st):
                if s.status is not None:
                    out.append(s)
                    continue
                if all(isinstance(x, int) for x in a):
                    if len(range(*a)) > 64:
                        raise Unsupported("long loop at line %d" % n["line"])
                    out.extend(self.loop(n, list(range(*a)), s))
                elif len(a) == 1:
                    for c in (0, 1, 2):
                        s2 = s.clone()
                        key = ("count", a[0])
                        if key in s2.facts and s2.facts[key] != c:
                            continue
                        s2.facts[key] = c
                        out.extend(self.loop(n, list(range(c)), s2))
                else:
                    raise Unsupported("range at line %d" % n["line"])
            return out
        out = []
        for s, v in self.ev(seq, st):
            if s.status is not None:
                out.append(s)
            else:
                out.extend(self.loop(n, self.elements(v, s, n), s))
        return out

    def s_ForFromStatNode(self, n, st):
        raise Unsupported("for-from at line %d" % n["line"])

    def s_WhileStatNode(self, n, st):
        cur, out = [st], []
        for _ in range(12):
            nxt = []
            for s in cur:
                for s2, b in self.cond(n["condition"], s):
                    if s2.status is not None:
                        out.append(s2)
                    elif not b:
                        out.extend(self.block(stats(n.get("else_clause")), s2))
                    else:
                        for s3 in self.block(stats(n["body"]), s2):
                            if s3.status == "break":
                                s3.status = None
                                out.append(s3)
                            elif s3.status in (None, "continue"):
                                s3.status = None
                                nxt.append(s3)
                            else:
                                out.append(s3)
            cur = nxt
            if not cur:
                return out
            if len(cur) > 200:
                break
        raise Unsupported("loop at line %d" % n["line"])

    # -- expressions: list of (state, value)
    def evs(self, ns, st):
        cur = [(st, ())]
        for n in ns:
            nxt = []
            for s, a in cur:
                if s.status is not None:
                    nxt.append((s, a))
                    continue
                for s2, v in self.ev(n, s):
                    nxt.append((s2, a + (v,)))
            cur = nxt
        return cur

    def ev(self, n, st):
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            raise Unsupported("%s at line %d" % (n["k"], n["line"]))
        return m(n, st)

    def read(self, p, st):
        if p in self.assume:
            return self.assume[p]
        if p in st.heap:
            return st.heap[p]
        if p[0] in ("fld", "idx"):
            b = p[1]
            # uninitialised members of a fresh instance are zero
            while isinstance(b, tuple) and b[0] in ("fld", "idx"):
                b = b[1]
            if isinstance(b, tuple) and b[0] == "obj" and str(b[1]).startswith("new#"):
                key = ("written", b)
                if key not in st.heap:
                    pass
        return p

    def e_NameNode(self, n, st):
        x = n["name"]
        if x in st.env:
            return [(st, st.env[x])]
        if x == "GEOARROW_OK" and x in self.m.constants:
            return [(st, 0)]
        if x in self.m.enumitems:
            return [(st, ("enum", x))]
        if x in self.m.classes:
            return [(st, ("class", x))]
        if x in self.m.funcs or x in self.m.cfuncs or x in self.m.cpp:
            return [(st, ("func", x))]
        if x in self.m.constants:
            return [(st, ("const", x))]
        if x in self.m.pyclasses or (x[:1].isupper() and (x.endswith("Error") or x.endswith("Exception"))):
            return [(st, ("pyclass", x))]
        return [(st, ("builtin", x))]

    def e_IntNode(self, n, st):
        return [(st, int(str(n["value"]).rstrip("lLuU"), 0))]

    def e_FloatNode(self, n, st):
        return [(st, ("float", n.get("value")))]

    def e_BoolNode(self, n, st):
        return [(st, 1 if n.get("value") else 0)]

    def e_NullNode(self, n, st):
        return [(st, ("null",))]

    def e_NoneNode(self, n, st):
        return [(st, ("none",))]

    def e_UnicodeNode(self, n, st):
        return [(st, ("str", n.get("value", "")))]

    e_BytesNode = e_StringNode = e_CharNode = e_UnicodeNode

    def e_IdentifierStringNode(self, n, st):
        return [(st, ("str", n.get("value", "")))]

    def e_JoinedStrNode(self, n, st):
        return [(s, ("op", "fstr") + a) for s, a in self.evs(n.get("values", []), st)]

    def e_FormattedValueNode(self, n, st):
        return self.ev(n["value"], st)

    def e_TypecastNode(self, n, st):
        out = []
        for s, v in self.ev(n["operand"], st):
            out.append((s, v))
        return out

    def e_SizeofTypeNode(self, n, st):
        t = basetype(n["base_type"])
        if n["declarator"]["k"] != "CNameDeclaratorNode" or t not in self.sizeof:
            raise Unsupported("sizeof at line %d" % n["line"])
        return [(st, self.sizeof[t])]

    def e_SizeofVarNode(self, n, st):
        x = n["operand"]
        if x["k"] == "IndexNode" and x["base"]["k"] == "NameNode":
            d = st.env.get(x["base"]["name"])
            if isinstance(d, tuple) and d[0] == "slice":
                t = {"unsigned char": "uint8_t"}.get(d[2], d[2])
                if t in self.sizeof:
                    return [(st, self.sizeof[t])]
        if x["k"] == "NameNode" and x["name"] in self.sizeof:
            return [(st, self.sizeof[x["name"]])]
        raise Unsupported("sizeof at line %d" % n["line"])

    def e_AmpersandNode(self, n, st):
        out = []
        for s, v in self.ev_lv(n["operand"], st):
            if isinstance(v, tuple) and v[0] == "idx" and v[2] == 0 and not (
                    isinstance(v[1], tuple) and v[1][0] == "slice"):
                out.append((s, v[1]))
            else:
                out.append((s, ("addr", v)))
        return out

    def ev_lv(self, n, st):
        """The lvalue (access path) of an expression, not its current value."""
        if n["k"] == "AttributeNode":
            out = []
            for s, o in self.ev(n["obj"], st):
                out.append((s, ("fld", o[1] if isinstance(o, tuple) and o[0] == "addr" else o, n["attribute"])))
            return out
        if n["k"] == "IndexNode":
            out = []
            for s, o in self.ev(n["base"], st):
                for s2, i in ([(s, None)] if s.status else self.ev(n["index"], s)):
                    out.append((s2, ("idx", o, i)))
            return out
        return self.ev(n, st)

    def attr(self, o, name, st, n):
        """Value of o.name; list of (state, value)."""
        if isinstance(o, tuple) and o[0] == "addr":
            o = o[1]
        if isinstance(o, tuple) and o[0] == "fld" and self.typeof(o) in self.m.classes and o not in st.heap:
            o = ("obj", o, self.typeof(o))
        if isinstance(o, tuple) and o[0] == "obj":
            c = self.m.classes[o[2]]
            if name in c["props"]:
                st.events.append(("pyuse", o, n["line"]))
                return self.invoke(c["props"][name], [o], {}, st, n)
            if name in c["attrs"]:
                p = ("fld", o, name)
                st.events.append(("field", o, name, n["line"]))
                return [(st, self.read(p, st))]
            if name in c["methods"]:
                return [(st, ("method", o, name))]
            st.events.append(("noattr", o[2], name, n["line"]))
            st.status, st.ret = "raise", ("exc", "AttributeError", ())
            return [(st, ("none",))]
        if isinstance(o, tuple) and o[0] == "class":
            return [(st, ("method", o, name))]
        t = self.typeof(o)
        if t in self.m.cpp and name in self.m.cpp[t]["methods"]:
            return [(st, ("cppmethod", o, name))]
        if t in self.m.structs:
            if name not in self.m.structs[t]:
                raise Unsupported("%s.%s at line %d" % (t, name, n["line"]))
            p = ("fld", o, name)
            return [(st, self.read(p, st))]
        if isinstance(o, tuple) and o[0] == "func" and o[1] in self.m.cpp:
            return [(st, ("cppstatic", o[1], name))]
        return [(st, self.read(("fld", o, name), st))]

    def e_AttributeNode(self, n, st):
        out = []
        for s, o in self.ev(n["obj"], st):
            out.extend([(s, o)] if s.status is not None else self.attr(o, n["attribute"], s, n))
        return out

    def e_IndexNode(self, n, st):
        out = []
        for s, o in self.ev(n["base"], st):
            for s2, i in ([(s, None)] if s.status else self.ev(n["index"], s)):
                if isinstance(o, tuple) and o[0] in ("list", "tuple") and isinstance(i, int):
                    e = self.elements(o, s2, n)
                    out.append((s2, e[i]))
                else:
                    out.append((s2, self.read(("idx", o, i), s2)))
        return out

    def e_TupleNode(self, n, st):
        return [(s, ("tuple",) + a) for s, a in self.evs(n.get("args", []), st)]

    def e_ListNode(self, n, st):
        out = []
        for s, a in self.evs(n.get("args", []), st):
            s.n += 1
            s.lists["l%d" % s.n] = list(a)
            out.append((s, ("list", "l%d" % s.n)))
        return out

    def arith(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int) and op in ("//", "%", "<<", ">>", "&", "|"):
            return {"//": lambda: a // b, "%": lambda: a % b, "<<": lambda: a << b, ">>": lambda: a >> b,
                    "&": lambda: a & b, "|": lambda: a | b}[op]()
        if op == "+" and not any(isinstance(x, tuple) and x[0] in ("str", "list") for x in (a, b)):
            return add(a, b)
        if op == "-":
            return add(a, b, -1)
        if op == "*":
            return mul(a, b)
        return ("op", op, a, b)

    def binop(self, n, st):
        out = []
        for s, a in self.evs([n["operand1"], n["operand2"]], st):
            out.append((s, None if s.status is not None else self.arith(n.get("operator"), a[0], a[1])))
        return out

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_IntBinopNode = e_ModNode = e_NumBinopNode = binop

    def e_UnaryMinusNode(self, n, st):
        return [(s, None if s.status is not None else mul(-1, v)) for s, v in self.ev(n["operand"], st)]

    def e_CondExprNode(self, n, st):
        out = []
        for s, b in self.cond(n.get("test") or n.get("condition"), st):
            out.extend([(s, None)] if s.status is not None else self.ev(n["true_val"] if b else n["false_val"], s))
        return out

    def boolval(self, n, st):
        return [(s, 1 if b else 0) for s, b in self.cond(n, st)]

    e_PrimaryCmpNode = e_NotNode = boolval

    def e_BoolBinopNode(self, n, st):
        return self.boolval(n, st)

    # -- conditions
    def fork(self, key, st):
        if key in st.facts:
            return [(st, st.facts[key])]
        a, b = st, st.clone()
        a.facts[key] = True
        a.events.append(("test", key, True))
        b.facts[key] = False
        b.events.append(("test", key, False))
        return [(a, True), (b, False)]

    def neg(self, r):
        return [(s, not b) for s, b in r]

    def truth(self, v, st):
        if isinstance(v, int):
            return [(st, v != 0)]
        if v in (("none",), ("null",)):
            return [(st, False)]
        if isinstance(v, tuple) and v[0] in ("addr", "obj", "pyclass"):
            return [(st, True)]
        if isinstance(v, tuple) and v[0] == "str":
            return [(st, v[1] != "")]
        return self.fork(("nz", v), st)

    def cmp(self, op, a, b, st):
        if op in ("is", "is_not", "==", "!="):
            eq = op in ("is", "==")
            if isinstance(a, int) and isinstance(b, int):
                return [(st, (a == b) == eq)]
            if a == b:
                return [(st, eq)]
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ("enum", "str"):
                return [(st, (a[1] == b[1]) == eq)]
            for x, y in ((a, b), (b, a)):
                if y in (("none",), ("null",), 0):
                    if isinstance(x, tuple) and x[0] in ("addr",) or (
                            isinstance(x, tuple) and x[0] == "obj" and (str(x[1]).startswith("new#"))):
                        return [(st, not eq)]
                    r = self.fork(("nz", x), st)
                    return self.neg(r) if eq else r
            k = ("eq",) + tuple(sorted((a, b), key=repr))
            r = self.fork(k, st)
            return r if eq else self.neg(r)
        if op in ("in", "not_in"):
            r = self.fork(("in", a, b), st)
            return r if op == "in" else self.neg(r)
        if isinstance(a, int) and isinstance(b, int):
            return [(st, {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])]
        # normalise to x > 0 / x >= 1 for quantities that cannot be negative
        d = {"<": (b, a, 1), ">": (a, b, 1), "<=": (b, a, 0), ">=": (a, b, 0)}[op]
        x = add(add(d[0], d[1], -1), -d[2])  # x >= 0
        l = lin(x)
        at = [k for k in l if k != ()]
        if len(at) == 1 and len(at[0]) == 1 and abs(l[at[0]]) == 1 and self.nonneg(at[0][0]):
            q = at[0][0]
            c = l.get((), 0)
            if l[at[0]] == 1:      # q >= -c
                if c >= 0:
                    return [(st, True)]
                if c == -1:
                    return self.fork(("nz", q), st)
            else:                  # q <= c
                if c < 0:
                    return [(st, False)]
                if c == 0:
                    return self.neg(self.fork(("nz", q), st))
        if set(l) <= {()}:
            return [(st, l.get((), 0) >= 0)]
        return self.fork(("ge0", x), st)

    def cond(self, n, st):
        k = n["k"]
        if k == "NotNode":
            return self.neg(self.cond(n["operand"], st))
        if k == "BoolBinopNode":
            out = []
            for s, b in self.cond(n["operand1"], st):
                if s.status is not None or b == (n["operator"] == "or"):
                    out.append((s, b))
                else:
                    out.extend(self.cond(n["operand2"], s))
            return out
        if k == "PrimaryCmpNode":
            out = []
            for s, a in self.evs([n["operand1"], n["operand2"]], st):
                if s.status is not None:
                    out.append((s, False))
                    continue
                r = self.cmp(n["operator"], a[0], a[1], s)
                c = n.get("cascade")
                last = a[1]
                while c:
                    nr = []
                    for s1, b1 in r:
                        if not b1:
                            nr.append((s1, b1))
                            continue
                        for s2, v in self.ev(c["operand2"], s1):
                            nr.extend(self.cmp(c["operator"], last, v, s2))
                    if c.get("cascade"):
                        raise Unsupported("comparison chain at line %d" % n["line"])
                    r, c = nr, c.get("cascade")
                out.extend(r)
            return out
        out = []
        for s, v in self.ev(n, st):
            out.extend([(s, False)] if s.status is not None else self.truth(v, s))
        return out

    # -- calls
    def e_SimpleCallNode(self, n, st):
        f = n["function"]
        if f["k"] == "NameNode" and f["name"] == "sizeof" and f["name"] not in st.env:
            raise Unsupported("sizeof at line %d" % n["line"])
        out = []
        for s, fv in self.ev(f, st):
            if s.status is not None:
                out.append((s, None))
                continue
            for s2, a in self.evs(n.get("args", []), s):
                if s2.status is not None:
                    out.append((s2, None))
                else:
                    out.extend(self.call(fv, list(a), {}, s2, n))
        return out

    def e_GeneralCallNode(self, n, st):
        out = []
        pa = n.get("positional_args")
        if not pa or pa["k"] != "TupleNode":
            raise Unsupported("call at line %d" % n["line"])
        kws = (n.get("keyword_args") or {})
        if kws and kws["k"] != "DictNode":
            raise Unsupported("call at line %d" % n["line"])
        items = kws.get("key_value_pairs", []) if kws else []
        for s, fv in self.ev(n["function"], st):
            for s2, a in self.evs(pa.get("args", []), s):
                for s3, k in self.evs([i["value"] for i in items], s2):
                    if s3.status is not None:
                        out.append((s3, None))
                        continue
                    kw = {i["key"].get("value"): v for i, v in zip(items, k)}
                    out.extend(self.call(fv, list(a), kw, s3, n))
        return out

    def extern(self, name, recv, args, rettype, st, n, code):
        st.n += 1
        r = ("call", st.n, name, rettype)
        st.events.append(("ccall", name, recv, tuple(args), r, n["line"], st.nogil, code))
        return [(st, r)]

    def call(self, fv, args, kw, st, n):
        k = fv[0]
        if k == "class":
            c = self.m.classes[fv[1]]
            st.n += 1
            o = ("obj", "new#%d" % st.n, fv[1])
            st.events.append(("new", fv[1], tuple(args), o, n["line"], dict(kw)))
            cur = [(st, None)]
            for init in ("__cinit__", "__init__"):
                if init in c["methods"]:
                    nxt = []
                    for s, _ in cur:
                        if s.status is not None:
                            nxt.append((s, None))
                            continue
                        f = c["methods"][init]
                        nxt.extend(self.invoke(f, [o] + args[:len(f.args) - 1], kw, s, n))
                    cur = nxt
            return [(s, o) for s, _ in cur]
        if k == "method":
            o, name = fv[1], fv[2]
            cls = o[1] if o[0] == "class" else o[2]
            c = self.m.classes[cls]
            if name not in c["methods"]:
                if o[0] == "class" and name in ("__new__",):
                    st.n += 1
                    return [(st, ("obj", "new#%d" % st.n, cls))]
                raise Unsupported("%s.%s at line %d" % (cls, name, n["line"]))
            f = c["methods"][name]
            if o[0] == "obj":
                st.events.append(("pyuse", o, n["line"]))
            if f.static:
                return self.invoke(f, args, kw, st, n)
            if f.classmethod:
                return self.invoke(f, [("class", cls)] + args, kw, st, n)
            return self.invoke(f, ([o] if o[0] == "obj" else []) + args, kw, st, n)
        if k == "func":
            if fv[1] in self.m.funcs:
                return self.invoke(self.m.funcs[fv[1]], args, kw, st, n)
            if fv[1] in self.m.cfuncs:
                bt, d, line = self.m.cfuncs[fv[1]]
                return self.extern(fv[1], None, args, basetype(bt), st, n, self.m.returns_code(bt, d))
            if fv[1] in self.m.cpp:
                return self.extern(fv[1], None, args, fv[1], st, n, False)
        if k == "cppmethod":
            t = self.typeof(fv[1])
            decl = self.m.cpp[t]["methods"][fv[2]]
            rt = basetype(decl[0][0])
            if not args and rt != "void":
                st.events.append(("ccall", t + "." + fv[2], fv[1], (), ("get", fv[1], fv[2]), n["line"], st.nogil, False))
                return [(st, ("get", fv[1], fv[2]))]
            return self.extern(t + "." + fv[2], fv[1], args, rt, st, n, False)
        if k == "cppstatic":
            decl = self.m.cpp[fv[1]]["methods"].get(fv[2])
            if not decl:
                raise Unsupported("%s at line %d" % (fv[2], n["line"]))
            return self.extern("%s::%s" % (fv[1], fv[2]), None, args, basetype(decl[0][0]), st, n, False)
        if k == "fld":
            t = self.typeof(fv[1])
            if t in self.m.structs and fv[2] in self.m.structs[t]:
                bt, d, line = self.m.structs[t][fv[2]]
                return self.extern(t + "." + fv[2], fv[1], args, basetype(bt), st, n, basetype(bt) == "int")
            o = fv[1]
            if isinstance(o, tuple) and o[0] == "list":
                if fv[2] == "append":
                    st.lists[o[1]].append(args[0])
                    st.events.append(("append", o, args[0], n["line"]))
                    return [(st, ("none",))]
                if fv[2] == "extend":
                    st.lists[o[1]].extend(self.elements(args[0], st, n))
                    return [(st, ("none",))]
                raise Unsupported("list.%s at line %d" % (fv[2], n["line"]))
            return [(st, ("op", "pycall", fv[2], o) + tuple(args))]
        if k == "pyclass":
            if kw:
                args = args + [v for _, v in sorted(kw.items())]
            return [(st, ("exc", fv[1], tuple(args)))]
        if k == "builtin":
            if fv[1] == "list" and not args:
                st.n += 1
                st.lists["l%d" % st.n] = []
                return [(st, ("list", "l%d" % st.n))]
            if fv[1] == "len" and isinstance(args[0], tuple) and args[0][0] == "slice":
                return [(st, ("idx", ("fld", args[0], "shape"), 0))]
            return [(st, ("op", "builtin", fv[1]) + tuple(args))]
        return [(st, ("op", "pycall", fv) + tuple(args))]
