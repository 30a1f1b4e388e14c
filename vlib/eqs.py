"""Equations (functions returning bool) decided by constant propagation, in groups."""
from . import build, wit


class Eqs:
    """Equations of one part."""

    def __init__(self, prelude, cxx=True, unroll=20000, limit=90, **kw):
        self.prelude = prelude
        self.cxx = cxx
        self.unroll = unroll
        self.limit = limit
        self.kw = kw
        self.todo = {}              # (group, arguments or None) -> (body, parameters)
        self.groups = {}            # name -> (where, text)

    def group(self, name, loc, text):
        self.groups[name] = (loc, text)

    def sym(self, group, params, expr):
        n = sum(1 for g, s in self.todo if g == group and isinstance(s, int))
        self.todo[(group, n)] = ("return %s;" % expr, params)

    def con(self, group, expr, shown=None, pre=""):
        self.todo.setdefault((group, shown or expr), ("%sreturn %s;" % (pre, expr), "void"))

    def solve(self):
        """All at once; if that takes too long (a loop without end in one of them), group by group."""
        def unit(groups, timeout):
            u = wit.Unit(self.prelude, cxx=self.cxx, unroll=self.unroll, timeout=timeout, **self.kw)
            for k, (body, params) in self.todo.items():
                if k[0] in groups:
                    u.add(k, "bool" if self.cxx else "_Bool", body, params)
            return u.solve()
        try:
            return unit(self.groups, self.limit)
        except build.TooLong:
            pass
        res = {}
        for g in self.groups:
            try:
                res.update(unit([g], 15))
            except build.TooLong:
                res.update({k: ("open", "took too long") for k in self.todo if k[0] == g})
            if any(v == ("int", 0) for v in res.values()):
                break
        return res

    def decide(self, ctx, part):
        res = self.solve()
        st = {}
        for (g, shown), r in res.items():
            s = st.setdefault(g, {"sym": 0, "symopen": 0, "true": 0, "false": [], "open": []})
            if r == ("int", 1):
                s["sym" if isinstance(shown, int) else "true"] += 1
            elif r == ("int", 0):
                s["false"].append(shown if isinstance(shown, str) else "any arguments")
            elif isinstance(shown, int):
                s["symopen"] += 1
            else:
                s["open"].append(shown)
        for g, s in st.items():
            loc, text = self.groups[g]
            ctx.count("equations")
            ctx.count("constant arguments tried", s["true"] + len(s["false"]) + len(s["open"]))
            if s["false"]:
                ctx.violation("%s/%s" % (part, g), loc, "%s: not so for %s" % (text, s["false"][0]))
            elif s["sym"] and not s["symopen"]:
                ctx.count("equations holding for every argument")
            elif s["open"]:
                ctx.count("equations undecided for some arguments")
                ctx.undecided["%s/%s" % (part, g)] = "%d of %d arguments do not reduce, first %s" % (
                    len(s["open"]), len(s["open"]) + s["true"], s["open"][0])
            else:
                ctx.count("equations holding for every tried argument")
        ctx.sample("%s: %d equations, %d instances" % (part, len(st), len(res)))
