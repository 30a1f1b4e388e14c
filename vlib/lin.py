"""Linear expressions over integer symbols and the numeric abstract state.

A linear expression is (const, ((sym, coef), ...)) with terms sorted by symbol.
The numeric state keeps one interval per symbol, a set of linear inequalities
`e >= 0` and a set of disequalities `e != 0`.  Entailment is decided by interval
evaluation plus a bounded search for a non-negative combination of the recorded
inequalities (a Farkas certificate), so a positive answer is always sound.
"""
from math import gcd

ZERO = (0, ())
_names = []
_srange = []


def new_sym(name=""):
    _names.append(name)
    return len(_names) - 1


def sym_name(s):
    return "%s#%d" % (_names[s], s)


def const(c):
    return (c, ())


def var(s):
    return (0, ((s, 1),))


def add(a, b):
    if not a[1]:
        return (a[0] + b[0], b[1])
    if not b[1]:
        return (a[0] + b[0], a[1])
    d = dict(a[1])
    for s, k in b[1]:
        n = d.get(s, 0) + k
        if n:
            d[s] = n
        else:
            del d[s]
    return (a[0] + b[0], tuple(sorted(d.items())))


def scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def sub(a, b):
    return add(a, scale(b, -1))


def addc(a, c):
    return (a[0] + c, a[1])


def is_const(a):
    return not a[1]


def syms(a):
    return [s for s, _ in a[1]]


def subst(a, m):
    """Replace symbols by expressions according to m."""
    hit = False
    for s, _ in a[1]:
        if s in m:
            hit = True
            break
    if not hit:
        return a
    r = (a[0], ())
    for s, k in a[1]:
        e = m.get(s)
        r = add(r, scale(e, k) if e is not None else (0, ((s, k),)))
    return r


def fmt(a):
    out = []
    for s, k in a[1]:
        out.append(("%+d*" % k if k not in (1, -1) else ("+" if k == 1 else "-")) + sym_name(s))
    if a[0] or not out:
        out.append("%+d" % a[0])
    return " ".join(out)


def normalise(a):
    """Divide an inequality by the gcd of its coefficients (tightening)."""
    g = 0
    for _, k in a[1]:
        g = gcd(g, abs(k))
        if g == 1:
            return a
    if g <= 1:
        return a
    return (a[0] // g, tuple((s, k // g) for s, k in a[1]))


class Num:
    __slots__ = ("lo", "hi", "rels", "ne", "_idx", "bottom", "_shared")

    def __init__(self):
        self.lo = {}
        self.hi = {}
        self.rels = frozenset()
        self.ne = frozenset()
        self._idx = None
        self.bottom = False

    def copy(self):
        n = Num.__new__(Num)
        n.lo = dict(self.lo)
        n.hi = dict(self.hi)
        n.rels = self.rels
        n.ne = self.ne
        n._idx = self._idx
        n.bottom = self.bottom
        return n

    def index(self):
        if self._idx is None:
            d = {}
            for r in self.rels:
                for s, k in r[1]:
                    d.setdefault(s, []).append((r, k))
            self._idx = d
        return self._idx

    def minval(self, a):
        m = a[0]
        lo, hi = self.lo, self.hi
        for s, k in a[1]:
            b = lo.get(s) if k > 0 else hi.get(s)
            if b is None:
                return None
            m += k * b
        return m

    def maxval(self, a):
        m = self.minval(scale(a, -1))
        return None if m is None else -m

    def prove(self, a, budget=None):
        """a >= 0 ?"""
        m = self.minval(a)
        if m is not None and m >= 0:
            return True
        if not a[1] or not self.rels:
            return False
        if self.bottom:
            return True
        return self._search(a, 5, [160], set())

    def _search(self, a, depth, budget, seen):
        m = self.minval(a)
        if m is not None and m >= 0:
            return True
        if depth == 0 or not a[1] or a in seen:
            return False
        budget[0] -= 1
        if budget[0] <= 0:
            return False
        seen.add(a)
        idx = self.index()
        lo, hi = self.lo, self.hi
        # prefer to eliminate symbols whose interval gives nothing
        order = sorted(a[1], key=lambda sk: 0 if (lo if sk[1] > 0 else hi).get(sk[0]) is None else 1)
        unb = [sk for sk in order if (lo if sk[1] > 0 else hi).get(sk[0]) is None]
        cands = unb[:1] if unb else order
        for s, k in cands:
            for r, rk in idx.get(s, ()):
                if (rk > 0) != (k > 0):
                    continue
                g = gcd(abs(rk), abs(k))
                x = abs(rk) // g
                y = abs(k) // g
                n = sub(scale(a, x), scale(r, y))
                n = normalise(n) if len(n[1]) else n
                if len(n[1]) > 8:
                    continue
                if self._search(n, depth - 1, budget, seen):
                    return True
        return False

    def prove_ne(self, a):
        if not a[1]:
            return a[0] != 0
        if a in self.ne or scale(a, -1) in self.ne:
            return True
        return self.prove(addc(a, -1)) or self.prove(addc(scale(a, -1), -1))

    def prove_eq(self, a):
        if not a[1]:
            return a[0] == 0
        return self.prove(a) and self.prove(scale(a, -1))

    def set_lo(self, s, v):
        c = self.lo.get(s)
        if c is None or v > c:
            self.lo[s] = v
            h = self.hi.get(s)
            if h is not None and v > h:
                self.bottom = True
            return True
        return False

    def set_hi(self, s, v):
        c = self.hi.get(s)
        if c is None or v < c:
            self.hi[s] = v
            l = self.lo.get(s)
            if l is not None and v < l:
                self.bottom = True
            return True
        return False

    def _prop(self, a):
        """Tighten the intervals of a's symbols from a >= 0."""
        ch = []
        lo, hi = self.lo, self.hi
        for s, k in a[1]:
            # k*s >= -(rest)  ; rest max
            m = a[0]
            ok = True
            for t, c in a[1]:
                if t == s:
                    continue
                b = hi.get(t) if c > 0 else lo.get(t)
                if b is None:
                    ok = False
                    break
                m += c * b
            if not ok:
                continue
            if k > 0:
                v = -(m // k)  # ceil(-m/k)
                if self.set_lo(s, v):
                    ch.append(s)
            else:
                v = m // (-k)
                if self.set_hi(s, v):
                    ch.append(s)
        return ch

    def assume(self, a):
        """Add a >= 0; returns False when the state becomes empty."""
        if self.bottom:
            return False
        if not a[1]:
            if a[0] < 0:
                self.bottom = True
                return False
            return True
        a = normalise(a)
        if len(a[1]) > 1:
            m = self.minval(a)
            if m is None or m < 0:
                if a not in self.rels:
                    self.rels = self.rels | {a}
                    self._idx = None
        work = self._prop(a)
        n = 0
        while work and n < 12 and not self.bottom:
            n += 1
            s = work.pop()
            for r, _ in self.index().get(s, ()):
                for t in self._prop(r):
                    if t not in work:
                        work.append(t)
        # disequalities tightening
        if self.ne and not self.bottom:
            for e in self.ne:
                if len(e[1]) == 1:
                    s, k = e[1][0]
                    if -e[0] % k == 0:
                        v = -e[0] // k
                        if self.lo.get(s) == v:
                            self.set_lo(s, v + 1)
                        if self.hi.get(s) == v:
                            self.set_hi(s, v - 1)
        return not self.bottom

    def assume_eq(self, a):
        return self.assume(a) and self.assume(scale(a, -1))

    def assume_ne(self, a):
        if not a[1]:
            if a[0] == 0:
                self.bottom = True
            return not self.bottom
        if self.prove_eq(a):
            self.bottom = True
            return False
        # sharpen
        if self.prove(a):
            return self.assume(addc(a, -1))
        if self.prove(scale(a, -1)):
            return self.assume(addc(scale(a, -1), -1))
        self.ne = self.ne | {a}
        return True

    def feasible_ge(self, a):
        return not self.prove(addc(scale(a, -1), -1))
