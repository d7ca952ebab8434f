"""Hash-consed terms over bit-vectors modulo 2^w: constants, linear combinations
of atoms, and opaque atoms.  Equality of terms is identity; there is no solver.
Inequalities are decided by intervals and by the literals known on a path."""


from math import gcd


class T:
    __slots__ = ('op', 'w', 'a', 'id', 'ptr', 'al', 'pow2')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def _mk(op, w, a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        t.ptr = False
        t.al = 1        # known power-of-two alignment of the value
        t.pow2 = False  # value is a power of two (>= 1)
        _tab[k] = t
    return t


def const(w, v):
    return _mk('c', w, (v & ((1 << w) - 1),))


def sym(name, w=64, ptr=False, al=1, pow2=False):
    t = _mk('sym', w, (name,))
    if ptr:
        t.ptr = True
    if al > t.al:
        t.al = al
    if pow2:
        t.pow2 = True
    return t


def atom(op, w, *a):
    return _mk(op, w, tuple(a))


def isc(t):
    return t.op == 'c'


def cv(t):
    return t.a[0]


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def parts(t):
    """(const, ((atom, coef), ...))"""
    if t.op == 'c':
        return t.a[0], ()
    if t.op == 'lin':
        return t.a
    return 0, ((t, 1),)


def lin(w, c, ps):
    """ps: dict atom -> coef"""
    m = (1 << w) - 1
    c &= m
    l = [(a, k & m) for a, k in ps.items() if k & m]
    if not l:
        return const(w, c)
    if c == 0 and len(l) == 1 and l[0][1] == 1:
        return l[0][0]
    l.sort(key=lambda x: x[0].id)
    return _mk('lin', w, (c, tuple(l)))


def add(x, y):
    if x.op == 'c' and y.op == 'c':
        return const(x.w, x.a[0] + y.a[0])
    if y.op == 'c' and y.a[0] == 0:
        return x
    if x.op == 'c' and x.a[0] == 0:
        return y
    c1, p1 = parts(x)
    c2, p2 = parts(y)
    d = dict(p1)
    for a, k in p2:
        d[a] = d.get(a, 0) + k
    return lin(x.w, c1 + c2, d)


def addc(x, c):
    return add(x, const(x.w, c))


def mulc(x, k):
    c, p = parts(x)
    w = x.w
    k &= (1 << w) - 1
    # 2^s * (v >> s)  ->  v rounded down
    if x.op == 'lshr' and isc(x.a[1]) and k == 1 << cv(x.a[1]):
        return align_down(x.a[0], k)
    return lin(w, c * k, {a: q * k for a, q in p})


def neg(x):
    return mulc(x, -1)


def sub(x, y):
    return add(x, neg(y))


def alignment(t):
    """largest known power of two dividing t (for constants: 2^w if 0)"""
    if t.op == 'c':
        v = t.a[0]
        return (v & -v) if v else 1 << t.w
    if t.op == 'lin':
        c, p = t.a
        r = (c & -c) if c else 1 << t.w
        for a, k in p:
            r = min(r, (k & -k) * a.al)
        return r
    return t.al


def align(x, a):
    """round x up to a multiple of the constant power of two a (mod 2^w)"""
    w = x.w
    if a <= 1:
        return x
    c, p = parts(x)
    out = {}
    rem = {}
    for at, k in p:
        if (k & -k) * at.al % a == 0:
            out[at] = k
        else:
            rem[at] = k
    if not rem:
        return lin(w, (c + a - 1) & ~(a - 1), out)
    # keep the residual constant in [0, a)
    cr = c % a
    co = c - cr
    r = lin(w, cr, rem)
    if r.op == 'align' and r.a[1] >= a:
        t = r
    elif r.op == 'align' and cr == 0:
        t = align(r.a[0], a) if False else _al(r, a)
    else:
        t = _al(r, a)
    return add(lin(w, co, out), t)


def _al(r, a):
    t = atom('align', r.w, r, a)
    t.al = a
    return t


def align_down(x, a):
    return align(addc(x, -(a - 1)), a)


def aligns(x, a):
    """round x up to a multiple of the term a, known to be a power of two"""
    if isc(a):
        return align(x, cv(a))
    if x is a:
        return x
    c, p = parts(x)
    if isc(x) and c == 0:
        return x
    # multiples of a move out
    d = dict(p)
    k = d.pop(a, 0) if a.op != 'lin' else 0
    r = lin(x.w, c, d)
    t = atom('aligns', x.w, r, a) if not (isc(r) and cv(r) == 0) else r
    return add(t, mulc(a, k)) if k else t


def _gcdnorm(c, p):
    if not p:
        return c, p
    g = 0
    for _, k in p:
        g = gcd(g, k)
    if g > 1:
        return c // g, tuple((a, k // g) for a, k in p)
    return c, p


def ptr_atom(t):
    """the atom of t that is an object address (coefficient 1), or None"""
    if t.op == 'lin':
        for a, k in t.a[1]:
            if a.ptr and k == 1:
                return a
        return None
    return t if t.ptr else None


def boolc(b):
    return const(1, 1 if b else 0)


TRUE = const(1, 1)
FALSE = const(1, 0)


def show(t, d=0):
    if d > 6:
        return '...'
    if t.op == 'c':
        v = t.a[0]
        s = sgn(v, t.w) if t.w > 1 else v
        return str(s) if abs(s) < 4096 else hex(v)
    if t.op == 'lin':
        c, p = t.a
        s = []
        for a, k in p:
            k = sgn(k, t.w) if t.w > 1 else k
            s.append((show(a, d + 1)) if k == 1 else '%d*%s' % (k, show(a, d + 1)))
        if c:
            s.append(str(sgn(c, t.w)))
        return '(' + '+'.join(s) + ')'
    if t.op == 'sym':
        return str(t.a[0])
    return '%s(%s)' % (t.op, ','.join(show(x, d + 1) if isinstance(x, T) else _sx(x) for x in t.a))


def _sx(x):
    if isinstance(x, tuple):
        return '<%d>' % len(x)
    return str(x)


class Facts:
    """What is known on a path: unsigned interval per atom, excluded constants
    per atom, and integer-linear literals L >= 0."""
    __slots__ = ('rng', 'exc', 'ge', 'bools')

    def __init__(self):
        self.rng = {}
        self.exc = {}
        self.ge = ()
        self.bools = {}

    def copy(self):
        f = Facts()
        f.rng = dict(self.rng)
        f.exc = dict(self.exc)
        f.ge = self.ge
        f.bools = dict(self.bools)
        return f

    # ---- intervals -------------------------------------------------------
    def arange(self, a):
        r = self.rng.get(a)
        b = self._orange(a)
        if r is None:
            return b
        return (max(r[0], b[0]), min(r[1], b[1]))

    def _orange(self, a):
        w = a.w
        full = (0, (1 << w) - 1)
        op = a.op
        if op == 'sym':
            if a.ptr and a.a[0][0] in '@%$':
                return (4096, 1 << 47)      # address of a real object
            return full
        if op == 'zext':
            return self.urange(a.a[0])
        if op == 'and':
            x, y = self.urange(a.a[0]), self.urange(a.a[1])
            return (0, min(x[1], y[1]))
        if op == 'lshr' and isc(a.a[1]):
            x = self.urange(a.a[0])
            s = cv(a.a[1])
            return (x[0] >> s, x[1] >> s)
        if op == 'udiv' and isc(a.a[1]) and cv(a.a[1]):
            x = self.urange(a.a[0])
            return (x[0] // cv(a.a[1]), x[1] // cv(a.a[1]))
        if op == 'urem':
            x = self.urange(a.a[1])
            if x[0] > 0:
                return (0, min(x[1] - 1, self.urange(a.a[0])[1]))
        if op == 'trunc':
            x = self.urange(a.a[0])
            if x[1] <= full[1]:
                return x
        if op == 'align':
            x = self.mrange(a.a[0])
            k = a.a[1]
            lo = (x[0] + k - 1) & -k
            hi = (x[1] + k - 1) & -k
            if lo >= 0 and hi <= full[1]:
                return (lo, hi)
            return full
        if op == 'aligns':
            x = self.mrange(a.a[0])
            y = self.urange(a.a[1])
            if x[0] >= 0 and x[1] + y[1] <= full[1]:
                return (x[0], x[1] + y[1] - 1)
            return full
        if op == 'ite':
            x, y = self.urange(a.a[1]), self.urange(a.a[2])
            return (min(x[0], y[0]), max(x[1], y[1]))
        return full

    def mrange(self, t):
        """interval of the mathematical value of the linear form with signed coefficients"""
        if t.op == 'c':
            v = t.a[0]
            return (v, v)
        if t.op != 'lin':
            return self.arange(t)
        w = t.w
        c, p = t.a
        lo = hi = sgn(c, w) if w > 1 else c
        for a, k in p:
            k = sgn(k, w) if w > 1 else k
            l, h = self.arange(a)
            if k >= 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return (lo, hi)

    def urange(self, t):
        if t.op == 'c':
            return (t.a[0], t.a[0])
        if t.op != 'lin':
            return self.arange(t)
        lo, hi = self.mrange(t)
        full = (0, (1 << t.w) - 1)
        if lo >= 0 and hi <= full[1]:
            return (lo, hi)
        if lo < 0 and hi <= full[1] and self.ge and self.pge(t.a[0] if False else sgn(t.a[0], t.w), t.a[1], t.w):
            return (0, hi)
        return full

    def value(self, t):
        """constant value if the interval of t is a single point"""
        if t.op == 'c':
            return t.a[0]
        lo, hi = self.urange(t)
        if lo == hi:
            return lo
        return None

    # ---- integer-linear literals:  (c, ((atom, signed coef)...)) >= 0 ------
    def _int(self, t, signed):
        """integer-linear form equal to the (un)signed value of t, or None"""
        w = t.w
        if t.op == 'c':
            v = t.a[0]
            return (sgn(v, w) if signed and w > 1 else v, ())
        lo, hi = self.mrange(t)
        c, p = parts(t)
        sc = sgn(c, w) if w > 1 else c
        sp = tuple((a, sgn(k, w) if w > 1 else k) for a, k in p)
        if signed:
            if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                return (sc, sp)
            return None
        if hi < (1 << w) and (lo >= 0 or self.pge(sc, sp, w)):
            return (sc, sp)
        # constant part large positive rather than negative
        return None

    def pge(self, c, p, w=64):
        """prove c + p >= 0"""
        c, p = _gcdnorm(c, p)
        lo = c
        for a, k in p:
            l, h = self.arange(a)
            lo += k * l if k >= 0 else k * h
        if lo >= 0:
            return True
        for a, k in p:
            # x <= align(x, n) <= x + n - 1
            if a.op == 'align' and self.urange(a.a[0])[1] + a.a[1] < (1 << a.w):
                i = self._int(a.a[0], False)
                if i is not None:
                    e = {b: q for b, q in p if b is not a}
                    for b, q in i[1]:
                        e[b] = e.get(b, 0) + k * q
                    c2 = c + k * i[0] + (k * (a.a[1] - 1) if k < 0 else 0)
                    if self.pge(c2, tuple((b, q) for b, q in e.items() if q)):
                        return True
        if not self.ge:
            return False
        d = dict(p)
        for (fc, fp) in self.ge:
            e = dict(d)
            for a, k in fp:
                e[a] = e.get(a, 0) - k
            lo = c - fc
            for a, k in e.items():
                if k:
                    l, h = self.arange(a)
                    lo += k * l if k > 0 else k * h
            if lo >= 0:
                return True
        return False

    def add_ge(self, c, p):
        """assume c + p >= 0; returns False when contradictory"""
        p = tuple(sorted(((a, k) for a, k in p if k), key=lambda x: x[0].id))
        if not p:
            return c >= 0
        c, p = _gcdnorm(c, p)
        tot = c
        for a, k in p:
            l, h = self.arange(a)
            tot += k * h if k > 0 else k * l
        if tot < 0:
            return False
        for a, k in p:
            l, h = self.arange(a)
            rest = tot - (k * h if k > 0 else k * l)   # max of the others
            if k > 0:
                nl = max(l, -(rest // k))
                if nl > h:
                    return False
                if nl != l:
                    self.rng[a] = (nl, h)
            else:
                nh = min(h, rest // (-k))
                if nh < l:
                    return False
                if nh != h:
                    self.rng[a] = (l, nh)
        if len(p) > 1:
            if self.pge(-c - 1, tuple((a, -k) for a, k in p)):
                return False
            self.ge = self.ge + ((c, p),)
        else:
            return self._norm(p[0][0])
        return True

    def _norm(self, a):
        l, h = self.arange(a)
        ex = self.exc.get(a)
        if ex:
            while l in ex and l <= h:
                l += 1
            while h in ex and h >= l:
                h -= 1
            if l > h:
                return False
            self.rng[a] = (l, h)
        # push intervals through simple wrappers
        if a.op == 'zext':
            return self._refine(a.a[0], l, h)
        if a.op == 'trunc':
            x = self.urange(a.a[0])
            if x[1] < (1 << a.w):
                return self._refine(a.a[0], l, h)
        return l <= h

    def _refine(self, t, l, h):
        if t.op == 'c':
            return l <= t.a[0] <= h
        if t.op == 'lin':
            i = self._int(t, False)
            if i is None:
                return True
            c, p = i
            return self.add_ge(c - l, p) and self.add_ge(h - c, tuple((a, -k) for a, k in p))
        x = self.arange(t)
        n = (max(l, x[0]), min(h, x[1]))
        if n[0] > n[1]:
            return False
        if n != x:
            self.rng[t] = n
            return self._norm(t)
        return True

    # ---- comparisons ---------------------------------------------------------
    def cmp_int(self, x, y, signed):
        if x.w == 64 and y.op != 'c' and x.op != 'c':
            px = ptr_atom(x)
            if px is not None and px is ptr_atom(y):
                d = sub(y, x)
                return self._int(d, True)
        a = self._int(x, signed)
        b = self._int(y, signed)
        if a is None or b is None:
            return None
        d = dict(b[1])
        for t, k in a[1]:
            d[t] = d.get(t, 0) - k
        return (b[0] - a[0], tuple((t, k) for t, k in d.items() if k))   # y - x

    def lt(self, x, y, signed):
        """decide x < y: True/False/None"""
        if x is y:
            return False
        d = self.cmp_int(x, y, signed)
        if d is None:
            if not signed:
                l1, h1 = self.urange(x)
                l2, h2 = self.urange(y)
                # a negative value is a large one
                if x.op == 'lin':
                    a, b = self.mrange(x)
                    if -(1 << x.w) <= a and b < 0:
                        l1, h1 = a + (1 << x.w), b + (1 << x.w)
                if y.op == 'lin':
                    a, b = self.mrange(y)
                    if -(1 << y.w) <= a and b < 0:
                        l2, h2 = a + (1 << y.w), b + (1 << y.w)
                if h1 < l2:
                    return True
                if l1 >= h2:
                    return False
            return None
        c, p = d
        if self.pge(c - 1, p):
            return True
        if self.pge(-c, tuple((t, -k) for t, k in p)):
            return False
        return None

    def eq(self, x, y):
        if x is y:
            return True
        d = sub(x, y)
        if d.op == 'c':
            return d.a[0] == 0
        w = x.w
        if d.op == 'lin':
            lo, hi = self.mrange(d)
            if lo > 0 and hi < (1 << w) or hi < 0 and lo > -(1 << w):
                return False
            c, p = d.a
            if len(p) == 1 and p[0][1] in (1, (1 << w) - 1):
                v = (-c if p[0][1] == 1 else c) & ((1 << w) - 1)
                return self._eqav(p[0][0], v)
            # two distinct object addresses
            if len(p) == 2 and all(a.op == 'sym' and a.ptr and a.a[0][0] in '@%' for a, _ in p) \
                    and sorted((p[0][1], p[1][1])) == [1, (1 << w) - 1]:
                return False
            i = self._int(x, False), self._int(y, False)
            if i[0] and i[1]:
                e = self.cmp_int(x, y, False)
                if self.pge(e[0] - 1, e[1]) or self.pge(-e[0] - 1, tuple((t, -k) for t, k in e[1])):
                    return False
            return None
        return self._eqav(d, 0)

    def _eqav(self, a, v):
        l, h = self.arange(a)
        if v < l or v > h or v in self.exc.get(a, ()):
            return False
        if l == h == v:
            return True
        if a.op == 'zext':
            if v >> a.a[0].w:
                return False
            return self.eq(a.a[0], const(a.a[0].w, v))
        return None

    def _diff(self, d):
        """integer-linear form that is 0 exactly when the difference d is 0"""
        lo, hi = self.mrange(d)
        w = d.w
        if lo > -(1 << w) and hi < (1 << w):
            c, p = parts(d)
            return (sgn(c, w) if w > 1 else c, tuple((a, sgn(k, w) if w > 1 else k) for a, k in p))
        return None

    def assume_eq(self, x, y):
        r = self.eq(x, y)
        if r is not None:
            return r
        d = sub(x, y)
        w = x.w
        c, p = parts(d)
        if len(p) == 1 and p[0][1] in (1, (1 << w) - 1):
            v = (-c if p[0][1] == 1 else c) & ((1 << w) - 1)
            return self._refine(p[0][0], v, v)
        e = self._diff(d)
        if e is not None:
            return self.add_ge(e[0], e[1]) and self.add_ge(-e[0], tuple((t, -k) for t, k in e[1]))
        self.bools[atom('eq', 1, d, const(w, 0))] = True
        return True

    def assume_ne(self, x, y):
        r = self.eq(x, y)
        if r is not None:
            return not r
        d = sub(x, y)
        w = x.w
        c, p = parts(d)
        if len(p) == 1 and p[0][1] in (1, (1 << w) - 1):
            v = (-c if p[0][1] == 1 else c) & ((1 << w) - 1)
            a = p[0][0]
            self.exc[a] = self.exc.get(a, frozenset()) | {v}
            if a.op == 'zext':
                self.assume_ne(a.a[0], const(a.a[0].w, v))
            return self._norm(a)
        # a known one-sided literal becomes strict
        e = self._diff(d)
        if e is not None:
            ng = tuple((t, -k) for t, k in e[1])
            if self.pge(e[0], e[1]):
                return self.add_ge(e[0] - 1, e[1])
            if self.pge(-e[0], ng):
                return self.add_ge(-e[0] - 1, ng)
        self.bools[atom('eq', 1, d, const(w, 0))] = False
        return True

    def assume_lt(self, x, y, signed):
        r = self.lt(x, y, signed)
        if r is not None:
            return r
        e = self.cmp_int(x, y, signed)
        if e is None:
            return True
        return self.add_ge(e[0] - 1, e[1])

    def assume_ge(self, x, y, signed):
        r = self.lt(x, y, signed)
        if r is not None:
            return not r
        e = self.cmp_int(x, y, signed)
        if e is None:
            return True
        return self.add_ge(-e[0], tuple((t, -k) for t, k in e[1]))

    # booleans are terms of width 1: 'eq'(x,y) 'ult'(x,y) 'slt'(x,y) 'not'(b) or atoms
    def truth(self, b):
        if b.op == 'c':
            return bool(b.a[0])
        if b.op == 'eq':
            r = self.eq(b.a[0], b.a[1])
            if r is None:
                r = self.bools.get(atom('eq', 1, sub(b.a[0], b.a[1]), const(b.a[0].w, 0)))
                if r is None:
                    r = self.bools.get(atom('eq', 1, sub(b.a[1], b.a[0]), const(b.a[0].w, 0)))
            return r
        if b.op == 'ult':
            r = self.lt(b.a[0], b.a[1], False)
            return self.bools.get(b) if r is None else r
        if b.op == 'slt':
            r = self.lt(b.a[0], b.a[1], True)
            return self.bools.get(b) if r is None else r
        if b.op == 'not':
            r = self.truth(b.a[0])
            return None if r is None else not r
        if b.op == 'band':
            r, s = self.truth(b.a[0]), self.truth(b.a[1])
            if r is False or s is False:
                return False
            return True if r and s else None
        if b.op == 'bor':
            r, s = self.truth(b.a[0]), self.truth(b.a[1])
            if r or s:
                return True
            return False if r is False and s is False else None
        r = self.bools.get(b)
        if r is None:
            l, h = self.urange(b)
            if l == h:
                return bool(l)
        return r

    def assume(self, b, val):
        """refine with b == val; returns False when contradictory.  (band/bor: caller forks.)"""
        t = self.truth(b)
        if t is not None:
            return t == val
        if b.op == 'not':
            return self.assume(b.a[0], not val)
        if b.op == 'eq':
            return (self.assume_eq if val else self.assume_ne)(b.a[0], b.a[1])
        if b.op == 'ult':
            r = (self.assume_lt if val else self.assume_ge)(b.a[0], b.a[1], False)
            self.bools[b] = val
            return r
        if b.op == 'slt':
            r = (self.assume_lt if val else self.assume_ge)(b.a[0], b.a[1], True)
            self.bools[b] = val
            return r
        if b.op == 'band' and val:
            return self.assume(b.a[0], True) and self.assume(b.a[1], True)
        if b.op == 'bor' and not val:
            return self.assume(b.a[0], False) and self.assume(b.a[1], False)
        self.bools[b] = val
        if b.op not in ('band', 'bor'):
            self.rng[b] = (int(val), int(val))
        return True

    # ---- term construction that uses the facts ----------------------------------
    def norm(self, t):
        """replace t by a constant when the facts fix its value"""
        if t.op == 'c':
            return t
        if t.op == 'lin':
            ch = False
            c, p = t.a
            d = {}
            for a, k in p:
                r = self.rng.get(a)
                if r and r[0] == r[1]:
                    c += k * r[0]
                    ch = True
                else:
                    d[a] = k
            return lin(t.w, c, d) if ch else t
        r = self.rng.get(t)
        if r and r[0] == r[1]:
            return const(t.w, r[0])
        return t

    def zext(self, t, w):
        if t.w == w:
            return t
        if t.op == 'c':
            return const(w, t.a[0])
        if t.op == 'zext':
            return self.zext(t.a[0], w)
        if t.op == 'trunc':
            x = t.a[0]
            if self.urange(x)[1] < (1 << t.w):
                return x if x.w == w else (trunc(x, w) if x.w > w else self.zext(x, w))
        if t.op == 'align' and self.urange(t)[1] < (1 << t.w) - t.a[1]:
            i = self._int(t.a[0], False)
            if i is not None:
                return align(self.zext(t.a[0], w), t.a[1])
        if t.op == 'lin':
            i = self._int(t, False)
            if i is not None:
                r = const(w, i[0])
                for a, k in i[1]:
                    r = add(r, mulc(self.zext(a, w), k))
                return r
            v = self.value(t)
            if v is not None:
                return const(w, v)
        r = atom('zext', w, t)
        r.al = t.al
        r.pow2 = t.pow2
        return r

    def sext(self, t, w):
        if t.w == w:
            return t
        if t.op == 'c':
            return const(w, sgn(t.a[0], t.w) if t.w > 1 else -t.a[0])
        if t.w > 1:
            i = self._int(t, True)
            if i is not None:
                if t.op == 'lin':
                    r = const(w, i[0])
                    for a, k in i[1]:
                        r = add(r, mulc(self.zext(a, w) if self.urange(a)[1] < 1 << (a.w - 1) else self.sext(a, w), k))
                    return r
                return self.zext(t, w)
        if t.op == 'sext':
            return self.sext(t.a[0], w)
        return atom('sext', w, t)


def trunc(t, w):
    if t.w == w:
        return t
    if t.op == 'c':
        return const(w, t.a[0])
    if t.op in ('zext', 'sext'):
        x = t.a[0]
        if x.w == w:
            return x
        if x.w > w:
            return trunc(x, w)
        if t.op == 'zext':
            r = atom('zext', w, x)
            r.al = x.al
            return r
        return atom('sext', w, x)
    if t.op == 'trunc':
        return trunc(t.a[0], w)
    if t.op == 'lin':
        c, p = t.a
        r = const(w, c)
        for a, k in p:
            r = add(r, mulc(trunc(a, w), k))
        return r
    if t.op == 'align' and t.a[1] < (1 << w):
        return align(trunc(t.a[0], w), t.a[1])
    if t.op in ('and', 'or', 'xor'):
        return bitop(t.op, trunc(t.a[0], w), trunc(t.a[1], w))
    if t.op == 'init' and w % 8 == 0:
        # the low bytes of a memory cell
        return atom('init', w, t.a[0], t.a[1])
    r = atom('trunc', w, t)
    r.al = min(t.al, 1 << w)
    return r


def bitop(op, x, y, F=None):
    w = x.w
    m = (1 << w) - 1
    if x.op == 'c' and y.op == 'c':
        a, b = x.a[0], y.a[0]
        return const(w, a & b if op == 'and' else a | b if op == 'or' else a ^ b)
    if x.op == 'c':
        x, y = y, x
    if w == 1:
        if op == 'xor' and y.op == 'c':
            return notb(x) if y.a[0] else x
        if op == 'and':
            if y.op == 'c':
                return x if y.a[0] else y
            return atom('band', 1, x, y)
        if op == 'or':
            if y.op == 'c':
                return y if y.a[0] else x
            return atom('bor', 1, x, y)
    if x is y:
        return const(w, 0) if op == 'xor' else x
    if y.op == 'c':
        v = y.a[0]
        if op == 'and':
            if v == 0:
                return y
            if v == m:
                return x
            if F is not None:
                hi = F.urange(x)[1]
                if v & (v + 1) == 0 and hi <= v:
                    return x
            iv = (~v) & m
            if iv & (iv + 1) == 0 and v:      # clears low bits
                return align_down(x, iv + 1)
            # (a | b) & v , with constants
            if x.op == 'or' and isc(x.a[1]):
                q = bitop('and', x.a[0], y, F)
                return bitop('or', q, const(w, cv(x.a[1]) & v), F)
            if x.op == 'and' and isc(x.a[1]):
                return bitop('and', x.a[0], const(w, cv(x.a[1]) & v), F)
            # (hi + lo) & v where the constant/shifted part is disjoint
            if x.op == 'lin':
                r = _and_lin(x, v, F)
                if r is not None:
                    return r
        elif op == 'or':
            if v == 0:
                return x
            if v == m:
                return y
            if v & (v + 1) == 0:              # sets low bits
                return addc(align_down(x, v + 1), v)
            if F is not None and _disjoint(x, v, F):
                return addc(x, v)
            if x.op == 'or' and isc(x.a[1]):
                return bitop('or', x.a[0], const(w, cv(x.a[1]) | v), F)
        else:
            if v == 0:
                return x
            if v == m:
                return addc(neg(x), -1)
    else:
        for a, b in ((x, y), (y, x)):
            if op == 'or':
                q = addc(b, 1)
                if q.pow2:
                    return addc(aligns(addc(a, 1), q), -1)
            if op == 'and':
                q = neg(b)
                if q.pow2:
                    return aligns(addc(sub(a, q), 1), q)
        if op == 'or' and F is not None:
            for a, b in ((x, y), (y, x)):
                al = alignment(a)
                if al > 1 and F.urange(b)[1] < al:
                    return add(a, b)
    if y.id < x.id and y.op != 'c':
        x, y = y, x
    return atom(op, w, x, y)


def _disjoint(x, v, F):
    al = alignment(x)
    if v < al:
        return True
    lo, hi = F.urange(x)
    low = v & -v
    return hi < low


def _and_lin(x, v, F):
    """(sum of high-aligned parts and a small part) & v"""
    c, p = x.a
    w = x.w
    hb = v.bit_length()
    # drop parts that are multiples of 2^hb
    d = {}
    ch = False
    for a, k in p:
        if (k & -k) * a.al % (1 << hb) == 0:
            ch = True
        else:
            d[a] = k
    c2 = c & ((1 << hb) - 1)
    if ch or c2 != c:
        r = lin(w, c2, d)
        return bitop('and', r, const(w, v), F)
    # constant + aligned remainder above the constant's bits
    if c:
        rest = lin(w, 0, dict(p))
        al = alignment(rest)
        if c < al:
            q = bitop('and', rest, const(w, v & ~(al - 1) & ((1 << w) - 1)), F) if v >= al else const(w, 0)
            return addc(q, c & v)
        if F is not None:
            hi = F.urange(rest)[1]
            low = c & -c
            if hi < low and hi < (1 << w):
                q = bitop('and', rest, const(w, v & (low - 1)), F) if v & (low - 1) else const(w, 0)
                return addc(q, c & v)
    return None


def notb(b):
    if b.op == 'c':
        return FALSE if b.a[0] else TRUE
    if b.op == 'not':
        return b.a[0]
    return atom('not', 1, b)


def shl(x, y, F):
    if isc(y):
        return mulc(x, 1 << cv(y)) if cv(y) < x.w else const(x.w, 0)
    return atom('shl', x.w, x, y)


def lshr(x, y, F):
    w = x.w
    if isc(y):
        s = cv(y)
        if s == 0:
            return x
        if isc(x):
            return const(w, cv(x) >> s)
        if x.op == 'init' and s % 8 == 0 and s < w:
            return F.zext(atom('init', w - s, x.a[0], addc(x.a[1], s // 8)), w)
        lo, hi = F.urange(x)
        if lo >> s == hi >> s:
            return const(w, lo >> s)
        # (K*2^s*a + low) >> s with low < 2^s and no wrap
        if x.op == 'lin':
            i = F._int(x, False)
            if i is not None:
                c, p = i
                hiP = {}
                loP = {}
                for a, k in p:
                    if k % (1 << s) == 0:
                        hiP[a] = k >> s
                    elif a.op == 'align' and False:
                        pass
                    else:
                        loP[a] = k
                cl = c % (1 << s)
                lo_t = lin(w, cl, loP)
                r = F.mrange(lo_t)
                if hiP or c >> s:
                    if r[0] >= 0 and r[1] < (1 << s):
                        return lin(w, c >> s, hiP)
        return atom('lshr', w, x, y)
    return atom('lshr', w, x, y)


def ashr(x, y, F):
    w = x.w
    if isc(y):
        if isc(x):
            return const(w, sgn(cv(x), w) >> cv(y))
        if F.urange(x)[1] < 1 << (w - 1):
            return lshr(x, y, F)
        # sign extension written as shl+ashr
        s = cv(y)
        c, p = parts(x)
        if c == 0 and len(p) == 1 and p[0][1] == 1 << s:
            b = trunc(p[0][0], w - s)
            return F.sext(b, w)
    return atom('ashr', w, x, y)


def udiv(x, y, F):
    w = x.w
    if isc(y) and cv(y):
        v = cv(y)
        if isc(x):
            return const(w, cv(x) // v)
        if v & (v - 1) == 0:
            return lshr(x, const(w, v.bit_length() - 1), F)
        lo, hi = F.urange(x)
        if lo // v == hi // v:
            return const(w, lo // v)
    return atom('udiv', w, x, y)


def urem(x, y, F):
    w = x.w
    if isc(y) and cv(y):
        v = cv(y)
        if isc(x):
            return const(w, cv(x) % v)
        if v & (v - 1) == 0:
            return bitop('and', x, const(w, v - 1), F)
    return atom('urem', w, x, y)


def mul(x, y):
    if isc(x):
        return mulc(y, cv(x))
    if isc(y):
        return mulc(x, cv(y))
    for a, b in ((x, y), (y, x)):
        if a.op == 'udiv' and a.a[1] is b and b.pow2:
            return aligns(addc(sub(a.a[0], b), 1), b)
    if y.id < x.id:
        x, y = y, x
    return atom('mul', x.w, x, y)


def eqb(x, y, F):
    r = F.eq(x, y)
    if r is not None:
        return boolc(r)
    d = sub(x, y)
    z = const(x.w, 0)
    c, p = parts(d)
    # zext(bool) == const
    if len(p) == 1 and p[0][1] in (1, (1 << x.w) - 1) and p[0][0].op == 'zext' and p[0][0].a[0].w == 1:
        v = (-c if p[0][1] == 1 else c) & ((1 << x.w) - 1)
        b = p[0][0].a[0]
        return b if v == 1 else notb(b) if v == 0 else FALSE
    if x.w == 1:
        if isc(y):
            return x if cv(y) else notb(x)
        if isc(x):
            return y if cv(x) else notb(y)
    if len(p) == 1 and p[0][1] == (1 << x.w) - 1:
        d = neg(d)
    elif len(p) > 1 and sgn(p[0][1], x.w) < 0:
        d = neg(d)
    c, p = parts(d)
    if len(p) == 1 and p[0][1] == 1:
        return atom('eq', 1, p[0][0], const(x.w, -c))
    return atom('eq', 1, d, z)


def ltb(x, y, signed, F):
    r = F.lt(x, y, signed)
    if r is not None:
        return boolc(r)
    # x < 1 unsigned is x == 0
    if not signed and isc(y) and cv(y) == 1:
        return eqb(x, const(x.w, 0), F)
    if signed and F.urange(x)[1] < 1 << (x.w - 1) and F.urange(y)[1] < 1 << (x.w - 1):
        signed = False
    return atom('slt' if signed else 'ult', 1, x, y)


def atoms_of(t, acc=None):
    """all atoms (recursively) occurring in t"""
    if acc is None:
        acc = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in acc:
            continue
        if x.op == 'c':
            continue
        if x.op == 'lin':
            st.extend(a for a, _ in x.a[1])
            continue
        acc.add(x)
        st.extend(x.a)
    return acc
