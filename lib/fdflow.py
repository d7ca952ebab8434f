"""Ownership of file descriptors and stdio streams: an interprocedural typestate analysis
on top of the path-sensitive engine of lockset.py.  Every descriptor the code obtains is a
token (maybe, open, failed, closed); tests of it refine the token; it may be kept in a
global, and must otherwise be closed before the entry returns."""
from lockset import *
import multiprocessing
import os

SELF = None


def work(states):
    return SELF.level(states)

CLO = 0o2000000                 # O_CLOEXEC on Linux
FD = {'open', 'open64', 'openat', 'openat64', 'creat', 'creat64', 'mkstemp', 'mkstemp64', 'mkostemp', 'mkostemp64', 'memfd_create',
      'shm_open', 'socket', 'dup', 'dup3', 'fcntl', '__open_2', '__open64_2'}
FILES = {'fopen', 'fopen64', 'setmntent', 'fdopen', 'opendir', 'popen', 'tmpfile', 'tmpfile64', 'freopen'}
CLOSE = {'close', 'fclose', 'endmntent', 'closedir', 'pclose'}
OWNCE = {'setmntent', 'shm_open', 'opendir'}       # always close-on-exec (glibc, musl)


class Again(Exception):
    pass


class FdFlow(Lockset):
    def __init__(self, mods):
        self.fdclasses = set()
        self.consts = set()     # scalar globals whose constant values are followed
        Lockset.__init__(self, mods)

    def reset(self):
        Lockset.reset(self)
        self.leaks = {}
        self.idles = {}
        self.keeps = 0
        self.brk = None
        self.made = set()
        self.closes = set()
        self.uses = set()
        self.rep = {}
        self.used = {}
        self.graph = {}         # state between calls -> (states after the next call, descriptors kept that it may use)
        self._needs = None
        self.paths = 0

    # locks are of no concern here
    def access(self, st, v, rw, I, val=None):
        pass

    def acquire(self, st, l, I):
        pass

    def release(self, st, l, I):
        pass

    def lockof(self, v, st):
        return None

    def relevant(self):
        if hasattr(self, '_rel'):
            return self._rel
        rel, callers = set(), {}
        st = State()
        for f in self.funcs.values():
            for b in f.blocks:
                for I in b.insts:
                    if I.op == 'call':
                        tg = self.targets(I.callee, st)
                        if tg is None:
                            tg, _ = self.fptrs(I.callee, len(I.ops))
                        ptr = any(o.ty is not None and o.ty.kind == 'ptr' and not self.private(o) and
                                  any(c in self.fdclasses or c in self.consts for c in self.loc(o, st)) for o in I.ops)
                        for n in tg:
                            if n in self.funcs:
                                callers.setdefault(self.funcs[n], set()).add(f)
                                if ptr:
                                    rel.add(self.funcs[n])
                            elif n in FD or n in FILES or n in CLOSE:
                                rel.add(f)
                    elif I.op in ('load', 'store'):
                        p = I.ops[1] if I.op == 'store' else I.ops[0]
                        if not self.private(p) and any(c in self.fdclasses or c in self.consts for c in self.loc(p, st)):
                            rel.add(f)
        todo = list(rel)
        while todo:
            for g in callers.get(todo.pop(), ()):
                if g not in rel:
                    rel.add(g)
                    todo.append(g)
        self._rel = rel
        return rel

    def bad(self, rule, I, msg):
        self.leaks.setdefault((rule, I if isinstance(I, str) else self.where(I), msg), 1)

    def name(self, t):
        return 'the one opened at %s' % t[0] if t[0] != 'held' else 'the one %s holds' % self.cname(t[1])

    def string(self, v):
        while v.k == 'cexpr' and v.ops:
            v = v.ops[0]
        if v.k != 'gvar':
            return None
        for m in self.mods:
            g = m.globals.get(v.name)
            if g is not None and g.init is not None and g.const:
                if g.init.ops:
                    return ''.join(chr(o.v) for o in g.init.ops if o.k == 'cint' and o.v)
                if isinstance(g.init.v, (bytes, str)):
                    return g.init.v if isinstance(g.init.v, str) else g.init.v.decode('latin1')
        return None

    def cl(self, c, st):
        """close-on-exec from the arguments of the call"""
        n, a = c
        k = {'open': 1, 'open64': 1, '__open_2': 1, '__open64_2': 1, 'openat': 2, 'openat64': 2, 'mkostemp': 1, 'mkostemp64': 1,
             'memfd_create': 1, 'socket': 1, 'dup3': 2}.get(n)
        if n in OWNCE:
            return True
        if k is not None:
            v = self.ev(a[k], st)
            if v is None or v[0] != 'c':
                return None
            return bool(v[1] & (1 if n == 'memfd_create' else CLO))
        if n in ('fopen', 'fopen64', 'popen', 'freopen'):
            s = self.string(a[1])
            return None if s is None else 'e' in s
        return False

    def create(self, I, st, n, kind):
        site = self.where(I)
        self.made.add(site)
        held = {v for q, v in st.x.items() if q[0] == 'g'}
        for k in range(4):
            t = (site, k)
            s = st.x.get(('t', t))
            if s is None or s[0] in ('closed', 'failed') and t not in held:
                break
        else:
            self.bad('every descriptor opened is closed or kept', I, 'opened again and again without ever being closed')
        for q in [q for q, v in st.env.items() if len(v) > 1 and (v[1] == t or len(v) > 2 and v[2] == t)]:
            del st.env[q]
        ce = self.cl((n, I.ops), st)
        st.x[('t', t)] = ('maybe', ce is not False, kind)
        return t

    def status(self, st, t):
        return st.x.get(('t', t), ('closed', True, 'fd'))[0]

    def setst(self, st, t, s):
        if s == 'failed':
            # whatever names it holds the failure value
            k = st.x.get(('t', t), (s, True, 'fd'))[2]
            for q, v in list(st.env.items()):
                if v == ('fd', t):
                    w = q.ty.w if isinstance(q, irai.llvmc.Inst) and q.ty.kind == 'int' else 32
                    st.env[q] = ('c', ((1 << w) - 1) if k == 'fd' else 0)
            for q, v in list(st.x.items()):
                if q[0] == 'g' and v == t:
                    st.x[q] = ('#', 0xffffffff if k == 'fd' else 0)
        o = st.x.get(('t', t), (s, True, 'fd'))
        st.x[('t', t)] = (s,) + o[1:]

    def use(self, t):
        if t[0] == 'held' and self.stack:
            self.used.setdefault(self.stack[-1], set()).add(t[1])

    def checkce(self, st, t, I):
        o = st.x.get(('t', t))
        if o and not o[1] and o[0] != 'failed':
            self.bad('every descriptor is opened close-on-exec', t[0] if t[0] != 'held' else I, 'a program executed by another thread inherits it')

    def call1(self, I, st, n):
        if n in LOCK or n in UNLOCK or n in TRY:
            return [(st, ('c', 0))]
        if n in CLOSE:
            self.closes.add(self.where(I))
            v = self.ev(I.ops[0], st)
            if v is not None and v[0] == 'fd':
                t = v[1]
                s = self.status(st, t)
                self.use(t)
                if s == 'closed':
                    self.bad('a descriptor is closed at most once', I, '%s is closed again' % self.name(t))
                self.checkce(st, t, I)
                if s != 'failed':
                    self.setst(st, t, 'closed')
            elif v is not None and v[0] == 'c' and I.ops[0].ty.kind == 'int' and not (v[1] >> 31) & 1:
                self.bad('only descriptors the library opened are closed', I, 'descriptor %d is closed, which it never opened' % v[1])
            elif v is None and I.ops[0].k == 'inst' and I.ops[0].name.op == 'load':
                pass
            return [(st, None)]
        if n == 'fcntl' and n not in self.funcs:
            c = self.ev(I.ops[1], st)
            v = self.ev(I.ops[0], st)
            if c == ('c', 2) and v is not None and v[0] == 'fd':
                a = self.ev(I.ops[2], st)
                o = st.x.get(('t', v[1]))
                if o and a is not None and a[0] == 'c':
                    st.x[('t', v[1])] = (o[0], bool(a[1] & 1), o[2])
                return [(st, None)]
            if c is None or c[1] not in (0, 1030):
                return [(st, None)]
            t = self.create(I, st, n, 'fd')
            if c[1] == 1030:
                st.x[('t', t)] = ('maybe', True, 'fd')
            return [(st, ('fd', t))]
        if (n in FD or n in FILES) and n not in self.funcs:
            if n == 'fdopen':
                v = self.ev(I.ops[0], st)
                if v is not None and v[0] == 'fd':
                    # the stream owns the descriptor from now on, if it is made
                    s2 = st.copy()
                    ce = st.x.get(('t', v[1]), ('', True))[1]
                    self.setst(s2, v[1], 'closed')
                    t = self.create(I, s2, n, 'file')
                    s2.x[('t', t)] = ('open', ce, 'file')
                    return [(s2, ('fd', t)), (st, ('c', 0))]
            if n == 'freopen':
                return [(st, None)]
            t = self.create(I, st, n, 'fd' if n in FD else 'file')
            return [(st, ('fd', t))]
        if n not in self.funcs and not n.startswith('llvm.'):
            for o in I.ops:
                v = self.ev(o, st)
                if v is not None and v[0] == 'fd':
                    self.uses.add(self.where(I))
                    self.use(v[1])
                    if self.status(st, v[1]) == 'closed':
                        self.bad('no descriptor is used after it was closed', I, '%s is passed to %s' % (self.name(v[1]), n))
        return Lockset.call1(self, I, st, n)

    def argctx(self, x):
        return x is not None and (x[0] in ('c', 'fd', 'p') or x[0] == 'loc' and any(c in self.fdclasses or c in self.consts for c in x[1]))

    def ev(self, v, st):
        if v.k in ('gvar', 'cexpr'):
            a = self.caddr(v, st)
            if a is not None:
                g = self.anyglobal(a[0])
                if g is not None and g.const:
                    return ('p', a)
            l = self.loc(v, st)
            return ('loc', tuple(sorted(l))) if any(c in self.fdclasses or c in self.consts for c in l) else None
        if v.k == 'func':
            return ('p', (v.name, 0))
        return Lockset.ev(self, v, st)

    def anyglobal(self, n):
        for m in self.mods:
            g = m.globals.get(n)
            if g is not None and g.init is not None:
                return g

    def caddr(self, v, st):
        """(global, byte offset) of an address, where it is known"""
        off = 0
        for _ in range(40):
            if v.k == 'gvar':
                return (v.name, off)
            if v.k == 'cexpr' and v.v == 'gep':
                x = self.cgep(v)
                if x is None:
                    return None
                off += x
                v = v.ops[0]
            elif v.k == 'cexpr' and v.ops:
                v = v.ops[0]
            elif v.k == 'inst' and v.name.op == 'gep':
                I = v.name
                t = I.x
                for k, o in enumerate(I.ops[1:]):
                    e = self.ev(o, st)
                    if e is None or e[0] != 'c':
                        return None
                    n = sgn(e[1], o.ty.w)
                    if k == 0:
                        off += n * (t.asize or t.size)
                    elif t.kind == 'struct':
                        off += t.offs[n]
                        t = t.fields[n]
                    else:
                        t = t.elem
                        off += n * (t.asize or t.size)
                v = I.ops[0]
            elif v.k == 'inst' and v.name.op in ('bitcast', 'freeze'):
                v = v.name.ops[0]
            else:
                return None

    def table(self, p, st):
        """what a load from a table nobody writes yields"""
        a = self.caddr(p, st)
        if a is None:
            return None
        g = self.anyglobal(a[0])
        if g is None or not (g.const or a[0] not in self.written):
            return None
        t, v, off = g.ty, g.init, a[1]
        while True:
            if v.k == 'czero':
                return ('c', 0)
            if t.kind == 'struct':
                if not t.offs:
                    return None
                i = max(k for k in range(len(t.offs)) if t.offs[k] <= off)
                off -= t.offs[i]
                t = t.fields[i]
            elif t.kind == 'array':
                es = t.elem.asize or t.elem.size
                i = off // es
                off %= es
                t = t.elem
            else:
                break
            if not v.ops or i >= len(v.ops):
                return None
            v = v.ops[i]
        return self.ev(v, State()) if off == 0 else None

    def targets(self, v, st):
        if v.k == 'inst':
            e = st.env.get(v.name)
            if e is not None and e[0] == 'p' and e[1][0] in self.funcs:
                return [e[1][0]]
        return Lockset.targets(self, v, st)

    def refine(self, st, c, outcome):
        if c[1] != 'T':
            return Lockset.refine(self, st, c, outcome)
        _, kind, t, pred, n, w, neg = c
        if neg:
            outcome = not outcome
        o = st.x.get(('t', t))
        if o is None:
            return True
        m = (1 << w) - 1
        bad = m if o[2] == 'fd' else 0
        good = {0, 1, 7, (1 << 31) - 1, n & m, (n + 1) & m, (n - 1) & m} if o[2] == 'fd' else {4096, 1 << 40, n & m}
        good = [g for g in good if (g < (1 << 31) if o[2] == 'fd' else g != 0)]
        f = cmpc(pred, bad, n, w) == outcome
        g = any(cmpc(pred, x, n, w) == outcome for x in good)
        if o[0] == 'failed':
            return f
        if o[0] in ('open', 'closed'):
            return g or (o[0] == 'closed' and f)
        if f and not g:
            self.setst(st, t, 'failed')
        elif g and not f:
            self.setst(st, t, 'open')
        return f or g

    def inst(self, I, st):
        op = I.op
        if op == 'store':
            v = self.ev(I.ops[0], st)
            p = I.ops[1]
            ls = self.loc(p, st) if not self.private(p) else ()
            if v is not None and v[0] == 'fd' and not any(not self.public(c) for c in ls):
                self.lost.add((self.where(I), v[1][0]))         # kept where we do not look: not followed any further
                st.x.pop(('t', v[1]), None)
            for c in ls:
                if self.public(c):
                    continue
                if c in self.consts:
                    if v is not None and v[0] in 'cp':
                        st.x[('v', c)] = v
                    else:
                        st.x.pop(('v', c), None)
                if v is not None and v[0] == 'fd' and c not in self.fdclasses:
                    self.fdclasses.add(c)
                    raise Again()
                if c in self.fdclasses:
                    new = v[1] if v is not None and v[0] == 'fd' else ('#', v[1]) if v is not None and v[0] == 'c' else ('?',)
                    if v is not None and v[0] == 'fd':
                        self.checkce(st, new, I)
                    st.x[('g', c)] = new
            return
        if op == 'load':
            p = I.ops[0]
            r = None
            if not self.private(p):
                l = self.loc(p, st)
                if len(l) == 1:
                    c = next(iter(l))
                    if c in self.fdclasses:
                        t = st.x.get(('g', c), ('?',))
                        r = ('c', t[1]) if t[0] == '#' else None if t[0] == '?' else ('fd', t)
                    elif c in self.consts:
                        r = st.x.get(('v', c))
                if r is None:
                    r = self.table(p, st)
            if r is None:
                st.env.pop(I, None)
            else:
                st.env[I] = r
            return
        Lockset.inst(self, I, st)
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
            x = self.ev(I.ops[0], st)
            if x is not None and x[0] == 'fd':
                st.env[I] = x
        elif op == 'icmp':
            a, b = self.ev(I.ops[0], st), self.ev(I.ops[1], st)
            w = I.ops[0].ty.w or 64
            pred = I.x
            if a is not None and b is not None and pred in ('eq', 'ne') and 'p' in (a[0], b[0]) and (a[0] == b[0] or ('c', 0) in (a, b)):
                st.env[I] = ('c', int((a == b) == (pred == 'eq')))
            if b is not None and b[0] == 'fd':
                a, b = b, a
                pred = {'ugt': 'ult', 'uge': 'ule', 'ult': 'ugt', 'ule': 'uge', 'sgt': 'slt', 'sge': 'sle', 'slt': 'sgt', 'sle': 'sge'}.get(pred, pred)
            if a is not None and a[0] == 'fd' and b is not None and b[0] == 'c':
                st.env[I] = ('cmp', 'T', a[1], pred, b[1], w, False)
        elif op in ('add', 'sub') and any(o.k == 'inst' and o.name.op == 'load' for o in I.ops):
            # a counter kept in a global
            a, b = self.ev(I.ops[0], st), self.ev(I.ops[1], st)
            if a is not None and b is not None and a[0] == b[0] == 'c':
                st.env[I] = ('c', (a[1] + b[1] if op == 'add' else a[1] - b[1]) & ((1 << I.ty.w) - 1))
        elif op == 'select':
            c = self.ev(I.ops[0], st)
            x, y = self.ev(I.ops[1], st), self.ev(I.ops[2], st)
            if (c is None or c[0] != 'c') and x != y:
                for z in (x, y):
                    if z is not None and z[0] == 'fd':
                        st.env[I] = z       # either; the other arm is a constant in every use we know

    def gc(self, x, refs, known, f):
        """forget descriptors nobody can name any more; the open ones among them have leaked"""
        bound = {v for q, v in x.items() if q[0] == 'g'}
        for q in [q for q in x if q[0] == 't' and q not in known and q[1] not in bound and q[1] not in refs]:
            if x[q][0] in ('open', 'maybe'):
                self.bad('every descriptor opened is closed or kept', q[1][0] if q[1][0] != 'held' else f.name,
                         'still open in %s when nothing refers to it any more' % f.name)
            del x[q]

    def summary(self, f, outer, args):
        # what the callee cannot reach stays aside
        x = dict(outer[5])
        need = self.needs(f) | {c for a in args if a is not None and a[0] == 'loc' for c in a[1]}
        keep = {q for q in x if q[0] != 't' and q[1] in need}
        toks = {x[q] for q in keep if q[0] == 'g'} | {a[1] for a in args if a is not None and a[0] == 'fd'}
        while True:
            more = {q for q, v in x.items() if q[0] == 'g' and q not in keep and v in toks and v[0] not in '#?'}
            if not more:
                break
            keep |= more
        keep |= {('t', t) for t in toks if ('t', t) in x}
        aside = {q: v for q, v in x.items() if q not in keep}
        o1 = outer[:5] + (tuple(sorted(((q, x[q]) for q in keep), key=str)),)
        res = Lockset.summary(self, f, o1, args)
        u = self.used.get((f, o1, args))
        if u and self.stack:
            self.used.setdefault(self.stack[-1], set()).update(u)
        if not aside:
            return res
        taken = {q[1] for q in aside if q[0] == 't'}
        r2 = []
        for (o, rv) in res:
            y = dict(o[5])
            for q in [q for q in y if q[0] == 't' and q not in keep and q[1] in taken]:
                u = next((q[1][0], k) for k in range(99) if (q[1][0], k) not in taken and ('t', (q[1][0], k)) not in y)
                y[('t', u)] = y.pop(q)
                for g, v in list(y.items()):
                    if g[0] == 'g' and v == q[1]:
                        y[g] = u
                if rv is not None and q[1] in rv:
                    rv = tuple(u if z == q[1] else z for z in rv)
            y.update(aside)
            r2.append((o[:5] + (tuple(sorted(y.items(), key=str)),), rv))
        return r2

    def needs(self, f):
        if not self._needs:
            own, calls = {}, {}
            st = State()
            for g in self.funcs.values():
                own[g], calls[g] = set(), set()
                for b in g.blocks:
                    for I in b.insts:
                        if I.op == 'call':
                            tg = self.targets(I.callee, st)
                            if tg is None:
                                tg, _ = self.fptrs(I.callee, len(I.ops))
                            calls[g] |= {self.funcs[n] for n in tg if n in self.funcs}
                        elif I.op in ('load', 'store'):
                            own[g] |= {c for c in self.loc(I.ops[1 if I.op == 'store' else 0], st) if c in self.fdclasses or c in self.consts}
            ch = True
            while ch:
                ch = False
                for g in own:
                    n = len(own[g])
                    for h in calls[g]:
                        own[g] |= own[h]
                    ch |= len(own[g]) != n
            self._needs = own
        return self._needs[f]

    def edge(self, f, st, outer):
        refs = {z for v in st.env.values() for z in v[1:] if isinstance(z, tuple)}
        self.gc(st.x, refs, {q for q, _ in outer[5]}, f)

    def body(self, f, outer, args, key):
        Lockset.body(self, f, outer, args, key)
        known = {q for q, _ in outer[5]}
        new = set()
        for (o, rv) in self.summ[key]:
            x = dict(o[5])
            self.gc(x, set(rv[1:]) if rv is not None else set(), known, f)
            # descriptors in the same condition are alike wherever they were opened: one stands for all
            for q in sorted((q for q in x if q[0] == 't' and q not in known), key=str):
                t = q[1]
                r = self.rep.setdefault((f.name, x[q][1:]), t[0])
                u = next((r, k) for k in range(9) if (r, k) == t or ('t', (r, k)) not in x)
                if u != t:
                    x[('t', u)] = x.pop(q)
                    for k, v in list(x.items()):
                        if k[0] == 'g' and v == t:
                            x[k] = u
                    if rv is not None and t in rv:
                        rv = tuple(u if z == t else z for z in rv)
            new.add((o[:5] + (tuple(sorted(x.items(), key=str)),), rv))
        self.summ[key] = new

    def between(self, f, out, rv):
        """what one entry leaves to the next"""
        x = dict(out[5])
        bound = {}
        for q, v in x.items():
            if q[0] == 'g' and v[0] not in '#?':
                bound.setdefault(v, []).append(q[1])
        y = {q: v for q, v in x.items() if q[0] == 'v'}
        for q, v in x.items():
            if q[0] == 'g' and v[0] in '#?':
                y[q] = v
            if q[0] != 't':
                continue
            t = q[1]
            if v[0] in ('open', 'maybe') and t not in bound:
                self.bad('every descriptor opened is closed or kept', t[0] if t[0] != 'held' else f.name, 'still open when %s returns, and nothing refers to it' % f.name)
            for c in sorted(bound.get(t, ())):
                if v[0] == 'closed':
                    self.bad('nothing keeps a descriptor that was closed', t[0] if t[0] != 'held' else f.name,
                             '%s still holds it when %s returns' % (self.cname(c), f.name))
                c0 = sorted(bound[t])[0]
                y[('g', c)] = ('held', c0)
                y[('t', ('held', c0))] = v
        return tuple(sorted(y.items(), key=str))

    def drive(self):
        self.rets = {}
        init = {}
        for c in self.fdclasses:
            v = self.initv.get(c, {'?'})
            init[('g', c)] = ('#', next(iter(v))) if len(v) == 1 and '?' not in v else ('?',)
        for c in self.consts:
            v = self.initv.get(c, {'?'})
            if len(v) == 1 and '?' not in v:
                init[('v', c)] = ('c', next(iter(v)))
        todo = [tuple(sorted(init.items(), key=str))]
        self.entry = set(todo)
        while todo:
            if len(todo) < 4:
                res = [self.level(todo)]
            else:
                n = min(os.cpu_count() or 1, 8)
                globals()['SELF'] = self
                with multiprocessing.get_context('fork').Pool(n) as pool:
                    res = pool.map(work, [todo[k::n] for k in range(n)])
            todo = []
            for r in res:
                if r[0] == 'again':
                    self.fdclasses |= r[1]
                    raise Again()
                if r[0] == 'broken':
                    for k in r[2]:
                        self.leaks.setdefault(k, 1)
                    self.brk = r[1]
                    continue
                outs, leaks, made, closes, uses, lost, np, graph = r
                self.graph.update(graph)
                for k in leaks:
                    self.leaks.setdefault(k, 1)
                self.made |= made
                self.closes |= closes
                self.uses |= uses
                self.lost |= lost
                self.paths += np
                for y in outs:
                    if y not in self.entry:
                        if len(self.entry) > 3000:
                            raise Broken('too many states between calls')
                        self.entry.add(y)
                        todo.append(y)
            if self.leaks:      # enough to report
                break
            if self.brk:
                raise Broken(self.brk)
            todo.sort(key=str)
        self.idle() if not self.leaks else None

    def idle(self):
        """descriptors kept although no later call can use or close them"""
        kept = sorted({c for x in self.graph for q, v in x for c in [q[1][1]] if q[0] == 't' and q[1][0] == 'held' and v[0] != 'closed'}, key=str)
        self.keeps = 0
        for c in kept:
            has = {x for x in self.graph if any(q == ('t', ('held', c)) for q, v in x)}
            self.keeps += len(has)
            good = {x for x in has if c in self.graph[x][1]}
            while True:
                more = {x for x in has - good if self.graph[x][0] & good}
                if not more:
                    break
                good |= more
            for x in sorted(has - good, key=str):
                if not any(x in self.graph[p][0] for p in has - good if p != x):
                    self.idles.setdefault(c, []).append(x)

    def level(self, states):
        outs = {}
        graph = {}
        n = 0
        try:
            for x in states:
                succ, use = set(), set()
                graph[x] = (succ, use)
                for f in self.rts:
                    o = State(x=x).outer()
                    self.stack = [None]
                    self.used[None] = set()
                    res = self.summary(f, o, tuple(None for a in f.args))
                    use |= self.used[None]
                    for (out, rv) in res:
                        n += 1
                        y = self.between(f, out, rv)
                        outs[y] = 1
                        succ.add(y)
        except Again:
            return 'again', self.fdclasses
        except Broken as e:
            return 'broken', str(e), list(self.leaks)
        return list(outs), list(self.leaks), self.made, self.closes, self.uses, self.lost, n, graph

    def solve(self):
        cands = self.scan()
        self.flags, self.derived, self.bits = {}, set(), {}
        self.first = False
        # globals that ever receive a descriptor: by what calls may return, then by running
        while True:
            self.consts = set()
            self.__dict__.pop('_rel', None)
            self.consts = {c for c, vals in cands.items() if '*' not in vals and c not in self.fdclasses}
            self.consts |= {c for c in self.tested if c[0] == 'global' and c[1] in self.globals
                            and self.globals[c[1]].ty.kind == 'ptr'} - self.fdclasses
            self.consts |= self.indices()
            rel = self.relevant()
            self.consts &= self.testedin(rel)
            self.consts = {c for c in self.consts if all(I.bb.fn in rel for I in self.stores.get(c, ()))}
            self.__dict__.pop('_rel', None)
            self.written = {self.rootname(I.ops[1]) for ss in self.stores.values() for I in ss}
            self.lost = set()
            self.reset()
            self.stack = []
            self.rts = [f for f in self.roots() if f in self.relevant()]
            try:
                self.drive()
                break
            except Again:       # one more global holds a descriptor
                continue

    def rootname(self, v):
        v = self.root(v)
        while v.k == 'cexpr' and v.ops:
            v = v.ops[0]
        return v.name if v.k == 'gvar' else None

    def indices(self):
        """scalar globals that index a table"""
        r = set()
        for f in self.reachable():
            for b in f.blocks:
                for I in b.insts:
                    if I.op == 'gep' and self.rootname(I.ops[0]):
                        for o in I.ops[2:]:
                            while o.k == 'inst' and o.name.op in ('zext', 'sext', 'trunc', 'freeze'):
                                o = o.name.ops[0]
                            if o.k == 'inst' and o.name.op == 'load':
                                r |= {c for c in self.loc(o.name.ops[0], State()) if c[0] == 'global'}
        return r

    def testedin(self, rel):
        r = self.indices()
        for f in rel:
            for b in f.blocks:
                for I in b.insts:
                    if I.op in ('icmp', 'switch'):
                        for o in I.ops[:2]:
                            while o.k == 'inst' and o.name.op in ('zext', 'sext', 'trunc', 'freeze', 'and'):
                                o = o.name.ops[0]
                            if o.k == 'inst' and o.name.op == 'load':
                                r |= self.loc(o.name.ops[0], State())
        return r
