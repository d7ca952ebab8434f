"""Lock sets of every access to the library's shared bookkeeping, by a path-sensitive
interprocedural dataflow analysis of the LLVM IR.

A state is (locks held, once-flags known zero/non-zero, tokens, constants of SSA values).
Functions are summarised per entry state (locks, flags, tokens, constant or address
arguments).  A *once-flag* is a zero-initialised field that is never reset and only
written under one lock: who saw it non-zero (or set it) under that lock has a *token*
and is ordered after everything done while it was zero (the *phase*)."""
import re
from build import Broken
import irai

LOCK = {'pthread_mutex_lock', 'pthread_spin_lock', 'pthread_rwlock_wrlock', 'pthread_rwlock_rdlock', 'mtx_lock'}
UNLOCK = {'pthread_mutex_unlock', 'pthread_spin_unlock', 'pthread_rwlock_unlock', 'mtx_unlock'}
TRY = {'pthread_mutex_trylock', 'pthread_spin_trylock', 'mtx_trylock'}
NORET = {'abort', 'exit', '_exit', '__assert_fail', 'ffi_assert'}
EV = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def cmpc(pred, a, b, w):
    m = (1 << w) - 1
    a &= m
    b &= m
    if pred in EV:
        return EV[pred](a, b)
    if pred[0] == 's':
        a, b = sgn(a, w), sgn(b, w)
    p = pred[1:]
    return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]


class State:
    __slots__ = ('locks', 'tok', 'ph', 'fv', 'env', 'dirty', 'x')

    def __init__(self, locks=frozenset(), tok=frozenset(), ph=frozenset(), fv=(), env=None, dirty=frozenset(), x=()):
        self.locks, self.tok, self.ph, self.fv, self.dirty = locks, tok, ph, dict(fv), dirty
        self.env = env if env is not None else {}
        self.x = dict(x)        # whatever a subclass follows

    def copy(self):
        return State(self.locks, self.tok, self.ph, self.fv, dict(self.env), self.dirty, self.x)

    def outer(self):
        return (self.locks, self.tok, self.ph, tuple(sorted((k, v) for k, v in self.fv.items())), self.dirty,
                tuple(sorted(self.x.items(), key=str)))

    def key(self):
        return self.outer() + (tuple(sorted(((k.bb.idx, k.idx) if isinstance(k, irai.llvmc.Inst) else (-1, k), v) for k, v in self.env.items())),)


class Lockset:
    def __init__(self, mods):
        self.mods = mods
        seen = set()
        for m in mods:          # private names of different units that happen to be equal are told apart
            ren = {}
            for d, k in ((m.globals, 'gvar'), (m.funcs, 'func')):
                for n, g in list(d.items()):
                    if g.linkage in (8, 9) and n in seen and not g.decl:
                        u = next('%s@%d' % (n, i) for i in range(2, 99) if '%s@%d' % (n, i) not in seen)
                        ren[(k, n)] = u
                        d[u] = d.pop(n)
            for v in m._vc.values():
                if v.k in ('gvar', 'func') and (v.k, v.name) in ren:
                    v.name = ren[(v.k, v.name)]
            seen |= set(m.globals) | set(m.funcs)
        self.funcs = {}
        self.globals = {}
        for m in mods:
            for n, f in m.funcs.items():
                if not f.decl and (n not in self.funcs or self.funcs[n].decl):
                    self.funcs[n] = f
            for n, g in m.globals.items():
                if not g.decl:
                    self.globals[n] = g
        self.live = {}
        self.flags = {}         # once-flag -> (lock, possible values)
        self.derived = set()    # (class, initial value, flag): who sees another value has the flag's token
        self.bits = {}          # class -> bits set by every store
        self.reset()

    def reset(self):
        self.summ = {}
        self.stack = []
        self.acc = {}           # class -> {(rw, where, locks, tok, ph)}
        self.edges = {}
        self.errors = {}
        self.badstores = set()  # derived facts that do not hold
        self.seenf = set()
        self.lockops = 0
        self.changed = False

    # ---- location classes
    def tyname(self, t):
        return re.sub(r'\.\d+$', '', t.name) if t is not None and t.kind == 'struct' and t.name else None

    def field(self, t, off):
        """class of the innermost struct field at a constant offset of a type"""
        best = None
        while True:
            if t.kind == 'struct':
                if not t.offs:
                    return best
                i = max(k for k in range(len(t.offs)) if t.offs[k] <= off)
                nm = self.tyname(t)
                if nm is None:
                    return best
                if not self.islock(t):
                    best = (nm, i)
                off -= t.offs[i]
                t = t.fields[i]
                if self.islock(t):
                    return best
            elif t.kind == 'array' and t.elem.kind == 'struct':
                es = t.elem.asize or 1
                off %= es
                t = t.elem
            else:
                return best

    def islock(self, t):
        n = self.tyname(t)
        return n is not None and ('mutex' in n or 'rwlock' in n)

    def loc(self, v, st, depth=0):
        """set of classes an address may belong to, or None (not shared, or unknown)"""
        if v is None or depth > 12:
            return set()
        if v.k == 'gvar':
            g = self.globals.get(v.name)
            if g is None or g.const:
                return set()
            c = self.field(g.ty, 0)
            return {c if c and not self.islock(g.ty) else ('global', v.name)}
        if v.k == 'arg':
            a = st.env.get(v.v if isinstance(v.v, int) else v.name)
            return set(a[1]) if a and a[0] == 'loc' else set()
        if v.k == 'cexpr':
            if v.v == 'gep':
                o = self.cgep(v)
                b = v.ops[0]
                while b.k == 'cexpr' and b.v in ('gep', 'bitcast', 'addrspacecast'):
                    if b.v == 'gep':
                        x = self.cgep(b)
                        o = None if o is None or x is None else o + x
                    b = b.ops[0]
                if b.k == 'gvar' and o is not None:
                    g = self.globals.get(b.name)
                    if g is None or g.const:
                        return set()
                    return {self.field(g.ty, o) or ('global', b.name)}
                return set()
            if v.ops:
                return self.loc(v.ops[0], st, depth + 1)
            return set()
        if v.k != 'inst':
            return set()
        I = v.name
        if I.op == 'gep':
            t = I.x
            path = None
            for o in I.ops[2:]:
                if t.kind == 'struct':
                    if o.k != 'cint':
                        break
                    nm = self.tyname(t)
                    if nm and not self.islock(t):
                        path = (nm, o.v)
                    t = t.fields[o.v]
                    if self.islock(t):
                        break
                elif t.kind == 'array':
                    t = t.elem
                else:
                    break
            if path:
                return {path}
            return self.loc(I.ops[0], st, depth + 1)
        if I.op in ('bitcast', 'addrspacecast', 'freeze', 'inttoptr', 'ptrtoint'):
            return self.loc(I.ops[0], st, depth + 1)
        if I.op == 'phi':
            r = set()
            for x in I.x.values():
                if not (x.k == 'inst' and x.name is I):
                    r |= self.loc(x, st, depth + 4)
            return r
        if I.op == 'select':
            return self.loc(I.ops[1], st, depth + 1) | self.loc(I.ops[2], st, depth + 1)
        return set()

    def cgep(self, v):
        off = 0
        t = v.name
        for k, o in enumerate(v.ops[1:]):
            if o.k != 'cint':
                return None
            n = sgn(o.v, o.ty.w)
            if k == 0:
                off += n * (t.asize or t.size)
            elif t.kind == 'struct':
                off += t.offs[n]
                t = t.fields[n]
            else:
                t = t.elem
                off += n * (t.asize or t.size)
        return off

    def root(self, v, depth=0):
        """instruction or value an address is computed from, through address arithmetic"""
        while v is not None and v.k == 'inst' and v.name.op in ('gep', 'bitcast', 'addrspacecast', 'freeze') and depth < 40:
            v = v.name.ops[0]
            depth += 1
        return v

    def private(self, v):
        r = self.root(v)
        if r is None or r.k != 'inst':
            return False
        I = r.name
        if I.op == 'alloca':
            return True
        return I.op == 'call' and I.callee.k == 'func' and I.callee.name in ('malloc', 'calloc')

    def public(self, c):
        return bool(re.match(r'(struct|union)\.(_?ffi_|_IO_|mntent)', c[0]))

    def cname(self, c):
        if c[0] == 'global':
            return c[1]
        fn = self.fieldnames().get((c[0], c[1]))
        return '%s.%s' % (re.sub(r'^(struct|union)\.', '', c[0]), fn or 'field%d' % c[1])

    def fieldnames(self):
        """(struct, index) -> name, read off the struct definitions for messages only"""
        if not hasattr(self, '_fn'):
            self._fn = {}
            import build, glob, os
            for p in glob.glob(os.path.join(build.REPO, 'src', '*.c')):
                t = re.sub(r'/\*.*?\*/|//[^\n]*', '', open(p, errors='replace').read(), flags=re.S)
                for m in re.finditer(r'struct\s+(\w+)\s*\{([^{}]*)\}', t):
                    body = re.sub(r'^\s*#.*$', '', m.group(2), flags=re.M)
                    for i, x in enumerate(x for x in body.split(';') if x.strip()):
                        n = re.search(r'(\w+)\s*(\[[^\]]*\])*\s*$', x)
                        if n:
                            self._fn[('struct.' + m.group(1), i)] = n.group(1)
        return self._fn

    # ---- values
    def ev(self, v, st):
        """('c', n) | ('F', f) | ('G', c) | ('B', bits) | ('cmp', kind, what, pred, n, w, negated) | ('loc', classes) | None"""
        if v.k == 'cint':
            return ('c', v.v)
        if v.k == 'cnull':
            return ('c', 0)
        if v.k == 'inst':
            return st.env.get(v.name)
        if v.k == 'arg':
            return st.env.get(v.name)
        if v.k in ('gvar', 'cexpr'):
            l = self.loc(v, st)
            if l:
                return ('loc', tuple(sorted(l)))
        return None

    def where(self, I):
        return irai.where(I)

    def err(self, rule, I, msg):
        self.errors.setdefault((rule, self.where(I), msg), 1)

    def access(self, st, v, rw, I, val=None):
        if self.private(v):
            r = self.root(v)
            if rw == 'w' and r.name.op == 'call':
                for c in self.loc(v, st):       # set up before anyone else knows it: it is written, in no need of a lock
                    self.acc.setdefault(c, set()).add(('p', self.where(I), st.locks, st.tok, st.ph))
            return
        for c in self.loc(v, st):
            if self.public(c):
                continue
            self.acc.setdefault(c, set()).add((rw, self.where(I), st.locks, st.tok, st.ph))
            if rw == 'w':
                for f in self.flags:
                    if f in st.ph and c[0] != f[0]:
                        st.dirty = st.dirty | {f}

    def acquire(self, st, l, I):
        if l in st.locks:
            self.err('no lock is taken while it is already held', I, '%s is taken while held' % self.cname(l))
            return
        for h in st.locks:
            self.edges.setdefault((h, l), self.where(I))
        st.locks = st.locks | {l}

    def release(self, st, l, I):
        if l not in st.locks:
            self.err('a lock is released only by who holds it', I, '%s is released while not held' % self.cname(l))
            return
        st.locks = st.locks - {l}
        for f, (fl, vals) in self.flags.items():
            if fl == l:
                if f in st.fv or f in st.ph:
                    # leaving a section that examined the flag: it is set, or nothing was done yet
                    cur = st.fv.get(f)
                    if (cur is not None and 0 not in cur) or f not in st.dirty:
                        st.tok = st.tok | {f}
                st.fv.pop(f, None)
                st.ph = st.ph - {f}
                st.dirty = st.dirty - {f}
                for k in [k for k, v in st.env.items() if v[0] in ('F', 'cmp') and f in v]:
                    del st.env[k]

    def setflag(self, st, f, cur):
        st.fv[f] = tuple(sorted(cur, key=str))
        if set(cur) == {0}:
            st.ph = st.ph | {f}
        elif 0 not in cur:      # the phase lasts until the lock is released
            st.tok = st.tok | {f}

    def refine(self, st, c, outcome):
        """c = ('cmp', kind, what, pred, n, w, neg); False if the outcome is impossible"""
        _, kind, what, pred, n, w, neg = c
        if neg:
            outcome = not outcome
        if kind == 'F':
            l, vals = self.flags[what]
            if l not in st.locks:
                return True
            cur = st.fv.get(what) or vals
            keep = []
            for v in cur:
                if v == '*':
                    if n == 0 and pred in ('eq', 'ne'):
                        if (pred == 'ne') == outcome:
                            keep.append(v)
                    else:
                        keep.append(v)
                elif cmpc(pred, v, n, w) == outcome:
                    keep.append(v)
            if not keep:
                return False
            self.setflag(st, what, keep)
        elif kind == 'G':
            for (g, init, f) in self.derived:
                if g == what and cmpc(pred, init, n, w) != outcome:
                    st.tok = st.tok | {f}
        return True

    # ---- instructions
    def liveness(self, fn):
        if fn in self.live:
            return self.live[fn]
        gen = {}
        for b in fn.blocks:
            u = set()
            d = set()
            for I in b.insts:
                if I.op != 'phi':
                    for o in list(I.ops or []) + ([I.callee] if I.callee is not None else []):
                        if o.k == 'inst' and o.name not in d:
                            u.add(o.name)
                d.add(I)
            gen[b] = (u, d)
        lin = {b: set() for b in fn.blocks}
        lout = {b: set() for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                o = set()
                for s in b.succs:
                    o |= lin[s]
                    for I in s.insts:
                        if I.op == 'phi':
                            v = I.x.get(b)
                            if v is not None and v.k == 'inst':
                                o.add(v.name)
                i = gen[b][0] | (o - gen[b][1])
                # values defined by phis of b are live-in of b's body
                if o != lout[b] or i != lin[b]:
                    lout[b], lin[b] = o, i
                    ch = True
        self.live[fn] = lout
        return lout

    def targets(self, v, st):
        if v.k == 'func':
            return [v.name]
        if v.k == 'cexpr' and v.ops:
            return self.targets(v.ops[0], st)
        if v.k in ('inlineasm',):
            return []
        if v.k == 'inst' and v.name.op == 'phi':
            r = []
            for x in v.name.x.values():
                r += self.targets(x, st)
            return r
        return None

    def fptrs(self, v, nargs):
        """candidates of an indirect call: the function pointers in the table it is loaded from, or every address-taken function of that shape"""
        names = set()
        if v.k == 'inst' and v.name.op == 'load':
            r = self.root(v.name.ops[0])
            if r.k == 'cexpr':
                while r.k == 'cexpr' and r.ops:
                    r = r.ops[0]
            if r.k == 'gvar' and r.name in self.globals and self.globals[r.name].init is not None:
                self.ptrs_in(self.globals[r.name].init, names)
                return sorted(names), True
        if not hasattr(self, '_taken'):
            t = set()
            for m in self.mods:
                for g in m.globals.values():
                    if g.init is not None:
                        self.ptrs_in(g.init, t)
            self._taken = t
        return sorted(n for n in self._taken if n in self.funcs and len(self.funcs[n].args) == nargs), False

    def ptrs_in(self, v, out):
        if v.k == 'func':
            out.add(v.name)
        for o in v.ops or []:
            self.ptrs_in(o, out)

    def call(self, I, st):
        """list of (state, returned value)"""
        tg = self.targets(I.callee, st)
        if tg is None:
            tg, exact = self.fptrs(I.callee, len(I.ops))
            if not tg:
                return [(st, None)]
        out = []
        for n in tg or ['?']:
            s = st.copy() if len(tg) > 1 else st
            out += self.call1(I, s, n)
        return out

    def lockof(self, v, st):
        l = self.loc(v, st)
        if len(l) == 1:
            return next(iter(l))
        raise Broken('which lock is meant at %s' % self.where(v.name if v.k == 'inst' else None) if v.k == 'inst' else 'which lock is meant')

    def call1(self, I, st, n):
        if n in LOCK or n in UNLOCK or n in TRY:
            self.lockops += 1
            l = self.lockof(I.ops[0], st)
            self.acc.setdefault(l, set()).add(('l', self.where(I), st.locks, st.tok, st.ph))
            if n in LOCK:
                self.acquire(st, l, I)
                return [(st, ('c', 0))]
            if n in UNLOCK:
                self.release(st, l, I)
                return [(st, ('c', 0))]
            s2 = st.copy()
            self.acquire(st, l, I)
            return [(st, ('c', 0)), (s2, ('c', 16))]
        if n in ('pthread_mutex_init', 'pthread_mutex_destroy'):
            self.access(st, I.ops[0], 'w', I)
            return [(st, ('c', 0))]
        if n.startswith('llvm.memset'):
            self.access(st, I.ops[0], 'w', I)
            return [(st, None)]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.access(st, I.ops[0], 'w', I)
            self.access(st, I.ops[1], 'r', I)
            return [(st, None)]
        if n in NORET and n not in self.funcs:
            return []
        f = self.funcs.get(n)
        if f is None or f not in self.relevant():
            return [(st, None)]
        args = []
        for k, o in enumerate(I.ops[:len(f.args)]):
            x = self.ev(o, st)
            if x is None and o.k == 'inst' and o.ty is not None and o.ty.kind == 'ptr':
                l = self.loc(o, st)
                if l and not self.private(o):
                    x = ('loc', tuple(sorted(l)))
            args.append(x if self.argctx(x) else None)
        outs = []
        for (o, rv) in self.summary(f, st.outer(), tuple(args)):
            s = State(*o[:4], env=dict(st.env), dirty=o[4], x=o[5])
            # bindings to flags whose section ended or changed are dropped
            for k in [k for k, v in s.env.items() if v[0] in ('F', 'cmp') and s.fv.get(v[1] if v[0] == 'F' else v[2]) != st.fv.get(v[1] if v[0] == 'F' else v[2])]:
                del s.env[k]
            outs.append((s, rv))
        return outs

    def argctx(self, x):
        return x is not None and x[0] in ('c', 'loc')

    def summary(self, f, outer, args):
        key = (f, outer, args)
        if key in self.summ:
            if key in self.stack:
                self.recursed = True
            return list(self.summ[key])
        self.summ[key] = set()
        self.stack.append(key)
        self.seenf.add(f.name)
        for rnd in range(20):
            before = set(self.summ[key])
            self.recursed = False
            self.body(f, outer, args, key)
            if not self.recursed or self.summ[key] == before:
                break
        self.stack.pop()
        return list(self.summ[key])

    def body(self, f, outer, args, key):
        st = State(outer[0], outer[1], outer[2], outer[3], {}, outer[4], outer[5])
        for a, x in zip(f.args, args):
            if x is not None:
                st.env[a.name] = x
        live = self.liveness(f)
        todo = [(f.blocks[0], None, st)]
        seen = {}
        steps = 0
        while todo:
            b, pred, st = todo.pop()
            # phis
            if pred is not None:
                new = {}
                for I in b.insts:
                    if I.op != 'phi':
                        break
                    v = I.x[pred]
                    x = self.ev(v, st)
                    if x is None and v.ty is not None and v.ty.kind == 'ptr':
                        pass
                    new[I] = x
                for I, x in new.items():
                    if x is None:
                        st.env.pop(I, None)
                    else:
                        st.env[I] = x
            k = st.key()
            if k in seen.setdefault(b, set()):
                continue
            seen[b].add(k)
            steps += 1
            if steps > 60000:
                raise Broken('too many lock states in %s' % f.name)
            for s, succ in self.block(f, b, st, key):
                lo = live[b]
                s.env = {q: v for q, v in s.env.items() if not isinstance(q, irai.llvmc.Inst) or q in lo}
                self.edge(f, s, outer)
                todo.append((succ, b, s))

    def edge(self, f, st, outer):
        pass

    def block(self, f, b, st, key):
        states = [st]
        for I in b.insts:
            if I.op == 'phi':
                continue
            nxt = []
            for s in states:
                if I.op == 'call':
                    for s2, rv in self.call(I, s):
                        if rv is None:
                            s2.env.pop(I, None)
                        else:
                            s2.env[I] = rv
                        nxt.append(s2)
                    continue
                self.inst(I, s)
                nxt.append(s)
            # merge equal states
            if len(nxt) > 1:
                u = {}
                for s in nxt:
                    u.setdefault(s.key(), s)
                nxt = list(u.values())
            states = nxt
            if not states:
                return []
        T = b.insts[-1]
        out = []
        for s in states:
            if T.op == 'ret':
                rv = self.ev(T.ops[0], s) if T.ops else None
                if rv is None and T.ops and T.ops[0].k == 'inst' and T.ops[0].ty.kind == 'ptr':
                    l = self.loc(T.ops[0], s)
                    if l and not self.private(T.ops[0]):
                        rv = ('loc', tuple(sorted(l)))
                self.summ[key].add((s.outer(), rv))
                self.rets.setdefault(key, {}).setdefault(s.outer(), self.where(T))
            elif T.op == 'br':
                if len(T.x) == 1:
                    out.append((s, T.x[0]))
                    continue
                c = self.ev(T.ops[0], s)
                if c is not None and c[0] == 'c':
                    out.append((s, T.x[0] if c[1] & 1 else T.x[1]))
                    continue
                for o, tgt in ((True, T.x[0]), (False, T.x[1])):
                    s2 = s.copy()
                    if c is not None and c[0] == 'cmp' and not self.refine(s2, c, o):
                        continue
                    if T.ops[0].k == 'inst':
                        s2.env[T.ops[0].name] = ('c', 1 if o else 0)
                    out.append((s2, tgt))
            elif T.op == 'switch':
                c = self.ev(T.ops[0], s)
                w = T.ops[0].ty.w
                if c is not None and c[0] == 'c':
                    t = [x for v, x in T.x[1] if v == c[1]]
                    out.append((s, t[0] if t else T.x[0]))
                    continue
                kind = c if c is not None and c[0] in 'FG' else None
                for v, x in T.x[1]:
                    s2 = s.copy()
                    if kind and not self.refine(s2, ('cmp', kind[0], kind[1], 'eq', v, w, False), True):
                        continue
                    out.append((s2, x))
                s2 = s.copy()
                ok = True
                for v, x in T.x[1]:
                    if kind and not self.refine(s2, ('cmp', kind[0], kind[1], 'eq', v, w, False), False):
                        ok = False
                        break
                if ok:
                    out.append((s2, T.x[0]))
            elif T.op == 'unreachable':
                pass
            else:
                raise Broken('terminator %s in %s' % (T.op, f.name))
        return out

    def inst(self, I, st):
        op = I.op
        r = None
        if op == 'load':
            if not I.atomic:
                self.access(st, I.ops[0], 'r', I)
            l = self.loc(I.ops[0], st)
            if len(l) == 1:
                c = next(iter(l))
                if c in self.flags and self.flags[c][0] in st.locks:
                    r = ('F', c)
                    cur = st.fv.get(c)
                    if cur and len(cur) == 1 and cur[0] != '*':
                        r = ('c', cur[0])
                    elif c not in st.fv:
                        st.fv[c] = self.flags[c][1]
                elif any(d[0] == c for d in self.derived):
                    r = ('G', c)
                elif c in self.bits and (st.tok or self.first):
                    r = ('B', self.bits[c])
        elif op in ('store', 'atomicrmw', 'cmpxchg'):
            p = I.ops[1] if op == 'store' else I.ops[0]
            if not I.atomic:
                self.access(st, p, 'w', I)
            for c in self.loc(p, st):
                if self.private(p):
                    continue
                v = self.ev(I.ops[0], st) if op == 'store' else None
                for k in [k for k, x in st.env.items() if x[0] in ('F', 'G') and x[1] == c or x[0] == 'cmp' and x[2] == c]:
                    del st.env[k]
                if c in self.flags:
                    if self.flags[c][0] in st.locks:
                        self.setflag(st, c, (v[1],) if v and v[0] == 'c' else ('*',))
                    else:
                        st.fv.pop(c, None)
                for (g, init, f) in self.derived:
                    if g == c and not (v is not None and v[0] == 'c' and v[1] == init) and f not in st.tok:
                        self.badstores.add((g, init, f))
        elif op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
            x = self.ev(I.ops[0], st)
            if x is not None:
                if x[0] == 'c':
                    v = x[1]
                    if op == 'sext':
                        v = sgn(v, I.ops[0].ty.w)
                    r = ('c', v & ((1 << (I.ty.w or 64)) - 1))
                elif x[0] == 'cmp' or (x[0] in ('F', 'G') and op != 'trunc') or x[0] == 'loc':
                    r = x
                elif x[0] == 'B':
                    r = x
        elif op == 'icmp':
            a, b = self.ev(I.ops[0], st), self.ev(I.ops[1], st)
            w = I.ops[0].ty.w or 64
            pred = I.x
            if a is not None and a[0] == 'c' and (b is None or b[0] != 'c'):
                a, b = b, a
                pred = {'ugt': 'ult', 'uge': 'ule', 'ult': 'ugt', 'ule': 'uge', 'sgt': 'slt', 'sge': 'sle', 'slt': 'sgt', 'sle': 'sge'}.get(pred, pred)
            if a is not None and b is not None and b[0] == 'c':
                if a[0] == 'c':
                    r = ('c', int(cmpc(pred, a[1], b[1], w)))
                elif a[0] in ('F', 'G'):
                    r = ('cmp', a[0], a[1], pred, b[1], w, False)
                elif a[0] == 'cmp' and b[1] == 0 and pred in ('eq', 'ne'):
                    r = a[:6] + (a[6] ^ (pred == 'eq'),)
                elif a[0] == 'B' and b[1] == 0 and a[1] and pred in ('eq', 'ne'):
                    r = ('c', int(pred == 'ne'))
                elif a[0] == 'loc' and b[1] == 0 and pred in ('eq', 'ne') and self.root(I.ops[0]).k in ('gvar', 'cexpr'):
                    r = ('c', int(pred == 'ne'))
        elif op in ('and', 'or', 'xor'):        # results of other arithmetic (loop counters) are not followed
            a, b = self.ev(I.ops[0], st), self.ev(I.ops[1], st)
            m = (1 << I.ty.w) - 1
            if a is not None and b is not None and a[0] == 'c' and b[0] == 'c':
                f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
                r = ('c', f(a[1], b[1]) & m)
            elif op in ('and', 'or') and I.ty.w == 1:
                for x in (a, b):
                    if x is not None and x[0] == 'c' and x[1] == (0 if op == 'and' else 1):
                        r = x
            elif op == 'xor' and a is not None and a[0] == 'cmp' and b is not None and b == ('c', 1):
                r = a[:6] + (not a[6],)
            elif op == 'and':
                for x, y in ((a, b), (b, a)):
                    if x is not None and x[0] == 'B' and y is not None and y[0] == 'c' and x[1] & y[1]:
                        r = ('B', x[1] & y[1])
        elif op == 'select':
            c = self.ev(I.ops[0], st)
            if c is not None and c[0] == 'c':
                r = self.ev(I.ops[1 if c[1] & 1 else 2], st)
            else:
                x, y = self.ev(I.ops[1], st), self.ev(I.ops[2], st)
                if x is not None and x == y:
                    r = x
                elif c is not None and c[0] == 'cmp' and x is not None and y is not None and x[0] == 'c' and y[0] == 'c' and bool(x[1]) != bool(y[1]):
                    r = c if x[1] else c[:6] + (not c[6],)
        elif op == 'gep' or op == 'inttoptr' or op == 'ptrtoint':
            r = None
        if r is None:
            st.env.pop(I, None)
        else:
            st.env[I] = r

    # ---- whole program
    def roots(self):
        called = set()
        for f in self.funcs.values():
            for b in f.blocks:
                for I in b.insts:
                    for o in list(I.ops or []) + ([I.callee] if I.callee is not None else []):
                        if o.k == 'func':
                            called.add(o.name)
        r = []
        for n, f in sorted(self.funcs.items()):
            if f.linkage in (8, 9):      # internal, private
                continue
            if f.vis == 0 or n not in called:
                r.append(f)
        return r

    def scan(self):
        """once-flag candidates, flag bits, publication candidates: from all stores in the program"""
        stores = {}
        st = State()
        reach = self.reachable()
        for f in reach:
            for b in f.blocks:
                for I in b.insts:
                    if I.op == 'store' and not self.private(I.ops[1]):
                        for c in self.loc(I.ops[1], st):
                            stores.setdefault(c, []).append(I)
        self.stores = stores
        tested = self.tested = set()
        for f in reach:
            for b in f.blocks:
                for I in b.insts:
                    if I.op in ('icmp', 'switch'):
                        for o in I.ops[:2]:
                            while o.k == 'inst' and o.name.op in ('zext', 'sext', 'trunc', 'freeze', 'and'):
                                o = o.name.ops[0]
                            if o.k == 'inst' and o.name.op == 'load':
                                tested |= self.loc(o.name.ops[0], st)
        zero = {}
        for n, g in self.globals.items():
            if g.const or g.init is None:
                continue
            self.inits(g.ty, g.init, zero, n)
        self.initv = zero
        cands = {}
        for c, v in zero.items():
            if v != {0} or c not in stores or c not in tested:
                continue
            vals = {0}
            ok = True
            for I in stores[c]:
                o = I.ops[0]
                if o.ty.kind != 'int':
                    ok = False
                elif o.k == 'cint':
                    if o.v == 0:
                        ok = False
                    vals.add(o.v)
                else:
                    vals.add('*')
                    # a counter or anything computed from itself is no flag
                    if o.k == 'inst' and o.name.op in ('add', 'sub', 'or', 'and', 'xor', 'phi', 'select', 'trunc', 'zext', 'sext'):
                        ok = False
            if ok:
                cands[c] = tuple(sorted(vals, key=str))
        # bits set by every store
        def bits(v, c, seen):
            if v.k == 'cint':
                return v.v
            if v.k != 'inst':
                return 0
            I = v.name
            if I.op == 'load':
                l = self.loc(I.ops[0], st)
                if len(l) != 1:
                    return 0
                c2 = next(iter(l))
                if c2 == c:
                    return ~0
                if c2 in seen or c2 not in stores:
                    return 0
                r = ~0
                for S in stores[c2]:
                    r &= bits(S.ops[0], c2, seen | {c2})
                return r
            if I.op == 'or':
                return bits(I.ops[0], c, seen) | bits(I.ops[1], c, seen)
            if I.op == 'and':
                return bits(I.ops[0], c, seen) & bits(I.ops[1], c, seen)
            if I.op in ('zext', 'freeze'):
                return bits(I.ops[0], c, seen)
            return 0
        self.bits = {}
        for c, ss in stores.items():
            r = ~0
            for S in ss:
                r &= bits(S.ops[0], c, {c}) if S.ops[0].ty.kind == 'int' else 0
            r &= 0xffffffff
            if r and ss and r != 0xffffffff:
                self.bits[c] = r
        return cands

    def inits(self, t, v, out, gname, top=True):
        """class -> set of initial values, over all global instances"""
        if t.kind == 'struct' and self.tyname(t):
            for i, ft in enumerate(t.fields):
                fv = None
                if v is not None and v.k == 'cstruct':
                    fv = v.ops[i]
                elif v is None or v.k == 'czero':
                    fv = None
                if ft.kind in ('int', 'ptr'):
                    x = 0 if fv is None or fv.k in ('cnull', 'czero') else fv.v if fv.k == 'cint' else '?'
                    out.setdefault((self.tyname(t), i), set()).add(x)
                else:
                    self.inits(ft, fv, out, gname, False)
        elif top and t.kind in ('int', 'ptr'):
            out.setdefault(('global', gname), set()).add(v.v if v is not None and v.k == 'cint' else 0 if v is None or v.k in ('cnull', 'czero') else '?')

    def relevant(self):
        """functions that may, directly or not, take a lock or touch shared bookkeeping"""
        if hasattr(self, '_rel'):
            return self._rel
        rel, callers = set(), {}
        st = State()
        for f in self.funcs.values():
            for b in f.blocks:
                for I in b.insts:
                    if I.op == 'call':
                        tg = self.targets(I.callee, st)
                        if tg is None:
                            tg, _ = self.fptrs(I.callee, len(I.ops))
                        for n in tg:
                            if n in LOCK or n in UNLOCK or n in TRY:
                                rel.add(f)
                            elif n in self.funcs:
                                callers.setdefault(self.funcs[n], set()).add(f)
                        ps = [o for o in I.ops if o.ty is not None and o.ty.kind == 'ptr']
                    elif I.op in ('load', 'store', 'cmpxchg', 'atomicrmw'):
                        ps = [I.ops[1] if I.op == 'store' else I.ops[0]]
                        if self.root(ps[0]).k == 'arg':
                            # an address handed in
                            rel.add(f) if not self.loc(ps[0], st) else None
                    else:
                        continue
                    for p in ps:
                        if not self.private(p) and any(not self.public(c) for c in self.loc(p, st)):
                            rel.add(f)
        # a function that only works on an address handed in matters when a caller hands shared ones
        todo = list(rel)
        while todo:
            f = todo.pop()
            for g in callers.get(f, ()):
                if g not in rel:
                    rel.add(g)
                    todo.append(g)
        self._rel = rel
        return rel

    def reachable(self):
        todo = list(self.roots())
        seen = set(todo)
        while todo:
            f = todo.pop()
            for b in f.blocks:
                for I in b.insts:
                    if I.op != 'call':
                        continue
                    tg = self.targets(I.callee, State())
                    if tg is None:
                        tg, _ = self.fptrs(I.callee, len(I.ops))
                    for n in tg:
                        g = self.funcs.get(n)
                        if g is not None and g not in seen:
                            seen.add(g)
                            todo.append(g)
        return sorted(seen, key=lambda f: f.name)

    def drive(self):
        self.reset()
        self.rets = {}
        self.held = {}
        for f in self.roots():
            o = State().outer()
            args = tuple(None for a in f.args)
            for (out, rv) in self.summary(f, o, args):
                if out[0]:
                    self.held.setdefault((f.name, tuple(sorted(self.cname(l) for l in out[0]))),
                                         self.rets.get((f, o, args), {}).get(out))
                else:
                    self.held.setdefault((f.name, ()), None)

    def solve(self):
        cands = self.scan()
        # first pass without flags: which lock covers all writes of each candidate
        self.flags, self.derived = {}, set()
        self.first = True
        self.drive()
        self.first = False
        for c, vals in cands.items():
            ws = [a for a in self.acc.get(c, ()) if a[0] == 'w']
            if not ws:
                continue
            common = frozenset.intersection(*[a[2] for a in ws])
            if len(common) == 1:
                self.flags[c] = (next(iter(common)), vals)
        # publication: a global with a constant initial value, changed only by threads that have a token
        for rnd in range(12):
            if rnd == 0:
                self.derived = set()
                for c, v in self.initv.items():
                    if len(v) == 1 and '?' not in v and c in self.stores and c in self.tested and c not in self.flags:
                        ws = [a for a in self.acc.get(c, ())]
                        if ws and frozenset.intersection(*[a[2] for a in ws]):
                            for f in self.flags:
                                if f[0] != c[0] or c[0] == 'global':
                                    self.derived.add((c, next(iter(v)), f))
            self.drive()
            if not self.badstores:
                break
            for k in self.badstores:
                self.derived.discard(k)
        else:
            raise Broken('publication rules do not settle')
