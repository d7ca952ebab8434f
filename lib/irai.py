"""Abstract interpretation of LLVM IR with trace partitioning on constants.

Values are the terms of terms.py; a path carries intervals and linear literals
(Facts).  Memory is a write log per object.  Calls to defined functions are
interpreted in their calling context.  A loop whose controlling exit is not
decided is generalised: every loop-carried location becomes invariant, an
induction (init + c*ITER), a finite constant partition, a term related to a
specification variable, or an unconstrained symbol, and the body is interpreted
again until that assignment is inductive.  The client sees every iteration of a
generalised loop as a transition from an arbitrary head state."""
import re
import sys
from build import Broken
from terms import *
import llvmc

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class St:
    __slots__ = ('f', 'mem', 'ev', 'g', 'loc', 'seq', 'depth', 'trace')

    def __init__(self):
        self.f = Facts()
        self.mem = {}
        self.ev = []
        self.g = {}
        self.loc = {}
        self.seq = 0
        self.depth = ()
        self.trace = ()

    def copy(self):
        s = St()
        s.f = self.f.copy()
        s.mem = dict(self.mem)
        s.ev = list(self.ev)
        s.g = dict(self.g)
        s.loc = dict(self.loc)
        s.seq = self.seq
        s.depth = self.depth
        s.trace = self.trace
        return s


class Ev:
    """An observable step of a path."""
    __slots__ = ('k', 'base', 'off', 'n', 'val', 'src', 'soff', 'slog', 'name', 'args', 'ret', 'inst')

    def __init__(self, k, inst, **kw):
        self.k = k
        self.inst = inst
        self.base = self.off = self.n = self.val = self.src = self.soff = self.slog = self.name = self.args = self.ret = None
        for a, b in kw.items():
            setattr(self, a, b)

    def __repr__(self):
        w = where(self.inst)
        if self.k in ('store', 'load'):
            return '%s %s+%s n=%s val=%s [%s]' % (self.k, self.base, self.off, self.n, self.val, w)
        if self.k == 'copy':
            return 'copy %s+%s n=%s <- %s+%s [%s]' % (self.base, self.off, self.n, self.src, self.soff, w)
        return '%s %s%s [%s]' % (self.k, self.name, self.args, w)


def where(inst):
    if inst is None:
        return '?'
    f = inst.file or ''
    i = f.find('src/')
    return '%s:%s (%s)' % (f[i:] if i >= 0 else f.split('/')[-1], inst.line, inst.fn.name)


_unset = {}


def unset(t):
    """does the term depend on a variable nobody set?"""
    if isc(t) or t.op == 'sym':
        return False
    r = _unset.get(t)
    if r is None:
        if len(_unset) > 100000:
            _unset.clear()
        r = _unset[t] = any(a.op == 'undef' for a in atoms_of(t))
    return r


class Client:
    """Analysis-specific semantics; every hook may be left alone."""

    ghost_mode = {}

    def init_load(self, st, base, off, n, isptr, inst):
        """value of memory nobody wrote on this path; None: a fresh atom.
        May return a list of (state, value) alternatives."""
        return None

    def call(self, ai, st, name, fn, args, inst):
        """None: default treatment.  Otherwise a list of (state, return value)."""
        return None

    def indirect(self, ai, st, target, args, inst):
        return None

    def head(self, ai, st, loop, it):
        """called when a loop is generalised: may constrain st.f; returns candidate
        invariants [(c, ((atom, k), ...))] (>= 0) to be checked inductively"""
        return []

    def head_sym(self, ai, st, key, s):
        """a loop-carried location became the fresh symbol s"""

    def transition(self, ai, loop, head, back):
        """one iteration of a generalised loop went from state head to state back"""

    def loop_exit(self, ai, loop, head, ex):
        pass

    def end(self, ai, kind, st, inst):
        """a path ended abnormally (abort, unreachable)"""

    def event(self, ai, st, ev):
        pass

    def unset(self, ai, st, inst, addr):
        """an address depends on a variable nobody set"""

    def branched(self, ai, st, inst, cnd):
        """the path depends on cnd"""


class Modes(dict):
    def __init__(self):
        dict.__init__(self)
        self.tried = {}
        self.badc = set()
        self.nobase = set()


class Loopctx:
    def __init__(self, loop, mode):
        self.loop = loop
        self.mode = mode
        self.count = 0


NORETURN = {'abort', '__assert_fail', 'exit', '_exit', 'ffi_assert', 'llvm.trap', '__stack_chk_fail'}


class AI:
    def __init__(self, mods, client, log_loads=False):
        self.mods = mods
        self.c = client
        self.log_loads = log_loads
        self.ext = {}
        for m in mods:
            for f in m.funcs.values():
                if not f.decl and f.linkage not in (8, 9):
                    self.ext[f.name] = f
        self.active = []
        self.steps = 0
        self.max_steps = 6000000
        self.visited = set()
        self.nloops = 0
        self.ntrans = 0
        self.nonce = 0
        self.unroll_cap = 48
        self.unroll_width = 400
        self.part_cap = 4000

    # ---------------------------------------------------------------- operands
    def gsym(self, name, mod):
        for pre in ('', ):
            pass
        f = mod.funcs.get(name)
        g = mod.globals.get(name)
        stat = (f is not None and f.linkage in (8, 9)) or (g is not None and g.linkage in (8, 9))
        al = 1
        if g is None and f is None:
            pass
        key = '@' + name
        if stat:
            # statics of different units never alias
            n = [m for m in self.mods if (name in m.globals and m.globals[name].linkage in (8, 9)) or
                 (name in m.funcs and m.funcs[name].linkage in (8, 9))]
            if len(n) > 1:
                key = '@%s.%d' % (name, self.mods.index(mod))
        if g is not None:
            al = max(1, g.align or 1)
        t = sym(key, 64, True, al)
        self.globs = getattr(self, 'globs', {})
        self.globs.setdefault(t, (mod, name))
        return t

    def opval(self, st, v, mod):
        k = v.k
        if k == 'cint':
            return const(v.ty.w, v.v)
        if k == 'inst':
            t = st.loc.get(v.name)
            if t is None:
                raise Broken('use of undefined value in %s' % where(v.name))
            return t
        if k == 'arg':
            return st.loc[v]
        if k == 'cnull':
            return const(64, 0)
        if k in ('func', 'gvar'):
            return self.gsym(v.name, mod)
        if k == 'alias':
            return self.gsym(v.name, mod)
        if k in ('undef', 'poison'):
            return atom('undef', v.ty.w or 64, 'u')
        if k == 'czero':
            return const(v.ty.w or v.ty.size * 8, 0)
        if k == 'cexpr':
            return self.cexpr(st, v, mod)
        if k == 'cfp':
            return atom('fp', v.ty.w, v.v)
        if k in ('metadata', 'inlineasm', 'bb'):
            return None
        raise Broken('operand kind %s' % k)

    def cexpr(self, st, v, mod):
        op = v.v
        if op == 'gep':
            base = self.opval(st, v.ops[0], mod)
            return self.gep(st, v.name, base, [self.opval(st, o, mod) for o in v.ops[1:]])
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return self.opval(st, v.ops[0], mod)
        if op in ('add', 'sub'):
            a, b = [self.opval(st, o, mod) for o in v.ops]
            return add(a, b) if op == 'add' else sub(a, b)
        if op == 'icmp':
            a, b = [self.opval(st, o, mod) for o in v.ops]
            return eqb(a, b, st.f)
        raise Broken('constant expression %s' % op)

    def gep(self, st, ty, base, idx):
        t = base
        first = True
        cur = ty
        for i in idx:
            if first:
                t = add(t, mulc(st.f.sext(i, 64), cur.asize))
                first = False
                continue
            if cur.kind == 'struct':
                t = addc(t, cur.offs[cv(i)])
                cur = cur.fields[cv(i)]
            elif cur.kind in ('array', 'vector'):
                cur = cur.elem
                t = add(t, mulc(st.f.sext(i, 64), cur.asize))
            else:
                raise Broken('gep into %s' % cur.kind)
        return t

    # ---------------------------------------------------------------- memory
    def split(self, st, p):
        """(base atom, offset) of an address"""
        if p.op == 'lin':
            c, ps = p.a
            b = None
            for a, k in ps:
                if a.ptr and k == 1:
                    b = a
                    break
            if b is None:
                cand = [a for a, k in ps if k == 1]
                if len(cand) == 1:
                    b = cand[0]
            if b is None:
                return None, p
            d = dict(ps)
            del d[b]
            return b, lin(64, c, d)
        if p.op == 'c':
            return None, p
        return p, const(64, 0)

    def write(self, st, base, off, n, val):
        log = st.mem.get(base, ())
        if isc(off):
            o = cv(off)
            keep = []
            for e in log:
                if e[0] == 'st' and isc(e[1]) and cv(e[1]) >= o and cv(e[1]) + e[2] <= o + n:
                    continue
                keep.append(e)
            log = tuple(keep)
        else:
            log = tuple(e for e in log if not (e[0] == 'st' and e[1] is off and e[2] <= n))
        st.mem[base] = log + (('st', off, n, val),)

    def havoc(self, st, base, tag):
        st.mem[base] = (('hv', const(64, 0), None, tag, st.mem.get(base, ())),)

    def read(self, st, base, off, n, isptr, inst, log=None, upto=None):
        """list of (state, term)"""
        w = 8 * n
        if log is None:
            log = st.mem.get(base, ())
        f = st.f
        i = len(log) if upto is None else upto
        while i > 0:
            i -= 1
            e = log[i]
            if e[0] == 'hv':
                h = getattr(self.c, 'hv_load', None)
                if h is not None:
                    r = h(self, st, base, off, n, isptr, e[3], inst)
                    if r is not None:
                        return r
                t = atom('hv', w, base, off, e[3])
                if isptr:
                    t.ptr = True
                r = self.c.init_load(st, base, off, n, isptr, inst) if e[3] == 'init' else None
                return [(st, t)]
            d = sub(off, e[1])
            if e[0] == 'st':
                ln = e[2]
                if isc(d):
                    dv = sgn(cv(d), 64)
                    if dv == 0 and ln == n:
                        return [(st, e[3])]
                    if 0 <= dv and dv + n <= ln:
                        return [(st, trunc(lshr(e[3], const(ln * 8, 8 * dv), f), w))]
                    if dv >= ln or dv + n <= 0:
                        continue
                    # the entry covers a part of the range
                    lo = max(0, -dv)
                    hi = min(n, ln - dv)
                    pieces = []
                    s = lo + dv
                    pieces.append((lo, hi - lo, trunc(lshr(e[3], const(ln * 8, 8 * s), f), 8 * (hi - lo))))
                    ok = True
                    for a, b in ((0, lo), (hi, n)):
                        if a < b:
                            r = self.read(st, base, addc(off, a), b - a, False, inst, log, i)
                            if len(r) != 1:
                                ok = False
                                break
                            pieces.append((a, b - a, r[0][1]))
                    if ok:
                        t = const(w, 0)
                        for a, b, v in pieces:
                            t = add(t, mulc(f.zext(v, w), 1 << (8 * a)))
                        return [(st, t)]
                else:
                    i1 = f._int(sub(d, const(64, ln)), True)
                    if i1 and f.pge(*i1):
                        continue
                    i2 = f._int(sub(neg(d), const(64, n)), True)
                    if i2 and f.pge(*i2):
                        continue
            elif e[0] in ('cp', 'set'):
                ln = e[2]
                i0 = f._int(d, True)
                i1 = f._int(sub(d, ln), True)
                if i1 and f.pge(*i1):
                    continue
                i2 = f._int(sub(neg(d), const(64, n)), True)
                if i2 and f.pge(*i2):
                    continue
                i3 = f._int(sub(ln, addc(d, n)), True)
                if i0 and f.pge(*i0) and i3 and f.pge(*i3):
                    if e[0] == 'set':
                        v = e[3]
                        if isc(v):
                            return [(st, const(w, int.from_bytes(bytes([cv(v) & 255]) * n, 'little')))]
                    else:
                        return self.read(st, e[3], add(e[4], d), n, isptr, inst, e[5])
            t = atom('ld', w, base, off, log[:i + 1])
            if isptr:
                t.ptr = True
            return [(st, t)]
        if base.op == 'sym' and isinstance(base.a[0], str) and base.a[0].startswith('%'):
            return [(st, atom('undef', w, base, off))]
        r = self.c.init_load(st, base, off, n, isptr, inst)
        if isinstance(r, list):
            return r
        if r is not None:
            return [(st, r)]
        g = getattr(self, 'globs', {}).get(base)
        if g is not None and isc(off):
            gm = g[0]
            gv = gm.globals.get(g[1])
            if gv is not None and gv.init is None:
                for m2 in self.mods:
                    g2 = m2.globals.get(g[1])
                    if g2 is not None and g2.init is not None and g2.linkage not in (8, 9):
                        gm, gv = m2, g2
            if gv is not None and gv.const and gv.init is not None:
                v = self.ginit(st, gv.init, cv(off), n, gm)
                if v is not None:
                    return [(st, v)]
        t = atom('init', w, base, off)
        if isptr:
            t.ptr = True
        return [(st, t)]

    def ginit(self, st, v, off, n, mod):
        """scalar of n bytes at byte offset off in a constant initialiser"""
        ty = v.ty
        if v.k == 'czero' or v.k == 'cnull' and ty.size >= n:
            return const(8 * n, 0)
        if ty.kind == 'struct' and v.ops:
            for i, o in enumerate(ty.offs):
                if o <= off and off + n <= o + ty.fields[i].size:
                    return self.ginit(st, v.ops[i], off - o, n, mod)
            return None
        if ty.kind == 'array' and v.ops:
            es = ty.elem.asize
            i = off // es
            if off + n <= (i + 1) * es:
                return self.ginit(st, v.ops[i], off - i * es, n, mod)
            b = 0
            for k in range(n):
                x = self.ginit(st, v, off + k, 1, mod)
                if x is None or not isc(x):
                    return None
                b |= cv(x) << (8 * k)
            return const(8 * n, b)
        if ty.kind in ('int', 'ptr'):
            t = self.opval(st, v, mod)
            if off == 0 and t.w == 8 * n:
                return t
            if isc(t):
                return const(8 * n, cv(t) >> (8 * off))
        return None

    # ---------------------------------------------------------------- running
    def run(self, fn, st, args):
        """interpret fn; list of (state, return value)"""
        return self.call(st, fn, args, None)

    def call(self, st, fn, args, inst):
        if len(st.depth) > 24:
            raise Broken('call depth in %s' % fn.name)
        if fn.irreducible:
            raise Broken('irreducible control flow in %s' % fn.name)
        self.visited.add(fn.name)
        saved = st.loc
        sd = st.depth
        st = st.copy()
        st.loc = {}
        st.depth = sd + (fn.name,)
        for p, a in zip(fn.args, args):
            st.loc[p] = a
        sa = self.active
        self.active = []
        out = {'ret': [], 'exit': [], 'back': []}
        try:
            self.region(fn, [(st, fn.blocks[0], None)], None, out)
        finally:
            self.active = sa
        res = []
        for s, v in out['ret']:
            s.loc = dict(saved)
            s.depth = sd
            res.append((s, v))
        return res

    def region(self, fn, work, ctx, out):
        work = list(work)
        heads = fn.loops
        while work:
            st, b, p = work.pop()
            if ctx is not None:
                if b is ctx.loop.head and p is not None:
                    out['back'].append((st, p))
                    if ctx.mode == 'unroll':
                        continue
                    continue
                if b not in ctx.loop.blocks:
                    out['exit'].append((st, b, p))
                    continue
            lp = heads.get(b)
            if lp is not None and not (ctx is not None and lp is ctx.loop):
                work.extend(self.loop(fn, lp, st, p, out))
                continue
            work.extend(self.block(fn, st, b, p, out))

    def phis(self, st, b, p):
        vals = []
        mod = b.fn.mod
        for I in b.insts:
            if I.op != 'phi':
                break
            vals.append((I, self.opval(st, I.x[p], mod)))
        return vals

    def block(self, fn, st, b, p, out, skip_phi=False):
        """interpret one block; returns successor work items"""
        if not skip_phi and p is not None:
            for I, v in self.phis(st, b, p):
                st.loc[I] = v
        return self.insts(fn, [(st, 0)], b, out)

    def insts(self, fn, todo, b, out):
        mod = fn.mod
        res = []
        todo = list(todo)
        n = len(b.insts)
        while todo:
            st, i = todo.pop()
            while i < n:
                I = b.insts[i]
                op = I.op
                if op == 'phi':
                    i += 1
                    continue
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Broken('analysis budget exceeded in %s' % where(I))
                if op == 'br':
                    if not I.ops:
                        res.append((st, I.x[0], b))
                    else:
                        res.extend(self.branch(st, I, b))
                    st = None
                    break
                if op == 'switch':
                    res.extend(self.switch(st, I, b))
                    st = None
                    break
                if op == 'ret':
                    out['ret'].append((st, self.opval(st, I.ops[0], mod) if I.ops else None))
                    st = None
                    break
                if op == 'unreachable':
                    self.c.end(self, 'unreachable', st, I)
                    st = None
                    break
                r = self.step(st, I, mod)
                i += 1
                if r is None:
                    continue
                # r: list of alternative states
                if not r:
                    st = None
                    break
                for s in r[1:]:
                    todo.append((s, i))
                st = r[0]
        return res

    def branch(self, st, I, b):
        cnd = self.opval(st, I.ops[0], I.fn.mod)
        self.c.branched(self, st, I, cnd)
        outs = []
        for cs in self.decide(st, cnd):
            s, v = cs
            t = I.x[0] if v else I.x[1]
            outs.append((s, t, b))
        if len(outs) > 1:
            self.note_fork(I, b)
        return outs

    def decide(self, st, cnd):
        """fork st on a boolean; list of (state, bool)"""
        t = st.f.truth(cnd)
        if t is not None:
            return [(st, t)]
        if cnd.op == 'not':
            return [(s, not v) for s, v in self.decide(st, cnd.a[0])]
        if cnd.op == 'band':
            r = []
            for s, v in self.decide(st, cnd.a[0]):
                r.extend(self.decide(s, cnd.a[1]) if v else [(s, False)])
            return r
        if cnd.op == 'bor':
            r = []
            for s, v in self.decide(st, cnd.a[0]):
                r.extend([(s, True)] if v else self.decide(s, cnd.a[1]))
            return r
        s2 = st.copy()
        r = []
        if st.f.assume(cnd, True):
            r.append((st, True))
        if s2.f.assume(cnd, False):
            r.append((s2, False))
        return r

    def note_fork(self, I, b):
        """an undecided branch: while a loop is being unrolled, one that controls the loop aborts it"""
        if self.active:
            c = self.active[-1]
            if c.mode == 'unroll' and b in c.loop.blocks:
                ex = [s for s in b.succs if s not in c.loop.blocks]
                if ex:
                    # controlling exits: the head and the latches
                    if b is c.loop.head or b in c.loop.latches or c.ctrl(b):
                        raise Undecided()

    def switch(self, st, I, b):
        v = st.f.norm(self.opval(st, I.ops[0], I.fn.mod))
        self.c.branched(self, st, I, v)
        dflt, cases = I.x
        if isc(v):
            for c, t in cases:
                if c == cv(v):
                    return [(st, t, b)]
            return [(st, dflt, b)]
        outs = []
        rest = st
        for c, t in cases:
            s = rest.copy()
            k = const(v.w, c)
            if s.f.assume_eq(v, k):
                outs.append((s, t, b))
            if not rest.f.assume_ne(v, k):
                rest = None
                break
        if rest is not None:
            outs.append((rest, dflt, b))
        return outs

    # ---------------------------------------------------------------- instructions
    def step(self, st, I, mod):
        op = I.op
        L = st.loc
        f = st.f
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            x = f.norm(self.opval(st, I.ops[0], mod))
            y = f.norm(self.opval(st, I.ops[1], mod))
            if op == 'add':
                r = add(x, y)
            elif op == 'sub':
                r = sub(x, y)
            elif op == 'mul':
                r = mul(x, y)
            elif op in ('and', 'or', 'xor'):
                r = bitop(op, x, y, f)
            elif op == 'shl':
                r = shl(x, y, f)
            elif op == 'lshr':
                r = lshr(x, y, f)
            elif op == 'ashr':
                r = ashr(x, y, f)
            elif op == 'udiv':
                r = udiv(x, y, f)
            elif op == 'urem':
                r = urem(x, y, f)
            else:
                h = 1 << (x.w - 1)
                if f.urange(x)[1] < h and f.urange(y)[1] < h:
                    r = udiv(x, y, f) if op == 'sdiv' else urem(x, y, f)
                elif op == 'sdiv' and isc(y) and x.op == 'lin' and ptr_diff_exact(x, cv(y)):
                    r = ptr_diff_exact(x, cv(y))
                else:
                    r = atom(op, x.w, x, y)
            L[I] = r
            return
        if op == 'icmp':
            x = f.norm(self.opval(st, I.ops[0], mod))
            y = f.norm(self.opval(st, I.ops[1], mod))
            p = I.x
            if p == 'eq':
                r = eqb(x, y, f)
            elif p == 'ne':
                r = notb(eqb(x, y, f))
            elif p == 'ult':
                r = ltb(x, y, False, f)
            elif p == 'ugt':
                r = ltb(y, x, False, f)
            elif p == 'uge':
                r = notb(ltb(x, y, False, f))
            elif p == 'ule':
                r = notb(ltb(y, x, False, f))
            elif p == 'slt':
                r = ltb(x, y, True, f)
            elif p == 'sgt':
                r = ltb(y, x, True, f)
            elif p == 'sge':
                r = notb(ltb(x, y, True, f))
            else:
                r = notb(ltb(y, x, True, f))
            L[I] = r
            return
        if op == 'zext':
            x = f.norm(self.opval(st, I.ops[0], mod))
            if x.w == 1 and x.op != 'c':
                t = f.truth(x)
                if t is not None:
                    L[I] = const(I.ty.w, int(t))
                    return
            L[I] = f.zext(x, I.ty.w)
            return
        if op == 'sext':
            L[I] = f.sext(f.norm(self.opval(st, I.ops[0], mod)), I.ty.w)
            return
        if op == 'trunc':
            x = f.norm(self.opval(st, I.ops[0], mod))
            if I.ty.w == 1:
                q = bitop('and', x, const(x.w, 1), f)
                if q.op == 'zext' and q.a[0].w == 1:
                    L[I] = q.a[0]
                elif x.op == 'zext' and x.a[0].w == 1:
                    L[I] = x.a[0]
                elif isc(q):
                    L[I] = boolc(cv(q))
                else:
                    L[I] = notb(eqb(q, const(x.w, 0), f))
                return
            r = trunc(x, I.ty.w)
            L[I] = r
            return
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'freeze'):
            L[I] = f.norm(self.opval(st, I.ops[0], mod))
            return
        if op == 'gep':
            L[I] = self.gep(st, I.x, self.opval(st, I.ops[0], mod), [f.norm(self.opval(st, o, mod)) for o in I.ops[1:]])
            return
        if op == 'select':
            cnd = self.opval(st, I.ops[0], mod)
            rs = []
            for s, v in self.decide(st, cnd):
                s.loc[I] = self.opval(s, I.ops[1] if v else I.ops[2], mod)
                rs.append(s)
            return rs
        if op == 'alloca':
            n = f.norm(self.opval(st, I.ops[0], mod))
            esz = I.x.asize
            sz = mulc(f.zext(n, 64), esz)
            name = '%%%s.%d.%d' % ('/'.join(st.depth), I.bb.idx, I.idx)
            al = max(1, I.align or 1)
            b = sym(name, 64, True, al)
            if I.bb.idx and b in st.mem:
                # a dynamic allocation executed again: another object
                i = 1
                while sym('%s~%d' % (name, i), 64, True, al) in st.mem:
                    i += 1
                b = sym('%s~%d' % (name, i), 64, True, al)
            st.mem[b] = ()
            L[I] = b
            ev = Ev('alloca', I, base=b, n=sz)
            st.g['_sz', b] = sz
            self.emit(st, ev)
            return
        if op == 'load':
            p = self.opval(st, I.ops[0], mod)
            b, o = self.split(st, p)
            n = I.ty.size
            if b is None:
                self.c.end(self, 'null', st, I)
                return []
            if unset(o) or unset(b):
                self.c.unset(self, st, I, addc(add(b, o), 0) if b.w == o.w else o)
            rs = self.read(st, b, f.norm(o), n, I.ty.kind == 'ptr', I)
            outs = []
            for s, v in rs:
                if v.w != (I.ty.w or 8 * n):
                    v = trunc(v, I.ty.w) if v.w > I.ty.w else s.f.zext(v, I.ty.w)
                s.loc[I] = s.f.norm(v)
                if self.log_loads:
                    self.emit(s, Ev('load', I, base=b, off=o, n=const(64, n), val=v))
                outs.append(s)
            return outs
        if op == 'store':
            v = f.norm(self.opval(st, I.ops[0], mod))
            p = self.opval(st, I.ops[1], mod)
            b, o = self.split(st, p)
            if b is None:
                self.c.end(self, 'null', st, I)
                return []
            n = I.ops[0].ty.size
            if v.w != 8 * n:
                v = f.zext(v, 8 * n)
            o = f.norm(o)
            self.emit(st, Ev('store', I, base=b, off=o, n=const(64, n), val=v))
            self.write(st, b, o, n, v)
            return
        if op == 'call':
            return self.do_call(st, I, mod)
        if op in ('extractvalue', 'insertvalue', 'fadd', 'fsub', 'fmul', 'fdiv', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
                  'fptrunc', 'fpext', 'fcmp', 'fneg', 'extractelement', 'insertelement', 'shufflevector'):
            L[I] = atom('fop_' + op, I.ty.w or 64, *[self.opval(st, o, mod) for o in I.ops if o.k != 'metadata'])
            return
        if op in ('fence',):
            return
        if op in ('cmpxchg', 'atomicrmw'):
            p = self.opval(st, I.ops[0], mod)
            b, o = self.split(st, p)
            st.seq += 1
            self.havoc(st, b, 'atomic%d' % st.seq)
            L[I] = atom('atomic', I.ty.w or 64, st.seq)
            return
        raise Broken('instruction %s at %s' % (op, where(I)))

    def emit(self, st, ev):
        st.ev.append(ev)
        if ev.k in ('store', 'copy', 'set') and (unset(ev.off) or unset(ev.base)):
            self.c.unset(self, st, ev.inst, ev.off)
        self.c.event(self, st, ev)

    def fresh(self, st, name, w, ptr=False):
        st.seq += 1
        t = atom('ret', w, name, st.seq)
        if ptr:
            t.ptr = True
        return t

    def do_call(self, st, I, mod):
        callee = I.callee
        if callee.k == 'inlineasm' and (not I.ops or I.ty.kind != 'int'):
            return None
        args = []
        for o in I.ops:
            args.append(self.opval(st, o, mod))
        args = [st.f.norm(a) if a is not None else None for a in args]
        if callee.k == 'inlineasm':
            # bit scans of constants; nothing else is followed
            m = re.match(r'\s*(bsf|bsr|tzcnt)[lq]?\s+\$1\s*,\s*\$0\W*(\\0A|\\09|\s)*$', callee.v)
            if m and isc(args[0]) and cv(args[0]):
                x = cv(args[0])
                st.loc[I] = const(I.ty.w, x.bit_length() - 1 if m.group(1) == 'bsr' else (x & -x).bit_length() - 1)
            return None
        name = None
        fn = None
        if callee.k == 'func':
            name = callee.name
        else:
            t = self.opval(st, callee, mod)
            if t.op == 'sym' and t.a[0].startswith('@'):
                name = self.globs[t][1] if t in getattr(self, 'globs', {}) else t.a[0][1:]
                if t in getattr(self, 'globs', {}):
                    mod = self.globs[t][0]
            else:
                r = self.c.indirect(self, st, t, args, I)
                if r is None:
                    v = self.fresh(st, '*', I.ty.w, I.ty.kind == 'ptr') if I.ty.kind != 'void' else None
                    self.emit(st, Ev('call', I, name='*', args=[t] + args, ret=v))
                    r = [(st, v)]
                return self.bind(r, I)
        if name.startswith('llvm.'):
            return self.intrinsic(st, I, name, args)
        f2 = mod.funcs.get(name)
        if f2 is not None and not f2.decl:
            fn = f2
        elif name in self.ext:
            fn = self.ext[name]
        r = self.c.call(self, st, name, fn, args, I)
        if r is not None:
            return self.bind(r, I)
        if name in NORETURN:
            self.c.end(self, name, st, I)
            return []
        if fn is not None:
            return self.bind(self.call(st, fn, args, I), I)
        return self.bind(self.external(st, name, args, I), I)

    def external(self, st, name, args, I):
        if name in ('memcpy', 'memmove', '__memcpy_chk'):
            self.memcpy(st, args[0], args[1], args[2], I)
            return [(st, args[0])]
        if name in ('memset',):
            self.memset(st, args[0], args[1], args[2], I)
            return [(st, args[0])]
        v = self.fresh(st, name, I.ty.w, I.ty.kind == 'ptr') if I.ty.kind != 'void' else None
        self.emit(st, Ev('call', I, name=name, args=args, ret=v))
        for a in args:
            if a is None or a.w != 64:
                continue
            b, o = self.split(st, a)
            if b is not None and b.op == 'sym' and b.a[0][0] == '%':
                self.havoc(st, b, '%s%d' % (name, st.seq))
        return [(st, v)]

    def bind(self, rs, I):
        outs = []
        for s, v in rs:
            if I.ty.kind != 'void':
                s.loc[I] = v
            outs.append(s)
        return outs

    def memcpy(self, st, d, s, n, I):
        f = st.f
        db, do = self.split(st, d)
        sb, so = self.split(st, s)
        n = f.norm(f.zext(n, 64) if n.w < 64 else n)
        v = f.value(n)
        if v is not None:
            n = const(64, v)
        if isc(n) and cv(n) == 0:
            return
        if db is None or sb is None:
            self.emit(st, Ev('badcopy', I, base=db, off=do, n=n, src=sb, soff=so))
            return
        do = f.norm(do)
        so = f.norm(so)
        slog = st.mem.get(sb, ())
        if isc(n) and cv(n) in (1, 2, 4, 8, 16):
            k = cv(n)
            if self.log_loads:
                self.emit(st, Ev('load', I, base=sb, off=so, n=n))
            r = self.read(st, sb, so, k, False, I)
            if len(r) == 1:
                val = r[0][1]
                self.emit(st, Ev('store', I, base=db, off=do, n=n, val=val))
                self.write(st, db, do, k, val)
                return
        if self.log_loads:
            self.emit(st, Ev('load', I, base=sb, off=so, n=n))
        self.emit(st, Ev('copy', I, base=db, off=do, n=n, src=sb, soff=so, slog=slog))
        log = st.mem.get(db, ())
        if isc(do) and isc(n):
            log = tuple(e for e in log if not (e[0] == 'st' and isc(e[1]) and cv(e[1]) >= cv(do)
                                               and cv(e[1]) + e[2] <= cv(do) + cv(n)))
        st.mem[db] = log + (('cp', do, n, sb, so, slog),)

    def memset(self, st, d, c, n, I):
        f = st.f
        db, do = self.split(st, d)
        n = f.norm(f.zext(n, 64) if n.w < 64 else n)
        do = f.norm(do)
        c = trunc(c, 8) if c.w > 8 else c
        if isc(n) and cv(n) in (1, 2, 4, 8, 16) and isc(c):
            k = cv(n)
            v = const(8 * k, int.from_bytes(bytes([cv(c)]) * k, 'little'))
            self.emit(st, Ev('store', I, base=db, off=do, n=n, val=v))
            self.write(st, db, do, k, v)
            return
        self.emit(st, Ev('set', I, base=db, off=do, n=n, val=c))
        st.mem[db] = st.mem.get(db, ()) + (('set', do, n, c),)

    def intrinsic(self, st, I, name, args):
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, args[0], args[1], args[2], I)
            return None
        if name.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], args[2], I)
            return None
        if name.startswith('llvm.expect'):
            st.loc[I] = args[0]
            return None
        if name.startswith(('llvm.cttz', 'llvm.ctlz', 'llvm.ctpop', 'llvm.bswap')) and isc(args[0]) and I.ty.kind == 'int':
            x, w = cv(args[0]), I.ty.w
            st.loc[I] = const(w, {'cttz': (x & -x).bit_length() - 1 if x else w, 'ctlz': w - x.bit_length(), 'ctpo': bin(x).count('1'),
                                  'bswa': int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')}[name[5:9]])
            return None
        if name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            x, y = args
            c = ltb(x, y, 's' == name[5], st.f)
            rs = []
            mx = 'max' in name[:10]
            for s, v in self.decide(st, c):
                s.loc[I] = (y if v else x) if mx else (x if v else y)
                rs.append(s)
            return rs
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.stackrestore', 'llvm.assume', 'llvm.var.annotation',
                            'llvm.experimental', 'llvm.prefetch', 'llvm.donothing')):
            return None
        if name in ('llvm.trap', 'llvm.debugtrap', 'llvm.ubsantrap'):
            self.c.end(self, 'trap', st, I)
            return []
        if I.ty.kind != 'void':
            st.loc[I] = atom('intr_' + name, I.ty.w or 64, *[a for a in args if a is not None])
        return None

    # ---------------------------------------------------------------- loops
    def loop(self, fn, lp, st, p, out):
        """interpret a loop entered from block p; returns work items after the loop"""
        mark = self.c_mark()
        ev = len(st.ev)
        save_ret = len(out['ret'])
        try:
            return self.unroll(fn, lp, st.copy(), p, out)
        except Undecided:
            del out['ret'][save_ret:]
            self.c_reset(mark)
        return self.generalise(fn, lp, st, p, out)

    def c_mark(self):
        return self.c.mark() if hasattr(self.c, 'mark') else None

    def c_reset(self, m):
        if hasattr(self.c, 'reset'):
            self.c.reset(m)

    def unroll(self, fn, lp, st, p, out):
        ctx = Loopctx(lp, 'unroll')
        ctx.ctrl = lambda b: False
        res = []
        cur = [(st, p)]
        it = 0
        self.active.append(ctx)
        try:
            while cur:
                it += 1
                if it > self.unroll_cap or len(cur) > self.unroll_width:
                    raise Undecided()
                o = {'ret': out['ret'], 'exit': [], 'back': []}
                for s, q in cur:
                    for I, v in self.phis(s, lp.head, q):
                        s.loc[I] = v
                    items = self.insts(fn, [(s, 0)], lp.head, o)
                    self.region(fn, items, ctx, o)
                res.extend(o['exit'])
                cur = o['back']
        finally:
            self.active.pop()
        return res

    def generalise(self, fn, lp, st, p, out):
        self.nloops += 1
        self.nonce += 1
        st.seq += 1
        lid = '%s#%d.%d' % ('/'.join(st.depth), lp.head.idx, st.seq)
        it64 = sym('ITER[%s]' % lid, 64)
        entry = st
        phis = self.phis(entry, lp.head, p)
        mode = Modes()
        for I, v in phis:
            mode[I] = 'inv'
        entryval = dict(phis)
        memmode = {}    # base -> 'hv' | dict of cells
        for rnd in range(60):
            r = self.try_modes(fn, lp, entry, p, phis, mode, memmode, it64, lid, out)
            if r is not None:
                return r
        raise Broken('loop at %s does not stabilise' % where(lp.head.insts[-1]))

    def keys_entry(self, entry, phis, mode):
        d = {}
        for I, v in phis:
            d[I] = v
        for k in mode:
            if isinstance(k, tuple) and k[0] == 'mem':
                _, b, o, n = k[:4]
                log = entry.mem.get(b, ())
                r = self.read(entry, b, const(64, o), n, k[4] if len(k) > 4 else False, None)
                d[k] = r[0][1]
            elif isinstance(k, tuple) and k[0] == 'g':
                d[k] = entry.g[k[1]]
        return d

    def try_modes(self, fn, lp, entry, p, phis, mode, memmode, it64, lid, out):
        for k, v in entry.g.items():
            if not (isinstance(k, str) and k.startswith('_')) and not isinstance(k, tuple):
                mode.setdefault(('g', k), self.c.ghost_mode.get(k, 'inv'))
        ent = self.keys_entry(entry, phis, mode)
        base_h = entry.copy()
        base_h.ev = []
        base_h.f.rng[it64] = (0, (1 << 30) - 1)
        gsyms = {}
        headv = {}
        partkeys = []
        # specification variables first, they may be referred to
        order = sorted(mode, key=lambda k: (0 if isinstance(k, tuple) and k[0] == 'g' else 1))
        for k in order:
            m = mode[k]
            e = ent[k]
            if m == 'inv':
                headv[k] = e
            elif m[0] == 'ind':
                it = it64 if e.w == 64 else trunc(it64, e.w)
                headv[k] = add(e, mulc(it, m[1]))
            elif m == 'part':
                partkeys.append(k)
            elif m[0] == 'rel':
                gk = ('g', m[1])
                ge = ent[gk]
                gs = headv[gk]
                if gs.w != e.w:
                    headv[k] = add(sub(e, trunc(ge, e.w) if ge.w > e.w else base_h.f.zext(ge, e.w)),
                                   trunc(gs, e.w) if gs.w > e.w else base_h.f.zext(gs, e.w))
                else:
                    headv[k] = add(sub(e, ge), gs)
            else:   # sym
                if isinstance(k, tuple):
                    nm = 'L[%s].%s' % (lid, '.'.join(str(x) for x in k))
                else:
                    nm = 'L[%s].phi%d' % (lid, k.idx)
                s = sym(nm, e.w, ptr=(not isinstance(k, tuple) and k.ty.kind == 'ptr') or
                        (isinstance(k, tuple) and k[0] == 'mem' and k[4]))
                headv[k] = s
                self.c.head_sym(self, base_h, k, s)
        for b, m in memmode.items():
            if m == 'hv':
                self.havoc(base_h, b, 'loop[%s]' % lid)
        cands = list(self.c.head(self, base_h, lp, it64) or [])
        # candidate invariants at entry
        okc = []
        for c, ps in cands:
            if (c, ps) in mode.badc:
                continue
            c0 = c
            q = []
            for a, k in ps:
                if a is it64 or a.op == 'trunc' and a.a[0] is it64:
                    continue
                q.append((a, k))
            if entry.f.pge(c0, tuple(q)):
                okc.append((c, ps))
        # explore all head partitions
        first = tuple(ent[k] for k in partkeys)
        seen = {}
        work = [first]
        seen[first] = True
        exits = []
        rets = []
        trans = []
        changes = {}
        backs = []
        pvals = {}
        mark = self.c_mark()
        while work:
            pv = work.pop()
            h = base_h.copy()
            hv = dict(headv)
            for k, v in zip(partkeys, pv):
                hv[k] = v
            for k, v in hv.items():
                if isinstance(k, tuple):
                    if k[0] == 'mem':
                        self.write(h, k[1], const(64, k[2]), k[3], v)
                    else:
                        h.g[k[1]] = v
                else:
                    h.loc[k] = v
            for c, ps in okc:
                h.f.add_ge(c, ps)
            hs = h.copy()
            ctx = Loopctx(lp, 'gen')
            self.active.append(ctx)
            o = {'ret': [], 'exit': [], 'back': []}
            try:
                items = self.insts(fn, [(h, 0)], lp.head, o)
                self.region(fn, items, ctx, o)
            finally:
                self.active.pop()
            rets.extend(o['ret'])
            for s, b, q in o['exit']:
                exits.append((hs, s, b, q))
            for s, q in o['back']:
                bv = {}
                for I, v in self.phis(s, lp.head, q):
                    bv[I] = s.f.norm(v)
                trans.append((hs, s, bv))
                # changed locations
                again = False
                for I, _ in phis:
                    if not self.check_key(I, mode, hv, bv[I], s, it64, changes):
                        again = True
                for k in list(mode):
                    if isinstance(k, tuple):
                        if k[0] == 'g':
                            v = s.g[k[1]]
                            if isinstance(v, T):
                                v = s.f.norm(v)
                        else:
                            r = self.read(s, k[1], const(64, k[2]), k[3], k[4], None)
                            v = s.f.norm(r[0][1])
                        if not self.check_key(k, mode, hv, v, s, it64, changes):
                            again = True
                        bv[k] = v
                # memory written in this iteration
                for b, log in s.mem.items():
                    ol = hs.mem.get(b)
                    if ol is None or log is ol or log == ol or memmode.get(b) == 'hv':
                        continue
                    self.mem_changes(b, ol, log, hs, s, mode, memmode, changes)
                # candidate invariants are preserved
                for ci in list(okc):
                    c, ps = ci
                    nc = c + sum(k for a, k in ps if a is it64 or a.op == 'trunc' and a.a[0] is it64)
                    q2 = []
                    for a, k in ps:
                        q2.append((a, k))
                    if not s.f.pge(nc, tuple(q2)):
                        changes[('cand', ci)] = True
                if not changes:
                    nk = tuple(bv[k] for k in partkeys)
                    if nk not in seen:
                        for pi, pk in enumerate(partkeys):
                            vs = pvals.setdefault(pk, set())
                            vs.add(nk[pi])
                            if len(vs) > 40 and self.c.ghost_mode.get(pk[1] if isinstance(pk, tuple) else None) != 'part':
                                changes.setdefault(pk, []).append(('sym', nk[pi], pv[pi], s, hv))
                        if len(seen) > self.part_cap:
                            raise Broken('too many partitions in loop at %s' % where(lp.head.insts[-1]))
                        seen[nk] = True
                        work.append(nk)
                    backs.append(nk)
            if len(changes) and rnd_limit(changes):
                break
        if changes:
            self.c_reset(mark)
            self.apply_changes(changes, mode, memmode, ent)
            # a candidate invariant is given up only once the loop-carried locations are settled
            if all(isinstance(k, tuple) and k[0] == 'cand' for k in changes):
                for k in changes:
                    mode.badc.add(k[1])
            return None
        self.ntrans += len(trans)
        for hs, s, bv in trans:
            self.c.transition(self, lp, hs, s)
        out['ret'].extend(rets)
        res = []
        for hs, s, b, q in exits:
            self.c.loop_exit(self, lp, hs, s)
            s.ev = list(entry.ev) + [Ev('loop', None, name=lid)] + s.ev
            res.append((s, b, q))
        return res

    def check_key(self, k, mode, hv, v, s, it64, changes):
        m = mode[k]
        h = hv.get(k)
        if m == 'part':
            if isinstance(v, T) and not isc(v):
                changes.setdefault(k, []).append(('sym', v, h, s, hv))
                return False
            return True
        if m == 'sym':
            return True
        if not isinstance(v, T):
            if v == h:
                return True
            changes.setdefault(k, []).append(('part', v, h, s, hv))
            return False
        if m == 'inv':
            if v is h or s.f.eq(v, h):
                return True
            changes.setdefault(k, []).append(('new', v, h, s, hv))
            return False
        if m[0] == 'ind':
            want = addc(h, m[1])
            if v is want or s.f.eq(v, want):
                return True
            changes.setdefault(k, []).append(('noind', v, h, s, hv))
            return False
        if m[0] == 'rel':
            gk = ('g', m[1])
            gv = s.g[m[1]]
            gh = hv[gk]
            if gv.w != v.w:
                gv = trunc(gv, v.w) if gv.w > v.w else s.f.zext(gv, v.w)
                gh = trunc(gh, v.w) if gh.w > v.w else s.f.zext(gh, v.w)
            if sub(v, h) is sub(gv, gh) or s.f.eq(sub(v, h), sub(gv, gh)):
                return True
            changes.setdefault(k, []).append(('norel', v, h, s, hv))
            return False
        return True

    def mem_changes(self, b, ol, log, hs, s, mode, memmode, changes):
        new = [e for e in log if not any(e is x for x in ol)]
        cells = set()
        for e in new:
            if e[0] == 'st' and isc(e[1]):
                isp = e[3].ptr or (e[3].op == 'lin' and any(a.ptr for a, _ in e[3].a[1]))
                cells.add((cv(e[1]), e[2], isp))
            else:
                changes.setdefault(('hv', b), True)
                return
        for o, n, isp in cells:
            k = None
            for q in mode:
                if isinstance(q, tuple) and q[0] == 'mem' and q[1] is b and q[2] == o and q[3] == n:
                    k = q
            if k is None:
                # overlapping cells of another shape
                for q in mode:
                    if isinstance(q, tuple) and q[0] == 'mem' and q[1] is b and not (q[2] + q[3] <= o or o + n <= q[2]):
                        changes.setdefault(('hv', b), True)
                        return
                for o2, n2, _ in cells:
                    if (o2, n2) != (o, n) and not (o2 + n2 <= o or o + n <= o2):
                        changes.setdefault(('hv', b), True)
                        return
                changes.setdefault(('newcell', ('mem', b, o, n, isp)), True)

    def apply_changes(self, changes, mode, memmode, ent):
        soft = any(not (isinstance(k, tuple) and k[0] == 'cand') and not (k in mode and mode[k][0] == 'rel') for k in changes)
        for k, lst in changes.items():
            if isinstance(k, tuple) and k[0] == 'hv':
                memmode[k[1]] = 'hv'
                for q in list(mode):
                    if isinstance(q, tuple) and q[0] == 'mem' and q[1] is k[1]:
                        del mode[q]
                continue
            if isinstance(k, tuple) and k[0] == 'newcell':
                mode[k[1]] = 'inv'
                continue
            if isinstance(k, tuple) and k[0] == 'cand' or k not in mode:
                continue
            tried = mode.tried.setdefault(k, set())
            m = mode[k]
            e = ent[k]
            if m[0] == 'rel' and soft and mode.tried.setdefault(('soft', k), 0) < 4:
                # other locations were wrong too: what followed proves nothing
                mode.tried[('soft', k)] += 1
                continue
            tried.add(m if isinstance(m, str) else tuple(m))
            cand = []
            if not isinstance(e, T):
                mode[k] = 'part'
                continue
            if m == 'inv' or (m[0] == 'ind'):
                ds = set()
                for _, v, h, s, hv in lst:
                    d = sub(v, h)
                    ds.add(sgn(cv(d), d.w) if isc(d) else None)
                fin = getattr(self.c, 'prefer_part', False) and isc(e) and all(isc(x[1]) for x in lst)
                if m == 'inv' and len(ds) == 1 and None not in ds and not fin:
                    cand.append(('ind', ds.pop()))
            gk = isinstance(k, tuple) and k[0] == 'g'
            if isc(e) and m == 'inv' and all(isc(x[1]) for x in lst):
                cand.append('part')
            if not gk:
                for q in mode:
                    if isinstance(q, tuple) and q[0] == 'g' and mode[q] != 'part' and isinstance(ent.get(q), T) and e.w >= 32 and \
                            (mode[q] == 'sym' or self.rel_ok(q, lst, e)):
                        cand.append(('rel', q[1]))
            if isc(e) and (m not in ('inv', 'part') or m == 'inv' and all(isc(x[1]) for x in lst)):
                cand.append('part')
            cand.append('sym')
            for c in cand:
                if (c if isinstance(c, str) else tuple(c)) not in tried:
                    mode[k] = c
                    break
            else:
                mode[k] = 'sym'

    def rel_ok(self, q, lst, e):
        """every observed change of the location equals the change of specification variable q"""
        for _, v, h, s, hv in lst:
            gv, gh = s.g[q[1]], hv[q]
            if not isinstance(gv, T) or not isinstance(gh, T):
                return False
            if gv.w != v.w:
                gv = trunc(gv, v.w) if gv.w > v.w else s.f.zext(gv, v.w)
                gh = trunc(gh, v.w) if gh.w > v.w else s.f.zext(gh, v.w)
            if not (sub(v, h) is sub(gv, gh) or s.f.eq(sub(v, h), sub(gv, gh))):
                return False
        return True


def rnd_limit(changes):
    return False


def ptr_diff_exact(x, v):
    """(p - q)/v when every coefficient is divisible"""
    c, p = x.a
    w = x.w
    cs = sgn(c, w)
    if cs % v:
        return None
    d = {}
    for a, k in p:
        k = sgn(k, w)
        if k % v:
            return None
        d[a] = k // v
    return lin(w, cs // v, d)
