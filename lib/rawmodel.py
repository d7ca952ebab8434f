"""The raw argument block interfaces: every loop over the arguments is interpreted for an
arbitrary argument at an arbitrary position; the block offset of that argument is carried
along as specification state and compared with what the function stores or reads."""
from abi import *
from place import ArgModel, cover, within, opaque, need
import irai

RAW = sym('$raw', 64, True, 8)
OUT = sym('$out', 64, True, 8)
AV = sym('$avalue', 64, True)
CIF = sym('$cif', 64, True)
FN = sym('$fn', 64, True)
RVALUE = sym('$rvalue', 64, True)
CL = sym('$cl', 64, True, 8)
TOTAL = sym('$total', 64, al=8)


class NoClass:
    cyc, roles, fn = (), (), None


def raw_kinds():
    return scalar_kinds() + complex_kinds() + [Kind('struct', STRUCT, (1, MAXSIZE), (1, 16), ())]


def java_kinds():
    return [k for k in scalar_kinds() if k.code != LDOUBLE]


class RawModel(ArgModel):
    def __init__(self, ks, java, nargs=None, mode=None):
        ArgModel.__init__(self, NoClass, ks, None, nargs, None)
        self.java = java
        self.mode = mode
        self.ghost_mode = {'off': 'sym'}
        self.trans = []
        self.final = []
        self.total = TOTAL
        self.loopfn = None
        self.idle = {}

    def start(self):
        st = ArgModel.start(self)
        del st.g['g'], st.g['s']
        st.f.rng[TOTAL] = (0, 1 << 24)
        return st

    def mark(self):
        return ArgModel.mark(self) + (len(self.trans),)

    def reset(self, m):
        ArgModel.reset(self, m)
        del self.trans[m[4]:]

    # -- the layout the interface prescribes
    def slot(self, k):
        if k.code in (STRUCT, COMPLEX):
            return 8
        if self.java:
            return 16 if k.code in (U64, S64, DOUBLE) else 8
        return (SCAL[k.code][0] + 7) // 8 * 8

    def place(self, st, p, k):
        st.g[('_loc', p)] = st.g['off']
        st.g['off'] = addc(st.g['off'], self.slot(k))
        st.g['_cur'] = p

    def head_sym(self, ai, st, key, s):
        if key == ('g', 'off'):
            st.f.rng[s] = (0, 1 << 24)
            s.al = 8

    def transition(self, ai, loop, hs, st):
        p = self.cur(st, hs)
        if p is None:
            self.idle.setdefault(loop, st)
            return
        self.ntrans += 1
        self.argloops.add(loop)
        self.indexed(loop, st, p)
        k = st.g[('_kind', p)]
        self.cells.add((k.name, loop.head.insts[0].fn.name if loop.head.insts else ''))
        self.trans.append((loop, hs, st, p, k))

    def loop_exit(self, ai, loop, hs, st):
        if loop not in self.argloops:
            return
        if loop in self.idle:
            self.report('every argument is handled', self.loopfn, 'an iteration of the loop over the arguments handles none')
        it = self.iters[loop]
        st.g[('_done', it)] = True
        if self.all_done(st, it):
            # the whole list was visited
            off = st.g['off']
            st.f.add_ge(0, ((off, 1), (TOTAL, -1)))
            st.f.add_ge(0, ((TOTAL, 1), (off, -1)))
            st.g['_tied'] = True
        st.g['_total'] = st.g['off']
        st.g['off'] = const(64, 0)

    # -- exactly explored lists
    def settle(self, st):
        """offsets of the arguments of an exactly explored list: list of (p, kind, offset)"""
        out, off = [], 0
        for i in range(cv(self.nargs)):
            p = atom('init', 64, sym('$argt', 64, True), const(64, 8 * i))
            k = st.g.get(('_kind', p))
            if k is None:
                self.report('every argument is handled', self.loopfn, 'argument %d of %d is not looked at' % (i, cv(self.nargs)))
                return None
            st.g[('_loc', p)] = const(64, off)
            out.append((p, k, const(64, off)))
            off += self.slot(k)
        st.g['_total'] = const(64, off)
        return out

    # -- effects
    OWNED = ()

    def event(self, ai, st, ev):
        ArgModel.event(self, ai, st, ev)
        if ev.k in ('store', 'copy', 'set'):
            b = ev.base
            if b.op == 'sym' and b.a[0][0] == '%' or b in self.OWNED:
                return
            known = (b.op == 'sym' or b.op == 'init') and not opaque(b)
            (self.report if known else self.unsure)('nothing but the destination is written', ev.inst, 'a store through %s' % b)
        if ev.k == 'badcopy' or ev.k == 'call':
            self.unsure('only known functions are called', ev.inst, 'call of %s' % ev.name)

    def end(self, ai, kind, st, inst):
        if kind == 'null':
            self.report('nothing is accessed through a null pointer', inst, 'an access through a null pointer')
        elif kind in irai.NORETURN or kind == 'unreachable':
            self.report('every supported signature is handled', inst, 'the path ends in %s' % kind)

    # -- obligations
    def res(self, ok, rule, k, msg):
        if ok is None:
            self.unsure(rule, self.loopfn, '%s: %s' % (k, msg))
        elif not ok:
            self.report(rule, self.loopfn, '%s: %s' % (k, msg))

    def each(self, ai, st, base, o0, fn):
        """apply fn to every argument: the iterations of the loop that fills the array at base"""
        if isc(self.nargs):
            for p, k, off in self.settle(st) or ():
                self.ntrans += 1
                fn(ai, st, base, o0, p, k, off, None)
            return
        loops = {}
        for t in self.trans:
            if any(ev.k in ('store', 'copy', 'set') and ev.base is base for ev in t[2].ev):
                loops.setdefault(t[0], 0)
        if not loops:
            if st.f.eq(st.f.zext(self.nargs, 64), const(64, 0)):
                return
            self.unsure('every argument is handled', self.loopfn, 'no loop over the arguments fills %s' % base)
        for l in loops:
            for lp, hs, s, p, k in self.trans:
                if lp is l:
                    fn(ai, s, base, o0, p, k, s.g[('_loc', p)], hs)

    def loads(self, ev_st, src, lo, n, k, what):
        f = ev_st.f
        for ev in ev_st.ev:
            if ev.k == 'load' and ev.base is src and not within(f, sub(ev.off, lo), ev.n, n):
                self.report('reads stay inside ' + what, ev.inst, '%s: %s bytes at offset %s' % (k, ev.n, ev.off))

    def to_ptr(self, ai, st, base, o0, p, k, off, hs):
        """the pointer made for the argument"""
        f = st.f
        v = f.norm(ai.read(st, base, addc(p.a[1], o0), 8, True, None)[0][1])
        rule = 'the pointer made for an argument leads to its slot of the block'
        if k.code in (STRUCT, COMPLEX):
            ok = v is atom('init', 64, RAW, f.norm(off)) or v is atom('init', 64, RAW, off)
            want = 'the pointer stored in the block at %s' % off
        else:
            b, o = ai.split(st, v)
            ok = b is RAW and f.eq(o, off)
            want = 'block offset %s' % off
        if not ok and opaque(v):
            ok = None
        self.res(bool(ok) if ok is not None else None, rule, k, 'it is %s, not %s' % (v, want))
        if hs is not None:
            for ev in st.ev:
                if ev.k in ('store', 'copy', 'set') and ev.base is base and not (ev.n is const(64, 8) and f.eq(ev.off, addc(p.a[1], o0))):
                    self.report('one pointer is stored per argument', ev.inst, '%s: %s bytes at %s' % (k, ev.n, ev.off))
            self.loads(st, RAW, off, const(64, self.slot(k)), k, 'the slot of the argument')

    def to_raw(self, ai, st, base, o0, p, k, off, hs):
        """the slot written for the argument"""
        f = st.f
        A = atom('init', 64, AV, p.a[1])
        A.ptr = True
        pos = addc(off, o0)
        slot = self.slot(k)
        size = st.g[('_size', p)]
        rule = 'the value of an argument is stored in its slot of the block'
        if k.code in (STRUCT, COMPLEX):
            v = f.norm(ai.read(st, base, pos, 8, True, None)[0][1])
            self.res(True if v is A else None if opaque(v) else False, rule, k, 'the slot at %s holds %s, not the address of the argument' % (pos, v))
        else:
            self.res(cover(ai, st, base, pos, size, A, const(64, 0)), rule, k, 'the %s bytes of the argument are not at block offset %s' % (size, pos))
            if k.code in INTS and SCAL[k.code][0] < 8:
                v = f.norm(ai.read(st, base, pos, 8, False, None)[0][1])
                w = SCAL[k.code][0]
                src = ai.read(st, A, const(64, 0), w, False, None)[0][1]
                want = f.sext(src, 64) if k.code in (S8, S16, S32) else f.zext(src, 64)
                ok = f.eq(v, want)
                self.res(True if ok else None if opaque(v) else False, 'narrow integers are widened to the slot with their signedness', k,
                         'the slot holds %s' % v)
        if hs is not None:
            for ev in st.ev:
                if ev.k in ('store', 'copy', 'set') and ev.base is base and not within(f, sub(ev.off, pos), ev.n, const(64, slot)):
                    self.report('an argument is stored inside its own slot', ev.inst, '%s: %s bytes at %s, the slot is at %s' % (k, ev.n, ev.off, pos))
            if k.code not in (STRUCT, COMPLEX):
                self.loads(st, A, const(64, 0), size, k, 'the argument')
            else:
                self.loads(st, A, const(64, 0), const(64, 0), k, 'the argument')
        else:
            for ev in st.ev:
                if ev.k in ('store', 'copy', 'set') and ev.base is base and \
                        not within(f, sub(ev.off, const(64, o0)), ev.n, st.g['_total']):
                    self.report('an argument is stored inside its own slot', ev.inst, '%s bytes at %s of a block of %s' % (ev.n, ev.off, st.g['_total']))

    def finish(self, st):
        """the path ends: every loop visited the whole list"""
        if isc(self.nargs):
            return
        self.complete(st)


class SizeRun(RawModel):
    def judge(self, ai, rets):
        for st, v in rets:
            v = st.f.norm(v)
            if isc(self.nargs):
                if self.settle(st) is None:
                    continue
                self.ntrans += 1
            self.finish(st)
            t = st.g.get('_total')
            if t is None:
                t = const(64, 0)
            ok = st.f.eq(v, t)
            if not ok:
                msg = 'it returns %s, the arguments end at %s' % (v, t)
                (self.unsure if opaque(v) and v.op != 'undef' else self.report)('the size of a block is the sum of its slots', self.loopfn, msg)


class ToPtr(RawModel):
    OWNED = (OUT,)

    def judge(self, ai, rets):
        for st, v in rets:
            self.finish(st)
        for st, v in rets[:1] if not isc(self.nargs) else rets:
            self.each(ai, st, OUT, 0, self.to_ptr)


class ToRaw(RawModel):
    OWNED = (RAW,)

    def judge(self, ai, rets):
        for st, v in rets:
            self.finish(st)
        for st, v in rets[:1] if not isc(self.nargs) else rets:
            self.each(ai, st, RAW, 0, self.to_raw)


class RawCall(RawModel):
    def call(self, ai, st, name, fn, args, inst):
        if name == 'ffi_call':
            self.final.append((st, args, inst))
            self.at_call(ai, st, args, inst)
            st.g['_called'] = st.g.get('_called', 0) + 1
            return [(st, None)]
        return RawModel.call(self, ai, st, name, fn, args, inst)

    def at_call(self, ai, st, args, inst):
        self.finish(st)
        for i, w, what in ((0, CIF, 'interface'), (1, FN, 'function'), (2, RVALUE, 'result buffer')):
            if args[i] is not w:
                self.report('a raw call makes the call it was asked for', inst, 'the %s is %s' % (what, args[i]))
        B, o0 = ai.split(st, args[3])
        if B is None or B.op != 'sym' or B.a[0][0] != '%' or not isc(o0):
            other = B is not None and isc(o0) and not opaque(B) and (B.op == 'init' or B.op == 'sym' and B.a[0][0] != '@')
            (self.report if other else self.unsure)('the argument array of a raw call is its own', inst, 'it is %s' % args[3])
            return
        if not within(st.f, o0, mulc(st.f.zext(self.nargs, 64), 8), st.g.get(('_sz', B))):
            self.report('the argument array of a raw call is large enough', inst, 'it has %s bytes for %s arguments' % (st.g.get(('_sz', B)), self.nargs))
        self.each(ai, st, B, cv(o0), self.to_ptr)

    def judge(self, ai, rets):
        if not self.final:
            self.report('a raw call makes the call it was asked for', self.loopfn, 'no call is made')
        for st, v in rets:
            if st.g.get('_called') != 1:
                self.report('a raw call makes the call it was asked for', self.loopfn, '%s calls on a path' % st.g.get('_called', 0))


def drive(cls, mods, name, args, ks, java, nargs=None, prefix=None):
    c = cls(ks, java, nargs)
    c.prefix = prefix
    c.loopfn = name
    ai = irai.AI(mods, c, log_loads=True)
    if prefix is not None:
        ai.unroll_width = 6000
    rets = ai.run(need(mods, name), c.start(), args)
    if not rets and not c.viol:
        c.report('the function returns', name, 'no path returns')
    c.judge(ai, rets)
    c.visited = ai.visited
    c.ai = ai
    return c


# ------------------------------------------------------------------ closures
class Prepare(RawModel):
    """preparing a raw closure, then its handler being called"""
    OWNED = (CL,)
    HEAD = 56           # trampoline, interface, function and user data of the underlying closure

    def __init__(self, *a, **k):
        RawModel.__init__(self, *a, **k)
        self.prepared = []
        self.phase = 0
        self.status = sym('$status', 32)
        self.size = None

    def call(self, ai, st, name, fn, args, inst):
        if name == 'ffi_prep_closure_loc' and self.phase == 0:
            st.g['_prep'] = (tuple(args), inst)
            st.f.rng[self.status] = (0, 3)
            self.prepared.append(inst)
            return [(st, self.status)]
        if self.phase == 1 and name.startswith('ffi_prep'):
            self.report('a closure handler prepares nothing', inst, name)
        return RawModel.call(self, ai, st, name, fn, args, inst)

    def event(self, ai, st, ev):
        if ev.k in ('store', 'copy', 'set') and ev.base is CL:
            if self.phase == 1:
                self.report('running a raw closure leaves it as it was prepared', ev.inst, '%s bytes at %s of the closure' % (ev.n, ev.off))
            elif not within(st.f, addc(ev.off, -self.HEAD), ev.n, const(64, self.size - self.HEAD)):
                self.report('preparing a raw closure writes only its own fields', ev.inst, '%s bytes at %s of %s' % (ev.n, ev.off, self.size))
            return
        if self.phase == 1 and ev.k in ('store', 'copy', 'set') and ev.base is RVALUE:
            self.report('the result of the handler is delivered unchanged', ev.inst, '%s bytes at %s of the result are written' % (ev.n, ev.off))
            return
        if self.phase == 0 and ev.k in ('store', 'copy', 'set') and ev.base.op == 'sym' and ev.base.a[0][0] == '@':
            return                              # whether that is enough is decided when the handler is followed
        RawModel.event(self, ai, st, ev)

    def indirect(self, ai, st, target, args, inst):
        if self.phase == 1:
            self.final.append((st, args, inst))
            st.g['_called'] = st.g.get('_called', 0) + 1
            rule = 'a raw closure runs the handler it was prepared with'
            if target is not FN:
                self.report(rule, inst, 'it runs %s' % target)
            self.finish(st)
            for i, w, what in ((0, CIF, 'interface'), (1, RVALUE, 'result buffer'), (3, sym('$user', 64, True), 'user data')):
                if args[i] is not w:
                    self.report('a raw closure passes what it was prepared with', inst, 'the %s is %s' % (what, args[i]))
            B, o0 = ai.split(st, args[2])
            if B is None or B.op != 'sym' or B.a[0][0] != '%' or not isc(o0):
                other = B is not None and isc(o0) and not opaque(B) and (B.op == 'init' or B.op == 'sym' and B.a[0][0] != '@')
                (self.report if other else self.unsure)('the raw block is the closure\'s own', inst, 'it is %s' % args[2])
            else:
                tot = TOTAL
                if isc(self.nargs):
                    self.settle(st)
                    tot = st.g.get('_total', const(64, 0))
                if not within(st.f, o0, tot, st.g.get(('_sz', B))):
                    ok = opaque(st.g.get(('_sz', B))) or not isc(self.nargs) and '_tied' not in st.g
                    (self.unsure if ok else self.report)('the raw block is large enough', inst, 'it has %s bytes for %s' % (st.g.get(('_sz', B)), tot))
                if not ('%' + '/'.join(st.depth)).startswith(B.a[0].split('.')[0]):
                    self.report('the raw block exists while the handler runs', inst, str(B))
                self.each(ai, st, B, cv(o0), self.to_raw)
            return [(st, None)]
        return None


def run_closure(mods, name, ks, java, hasloc, size, nargs=None, prefix=None):
    c = Prepare(ks, java, nargs)
    c.prefix = prefix
    c.loopfn = name
    c.size = size
    ai = irai.AI(mods, c, log_loads=True)
    if prefix is not None:
        ai.unroll_width = 6000
    user = sym('$user', 64, True)
    loc = sym('$codeloc', 64, True)
    st = c.start()
    rets = ai.run(need(mods, name), st, [CL, CIF, FN, user] + ([loc] if hasloc else []))
    c.visited = set(ai.visited)
    runs = 0
    for st, v in rets:
        v = st.f.norm(v)
        pr = st.g.get('_prep')
        if pr is None:
            if isc(v) and cv(v) == OK:
                c.report('a raw closure is prepared as a closure', name, 'success is reported without preparing the closure')
            continue
        args, inst = pr
        for i, w, what in ((0, CL, 'closure'), (1, CIF, 'interface'), (4, loc if hasloc else CL, 'code address')):
            if args[i] is not w:
                c.report('a raw closure is prepared as a closure', inst, 'the %s is %s' % (what, args[i]))
        ok = st.f.norm(c.status)
        if not st.f.eq(v, ok):
            c.report('the status of the preparation is returned', inst, 'it returns %s for %s' % (v, ok))
        s = st.copy()
        if not isc(ok):
            if s.f.truth(eqb(ok, const(32, OK), s.f)) is False:
                continue                        # preparation failed on this path
            s.f.assume_eq(c.status, const(32, 0))
        elif cv(ok) != OK:
            continue
        T = args[2]
        if T.op != 'sym' or T not in getattr(ai, 'globs', {}):
            c.unsure('a raw closure is prepared as a closure', inst, 'the handler is %s' % T)
            continue
        mod, tn = ai.globs[T]
        tf = mod.funcs.get(tn)
        if tf is None or tf.decl:
            tf = ai.ext.get(tn)
        if tf is None:
            raise Broken('the handler %s installed by %s is not defined' % (tn, name))
        # other closures may have been prepared in between
        for b in list(s.mem):
            if b.op == 'sym' and b.a[0][0] == '@':
                ai.havoc(s, b, 'others')
        s.ev = []
        c.phase = 1
        n0 = len(c.final)
        for s2, _ in ai.run(tf, s, [CIF, RVALUE, AV, args[3]]):
            if s2.g.get('_called') != 1:
                c.report('a raw closure runs the handler it was prepared with', tn, '%s handler calls on a path' % s2.g.get('_called', 0))
        c.phase = 0
        runs += len(c.final) - n0
        c.visited |= set(ai.visited)
    if not c.prepared:
        c.report('a raw closure is prepared as a closure', name, 'ffi_prep_closure_loc is not called')
    c.runs = runs
    c.ai = ai
    return c
