"""Argument passing on the Windows x64 ABIs: the C parts (ffiw64.c) interpreted for an
arbitrary argument at an arbitrary position, against the slot rule of that ABI: argument i
uses slot i (plus one behind a hidden result pointer); sizes 1, 2, 4 and 8 travel in the
slot, everything else by reference to a copy owned by the call."""
from abi import *
from place import ArgModel, local, cover, within, thru, opaque, need
import win64, irai, place


class NoClass:
    cyc, roles, fn = (), (), None


def kinds():
    ks = scalar_kinds() + complex_kinds()
    for z in tuple(range(1, 18)) + ((18, MAXSIZE),):
        n = 'struct of %s bytes' % (z if isinstance(z, int) else '%d..%d' % z)
        ks.append(Kind(n, STRUCT, z, (1, 16), ()))
    return ks


def result_kinds():
    ks = scalar_kinds(True) + complex_kinds()
    for z in tuple(range(1, 18)) + ((18, MAXSIZE),):
        n = 'struct of %s bytes' % (z if isinstance(z, int) else '%d..%d' % z)
        ks.append(Kind(n, STRUCT, z, (1, 16), ()))
    return ks


def byref(k):
    return k.size not in (1, 2, 4, 8)


class WModel(ArgModel):
    """places are byte offsets from the first slot"""

    def __init__(self, ks, rkind, abi, nargs=None, flags=None):
        ArgModel.__init__(self, NoClass, ks, rkind, nargs, flags)
        self.abi = abi
        self.ghost_mode = {}
        self.hidden = 1 if rkind is not None and win64.win_mem(rkind) else 0
        self.sums = {}          # loop tag -> base -> kind name -> what its elements are
        self.trans = []
        self.final = []
        self.judged = 0

    def start(self):
        st = ArgModel.start(self)
        for k in ('g', 's', 'off'):
            del st.g[k]
        return st

    def mark(self):
        return ArgModel.mark(self) + (len(self.trans),)

    def reset(self, m):
        ArgModel.reset(self, m)
        del self.trans[m[4]:]

    def place(self, st, p, k):
        st.g[('_slot', p)] = addc(p.a[1], 8 * self.hidden)
        st.g['_cur'] = p

    def transition(self, ai, loop, hs, st):
        p = self.cur(st, hs)
        if p is None:
            return
        self.ntrans += 1
        self.argloops.add(loop)
        self.indexed(loop, st, p)
        k = st.g[('_kind', p)]
        self.cells.add((k.name, '<4' if self.low(st, p) else '>=4'))
        self.trans.append((loop, hs, st, p, k))
        self.summary(ai, loop, hs, st, p, k)

    def low(self, st, p):
        i = st.f._int(sub(const(64, 24), st.g[('_slot', p)]), True)
        return bool(i and st.f.pge(*i))

    # -- arrays filled by one loop over the arguments and read by a later one
    def summary(self, ai, loop, hs, st, p, k):
        """what the loop leaves in element i of a local array: the argument's own pointer or
        a pointer to a fresh copy of the argument"""
        it = self.iters[loop]
        A = atom('init', 64, sym('$avalue', 64, True), p.a[1])
        for ev in st.ev:
            if ev.k != 'store' or ev.base.op != 'sym' or ev.base.a[0][0] != '%':
                continue
            if not (ev.n is const(64, 8) and st.f.eq(ev.off, p.a[1])):
                continue
            v = st.f.norm(ai.read(st, ev.base, ev.off, 8, True, None)[0][1])
            what = None
            if v is A:
                what = 'same'
            elif v.op == 'sym' and any(e.k == 'alloca' and e.base is v for e in st.ev):
                if cover(ai, st, v, const(64, 0), st.g[('_size', p)], A, const(64, 0)) and \
                        within(st.f, const(64, 0), st.g[('_size', p)], st.g[('_sz', v)]) and alignment(v) % 16 == 0:
                    what = 'copy'
            d = self.sums.setdefault(('loop', it), {}).setdefault(ev.base, {})
            d.setdefault(k.name, set()).add(what)

    def hv_load(self, ai, st, base, off, n, isptr, tag, inst):
        for (_, it), d in self.sums.items():
            if tag == 'loop[%s]' % it.a[0][5:-1] and base in d and n == 8:
                p = atom('init', 64, sym('$argt', 64, True), off)
                p.ptr = True
                outs = []
                sts = [st]
                if ('_kind', p) not in st.g:
                    sts = [s for s, _ in self.arg_field(st, p, 10, 2)]
                for s in sts:
                    k = s.g[('_kind', p)]
                    w = d[base].get(k.name)
                    if w is None or len(w) != 1:
                        return None
                    w = list(w)[0]
                    if w == 'same':
                        v = atom('init', 64, sym('$avalue', 64, True), off)
                    elif w == 'copy':
                        v = sym('$copy[%s](%s)' % (tag, show(off)), 64, True, 16)
                        s.g[('_copyof', v)] = (p, tag[5:-1])
                    else:
                        return None
                    v.ptr = True
                    outs.append((s, v))
                return outs
        return None

    def init_load(self, st, base, off, n, isptr, inst):
        c = st.g.get(('_copyof', base))
        if c is not None:
            return atom('init', 8 * n, atom('init', 64, sym('$avalue', 64, True), c[0].a[1]), off)
        return ArgModel.init_load(self, st, base, off, n, isptr, inst)


class WPrep(WModel):
    def judge(self, ai, rets):
        self.results = []
        for st, v in rets:
            v = st.f.norm(v)
            if not (isc(v) and cv(v) == OK):
                self.results.append((v, None, None, st))
                continue
            cif = sym('$cif', 64, True)
            by = st.f.norm(ai.read(st, cif, const(64, 24), 4, False, None)[0][1])
            fl = st.f.norm(ai.read(st, cif, const(64, 28), 4, False, None)[0][1])
            self.results.append((v, by, fl, st))
            self.ntrans += 1
            need = addc(mulc(st.f.zext(self.nargs, 64), 8), 8 * self.hidden)
            b = st.f.zext(by, 64)
            for x, what in ((sub(b, need), 'the argument slots'), (addc(b, -32), 'the register home area')):
                i = st.f._int(x, True)
                if not (i and st.f.pge(*i)):
                    (self.unsure if opaque(by) else self.report)(
                        'prepared stack space covers the argument slots and the register home area', 'ffi_prep_cif_machdep_efi64',
                        'ffi_cif.bytes is %s for %s arguments%s: no room for %s' % (by, self.nargs, ' and a hidden result pointer' if self.hidden else '', what))
            if alignment(b) % 8:
                self.report('prepared stack space is a multiple of the slot size', 'ffi_prep_cif_machdep_efi64', 'ffi_cif.bytes is %s' % by)


class WCall(WModel):
    TARGET = 'ffi_call_win64'

    def start(self):
        st = WModel.start(self)
        # what preparation guarantees about the size of the argument area
        st.f.rng[self.bytes] = (32, 1 << 20)
        self.bytes.al = 8
        n = self.nargs
        if isc(n):
            st.f.rng[self.bytes] = (max(32, 8 * (cv(n) + self.hidden)), 1 << 20)
        else:
            st.f.add_ge(-8 * self.hidden, ((self.bytes, 1), (n, -8)))
        return st

    def inlist(self, f, it):
        f.add_ge(-8 * self.hidden - 8, ((f.zext(self.bytes, 64), 1), (it, -8)))

    def call(self, ai, st, name, fn, args, inst):
        if name == self.TARGET:
            self.at_call(ai, st, args, inst)
            self.final.append((st, args, inst))
            return [(st, None)]
        return None

    def at_call(self, ai, st, args, inst):
        f = st.f
        self.complete(st)
        B, o0 = ai.split(st, args[0])
        self.flagsout = self.rvout = const(64, 0)
        self.rvbase = self.rvlim = None
        if B is None or not local(B) or not isc(o0):
            if B is not None and not opaque(args[0]) and not local(B):
                self.report('the argument slots are an object of the call', inst, 'they are at %s' % args[0])
                return
            raise Broken('argument slots passed to the assembly are not a local object')
        o0 = cv(o0)
        FB, fo = ai.split(st, args[1])
        by = addc(f.zext(self.bytes, 64), o0)
        if FB is not B or not f.eq(fo, by):
            self.report('the call frame lies right above the argument slots', inst, 'slots at %s, frame at %s, %s bytes of slots' % (
                args[0], args[1], self.bytes))
            return
        if (alignment(B) | o0) % 16:
            self.report('the stack is 16-byte aligned at calls', inst, 'argument slots at %s' % args[0])
        sz = st.g.get(('_sz', B))
        if not within(f, by, const(64, 40), sz):
            self.report('argument block too small', inst, 'it has %s bytes, the frame is at %s' % (sz, by))

        def fr(o, n=8):
            return f.norm(ai.read(st, B, addc(by, o), n, False, inst)[0][1])
        fn, fl, rv = fr(win64.FN), fr(win64.FLAGS, 4), fr(win64.RV)
        if opaque(fn) or opaque(fl) or opaque(rv):
            fn, fl, rv = [f.norm(thru(ai, st, B, addc(by, o), n)) for o, n in ((win64.FN, 8), (win64.FLAGS, 4), (win64.RV, 8))]
        if fn is not sym('$fn', 64, True):
            self.report('the function to call is the one passed', inst, 'the frame holds %s' % fn)
        if getattr(self, 'go', False) and f.norm(args[2]) is not place.CHAIN:
            self.report('the environment pointer is passed as static chain', inst, 'the static chain register gets %s' % args[2])
        self.flagsout = fl
        self.hi_flags(f, fr(win64.FLAGS + 4, 4), inst)
        self.rvout = rv
        self.rvlim = None
        b, o = ai.split(st, rv)
        self.rvbase = b
        if b is B and isc(sub(o, by)):
            d = sgn(cv(sub(o, by)), 64)
            if d < 40 and (self.hidden or d > -16):
                self.report('the temporary result buffer does not overlap the argument slots or the frame', inst, 'it is at %d of the frame' % d)
            self.rvlim = sub(sz, o) if d >= 40 else const(64, max(0, -d))
        elif b is not None and b.op == 'sym' and b.a[0][0] == '%':
            self.rvlim = sub(st.g[('_sz', b)], o)
        if self.hidden:
            v = f.norm(thru(ai, st, B, const(64, o0), 8))
            if not f.eq(v, rv):
                self.report('address of the in-memory result is not the first argument', inst, 'first slot holds %s, result goes to %s' % (v, rv))
            if self.rvlim is not None and not within(f, const(64, 0), st.g[('_size', sym('$rtype', 64, True))], self.rvlim):
                self.report('the temporary result buffer is large enough', inst, 'it has %s bytes' % self.rvlim)
        pos = [i for i, e in enumerate(st.ev) if e.k == 'alloca' and e.base is B]
        self.early = {e.name for e in st.ev[:pos[-1]] if e.k == 'loop'} if pos else set()
        if not isc(self.nargs):
            placed = {}
            for t in self.trans[self.judged:]:
                if any(ev.k in ('store', 'copy', 'set') and ev.base is B for ev in t[2].ev):
                    placed.setdefault(t[0], []).append(t)
            loops = {t[0] for t in self.trans[self.judged:]}
            if self.trans[self.judged:] and not placed:
                self.report('arguments are stored in their slots', inst, 'no loop over the arguments stores to the argument slots')
            for l in placed:
                for lp, hs, s, p, k in self.trans[self.judged:]:
                    if lp is l:
                        self.one(ai, B, o0, s, p, k, None)
            self.judged = len(self.trans)
        else:
            seen = {}
            for i in range(cv(self.nargs)):
                p = atom('init', 64, sym('$argt', 64, True), const(64, 8 * i))
                if ('_kind', p) in st.g:
                    self.ntrans += 1
                    v = self.one(ai, B, o0, st, p, st.g[('_kind', p)], pos[-1] if pos else 0)
                    if v is not None:
                        if v in seen:
                            self.report('arguments passed by reference have copies of their own', inst, 'arguments %d and %d share %s' % (i, seen[v], v))
                        seen[v] = i
                else:
                    self.report('an argument is not looked at', inst, 'argument %d of %d' % (i, cv(self.nargs)))

    def hi_flags(self, f, v, inst):
        pass

    def one(self, ai, B, o0, st, p, k, exact):
        f = st.f
        A = atom('init', 64, sym('$avalue', 64, True), p.a[1])
        A.ptr = True
        size = st.g[('_size', p)]
        slot = addc(st.g[('_slot', p)], o0)
        ret = None

        def res(ok, rule, msg):
            if ok is None:
                self.unsure(rule, 'ffi_call_efi64', '%s: %s' % (k, msg))
            elif not ok:
                self.report(rule, 'ffi_call_efi64', '%s: %s' % (k, msg))
        if not byref(k):
            ok = cover(ai, st, B, slot, size, A, const(64, 0))
            res(ok, 'argument misplaced', 'its %s bytes are not stored at slot offset %s' % (size, slot))
        else:
            v = f.norm(ai.read(st, B, slot, 8, True, None)[0][1])
            rule = 'an argument that fits no slot is passed by reference to a private copy'
            if opaque(v):
                res(None, rule, 'the slot holds %s' % v)
            elif ('_copyof', v) in st.g:
                q, tag = st.g[('_copyof', v)]
                res(q is p, rule, 'the slot holds the address of the copy of another argument')
                res(tag in self.early, 'copies lie above the argument slots on the stack', 'the copy is made after the slots were allocated')
            else:
                P, o = ai.split(st, v)
                own = P is not None and P.op == 'sym' and P.a[0][0] == '%' and P is not B
                res(own, rule, 'the slot holds %s' % v)
                if own:
                    res(cover(ai, st, P, o, size, A, const(64, 0)), rule, 'the copy at %s does not hold the argument' % v)
                    res(within(f, o, size, st.g[('_sz', P)]), 'the argument copy is large enough', 'the copy at %s is too small' % v)
                    res((alignment(P) | (cv(o) if isc(o) else 1)) % 16 == 0, 'copies are 16-byte aligned', '%s' % v)
                    if exact is None:
                        fresh = any(e.k == 'alloca' and e.base is P for e in st.ev)
                        res(not fresh, 'copies lie above the argument slots on the stack', 'the copy is made after the slots were allocated')
                        res(False, rule, 'all arguments share the copy %s' % P) if not fresh else None
                    else:
                        a = [i for i, e in enumerate(st.ev) if e.k == 'alloca' and e.base is P]
                        res(bool(a) and a[-1] < exact, 'copies lie above the argument slots on the stack', 'the copy is made after the slots were allocated')
                        ret = P
        for ev in st.ev if exact is None else ():
            if ev.k in ('store', 'copy', 'set') and ev.base is B and not within(f, sub(ev.off, slot), ev.n, const(64, 8)):
                x = f._int(addc(sub(add(ev.off, ev.n), slot), -9), True)
                self.report('an argument is stored beyond the end of its place' if x and f.pge(*x) else 'an argument is stored outside its slot', ev.inst, '%s: %s bytes at %s, its slot is at %s' % (k, ev.n, ev.off, slot))
            if ev.k == 'load' and ev.base is A and not within(f, ev.off, ev.n, size):
                self.report('reads beyond the argument', ev.inst, '%s: %s bytes at offset %s of %s' % (k, ev.n, ev.off, size))
            if ev.k in ('store', 'copy', 'set') and ev.base is A:
                self.report('writes to the argument', ev.inst, str(k))
        return ret


class WInner(WModel):
    """the closure: where the handler's argument pointers lead"""

    def indirect(self, ai, st, target, args, inst):
        if target is sym('$fun', 64, True):
            self.at_call(ai, st, args, inst)
            self.final.append((st, args, inst))
            return [(st, None)]
        return None

    def at_call(self, ai, st, args, inst):
        f = st.f
        self.complete(st)
        for i, w, what in ((0, sym('$cif', 64, True), 'interface'), (3, sym('$user', 64, True), 'user data')):
            if args[i] is not w:
                self.report('the handler gets the closure\'s ' + what, inst, 'it gets %s' % args[i])
        FR = sym('$frame', 64, True, 8)
        first = atom('init', 64, FR, const(64, win64.CF_ARGS))
        if self.hidden:
            if not (args[1] is first):
                self.report('the handler\'s result buffer is the caller\'s', inst, 'it is %s' % args[1])
            v = ai.read(st, FR, const(64, win64.CF_RV), 8, False, None)[0][1]
            if v is not first:
                self.report('the address of the caller\'s result buffer is kept for the return', inst, 'the result area holds %s' % v)
        elif self.rkind is None or self.rkind.code != VOID:
            if args[1] is not FR:
                self.report('the handler\'s result buffer is the result area', inst, 'it is %s' % args[1])
        AV, o0 = ai.split(st, args[2])
        if AV is None or not isc(o0):
            raise Broken('argument vector handed to the handler')
        o0 = cv(o0)
        if not local(AV):
            if opaque(AV):
                raise Broken('argument vector handed to the handler is %s' % AV)
            self.report('the argument vector is an object of the closure call', inst, 'it is %s' % args[2])
            return
        else:
            n8 = mulc(f.zext(self.nargs, 64), 8)
            if not within(f, const(64, o0), n8, st.g.get(('_sz', AV))):
                self.report('argument vector too small', inst, '%s bytes for %s' % (st.g.get(('_sz', AV)), n8))
        for ev in st.ev:
            if ev.k in ('store', 'copy', 'set') and ev.base is FR and not within(f, ev.off, ev.n, const(64, 16)):
                self.report('incoming arguments are overwritten', ev.inst, '%s bytes at %s of the frame' % (ev.n, ev.off))
        if not isc(self.nargs):
            loops = {t[0] for t in self.trans[self.judged:] if any(e.k == 'store' and e.base is AV for e in t[2].ev)}
            if self.trans[self.judged:] and not loops:
                self.report('the argument vector is filled', inst, 'no loop over the arguments stores to it')
            for lp, hs, s, p, k in self.trans[self.judged:]:
                if lp in loops:
                    self.one(ai, AV, o0, s, p, k, hs)
            self.judged = len(self.trans)
        else:
            for i in range(cv(self.nargs)):
                p = atom('init', 64, sym('$argt', 64, True), const(64, 8 * i))
                if ('_kind', p) in st.g:
                    self.ntrans += 1
                    self.one(ai, AV, o0, st, p, st.g[('_kind', p)], None)
                else:
                    self.report('an argument is not looked at', inst, 'argument %d of %d' % (i, cv(self.nargs)))

    def one(self, ai, AV, o0, st, p, k, hs):
        f = st.f
        FR = sym('$frame', 64, True, 8)
        slot = st.g[('_slot', p)]
        size = st.g[('_size', p)]
        ptr = f.norm(ai.read(st, AV, addc(p.a[1], o0), 8, True, None)[0][1])

        def res(ok, rule, msg):
            if ok is None:
                self.unsure(rule, 'ffi_closure_win64_inner', '%s: %s' % (k, msg))
            elif not ok:
                self.report(rule, 'ffi_closure_win64_inner', '%s, argument slot at %s: %s' % (k, slot, msg))
        P, o = ai.split(st, ptr)
        if P is None or opaque(ptr):
            res(None if P is not None and opaque(ptr) else False, 'argument pointer', 'argument pointer is %s' % ptr)
            return
        rule = 'argument fetched from the wrong place'
        pos = addc(slot, win64.CF_ARGS)
        if byref(k):
            # the pointer the caller passed, or a copy of what it points to
            want = atom('init', 64, FR, pos)
            if f.eq(ptr, want):
                return
            w2 = f.norm(ai.read(st, FR, pos, 8, True, None)[0][1])
            ok = cover(ai, st, P, o, size, w2, const(64, 0)) if P.op == 'sym' and P.a[0][0] == '%' else f.eq(ptr, w2)
            if ok is None and (P is FR or P.op == 'init' and P.a[0] is FR and isc(f.norm(sub(P.a[1], pos))) and P is not want):
                ok = False      # an address in the frame, or another of its words: unrelated to what the caller put in the slot
            res(ok, rule, 'the pointer passed to the handler is %s' % ptr)
            return
        if k.code in (FLOAT, DOUBLE):
            lo = f._int(sub(const(64, 24), slot), True)
            hi = f._int(addc(slot, -32), True)
            islo, ishi = bool(lo and f.pge(*lo)), bool(hi and f.pge(*hi))
            srcs = []
            if not ishi:
                srcs.append(addc(slot, win64.CF_X))
            if not islo:
                srcs.append(pos)
            oks = [self.at(ai, st, P, o, size, FR, s) for s in srcs]
            ok = None if None in oks else all(oks)
        else:
            ok = self.at(ai, st, P, o, size, FR, pos)
        res(ok, rule, 'the pointer passed to the handler is %s' % ptr)
        for ev in st.ev if hs is not None else ():
            if ev.k in ('store', 'copy', 'set') and ev.base is FR:
                self.report('incoming arguments are overwritten', ev.inst, str(k))
            if ev.k in ('store', 'copy', 'set') and ev.base is AV and not f.eq(ev.off, addc(p.a[1], o0)):
                self.report('argument vector written at another index', ev.inst, '%s: offset %s' % (k, ev.off))

    def at(self, ai, st, P, o, size, FR, src):
        return cover(ai, st, P, o, size, FR, src)


def run_wprep(mods, ks, rkind, abi, nargs=None, prefix=None):
    c = WPrep(ks, rkind, abi, nargs)
    c.prefix = prefix
    ai = irai.AI(mods, c)
    rets = ai.run(need(mods, 'ffi_prep_cif_machdep'), c.start(), [sym('$cif', 64, True)])
    c.judge(ai, rets)
    c.visited = ai.visited
    return c


def run_wcall(mods, ks, rkind, abi, flags, nargs=None, rnull=False, prefix=None, go=False):
    c = WCall(ks, rkind, abi, nargs, flags)
    c.go = go
    c.prefix = prefix
    ai = irai.AI(mods, c, log_loads=True)
    if prefix is not None:
        ai.unroll_width = 6000
    rv = const(64, 0) if rnull else sym('$rvalue', 64, True, 16)
    ai.run(need(mods, 'ffi_call_go' if go else 'ffi_call'), c.start(),
           [sym('$cif', 64, True), sym('$fn', 64, True), rv, sym('$avalue', 64, True)] + ([place.CHAIN] if go else []))
    c.visited = ai.visited
    c.ai = ai
    return c


def run_winner(mods, ks, rkind, abi, flags, nargs=None, prefix=None):
    c = WInner(ks, rkind, abi, nargs, flags)
    c.prefix = prefix
    ai = irai.AI(mods, c)
    if prefix is not None:
        ai.unroll_width = 6000
    c.rets = ai.run(need(mods, 'ffi_closure_win64_inner'), c.start(),
                    [sym('$cif', 64, True), sym('$fun', 64, True), sym('$user', 64, True), sym('$frame', 64, True, 8)])
    c.visited = ai.visited
    c.ai = ai
    return c
