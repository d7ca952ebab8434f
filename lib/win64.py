"""The Windows x64 entry points (win64.S) against that ABI."""
from abi import *
import asmai
from asmai import Machine, SYSV_SAVED, MS_SAVED, BIG
from unix64 import Base, obj, asmwhere
import place

UNIT = 'src/x86/win64.S'
MSX = tuple('xmm%d' % i for i in range(6, 16))
FN, FLAGS, RV = 16, 24, 32          # win64_call_frame
CF_RV, CF_X, CF_ARGS = 0, 16, 56    # win64_closure_frame


class CallW(Base):
    """ffi_call_win64 (stack, frame, closure)"""
    ENTRY = 'ffi_call_win64'
    redzone = 0

    def __init__(self, rk=None, fdes=None):
        Base.__init__(self)
        self.rk = rk
        self.fdes = fdes
        self.args = sym('$args', 64, True, 16)
        self.stk = sym('$stk', 64, True, 16)
        self.bytes = sym('$cifbytes', 64)
        self.rvb = sym('$rv', 64, True)
        self.ncalls = 0

    def start(self, m, flags):
        st = m.start_state()
        st.f.rng[self.bytes] = (32, 1 << 31)
        self.bytes.al = 8
        self.frame = add(self.args, self.bytes)
        st.loc['rdi'] = self.args
        st.loc['rsi'] = self.frame
        st.loc['rdx'] = sym('$clo', 64, True)
        w = m.ai.write
        w(st, self.args, addc(self.bytes, FN), 8, sym('$fn', 64, True))
        w(st, self.args, addc(self.bytes, FLAGS), 8, st.f.zext(flags, 64) if flags.w < 64 else flags)
        w(st, self.args, addc(self.bytes, RV), 8, self.rvb)
        return st

    def cfa_ok(self, st, cfa):
        return cfa is self.stk or cfa is addc(self.frame, 16)

    def need_cfi(self, I):
        return I.fn == self.ENTRY

    def on_call(self, m, st, tgt, I):
        if tgt == 'abort':
            self.aborted(m, st, I)
            return []
        if isinstance(tgt, str):
            raise Broken('call of %s at %s' % (tgt, I))
        self.common_call(m, st, I)
        self.ncalls += 1
        self.check(tgt is sym('$fn', 64, True), 'the function to call is the one passed', I, 'calls %s' % tgt)
        for i, r in enumerate(('rcx', 'rdx', 'r8', 'r9')):
            v = atom('init', 64, self.args, const(64, 8 * i))
            self.check(st.loc[r] is v, 'the first four slots are loaded into the general argument registers', I, '%%%s is %s' % (r, st.loc[r]))
            self.check(st.loc['xmm%d' % i][0] is v, 'the first four slots are loaded into the vector argument registers', I,
                       '%%xmm%d is %s' % (i, st.loc['xmm%d' % i][0]))
        self.check(st.loc['r10'] is sym('$clo', 64, True), 'the static chain register is loaded', I, '%%r10 is %s' % st.loc['r10'])
        self.check(st.loc['rsp'] is self.args, 'the argument slots start at the stack pointer', I, 'stack pointer is %s' % st.loc['rsp'])
        for e in st.mem.get(self.args, ()):
            i = st.f._int(sub(e[1], self.bytes), True)
            self.check(bool(i and st.f.pge(*i)), 'the argument slots reach the callee as stored', I, 'offset %s was overwritten' % e[1])
        s = st.copy()
        m.clobber_regs(s, MS_SAVED + MSX, '$ret')
        m.clobber_mem(s, self.args, -BIG, addc(self.bytes, BIG), '$clob')
        m.clobber_mem(s, self.stk, -BIG, const(64, BIG), '$clob')
        return [s]

    def access(self, m, st, b, off, n, I, w):
        f = st.f
        if b is self.args:
            self.check(place.within(f, off, n, addc(self.bytes, 40)), 'the argument block is not exceeded', I, '%s: offset %s' % (I, off))
        elif b is self.stk:
            i = f._int(neg(add(off, n)), True)
            self.check(bool(i and f.pge(*i)), 'the caller\'s frame is not touched', I, '%s: offset %s from the caller\'s stack pointer' % (I, off))
        elif b is self.rvb:
            if not w:
                self.report('the result buffer is only written', I, str(I))
        else:
            self.report('only the argument block, the own frame and the result buffer are touched', I, '%s touches %s+%s' % (I, b, off))

    def final(self, m, st, I):
        rsp = st.loc['rsp']
        self.check(rsp is self.stk or rsp is addc(self.frame, 16), 'the stack pointer is back in the caller\'s frame on return', I,
                   'stack pointer is %s' % rsp)
        if self.rk is not None:
            self.judge(m, st, I)

    def judge(self, m, st, I):
        k, f = self.rk, st.f
        inmem = win_mem(k)
        lim = const(64, 0)
        if not self.rnull and k.code != VOID and not inmem:
            lim = const(64, 8 if k.code in INTS or k.code == POINTER else k.size)
        for e in st.mem.get(self.rvb, ()):
            n = const(64, e[2]) if isinstance(e[2], int) else e[2]
            self.check(place.within(f, e[1], n, lim), 'no byte beyond the result is written', I,
                       '%s: %s bytes written at offset %s of the result buffer, which ends at %s' % (k, n, e[1], lim))
        if self.rnull or k.code == VOID or inmem:
            return
        rule = 'the result buffer holds the returned value'
        rax, x0 = sym('$ret.rax', 64), sym('$ret.x0.lo', 64)
        if k.code in INTS or k.code == POINTER:
            w = 8 * SCAL[k.code][0]
            want = f.sext(trunc(rax, w), 64) if k.code in (S8, S16, S32, S64) else f.zext(trunc(rax, w), 64)
            n = 8
        else:
            n = k.size
            want = trunc(x0 if k.code in (FLOAT, DOUBLE) else rax, 8 * n)
        got = m.ai.read(st, self.rvb, const(64, 0), n, False, None)[0][1]
        self.check(f.eq(got, want), rule, I, '%s: the buffer holds %s, expected %s' % (k, got, want))


def win_mem(k):
    """returned through a hidden pointer"""
    if k.code in (STRUCT, COMPLEX):
        return k.size not in (1, 2, 4, 8)
    return k.code == LDOUBLE


def run_callw(flags, rk=None, rnull=False, fdes=None):
    c = CallW(rk, fdes)
    c.rnull = rnull
    m = Machine(obj(UNIT), c)
    m.run(c.ENTRY, c.start(m, flags))
    c.machine = m
    return c


class CloW(Base):
    INNER = 'ffi_closure_win64_inner'
    saved = MS_SAVED
    saved_x = MSX
    redzone = 0
    CLO = (32, 40, 48)
    GO = (8, 16, None)

    def __init__(self, entry, rk=None, fdes=None, offs=None, alt=None):
        Base.__init__(self)
        self.entry = entry
        self.offs = offs or (self.GO if 'go' in entry else self.CLO)
        self.alt = entry.endswith('_alt') if alt is None else alt
        self.rk = rk
        self.fdes = fdes
        self.stk = sym('$stk', 64, True, 16)
        self.clo = sym('$clo', 64, True, 8)
        self.ncalls = 0

    def start(self, m):
        st = m.start_state()
        st.loc['r10'] = self.clo
        if self.alt:
            import trampslot
            t = trampslot.entry_state(self.clo)
            if t is not None:
                return t
            st.loc['rsp'] = addc(self.stk, -24)
            m.ai.write(st, self.stk, const(64, -24), 8, sym('$r.r10', 64))
            m.ai.write(st, self.stk, const(64, -16), 8, self.clo)
            st.loc['r10'] = sym('$tramp.r10', 64)
        return st

    def frame_ok(self, m, st, I):
        if not I.fn.endswith('_alt'):
            Base.frame_ok(self, m, st, I)

    def need_cfi(self, I):
        return True

    def access(self, m, st, b, off, n, I, w):
        f = st.f
        if b is self.stk:
            if w:
                i = f._int(sub(const(64, -8), add(off, n)), True)
                own = bool(i and f.pge(*i))
                home = place.within(f, off, n, const(64, 32))
                self.check(own or home, 'only the own frame and the register home area are written', I, '%s: offset %s from the caller\'s stack pointer' % (I, off))
        elif b is self.clo:
            if w:
                self.report('the closure is only read', I, str(I))
        else:
            self.report('only the own frame and the closure are touched', I, '%s touches %s+%s' % (I, b, off))

    def on_call(self, m, st, tgt, I):
        if tgt == 'abort':
            self.aborted(m, st, I)
            return []
        if tgt != self.INNER:
            raise Broken('call of %s at %s' % (tgt, I))
        self.common_call(m, st, I)
        self.ncalls += 1
        for r, o, nm in zip(('rcx', 'rdx', 'r8'), self.offs, ('interface', 'handler', 'user data')):
            want = self.clo if o is None else atom('init', 64, self.clo, const(64, o))
            self.check(st.loc[r] is want, 'the closure entry passes the closure\'s %s on' % nm, I, '%%%s is %s' % (r, st.loc[r]))
        fb, fo = m.ai.split(st, st.loc['r9'])
        if fb is not self.stk or not isc(fo):
            self.report('the closure frame is in the entry\'s frame', I, 'it is at %s' % st.loc['r9'])
            return []
        a = sgn(cv(fo), 64)
        self.check(a + CF_ARGS == 0, 'the closure entry passes the address of the argument slots', I, 'argument slots at %d of the frame at %d' % (CF_ARGS, a))

        def rd(o):
            return m.ai.read(st, fb, const(64, o), 8, False, None)[0][1]
        for i, r in enumerate(('rcx', 'rdx', 'r8', 'r9')):
            self.check(rd(a + CF_ARGS + 8 * i) is sym('$r.' + r, 64), 'general argument registers are saved for the handler', I, 'slot %d holds %s' % (i, rd(a + CF_ARGS + 8 * i)))
            self.check(rd(a + CF_X + 8 * i) is sym('$x%d.lo' % i, 64), 'vector argument registers are saved for the handler', I, 'slot %d holds %s' % (i, rd(a + CF_X + 8 * i)))
        sp = sgn(cv(sub(st.loc['rsp'], self.stk)), 64)
        self.check(sp + 32 <= a, 'the register home area for the C part is free', I, 'stack pointer at %d, frame data at %d' % (sp, a))
        s = st.copy()
        m.clobber_regs(s, MS_SAVED + MSX, '$ret')
        m.clobber_mem(s, self.stk, -BIG, BIG + sp + 32, '$clob')
        m.clobber_mem(s, self.stk, a + CF_X, 32, '$clobx')
        m.clobber_mem(s, self.stk, 0, BIG, '$cloba')
        s.mem[self.stk] = s.mem[self.stk] + (('cp', const(64, a), const(64, 16), sym('$val', 64, True, 16), const(64, 0), ()),)
        return [s]

    def final(self, m, st, I):
        self.check(st.loc['rsp'] is self.stk, 'the stack pointer is restored on return', I, 'stack pointer is %s' % st.loc['rsp'])
        k = self.rk
        if k is None or k.code == VOID:
            return
        V = sym('$val', 64, True, 16)
        rule = 'the result registers hold the handler\'s result'
        n = 8 if win_mem(k) else k.size
        r = 'xmm0' if k.code in (FLOAT, DOUBLE) else 'rax'
        got = trunc(st.loc['xmm0'][0] if r == 'xmm0' else st.loc['rax'], 8 * n)
        want = atom('init', 8 * n, V, const(64, 0))
        self.check(st.f.eq(got, want), rule, I, '%s: %%%s holds %s, expected %s' % (k, r, got, want))


def run_clow(entry, rk=None, fdes=None, **kw):
    c = CloW(entry, rk, fdes, **kw)
    m = Machine(obj(UNIT), c)
    m.run(entry, c.start(m))
    c.machine = m
    return c


ENTRIES = ('ffi_closure_win64', 'ffi_go_closure_win64', 'ffi_closure_win64_alt')
