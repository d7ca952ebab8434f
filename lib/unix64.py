"""The System V entry points: what ffi_call_unix64 and the closure entries do with
registers, stack and result, against the psABI."""
from abi import *
import asmai
from asmai import Machine, AsmClient, Obj, SYSV_SAVED, BIG
import place

UNIT = 'src/x86/unix64.S'
_o = {}


def obj(unit=UNIT):
    if unit not in _o:
        _o[unit] = Obj(unit)
    return _o[unit]


def asmwhere(I):
    return '%s:%s (%s)' % (I.file, I.line, I.fn)


class Base(AsmClient):
    saved = SYSV_SAVED
    redzone = 128

    def __init__(self):
        self.viol = []
        self.oblig = {}
        self.nret = 0
        self.fdes = None
        self.aborts = 0
        self.rv = None

    def report(self, rule, I, msg):
        self.viol.append((rule, asmwhere(I), msg))

    def ok(self, rule, n=1):
        self.oblig[rule] = self.oblig.get(rule, 0) + n

    def check(self, cond, rule, I, msg):
        if cond:
            self.ok(rule)
        else:
            self.report(rule, I, msg)
        return cond

    def on_problem(self, m, st, I, msg):
        self.report(msg, I, str(I))

    def on_indirect(self, m, st, target, I):
        t = m.o.ins.get(target)
        self.check('notrack' in I.pre or (t is not None and t.mn == 'endbr64'), 'landing: an indirect branch leads to an end-branch marker',
                   t or I, '%s is reached by %s' % (t, I))

    def on_ret(self, m, st, ra, I):
        self.nret += 1
        self.check(ra is sym('$retaddr', 64), 'returns to the address it was called from', I, 'returns to %s' % ra)
        for r in self.saved:
            self.check(st.loc[r] is sym('$r.' + r, 64), 'callee-saved registers hold their entry values on return', I,
                       '%%%s is %s' % (r, st.loc[r]))
        for x in getattr(self, 'saved_x', ()):
            self.check(st.loc[x] == (sym('$x%s.lo' % x[3:], 64), sym('$x%s.hi' % x[3:], 64)),
                       'callee-saved vector registers hold their entry values on return', I, '%%%s changed' % x)
        self.final(m, st, I)

    def final(self, m, st, I):
        pass

    def frame_ok(self, m, st, I):
        """the unwind row for this instruction recovers the caller"""
        if self.fdes is None:
            return
        row = asmai.cfi_row(self.fdes, I.addr)
        if row is None:
            if I.mn in ('call', 'callq') or self.need_cfi(I):
                self.report('unwind information covers the code', I, 'no unwind row for %s' % I)
            return
        _, reg, off, rr = row
        cfa = addc(st.loc[reg], off) if reg in asmai.GPR else None
        if cfa is None:
            self.report('unwind row is usable', I, 'CFA rule %s' % (reg,))
            return
        b, o = m.ai.split(st, cfa)

        def at(k):
            v = m.ai.read(st, b, addc(o, k), 8, False, None)
            return v[0][1]
        if b is None:
            self.report('unwind row recovers the frame', I, 'CFA is %s' % cfa)
            return
        ra = at(rr.get('ra', 0)) if isinstance(rr.get('ra'), int) else None
        self.check(ra is sym('$retaddr', 64), 'unwind row recovers the return address', I,
                   'row %s+%d at %s finds %s' % (reg, off, I, ra))
        self.check(self.cfa_ok(st, cfa), 'unwind row recovers the caller\'s stack pointer', I, 'row %s+%d at %s gives %s' % (reg, off, I, cfa))
        for r in self.saved:
            v = at(rr[r]) if isinstance(rr.get(r), int) else st.loc[r]
            self.check(v is sym('$r.' + r, 64), 'unwind row recovers the callee-saved registers', I,
                       'at %s the row gives %%%s = %s' % (I, r, v))

    def need_cfi(self, I):
        return False

    def cfa_ok(self, st, cfa):
        return cfa is sym('$stk', 64, True, 16)

    def on_ins(self, m, st, I):
        self.frame_ok(m, st, I)

    def common_call(self, m, st, I):
        rsp = st.loc['rsp']
        self.check(alignment(rsp) % 16 == 0, 'the stack is 16-byte aligned at calls', I, 'stack pointer is %s' % rsp)

    def below(self, m, st, off, I):
        """an access at offset off of the object the stack pointer points into"""
        b, o = m.ai.split(st, st.loc['rsp'])
        return b, o

    def on_access(self, m, st, b, off, n, I, w):
        rb, ro = m.ai.split(st, st.loc['rsp'])
        if b is rb:
            d = sub(off, ro)
            x = st.f._int(addc(d, self.redzone), True)
            if not (x and st.f.pge(*x)):
                self.report('no use of memory below the stack pointer\'s red zone', I, '%s at stack pointer %s' % (I, d))
        self.access(m, st, b, off, n if isinstance(n, T) else const(64, n), I, w)

    def access(self, m, st, b, off, n, I, w):
        pass

    def aborted(self, m, st, I):
        self.aborts += 1


class CallAsm(Base):
    """ffi_call_unix64 (args, bytes, flags, rvalue, fn)"""
    ENTRY = 'ffi_call_unix64'

    def __init__(self, rk=None, rvbase=None, fdes=None):
        Base.__init__(self)
        self.rk = rk
        self.fdes = fdes
        self.args = sym('$args', 64, True, 16)
        self.stk = sym('$stk', 64, True, 16)
        self.cifb = sym('$cifbytes', 64)
        self.bytes = addc(self.cifb, place.REGAREA)
        self.rvb = rvbase if rvbase is not None else sym('$rv', 64, True)
        self.ncalls = 0
        self.x87ret = ()

    def start(self, m, flags, rvalue):
        st = m.start_state()
        st.f.rng[self.cifb] = (0, 1 << 31)
        self.cifb.al = 8
        st.loc['rdi'] = self.args
        st.loc['rsi'] = self.bytes
        hi = sym('$flags.garbage', 32)
        st.loc['rdx'] = add(st.f.zext(flags, 64), mulc(st.f.zext(hi, 64), 1 << 32))
        st.loc['rcx'] = rvalue
        st.loc['r8'] = sym('$fn', 64, True)
        return st

    def cfa_ok(self, st, cfa):
        return cfa is self.stk or cfa is add(self.args, addc(self.bytes, 32))

    def need_cfi(self, I):
        return I.fn == self.ENTRY

    def on_call(self, m, st, tgt, I):
        if isinstance(tgt, str):
            if tgt == 'abort':
                self.common_call_abort(m, st, I)
                self.aborted(m, st, I)
                return []
            raise Broken('call of %s at %s' % (tgt, I))
        self.common_call(m, st, I)
        self.ncalls += 1
        self.check(tgt is sym('$fn', 64, True), 'the function to call is the one passed', I, 'calls %s' % tgt)
        A = self.args

        def rd(o, n=8):
            return m.ai.read(st, A, const(64, o), n, False, None)[0][1]
        for i, r in enumerate(('rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9')):
            v = atom('init', 64, A, const(64, 8 * i))
            self.check(st.loc[r] is v, 'argument registers are loaded from the argument block', I, '%%%s is %s' % (r, st.loc[r]))
        rax = st.f.norm(trunc(st.loc['rax'], 8))
        want = atom('init', 8, A, const(64, place.RAX))
        self.check(rax is want or (isc(rax) and st.f.eq(want, rax)), 'vector register count is passed in %al', I, '%%al is %s' % rax)
        if not st.f.eq(atom('init', 32, A, const(64, place.RAX)), const(32, 0)):
            for i in range(8):
                v = (atom('init', 64, A, const(64, 48 + 16 * i)), atom('init', 64, A, const(64, 56 + 16 * i)))
                self.check(st.loc['xmm%d' % i] == v, 'vector argument registers are loaded whenever any is used', I,
                           '%%xmm%d is %s' % (i, st.loc['xmm%d' % i]))
        self.check(st.loc['r10'] is atom('init', 64, A, const(64, place.R10)), 'the static chain register is loaded', I,
                   '%%r10 is %s' % st.loc['r10'])
        self.check(st.loc['rsp'] is addc(A, place.REGAREA), 'stack arguments start at the stack pointer', I, 'stack pointer is %s' % st.loc['rsp'])
        self.check(st.mem.get(A, ()) == () or self.untouched(m, st), 'stack arguments reach the callee as stored', I, 'the block was changed')
        self.check(st.loc['x87'] == (), 'x87 stack is empty at the call', I, str(st.loc['x87']))
        s = st.copy()
        m.clobber_regs(s, self.saved, '$ret')
        m.clobber_mem(s, A, -BIG, addc(self.bytes, BIG), '$clob')
        m.clobber_mem(s, self.stk, -BIG, const(64, BIG), '$clob')
        s.loc['x87'] = self.x87ret
        return [s]

    def common_call_abort(self, m, st, I):
        pass

    def untouched(self, m, st):
        for e in st.mem.get(self.args, ()):
            i = st.f._int(sub(e[1], self.bytes), True)
            if not (i and st.f.pge(*i)):
                return False
        return True

    def access(self, m, st, b, off, n, I, w):
        f = st.f
        if b is self.args:
            self.check(place.within(f, off, n, addc(self.bytes, 32)), 'the argument block is not exceeded', I, '%s: offset %s of %s bytes' % (I, off, self.bytes))
        elif b is self.stk:
            i = f._int(neg(add(off, n)), True)
            self.check(bool(i and f.pge(*i)), 'the caller\'s frame is not touched', I, '%s: offset %s from the caller\'s stack pointer' % (I, off))
        elif b is self.rvb:
            if not w:
                self.report('the result buffer is only written', I, str(I))
        else:
            self.report('only the argument block, the own frame and the result buffer are touched', I, '%s touches %s+%s' % (I, b, off))

    def final(self, m, st, I):
        rsp = st.loc['rsp']
        self.check(rsp is self.stk or rsp is add(self.args, addc(self.bytes, 32)),
                   'the stack pointer is back in the caller\'s frame on return', I, 'stack pointer is %s' % rsp)
        self.check(st.loc['x87'] == (), 'nothing is left on the x87 stack', I, '%d values are left' % len(st.loc['x87']))
        if self.rk is not None:
            judge_result(self, m, st, I)


def result_regs(k):
    """psABI 3.2.3: (byte offset, bytes, term) of the result"""
    ints = [sym('$ret.rax', 64), sym('$ret.rdx', 64)]
    ss = [sym('$ret.x0.lo', 64), sym('$ret.x1.lo', 64)]
    out = []
    for j, c in enumerate(k.cls):
        e = k.ext[j] if j < len(k.ext) else 8
        if c == 'I':
            out.append((8 * j, e, trunc(ints.pop(0), 8 * e)))
        elif c == 'S':
            out.append((8 * j, e, trunc(ss.pop(0), 8 * e)))
        elif c == 'X':
            out.append((8 * j, 10, sym('$x87.0', 80)))
        elif c == 'C':
            out.append((0, 10, sym('$x87.0', 80)))
            out.append((16, 10, sym('$x87.1', 80)))
    return out


def x87_of(k):
    if 'X' in k.cls:
        return (sym('$x87.0', 80),)
    if 'C' in k.cls:
        return (sym('$x87.0', 80), sym('$x87.1', 80))
    return ()


SIGNED = (S8, S16, S32, S64)


def judge_result(c, m, st, I):
    k = c.rk
    f = st.f
    size = cv(c.rvsize) if isc(c.rvsize) else None
    lim = c.rvsize
    if k.code in INTS and not c.rnull:
        lim = const(64, 8)
    log = st.mem.get(c.rvb, ())
    if k.code == VOID or 'M' in k.cls:
        lim = const(64, 0)
    if c.rnull and k.code in INTS:
        lim = const(64, 0)
    for e in log:
        n = const(64, e[2]) if isinstance(e[2], int) else e[2]
        c.check(place.within(f, e[1], n, lim), 'no byte beyond the result is written', I,
                '%s: %s bytes written at offset %s of the result buffer, which ends at %s' % (k, n, e[1], lim))
    if k.code == VOID or 'M' in k.cls:
        return
    if c.rnull:
        return
    if k.code in INTS or k.code == POINTER:
        w = 8 * SCAL[k.code][0]
        v = trunc(sym('$ret.rax', 64), w)
        want = f.sext(v, 64) if k.code in SIGNED else f.zext(v, 64)
        got = m.ai.read(st, c.rvb, const(64, 0), 8, False, None)[0][1]
        c.check(f.eq(got, want), 'the result buffer holds the returned value', I, '%s: the buffer holds %s, expected %s' % (k, got, want))
        return
    for o, n, want in result_regs(k):
        got = m.ai.read(st, c.rvb, const(64, o), n, False, None)[0][1]
        c.check(got is want or (got.w <= 64 and f.eq(got, want)), 'the result buffer holds the returned value', I,
                '%s: bytes %d..%d hold %s, expected %s' % (k, o, o + n - 1, got, want))


def run_call_asm(flags, rk, rnull=False, rvsize=None, fdes=None):
    c = CallAsm(rk, fdes=fdes)
    m = Machine(obj(), c)
    c.rnull = rnull
    c.rvsize = rvsize if isinstance(rvsize, T) else const(64, rvsize or 0)
    c.x87ret = x87_of(rk) if rk is not None else ()
    rv = sym('$rv', 64, True)
    st = c.start(m, flags, rv)
    m.run(c.ENTRY, st)
    c.machine = m
    return c


def exact_kinds(R):
    """every scalar, complex and aggregate result kind, aggregates of every exact size"""
    out = scalar_kinds(True) + place.complex_kinds()
    for k in R.sk:
        if k.align == 16:
            continue
        lo, hi = k.size if isinstance(k.size, tuple) else (k.size, k.size)
        for z in range(lo, hi + 1):
            out.append(Kind('%s of %d bytes' % (k.name.split(' of ')[0], z), STRUCT, z, k.align, k.cls, codes=k.codes,
                            ext=tuple(min(e, z - 8 * j) for j, e in enumerate(k.ext))))
    out.append(place.mem_kinds()[0])
    return out


class CloAsm(Base):
    """the closure entries, up to and from ffi_closure_unix64_inner"""
    INNER = 'ffi_closure_unix64_inner'
    REGS = ('rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9')
    CLO = (32, 40, 48)       # cif, fun, user_data of ffi_closure
    GO = (8, 16, None)       # of ffi_go_closure

    def __init__(self, entry, rk=None, flags=None, fdes=None, inmem=False, offs=None, sse=None, alt=None):
        Base.__init__(self)
        self.entry = entry
        self.offs = offs or (self.GO if 'go' in entry else self.CLO)
        self.sse = 'sse' in entry if sse is None else sse
        self.alt = entry.endswith('_alt') if alt is None else alt
        self.rk = rk
        self.flags = flags
        self.fdes = fdes
        self.inmem = inmem
        self.stk = sym('$stk', 64, True, 16)
        self.clo = sym('$clo', 64, True, 8)
        self.ncalls = 0
        self.area = None
        self.valsize = 32

    def start(self, m):
        st = m.start_state()
        st.loc['r10'] = self.clo
        if self.alt:
            import trampslot
            t = trampslot.entry_state(self.clo)
            if t is not None:
                return t
            st.loc['rsp'] = addc(self.stk, -24)
            m.ai.write(st, self.stk, const(64, -24), 8, sym('$r.r10', 64))
            m.ai.write(st, self.stk, const(64, -16), 8, self.clo)
            st.loc['r10'] = sym('$tramp.r10', 64)
        return st

    def frame_ok(self, m, st, I):
        if I.fn.endswith('_alt'):
            return                      # no call is made there
        Base.frame_ok(self, m, st, I)

    def need_cfi(self, I):
        return True

    def access(self, m, st, b, off, n, I, w):
        f = st.f
        if b is self.stk:
            if w:
                i = f._int(sub(const(64, -8), add(off, n)), True)
                self.check(bool(i and f.pge(*i)), 'the caller\'s frame is not written', I, '%s: offset %s from the caller\'s stack pointer' % (I, off))
        elif b is self.clo:
            if w:
                self.report('the closure is only read', I, str(I))
        else:
            self.report('only the own frame and the closure are touched', I, '%s touches %s+%s' % (I, b, off))

    def on_call(self, m, st, tgt, I):
        if tgt == 'abort':
            self.aborted(m, st, I)
            return []
        if tgt != self.INNER:
            raise Broken('call of %s at %s' % (tgt, I))
        self.common_call(m, st, I)
        self.ncalls += 1
        f = st.f
        C = self.clo
        for r, o, nm in zip(('rdi', 'rsi', 'rdx'), self.offs, ('interface', 'handler', 'user data')):
            want = C if o is None else atom('init', 64, C, const(64, o))
            self.check(st.loc[r] is want, 'the closure entry passes the closure\'s %s on' % nm, I, '%%%s is %s' % (r, st.loc[r]))
        self.check(st.loc['r9'] is self.stk, 'the closure entry passes the address of the stack arguments', I, 'passes %s' % st.loc['r9'])
        ab, ao = m.ai.split(st, st.loc['rcx'])
        rb, ro = m.ai.split(st, st.loc['r8'])
        if ab is not self.stk or rb is not self.stk or not isc(ao) or not isc(ro):
            self.report('result area and saved registers are in the entry\'s frame', I, 'result at %s, registers at %s' % (st.loc['rcx'], st.loc['r8']))
            return []
        for i, r in enumerate(self.REGS):
            v = m.ai.read(st, rb, addc(ro, 8 * i), 8, False, None)[0][1]
            self.check(v is sym('$r.' + r, 64), 'general argument registers are saved for the handler', I,
                       'slot %d holds %s' % (i, v))
        if self.sse:
            for i in range(8):
                v = m.ai.read(st, rb, addc(ro, 48 + 16 * i), 8, False, None)[0][1]
                self.check(v is sym('$x%d.lo' % i, 64), 'vector argument registers are saved for the handler', I,
                           'slot %d holds %s' % (i, v))
                v = m.ai.read(st, rb, addc(ro, 56 + 16 * i), 8, False, None)[0][1]
                self.check(v is sym('$x%d.hi' % i, 64), 'vector argument registers are saved for the handler', I,
                           'upper half of slot %d holds %s' % (i, v))
        sp = sgn(cv(sub(st.loc['rsp'], self.stk)), 64)
        a, r = sgn(cv(ao), 64), sgn(cv(ro), 64)
        n = self.valsize
        self.check(sp <= a and a + n <= -8, 'the result area lies in the entry\'s frame', I, 'result area %d..%d, frame %d..-8' % (a, a + n, sp))
        self.check(a + n <= r or r + 176 <= a, 'the result area does not overlap the saved registers', I,
                   'result area %d..%d, registers %d..%d' % (a, a + n, r, r + 176))
        self.check(sp <= r and r + 48 + (128 if self.sse else 0) <= -8, 'the saved registers lie in the entry\'s frame', I,
                   'registers from %d, frame %d..-8' % (r, sp))
        self.check(st.loc['x87'] == (), 'x87 stack is empty at the call', I, str(st.loc['x87']))
        self.area = a
        s = st.copy()
        m.clobber_regs(s, self.saved, '$ret')
        m.clobber_mem(s, self.stk, -BIG, BIG + sp, '$clob')
        # the handler may modify its arguments in place and everything in the result area
        m.clobber_mem(s, self.stk, r, 48, '$clobg')
        if self.sse:
            m.clobber_mem(s, self.stk, r + 48, 128, '$clobx')
        s.mem[self.stk] = s.mem[self.stk] + (('cp', const(64, a), const(64, (n + 7) & ~7), sym('$val', 64, True, 16), const(64, 0), ()),)
        hi = sym('$flags.garbage', 32)
        s.loc['rax'] = add(s.f.zext(self.flags, 64), mulc(s.f.zext(hi, 64), 1 << 32))
        return [s]

    def final(self, m, st, I):
        self.check(st.loc['rsp'] is self.stk, 'the stack pointer is restored on return', I, 'stack pointer is %s' % st.loc['rsp'])
        k = self.rk
        want = ()
        V = sym('$val', 64, True, 16)
        if k is not None:
            want = tuple(atom('init', 80, V, const(64, 16 * i)) for i in range(len(x87_of(k))))
            self.check(st.loc['x87'] == want, 'the x87 stack holds exactly the result', I, '%s: it holds %s, expected %s' % (k, st.loc['x87'], want))
            self.value(m, st, I, k, V)

    def value(self, m, st, I, k, V):
        f = st.f

        def val(o, n):
            return atom('init', 8 * n, V, const(64, o))
        rule = 'the result registers hold the handler\'s result'
        if 'M' in k.cls:
            self.check(st.loc['rax'] is val(0, 8), rule, I, '%s: %%rax is %s, expected the address of the caller\'s buffer' % (k, st.loc['rax']))
            return
        if k.code in INTS or k.code == POINTER:
            n = SCAL[k.code][0]
            got = trunc(st.loc['rax'], max(32, 8 * n))
            w = max(32, 8 * n)
            want = f.sext(val(0, n), w) if k.code in SIGNED else f.zext(val(0, n), w)
            self.check(f.eq(got, want), rule, I, '%s: %%rax holds %s, expected %s' % (k, got, want))
            return
        ints, ss = ['rax', 'rdx'], ['xmm0', 'xmm1']
        for j, c in enumerate(k.cls):
            e = k.ext[j] if j < len(k.ext) else 8
            if c == 'I':
                r = ints.pop(0)
                got = trunc(st.loc[r], 8 * e)
            elif c == 'S':
                r = ss.pop(0)
                got = trunc(st.loc[r][0], 8 * e)
            else:
                continue
            want = val(8 * j, e)
            self.check(f.eq(got, want), rule, I, '%s: %%%s holds %s, expected bytes %d..%d of the result' % (k, r, got, 8 * j, 8 * j + e - 1))


def run_clo_asm(entry, flags, rk=None, fdes=None, valsize=None, **kw):
    c = CloAsm(entry, rk, flags, fdes, **kw)
    if valsize is not None:
        c.valsize = valsize
    m = Machine(obj(), c)
    m.run(entry, c.start(m))
    c.machine = m
    return c


ENTRIES = ('ffi_closure_unix64', 'ffi_closure_unix64_sse', 'ffi_go_closure_unix64', 'ffi_go_closure_unix64_sse',
           'ffi_closure_unix64_alt', 'ffi_closure_unix64_sse_alt')


def valsize(k):
    if 'M' in k.cls:
        return 8
    n = k.size if isinstance(k.size, int) else k.size[1]
    return max(8, n) if k.code != VOID else 8
