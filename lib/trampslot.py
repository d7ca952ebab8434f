"""One slot of the static trampoline table: what its code loads, where it goes and
what it leaves behind."""
from abi import *
import asmai
from asmai import Machine, AsmClient
import unix64


class Slot(AsmClient):
    def __init__(self):
        self.out = []
        self.loads = []
        self.bad = []
        self.seen = []

    def on_ins(self, m, st, I):
        self.seen.append(I)

    def on_jump_out(self, m, st, target, I):
        self.out.append((st, target, I))

    def on_indirect(self, m, st, target, I):
        pass

    def on_access(self, m, st, b, off, n, I, w):
        n = n if isinstance(n, int) else 8
        if b is m.text and not w and isc(off):
            self.loads.append((sgn(cv(off), 64), n, I))
        elif b is sym('$stk', 64, True, 16):
            d = sgn(cv(off), 64) if isc(off) else None
            if d is None or w and d + n > -8:
                self.bad.append((I, 'the caller\'s frame is touched'))
            rb, ro = m.ai.split(st, st.loc['rsp'])
            if d is not None and (rb is not b or not isc(ro) or d < sgn(cv(ro), 64) - 128):
                self.bad.append((I, 'memory below the stack pointer\'s red zone is used'))
        else:
            self.bad.append((I, '%s+%s is touched' % (b, off)))

    def on_ret(self, m, st, ra, I):
        self.bad.append((I, 'it returns'))

    def on_call(self, m, st, tgt, I):
        self.bad.append((I, 'it calls %s' % tgt))
        return []


TGT = sym('$tramp.target', 64)


def run(addr, clo=None, tgt=TGT):
    """interpret the code at text offset addr.  Without clo: discover the two parameters;
    with clo: the parameters hold (clo, tgt).  Returns (client, machine, target offset, data offset)"""
    o = unix64.obj(unix64.UNIT)
    c = Slot()
    m = Machine(o, c)
    m.run(addr, m.start_state())
    if len(c.out) != 1:
        raise Broken('the trampoline code at %#x does not end in one jump' % addr)
    st, t, I = c.out[0]
    if not (t.op == 'init' and t.a[0] is m.text and isc(t.a[1]) and t.w == 64):
        raise Broken('the trampoline code at %#x jumps to %s' % (addr, t))
    toff = sgn(cv(t.a[1]), 64)
    other = sorted({l[0] for l in c.loads if l[0] != toff})
    if len(other) != 1:
        raise Broken('the trampoline code at %#x loads from %s' % (addr, [l[0] for l in c.loads]))
    doff = other[0]
    if clo is None:
        return c, m, toff, doff
    c = Slot()
    m = Machine(o, c)
    st = m.start_state()
    m.ai.write(st, m.text, const(64, toff), 8, tgt)
    m.ai.write(st, m.text, const(64, doff), 8, clo)
    m.run(addr, st)
    for s, t, I in c.out:
        s.mem = dict(s.mem)
        s.mem.pop(m.text, None)
    return c, m, toff, doff


_s = {}


def entry_state(clo):
    """machine state a closure entry finds when it is reached through a table slot; None: cannot be told"""
    if clo not in _s:
        try:
            o = unix64.obj(unix64.UNIT)
            c, m, _, _ = run(o.syms['trampoline_code_table'], clo)
            _s[clo] = c.out[0][0] if len(c.out) == 1 else None
        except (Broken, KeyError):
            _s[clo] = None
    return _s[clo].copy() if _s[clo] is not None else None
