"""Preparing closures: what the prepare functions leave in the closure (fields, trampoline
bytes, static trampoline parameters), and what the trampoline bytes do when run."""
import os
from abi import *
import asmai, build
from build import Wrong
from asmai import Machine, AsmClient, Obj
from place import need
import irai

CLO = sym('$closure', 64, True, 16)
CIF = sym('$cif', 64, True)
FUN = sym('$fun', 64, True)
USER = sym('$user', 64, True)
CODE = sym('$code', 64, True)


class Outcome:
    """one way a prepare function can end"""
    __slots__ = ('status', 'static', 'parms', 'fields', 'bytes', 'st', 'touched', 'other', 'asked', 'kept')


class CP(irai.Client):
    def __init__(self, abi, flags):
        self.abi = abi
        self.flags = flags
        self.viol = []

    def init_load(self, st, base, off, n, isptr, inst):
        if base is CIF and isc(off):
            o = cv(off)
            if o == 0 and n == 4:
                return self.abi
            if o == 28 and n == 4 and self.flags is not None:
                return self.flags
        return None

    def call(self, ai, st, name, fn, args, inst):
        if name == 'ffi_tramp_is_present':
            if st.f.norm(args[0]) is not CLO:
                if isc(st.f.norm(args[0])) or st.f.norm(args[0]).op in ('sym', 'undef'):
                    raise Wrong('the closure decides whether it has a static trampoline', irai.where(inst), 'it is asked of %s' % args[0])
                raise Broken('presence of a static trampoline is asked of %s' % args[0])
            outs = []
            for v in (0, 1):
                if st.g.get('static', v) != v:
                    continue
                s = st.copy()
                s.g['static'] = v
                outs.append((s, const(inst.ty.w, v)))
            return outs
        if name == 'ffi_tramp_set_parms':
            st.g.setdefault('parms', [])
            st.g['parms'] = st.g['parms'] + [tuple(args)]
            return [(st, None)]
        return None


def run(mods, fname, abi, flags, args):
    """outcomes of a prepare function; abi and flags are terms"""
    c = CP(abi, flags)
    ai = irai.AI(mods, c)
    outs = []
    st0 = irai.St()
    for st, v in ai.run(need(mods, fname), st0, args):
        o = Outcome()
        o.st = st
        o.status = st.f.norm(v) if v is not None else None
        o.static = st.g.get('static')
        o.parms = st.g.get('parms', [])
        if o.static is None:
            # not asked through the function: does the path depend on the pointer to it?
            p = atom('init', 64, CLO, const(64, 0))
            t = st.f.truth(eqb(p, const(64, 0), st.f))
            o.static = None if t is None else int(not t)
        o.asked = [e.name for e in st.ev if e.k == 'call' and e.name not in ('ffi_tramp_set_parms', 'ffi_tramp_is_present')]
        o.kept = st.f.norm(ai.read(st, CLO, const(64, 0), 8, True, None)[0][1]) is atom('init', 64, CLO, const(64, 0))
        log = st.mem.get(CLO, ())
        o.touched = bool(log)
        o.other = [b for b in st.mem if b is not CLO and not (b.op == 'sym' and str(b.a[0]).startswith('%'))]
        o.fields = {}
        for off in range(0, 64):
            t = st.f.norm(ai.read(st, CLO, const(64, off), 8, True, None)[0][1])
            if t in (CIF, FUN, USER) or t.op == 'sym' and str(t.a[0]).startswith('@'):
                o.fields[off] = t
        o.bytes = []
        for off in range(0, 64):
            t = st.f.norm(ai.read(st, CLO, const(64, off), 1, False, None)[0][1])
            if not isc(t):
                break
            o.bytes.append(cv(t))
        outs.append(o)
    return outs, ai


def entry_at(o, off):
    t = o.fields.get(off)
    if t is None or t in (CIF, FUN, USER):
        return None
    n = t.a[0][1:]
    return n.split('.')[0] if n[-1:].isdigit() and '.' in n else n


def field(o, t):
    r = [k for k, v in o.fields.items() if v is t]
    return r


_tr = {}


class Tramp(AsmClient):
    def __init__(self):
        self.out = []
        self.bad = []

    def on_jump_out(self, m, st, target, I):
        self.out.append((st, target, I))

    def on_access(self, m, st, b, off, n, I, w):
        if w:
            self.bad.append((I, 'memory %s+%s is written' % (b, off)))

    def on_ret(self, m, st, ra, I):
        self.bad.append((I, 'it returns'))


def run_bytes(bs):
    """what a closure's trampoline does: (register offset of the closure, offset the target is
    loaded from, problems, starts with an end-branch marker)"""
    key = bytes(bs)
    if key in _tr:
        return _tr[key]
    p = os.path.join(build.get().dir, 'tramp%d.%d.S' % (os.getpid(), len(_tr)))
    with open(p, 'w') as f:
        f.write('\t.text\ntrampoline:\n\t.byte %s\n\t.balign 16\n\t.skip 64\n' % ', '.join('%d' % b for b in bs))
    o = Obj(p)
    c = Tramp()
    m = Machine(o, c)
    st = m.start_state()
    m.run('trampoline', st)
    problems = [(i.text, t) for i, t in c.bad]
    res = []
    for s, tgt, I in c.out:
        for r in asmai.GPR:
            want = addc(sym('$stk', 64, True, 16), -8) if r == 'rsp' else sym('$r.' + r, 64)
            if r not in ('r10', 'r11') and s.loc[r] is not want:
                problems.append((I.text, '%%%s is changed to %s' % (r, s.loc[r])))
        for i in range(16):
            if s.loc['xmm%d' % i] != (sym('$x%d.lo' % i, 64), sym('$x%d.hi' % i, 64)):
                problems.append((I.text, '%%xmm%d is changed' % i))
        d = sub(s.loc['r10'], m.text)
        toff = None
        if tgt.op == 'init' and tgt.a[0] is m.text and isc(tgt.a[1]):
            toff = sgn(cv(tgt.a[1]), 64)
        res.append((sgn(cv(d), 64) if isc(d) else None, toff, I.text, s.loc['r10'], tgt))
    _tr[key] = (res, problems, o.ins[0].mn == 'endbr64')
    return _tr[key]
