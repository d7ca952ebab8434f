"""Obligations about the entry points, shared by the checks that look at different
consequences (arguments, result, preserved state, unwinding, landing pads)."""
import copy
from common import *
import place, unix64, win64, winplace, asmai
from abi import *
from report import run_jobs

_ctx = {}


class Ctx:
    pass


def ctx():
    if 'v' not in _ctx:
        c = Ctx()
        c.m = mods(FFI64, FFIW64)
        c.ks, c.R, c.meaning = place.all_kinds(mods(FFI64))
        c.K = unix64.exact_kinds(c.R)
        c.WK = winplace.result_kinds()
        c.wks = winplace.kinds()
        for u in (unix64.UNIT, win64.UNIT):
            unix64.obj(u)           # assembled once, before the jobs fork
            fdes(u)
        _ctx['v'] = c
    return _ctx['v']


def fdes(unit):
    if unit not in _ctx:
        _ctx[unit] = asmai.cfi(unix64.obj(unit))
    return _ctx[unit]


def fresh():
    return {'rules': {}, 'viol': [], 'unsure': [], 'analysed': {}}


def cat(r):
    """what a rule is about"""
    if r.startswith('unwind'):
        return 'unwind'
    if r.startswith('landing'):
        return 'landing'
    if 'touched' in r:
        return 'state'
    if any(w in r for w in ('result', 'x87 stack', 'no byte beyond')):
        return 'result'
    if 'static chain' in r:
        return 'chain'
    if 'passes the closure\'s' in r or 'function to call' in r:
        return 'target'
    if any(w in r for w in ('argument', 'vector register', 'home area')):
        return 'args'
    return 'state'


MEMORY = ('no byte beyond', 'argument block', 'prepared stack space', 'temporary result buffer', 'temporary buffer', 'argument vector',
          'argument copy', 'incoming arguments', 'home area', 'vector register count', 'beyond the end', 'fits the object', 'copy is large enough')


def memory(r):
    """the rule is about memory outside the objects of the call itself"""
    return any(w in r for w in MEMORY)


def wanted(r, want):
    return cat(r) in want or 'memory' in want and memory(r)


def take(d, c, want, tag=''):
    """the obligations and violations of one machine run in the wanted categories"""
    for r, n in c.oblig.items():
        if wanted(r, want):
            d['rules'][r] = d['rules'].get(r, 0) + n
    for r, w, msg in c.viol:
        if wanted(r, want):
            add(d, r, w, msg + tag)


def add(d, r, w, msg):
    if (r, w, msg) not in d['viol']:
        d['viol'].append((r, w, msg))


def takec(d, c, want, tag=''):
    """violations of the C part"""
    for r, w, msg in c.viol:
        if want is None or wanted(r, want):
            add(d, r, w, msg + tag)


def count(d, rule, n=1):
    d['rules'][rule] = d['rules'].get(rule, 0) + n


def each(kinds, fn, *a):
    """run fn for every kind; one kind that cannot be decided does not hide the others"""
    d = fresh()
    n = 0
    for k in kinds:
        try:
            fn(d, k, *a)
            n += 1
        except Wrong as e:
            n += 1
            if wanted(e.v[0], a[0]) or cat(e.v[0]) == 'result' and 'args' in a[0]:
                add(d, *e.v)
            else:
                d['unsure'].append(e.v)
        except Broken as e:
            d['unsure'].append(('analysis', str(k), str(e)))
    if kinds and n == 0:
        raise Broken(d['unsure'][0][2])
    d['analysed']['result kinds'] = [k.name for k in kinds]
    return d


# ------------------------------------------------------------------ System V
def alignments(k):
    """the kind with every alignment its classes and size allow, where that was left open"""
    if not isinstance(k.align, tuple):
        return [k]
    lo = 4 if 'S' in k.cls else 1
    out = []
    for a in (1, 2, 4, 8, 16):
        if k.align[0] <= a <= k.align[1] and a >= lo and isinstance(k.size, int) and k.size % a == 0:
            q = copy.copy(k)
            q.align = a
            out.append(q)
    return out or [k]


def prep_flags(k):
    """the flag words the prepare step can produce for a result kind, with and without vector arguments"""
    C = ctx()
    out = []

    def runs(k):
        r = set()
        for n, args in ((0, []), (1, [x for x in C.ks if x.code == DOUBLE]), (1, [x for x in C.ks if x.code == S32])):
            p = place.run_prep(C.m, C.R, args, k, n)
            r |= outcomes(p, k, 'ffi_prep_cif_machdep')
        return r
    f = runs(k)
    if not all(isc(x) for x in f):
        f = set()
        for q in alignments(k):
            f |= runs(q)
    return flagset(f, k, 'ffi_prep_cif_machdep')


def outcomes(p, k, fn):
    """the flag words of the successful outcomes of a prepare step"""
    f = {r[2] for r in p.results if r[2] is not None}
    if not f:
        msg = 'the prepare step has no successful outcome for a result of type %s' % k
        if all(isc(r[0]) or r[0].op == 'undef' for r in p.results):
            raise Wrong('a valid result type is prepared', fn, msg)
        raise Broken(msg)
    return f


def stale(v):
    """nobody computed this value: what an object held before, or an uninitialised variable"""
    return v.op == 'undef' or v.op == 'init' and v.a[0] is sym('$cif', 64, True)


def flagset(f, k, fn):
    for x in f:
        if not isc(x):
            if stale(x):
                raise Wrong('the result flags are recorded', fn, 'for a result of type %s the interface holds %s' % (k, x))
            raise Broken('the result flags of %s are not constant: %s' % (k, x))
    return sorted(f, key=cv)


def sysv_call(d, k, want, fd=None, cwant=(), go=False):
    """a call with result kind k: preparation, C part, assembly"""
    C = ctx()
    for fl in prep_flags(k):
        for rnull in (False, True):
            c = place.run_call(C.m, C.R, [], k, fl, 0, rnull=rnull, go=go)
            tag = ' (result type %s%s)' % (k, ', no result buffer' if rnull else '')
            takec(d, c, cwant, tag)
            if not c.final:
                if 'result' in want:
                    add(d, 'the call is made', 'ffi_call', 'no path of the call reaches the assembly' + tag)
                continue
            for st, args, inst in c.final:
                flags, rv = st.f.norm(args[2]), args[3]
                if not isc(flags):
                    if stale(flags):
                        raise Wrong('the result flags passed are those prepared', irai.where(inst), 'the assembly gets %s%s' % (flags, tag))
                    raise Broken('the result flags passed to the assembly are not constant' + tag)
                fn = args[4]
                if 'target' in want and fn is not sym('$fn', 64, True):
                    add(d, 'the function to call is the one passed', irai.where(inst), 'the assembly gets %s%s' % (fn, tag))
                b, o = c.ai.split(st, rv)
                size = st.f.norm(st.g[('_size', sym('$rtype', 64, True))])
                null, lim = rnull, size
                if b is not None and b.op == 'sym' and b.a[0][0] == '%':
                    sz = st.g.get(('_sz', b))
                    if sz is None:
                        raise Broken('size of the temporary result buffer' + tag)
                    lim = sub(st.f.norm(sz), o)
                    null = True
                    if 'M' in k.cls and ('result' in want or 'memory' in want) and not place.within(st.f, const(64, 0), size, lim):
                        add(d, 'the temporary result buffer is large enough', irai.where(inst), 'it has %s bytes%s' % (lim, tag))
                elif rnull:
                    if not (isc(rv) and cv(rv) == 0):
                        if b is not None and not place.opaque(b):
                            raise Wrong('a discarded result goes to a temporary buffer', irai.where(inst), 'it goes to %s%s' % (rv, tag))
                        raise Broken('result buffer of a discarded result is %s%s' % (rv, tag))
                    lim = const(64, 0)
                    if 'M' in k.cls and 'result' in want:
                        add(d, 'an in-memory result has a buffer', irai.where(inst), 'a null buffer is passed' + tag)
                elif rv is not sym('$rvalue', 64, True, 16) and 'result' in want:
                    add(d, 'the result buffer is the caller\'s', irai.where(inst), 'the assembly gets %s%s' % (rv, tag))
                a = unix64.run_call_asm(flags, k, null, lim, fd)
                if (a.aborts or not a.nret) and 'result' in want:
                    add(d, 'the call returns its result', 'src/x86/unix64.S', 'flags %s lead to abort' % flags + tag)
                take(d, a, want, tag)
                count(d, 'result kinds composed from preparation to the store code')


def sysv_closure(d, k, want, fd=None, cwant=()):
    C = ctx()
    for fl in prep_flags(k):
        c = place.run_inner(C.m, C.R, [], k, fl, 0)
        tag = ' (result type %s)' % k
        takec(d, c, cwant, tag)
        if not c.final:
            if 'target' in want or 'result' in want:
                add(d, 'the handler is called', 'ffi_closure_unix64_inner', 'no path calls the handler' + tag)
            continue
        outs = {}
        for st, v in c.rets:
            v = st.f.norm(v)
            if not isc(v):
                raise Broken('flags returned by the closure are %s%s' % (v, tag))
            outs[v] = st
        A = sym('$crvalue', 64, True, 16)
        G = sym('$regs', 64, True, 16)
        for st, args, inst in c.final:
            if 'target' in want:
                for i, w, what in ((0, sym('$cif', 64, True), 'interface'), (3, sym('$user', 64, True), 'user data')):
                    if args[i] is not w:
                        add(d, 'the handler gets the closure\'s ' + what, irai.where(inst), 'it gets %s%s' % (args[i], tag))
                count(d, 'the handler gets the closure\'s interface and user data')
            if 'result' in want:
                if 'M' in k.cls:
                    if args[1] is not atom('init', 64, G, const(64, 0)):
                        add(d, 'the handler\'s result buffer is the caller\'s', irai.where(inst), 'it is %s%s' % (args[1], tag))
                elif args[1] is not A:
                    add(d, 'the handler\'s result buffer is the result area', irai.where(inst), 'it is %s%s' % (args[1], tag))
        if 'M' in k.cls and 'result' in want:
            for st, v in c.rets:
                got = c.ai.read(st, A, const(64, 0), 8, True, None)[0][1]
                if got is not atom('init', 64, G, const(64, 0)):
                    add(d, 'the address of the caller\'s result buffer is kept for the return', 'ffi_closure_unix64_inner',
                        'the result area holds %s%s' % (got, tag))
        for v in outs:
            for e in unix64.ENTRIES:
                a = unix64.run_clo_asm(e, v, k, fd, unix64.valsize(k))
                if (a.aborts or not a.nret) and 'result' in want:
                    add(d, 'the closure returns its result', 'src/x86/unix64.S', 'flags %s lead to abort%s' % (v, tag))
                take(d, a, want, tag)
                count(d, 'result kinds followed from the handler to the caller')


# ------------------------------------------------------------------ Windows x64
def wabis(k):
    return (GNUW64,) if k.code == LDOUBLE else (WIN64, GNUW64)


def wflags(d, k, abi, cwant):
    C = ctx()
    p = winplace.run_wprep(C.m, C.wks, k, abi)
    takec(d, p, cwant, ' (result type %s)' % k)
    for u in p.undecided:
        d['unsure'].append(u)
    return flagset(outcomes(p, k, 'ffi_prep_cif_machdep_efi64'), k, 'ffi_prep_cif_machdep_efi64')


def win_call(d, k, want, fd=None, cwant=(), go=False):
    C = ctx()
    for abi in wabis(k):
        for fl in wflags(d, k, abi, cwant):
            for rnull in (False, True):
                tag = ' (result type %s%s, ABI %d)' % (k, ', no result buffer' if rnull else '', abi)
                c = winplace.run_wcall(C.m, C.wks if 'args' in want else [], k, abi, fl, None if 'args' in want else 0, rnull=rnull, go=go)
                takec(d, c, cwant, tag)
                if 'args' in want:
                    d['unsure'] += c.undecided
                    count(d, 'each argument is passed in its slot, by value or by reference to a private copy', c.ntrans)
                if not c.final:
                    if 'result' in want:
                        add(d, 'the call is made', 'ffi_call_efi64', 'no path of the call reaches the assembly' + tag)
                    continue
                flags, rv = c.flagsout, c.rvout
                if not isc(flags):
                    if stale(flags):
                        raise Wrong('the result flags passed are those prepared', 'ffi_call_efi64', 'the assembly gets %s%s' % (flags, tag))
                    raise Broken('the result flags passed to the assembly are not constant' + tag)
                null = rnull
                if 'result' in want:
                    inst = c.final[-1][2]
                    if rnull:
                        if isc(rv) and cv(rv) == 0:
                            if win64.win_mem(k):
                                add(d, 'an in-memory result has a buffer', irai.where(inst), 'a null buffer is passed' + tag)
                        elif c.rvlim is None:
                            if c.rvbase is not None and not place.opaque(c.rvbase):
                                raise Wrong('a discarded result goes to a temporary buffer', irai.where(inst), 'it goes to %s%s' % (rv, tag))
                            raise Broken('result buffer of a discarded result is %s%s' % (rv, tag))
                    elif rv is not sym('$rvalue', 64, True, 16):
                        add(d, 'the result buffer is the caller\'s', irai.where(inst), 'the assembly gets %s%s' % (rv, tag))
                a = win64.run_callw(flags, k, null, fd)
                if (a.aborts or not a.nret) and 'result' in want:
                    add(d, 'the call returns its result', 'src/x86/win64.S', 'flags %s lead to abort' % flags + tag)
                take(d, a, want, tag)
                count(d, 'result kinds composed from preparation to the store code')


def win_closure(d, k, want, fd=None, cwant=()):
    C = ctx()
    for abi in wabis(k):
        for fl in wflags(d, k, abi, ()):
            tag = ' (result type %s, ABI %d)' % (k, abi)
            if cwant != ():
                c = winplace.run_winner(C.m, C.wks if 'args' in want else [], k, abi, fl, None if 'args' in want else 0)
                takec(d, c, cwant, tag)
                if 'args' in want:
                    d['unsure'] += c.undecided
                    count(d, 'each handler argument pointer leads to the argument', c.ntrans)
                if not c.final:
                    add(d, 'the handler is called', 'ffi_closure_win64_inner', 'no path calls the handler' + tag)
                    continue
            for e in win64.ENTRIES:
                a = win64.run_clow(e, k, fd)
                if not a.nret and 'result' in want:
                    add(d, 'the closure returns its result', 'src/x86/win64.S', 'it does not return%s' % tag)
                take(d, a, want, tag)
                count(d, 'result kinds followed from the handler to the caller')


def split_jobs(name, kinds, fn, *a, n=8):
    return [('%s %d' % (name, i), each, (kinds[i::n], fn) + a) for i in range(n) if kinds[i::n]]
