from asmcommon import *
import irai
EXPLANATION = ('The C part of a call is interpreted for every ABI, with and without a result buffer, for an arbitrary argument of '
               'every kind at an arbitrary position; the effect of every store, copy and fill on the way is attributed to the object '
               'it modifies, and every load of an argument value is compared with the size of the argument. The assembled '
               'part never receives the address of the interface, the types or the argument array.')
WRITES = ('store', 'copy', 'set')


def mine(base):
    """an object the call itself owns"""
    return base.op == 'sym' and isinstance(base.a[0], str) and (base.a[0][0] == '%' or base.a[0].startswith('$copy['))


def owner(base):
    """the caller's object an address belongs to; None if the analysis lost track of it"""
    b = base
    while b.op == 'init':
        src = b.a[0]
        if src.op == 'sym' and src.a[0] == '$avalue':
            return 'an argument value'
        if src.op == 'sym' and src.a[0] == '$argt':
            return 'an argument type'
        b = src
    if b.op == 'sym' and isinstance(b.a[0], str):
        n = b.a[0]
        for p, w in (('$cif', 'the call interface'), ('$rtype', 'the result type'), ('$argt', 'the array of argument types'),
                     ('$avalue', 'the array of argument pointers'), ('$elements(', 'an element array'), ('$inner(', 'a member type'),
                     ('$rvalue', 'the result buffer'), ('$fn', 'the function'), ('@', 'the global %s' % n[1:])):
            if n.startswith(p):
                return w
    return None


class Effects:
    def event(self, ai, st, ev):
        if ev.k in WRITES:
            self.neff = getattr(self, 'neff', 0) + 1
            if mine(ev.base):
                return
            w = owner(ev.base)
            if w == 'the result buffer':
                return                        # C06 and C08 look at what goes there
            if w is None:
                self.unsure('a call modifies only objects of its own', ev.inst, 'store through %s' % ev.base)
            else:
                self.report('a call modifies only objects of its own', ev.inst, '%s is written' % w)
        elif ev.k == 'load' and owner(ev.base) == 'the array of argument pointers' and not isinstance(self, winplace.WModel):
            self.nld = getattr(self, 'nld', 0) + 1

    def end(self, ai, kind, st, inst):
        if kind == 'null':
            self.report('nothing is accessed through a null pointer', inst, 'an access through a null pointer on the way of a call')


class SCall(Effects, place.Call):
    pass


class WinCall(Effects, winplace.WCall):
    pass


KEEP = ('a call modifies only objects of its own', 'nothing is accessed through a null pointer', 'reads beyond the argument',
        'writes to the argument', 'an argument that fits no slot is passed by reference to a private copy')


def result(c, d, tag):
    for r, w, msg in c.viol:
        if r in KEEP:
            add(d, r, w, msg + tag)
    for r, w, msg in c.undecided:
        if r in KEEP:
            d['unsure'].append((r, w, msg + tag))
    if not c.final:
        raise Broken('no path of the call reaches the assembly' + tag)
    count(d, 'every store on the way of a call goes to an object of the call itself', getattr(c, 'neff', 0))
    count(d, 'no argument is read beyond its size or written, whatever its kind and position', c.ntrans)
    d['analysed'].setdefault('functions', [])
    for f in sorted(c.visited):
        if f not in d['analysed']['functions']:
            d['analysed']['functions'].append(f)



def sysv(rk, fl, rnull, go):
    C = ctx()
    d = fresh()
    c = SCall(C.R, C.ks, rk, None, fl)
    tag = ' (result type %s%s%s)' % (rk, ', no result buffer' if rnull else '', ', Go call' if go else '')
    drive(c, rnull, go)
    result(c, d, tag)
    return d


def drive(c, rnull, go, prefix=None):
    C = ctx()
    c.go = go
    c.prefix = prefix
    c.loopfn = 'ffi_call'
    ai = irai.AI(C.m, c, log_loads=True)
    if prefix is not None:
        ai.unroll_width = 6000
    rv = const(64, 0) if rnull else sym('$rvalue', 64, True, 16)
    ai.run(place.need(C.m, 'ffi_call_go' if go else 'ffi_call'), c.start(),
           [sym('$cif', 64, True), sym('$fn', 64, True), rv, sym('$avalue', 64, True)] + ([place.CHAIN] if go else []))
    c.visited = ai.visited
    c.ai = ai


def win(kinds, rnull, go):
    C = ctx()
    d = fresh()
    for rk in kinds:
        for abi in wabis(rk):
            for fl in wflags(fresh(), rk, abi, ()):
                c = WinCall(C.wks, rk, abi, None, fl)
                drive(c, rnull, go)
                result(c, d, ' (result type %s, ABI %d%s%s)' % (rk, abi, ', no result buffer' if rnull else '', ', Go call' if go else ''))
    return d


def exact(rk, fl, abi, rnull, prefix):
    """short argument lists, explored exactly"""
    C = ctx()
    d = fresh()
    if abi is None:
        c = SCall(C.R, prefix[0], rk, len(prefix), fl)
    else:
        c = WinCall(prefix[0], rk, abi, len(prefix), fl)
    drive(c, rnull, False, prefix)
    result(c, d, ' (%d arguments, result type %s%s)' % (len(prefix), rk, ', no result buffer' if rnull else ''))
    return d


def exact_jobs():
    C = ctx()
    void = [k for k in C.K if k.code == VOID][0]
    few = [k for k in C.ks if k.code in (S8, DOUBLE)] + place.mem_kinds()[:1]
    wvoid = [k for k in C.WK if k.code == VOID][0]
    wfew = [k for k in C.wks if k.name in ('sint32', 'long double', 'struct of 3 bytes')]
    wbig = [Kind('struct of %d bytes' % z, STRUCT, z, (1, 16), ()) for z in (24, 100, 4096)]
    jobs = []
    for rnull in (False, True):
        for pre in ([], [few[:1]], [few] * 2):
            for fl in sorted({r[2] for r in place.run_prep(C.m, C.R, few[1:2], void, 1).results if r[2] is not None and isc(r[2])}, key=cv):
                jobs.append(('System V calls with %d arguments, %s' % (len(pre) + 1, fl), exact, (void, fl, None, rnull, pre + [C.ks])))
        for pre in ([], [wfew], [wfew] * 4):
            for fl in wflags(fresh(), wvoid, GNUW64, ()):
                jobs.append(('Windows calls with %d arguments' % (len(pre) + 1), exact, (wvoid, fl, GNUW64, rnull, pre + [C.wks + wbig])))
    return jobs


def check(rep, thorough):
    C = ctx()
    jobs = []
    void = [k for k in C.K if k.code == VOID][0]
    reps = [void, place.mem_kinds()[0]] + [k for k in scalar_kinds() if k.code in (S8, LDOUBLE)]
    if thorough:
        reps += [k for k in scalar_kinds() if k.code in (DOUBLE, U64)] + [k for k in C.K if k.code in (COMPLEX, STRUCT)][::12]
    for rk in reps:
        fls = set()
        for args in ([], [k for k in C.ks if k.code == S32], [k for k in C.ks if k.code == DOUBLE]):
            p = place.run_prep(C.m, C.R, args, rk, len(args) and 1)
            fls |= {r[2] for r in p.results if r[2] is not None and isc(r[2])}
        if not fls:
            raise Broken('no result flags for a result of type %s' % rk)
        for fl in sorted(fls, key=cv):
            for rnull in (False, True):
                for go in (False, True):
                    jobs.append(('System V calls returning %s, flags %s, %s%s' % (rk, fl, 'no result buffer' if rnull else 'result buffer', ', Go' if go else ''),
                                 sysv, (rk, fl, rnull, go)))
    for i in range(8):
        ks = C.WK[i::8]
        for rnull in (False, True):
            for go in (False, True):
                jobs.append(('Windows calls %d%s%s' % (i, ', no result buffer' if rnull else '', ', Go' if go else ''), win, (ks, rnull, go)))
    run_jobs(rep, jobs)
    if rep.undecided or rep.broken or thorough:
        run_jobs(rep, exact_jobs())
    # no result kind at all may be left out: every kind, without arguments
    rep.part('result kinds', every_result, rep)
    rep.note('argument kinds', [k.name for k in C.ks] + [k.name for k in C.wks])
    rep.assumptions += ['the callee keeps to its own stack arguments', 'at most 4096 arguments of at most 2^20 bytes',
                        'cif was filled in by ffi_prep_cif']


def every_result(rep):
    jobs = [('results %d' % i, kinds_job, (ctx().K[i::8],)) for i in range(8)]
    run_jobs(rep, jobs)


def kinds_job(ks):
    d = fresh()
    C = ctx()
    for k in ks:
        for fl in prep_flags(k):
            for rnull in (False, True):
                for go in (False, True):
                    c = SCall(C.R, [], k, 0, fl)
                    drive(c, rnull, go)
                    result(c, d, ' (result type %s%s)' % (k, ', no result buffer' if rnull else ''))
    return d
