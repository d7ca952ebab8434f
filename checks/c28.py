from asmcommon import *
import cloprep
from cloprep import CLO, CIF, FUN
import c24, c05, c08, place
EXPLANATION = ('ffi_prep_go_closure is interpreted for every ABI and every flag word preparation can produce; the fields it leaves are composed with the '
               'interpretation of the entry it records, entered with the closure in the static chain register: interface, handler and the closure itself must '
               'reach the handler. ffi_call_go is composed with the call code: the environment pointer must be in the static chain register at the call, and all '
               'other obligations of calls hold as for ffi_call.')


def prep(flags):
    C = ctx()
    d = fresh()
    w = 'ffi_prep_go_closure'
    for fl, (vec, kn) in flags:
        tag = ' (flag word %#x, as for a result of type %s%s)' % (fl, kn, ' with vector arguments' if vec else '')
        outs, ai = cloprep.run(C.m, w, const(32, UNIX64), const(32, fl), [CLO, CIF, FUN])
        judge(d, outs, unix64, vec, tag, w)
    d['analysed']['Go closure preparations'] = [w]
    return d


def judge(d, outs, arch, vec, tag, w):
    okn = 0
    for o in outs:
        if not (isc(o.status) and cv(o.status) == OK):
            add(d, 'an interface of this platform is accepted', w, 'status %s%s' % (o.status, tag))
            continue
        okn += 1
        places = []
        for t, what in ((CIF, 'interface'), (FUN, 'handler')):
            r = cloprep.field(o, t)
            if len(r) != 1:
                add(d, 'the Go closure records its ' + what, w, 'it is not stored in the closure' + tag)
                break
            places.append(r[0])
        if len(places) != 2:
            continue
        entry = cloprep.entry_at(o, 0)
        obj = unix64.obj(arch.UNIT)
        if entry is None or entry not in obj.syms:
            add(d, 'the Go closure starts with the address of its entry', w, 'its first word is %s%s' % (entry or 'something else', tag))
            continue
        offs = (places[0], places[1], None)
        if arch is unix64:
            a = unix64.run_clo_asm(entry, const(32, 0), None, None, 32, offs=offs, sse=True if vec else None, alt=False)
        else:
            a = win64.run_clow(entry, None, None, offs=offs, alt=False)
        if not a.ncalls:
            add(d, 'the entry calls the inner function', w, '%s does not%s' % (entry, tag))
        take(d, a, ('target', 'args', 'chain'), ' [entry %s]%s' % (entry, tag))
        count(d, 'the Go closure\'s fields reach the inner function through its entry')
    if not okn:
        add(d, 'an interface of this platform is accepted', w, 'no path succeeds' + tag)


def others():
    C = ctx()
    d = fresh()
    w = 'ffi_prep_go_closure'
    fl = sym('$flags', 32)
    abi = sym('$abi', 32)
    for a in (WIN64, GNUW64):
        outs, ai = cloprep.run(C.m, w, const(32, a), fl, [CLO, CIF, FUN])
        judge(d, outs, win64, True, ' (ABI %d)' % a, w)
    outs, ai = cloprep.run(C.m, w, abi, fl, [CLO, CIF, FUN])
    c24.refusals(d, outs, abi)
    return d


def check(rep, thorough):
    C = ctx()
    fl = c24.flagwords(rep, thorough)
    want = ('chain', 'args', 'target', 'result')
    w = ('target',)
    jobs = [('preparation %d' % i, prep, (fl[i::3],)) for i in range(3) if fl[i::3]]
    jobs += [('other ABIs', others, ())]
    jobs += split_jobs('Go calls', C.K, sysv_call, want, None, None, True)
    jobs += split_jobs('Windows Go calls', C.WK, win_call, ('chain', 'target', 'result'), None, None, True, n=4)
    jobs += split_jobs('handler', C.K, sysv_closure, w, None, (), n=4)
    jobs += split_jobs('Windows handler', C.WK, win_closure, w, None, ('target',), n=2)
    # the arguments, as for ordinary calls
    void = [k for k in scalar_kinds(True) if k.code == VOID][0]
    for rk in (void, place.mem_kinds()[0]):
        p = place.run_prep(C.m, C.R, [k for k in C.ks if k.code in (S32, DOUBLE)], rk)
        for f in flagset(outcomes(p, rk, 'ffi_prep_cif_machdep'), rk, 'ffi_prep_cif_machdep'):
            jobs.append(('Go call returning %s, flags %#x' % (rk, cv(f)), c05.job, ('call', C.m, C.ks, C.R, rk, f, True)))
    few = [k for k in C.WK if k.code in (VOID, S64, DOUBLE) or k.name == 'struct of 3 bytes']
    jobs += split_jobs('arguments of Windows Go calls', few, win_call, ('args',), None, ('args',), True, n=4)
    run_jobs(rep, jobs)
    if rep.undecided or rep.broken:
        run_jobs(rep, c08.exact_jobs('call', thorough, True))
    rep.note('units', [FFI64, FFIW64, unix64.UNIT, win64.UNIT])
