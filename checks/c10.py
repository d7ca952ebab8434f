from asmcommon import *
import c05, c08
EXPLANATION = ('Every path of the assembled entry points is interpreted from a symbolic entry state, for every flag word the C parts '
               'can hand over (all result types, with and without a result buffer), for an unbounded stack argument size: stack pointer, return address '
               'and callee-saved registers at each return, alignment at each call, and the object and offset of every memory access. That the C parts stay inside '
               'the blocks they reserve, argument after argument, and reserve what the entry points use, is taken from the analysis of the argument loops.')


def loops(fn, *a):
    """an analysis of the argument loops: only what concerns memory that is not the call's own"""
    try:
        d = fn(*a)
    except Wrong as e:
        if not memory(e.v[0]):
            raise Broken('%s: %s' % (e.v[0], e.v[2]))
        raise
    d['viol'] = [v for v in d['viol'] if memory(v[0])]
    n = sum(d['rules'].values())
    d['rules'] = {'the argument loops stay inside the blocks reserved': n}
    return d


def check(rep, thorough):
    C = ctx()
    w = ('state', 'memory')
    jobs = split_jobs('calls', C.K, sysv_call, w, None, w) + split_jobs('closures', C.K, sysv_closure, w, None, w)
    jobs += split_jobs('Windows calls', C.WK, win_call, w, None, w, n=2) + split_jobs('Windows closures', C.WK, win_closure, w, None, w, n=2)
    jobs += [(name, loops, (fn,) + a) for name, fn, a in c05.jobs(thorough)]
    rk = [k for k in C.WK if k.code == VOID or k.name == 'struct of 3 bytes']
    aw = ('memory', 'args')
    for k in rk:
        jobs.append(('Windows calls, arguments, returning %s' % k, loops, (each, [k], win_call, aw, None, aw)))
        jobs.append(('Windows closures, arguments, returning %s' % k, loops, (each, [k], win_closure, aw, None, aw)))
    run_jobs(rep, jobs)
    if thorough or rep.undecided or rep.broken:
        run_jobs(rep, [(name, loops, (fn,) + a) for name, fn, a in c05.short(thorough)] + [
            (name, loops, (fn,) + tuple(a)) for mode in ('call', 'closure') for name, fn, a in c08.exact_jobs(mode, thorough)])
    rep.note('assembled units', [unix64.UNIT, win64.UNIT])
    rep.note('entries', [unix64.CallAsm.ENTRY, win64.CallW.ENTRY] + list(unix64.ENTRIES) + list(win64.ENTRIES))
    rep.assumptions += ['callees and handlers preserve what their calling convention asks them to']
