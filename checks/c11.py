from asmcommon import *
EXPLANATION = ('While every path of the assembled entry points is interpreted, the recorded unwind row for each instruction is evaluated in the '
               'current symbolic state and must give the caller\'s stack pointer, return address and callee-saved registers; an instruction that '
               'calls out must have a row.')


def check(rep, thorough):
    C = ctx()
    w = ('unwind',)
    a, b = fdes(unix64.UNIT), fdes(win64.UNIT)
    jobs = split_jobs('calls', C.K, sysv_call, w, a) + split_jobs('closures', C.K, sysv_closure, w, a)
    jobs += split_jobs('Windows calls', C.WK, win_call, w, b, n=2) + split_jobs('Windows closures', C.WK, win_closure, w, b, n=2)
    run_jobs(rep, jobs)
    rep.note('unwind entries', ['%s: %#x..%#x, %d rows' % (s, x, y, len(r)) for f in (a, b) for x, y, s, r in f])
    rep.assumptions += ['readelf decodes the call frame information correctly']
