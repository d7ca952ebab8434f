from asmcommon import *
EXPLANATION = ('The C part of calls with the Windows x64 ABIs is interpreted for an arbitrary argument at an arbitrary position of an '
               'arbitrarily long list, for every result type, with and without a result buffer; the flags and frame it produces are '
               'handed to the interpretation of the assembled entry point, whose registers, stores and stack are compared with the ABI.')


def check(rep, thorough):
    C = ctx()
    run_jobs(rep, split_jobs('calls returning', C.WK, win_call, ('result', 'args', 'target', 'state', 'chain'), None, None))
    if rep.undecided or rep.broken or thorough:
        run_jobs(rep, exact_jobs('call', thorough))
    rep.note('assembled units', [win64.UNIT])
    rep.note('argument kinds', [k.name for k in C.wks])
    rep.assumptions += ['the callee follows the Windows x64 ABI', 'at most 4096 arguments of at most 2^20 bytes']


def exact_jobs(mode, thorough, go=False):
    """short argument lists, explored exactly"""
    C = ctx()
    pick = [k for k in C.wks if k.name in ('sint32', 'double', 'long double', 'struct of 3 bytes', 'struct of 8 bytes')]
    big = [Kind('struct of %d bytes' % z, STRUCT, z, (1, 16), ()) for z in (24, 100, 4096)]
    res = [k for k in C.WK if k.code in (VOID,) or k.name == 'struct of 3 bytes']
    jobs = []
    for rk in res:
        for n in range(0, 6 if thorough else 5):
            jobs.append(('%s with %d arguments returning %s' % (mode, n, rk), exact, (mode, n, rk, [pick if n < 5 else pick[:3]] * n, go)))
        every = C.wks + big
        for pre in range(0, 6):
            jobs.append(('%s with %d arguments before an arbitrary one, returning %s' % (mode, pre, rk), exact, (mode, pre + 1, rk, [pick[:1]] * pre + [every], go)))
    return jobs


def exact(mode, n, rk, prefix, go=False):
    C = ctx()
    d = fresh()
    for fl in wflags(d, rk, GNUW64, ()):
        fn = winplace.run_wcall if mode == 'call' else winplace.run_winner
        c = fn(C.m, prefix[0] if prefix else [], rk, GNUW64, fl, n, prefix=prefix, **({'go': True} if go else {}))
        takec(d, c, None, ' (%d arguments)' % n)
        d['unsure'] += c.undecided
        if not c.final:
            add(d, 'the call is made', mode, 'no path reaches the other side')
        count(d, 'argument places (exact argument lists)', c.ntrans + 1)
    return d
