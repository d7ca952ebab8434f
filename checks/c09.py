from asmcommon import *
import c08
EXPLANATION = ('The assembled closure entries of the Windows x64 ABIs are interpreted from a symbolic caller state up to the C part, the '
               'C part for an arbitrary argument at an arbitrary position for every result type, and the return path; argument pointers '
               'and result registers are compared with the ABI.')


def check(rep, thorough):
    C = ctx()
    run_jobs(rep, split_jobs('closures returning', C.WK, win_closure, ('result', 'args', 'target', 'state'), None, None))
    if rep.undecided or rep.broken or thorough:
        run_jobs(rep, c08.exact_jobs('closure', thorough))
    rep.note('assembled units', [win64.UNIT])
    rep.note('entries', list(win64.ENTRIES))
    rep.note('argument kinds', [k.name for k in C.wks])
    rep.assumptions += ['the caller follows the Windows x64 ABI', 'at most 4096 arguments of at most 2^20 bytes']
