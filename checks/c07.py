from asmcommon import *
EXPLANATION = ('For every result type the flags the closure reports to its entry code are taken from the abstract interpretation of the '
               'prepare step and of the closure\'s C part, and the assembled load code is interpreted for them in every entry; the '
               'psABI result registers are compared with the bytes the handler stored.')


def check(rep, thorough):
    C = ctx()
    run_jobs(rep, split_jobs('results', C.K, sysv_closure, ('result',)))
    rep.note('assembled units', [unix64.UNIT])
    rep.note('entries', list(unix64.ENTRIES))
    rep.assumptions += ['handlers store their result as the documentation asks: integers in a full word or at least their own width',
                        'the C part follows the psABI as compiled']
