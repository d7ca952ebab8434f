from asmcommon import *
EXPLANATION = ('For every result type (scalars, complex, every aggregate class combination at every exact size, in memory) the result '
               'flags are taken from the abstract interpretation of the prepare step, the call is followed to the assembly, and the '
               'assembled store code is interpreted for those flags; the bytes it stores are compared with the psABI result registers.')


def check(rep, thorough):
    C = ctx()
    run_jobs(rep, split_jobs('results', C.K, sysv_call, ('result',)))
    rep.note('assembled units', [unix64.UNIT])
    rep.assumptions += ['the callee follows the psABI', 'an in-memory result type is at most 2^20 bytes']
