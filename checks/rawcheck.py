"""The checks over the raw interfaces, shared by C21 to C23."""
from common import *
import rawmodel
from rawmodel import *
from report import run_jobs

UNITS = {False: 'src/raw_api.c', True: 'src/java_raw_api.c'}
NAMES = {False: ('ffi_raw_size', 'ffi_raw_to_ptrarray', 'ffi_ptrarray_to_raw', 'ffi_raw_call'),
         True: ('ffi_java_raw_size', 'ffi_java_raw_to_ptrarray', 'ffi_java_ptrarray_to_raw', 'ffi_java_raw_call')}
WHAT = ('the size of a block is the sum of its slots', 'the pointer made for an argument leads to its slot of the block',
        'the value of an argument is stored in its slot of the block', 'a raw call passes each argument from its slot')


def kinds(java):
    return java_kinds() if java else raw_kinds()


def pack(c, what):
    d = {'rules': {what: c.ntrans}, 'viol': list(c.viol), 'unsure': list(c.undecided), 'analysed': {
        'functions': sorted(c.visited), 'cells': sorted('%s in %s' % x for x in c.cells)}}
    return d


def one(java, i, nargs=None, prefix=None):
    m = mods(UNITS[java])
    name = NAMES[java][i]
    cls, args = [(SizeRun, [CIF]), (ToPtr, [CIF, RAW, OUT]), (ToRaw, [CIF, AV, RAW]), (RawCall, [CIF, FN, RVALUE, RAW])][i]
    c = rawmodel.drive(cls, m, name, args, kinds(java), java, nargs, prefix)
    return pack(c, WHAT[i])


def lists(java, thorough=False):
    ks = kinds(java)
    few = [k for k in ks if k.code in (S8, U64, DOUBLE, LDOUBLE, STRUCT)]
    yield []
    yield [ks]
    yield [few, ks]
    yield [ks, few]
    if thorough:
        yield [few, few, ks]
        yield [few, few, few, ks[:1]]


CLOSURE = {False: (('ffi_prep_raw_closure_loc', True),), True: (('ffi_prep_java_raw_closure_loc', True),)}
LAYOUT = ('value of an argument', 'narrow integers', 'inside its own slot', 'reads stay inside', 'raw block', 'every argument', 'result of the handler')


def handed(java, name, hasloc, nargs=None, prefix=None):
    """the block a raw closure hands to its handler"""
    d = closure(java, name, hasloc, nargs, prefix)
    for w in ('viol', 'unsure'):
        d[w] = [x for x in d[w] if any(y in x[0] for y in LAYOUT)]
    d['rules'] = {r: n for r, n in d['rules'].items() if 'raw block' in r}
    return d


def check_layout(rep, thorough, java):
    run_jobs(rep, [(NAMES[java][i], one, (java, i)) for i in range(4)] + [(n, handed, (java, n, l)) for n, l in CLOSURE[java]])
    if rep.undecided or rep.broken or thorough:
        jobs = []
        for pre in lists(java, thorough):
            jobs += [('%s with %d arguments' % (n, len(pre)), handed, (java, n, l, len(pre), pre)) for n, l in CLOSURE[java]]
        for pre in lists(java, thorough):
            for i in range(4):
                jobs.append(('%s with %d arguments' % (NAMES[java][i], len(pre)), one, (java, i, len(pre), pre)))
        run_jobs(rep, jobs)
    rep.note('argument kinds', [k.name for k in kinds(java)])
    rep.assumptions += ['at most 4096 arguments']


def closure(java, name, hasloc, nargs=None, prefix=None):
    m = mods(UNITS[java])
    size = 72
    c = rawmodel.run_closure(m, name, kinds(java), java, hasloc, size, nargs, prefix)
    if not c.runs and not c.viol:
        raise Broken('the handler of %s was never reached' % name)
    d = pack(c, 'the raw block handed to the handler')
    d['rules']['handler, interface, user data and result buffer are followed from preparation to the handler call'] = c.runs
    return d


def check_closures(rep, thorough):
    names = [(False, 'ffi_prep_raw_closure_loc', True), (False, 'ffi_prep_raw_closure', False),
             (True, 'ffi_prep_java_raw_closure_loc', True), (True, 'ffi_prep_java_raw_closure', False)]
    run_jobs(rep, [(n, closure, (j, n, l)) for j, n, l in names])
    if rep.undecided or rep.broken or thorough:
        jobs = []
        for j, n, l in names:
            for pre in lists(j, thorough):
                jobs.append(('%s with %d arguments' % (n, len(pre)), closure, (j, n, l, len(pre), pre)))
        run_jobs(rep, jobs)
    rep.assumptions += ['at most 4096 arguments', 'the handler writes nothing but its result']
