import build
from tramphist import *
from common import *
from report import run_jobs
EXPLANATION = ('ffi_tramp_alloc and ffi_tramp_free are interpreted over the heap of tables and trampolines: from the first allocation on, every state that allocations and releases in any '
               'order reach, with tables of one, two and three trampolines and several in use, up to renaming of the objects, to a fixed point; with the operating system refusing memory and '
               'mappings in between as well; and, where an operation has more than one critical section, with other threads taking trampolines in between. Full size tables are filled and '
               'released in several orders. In every state each trampoline in use has code and parameters of its own that are mapped and a record that is not given back; none in use is handed '
               'out; none that is free is passed over; nothing is accessed after it was given back, and what is kept is whole tables.')
TRUSTED = ['clang 18 and its LLVM IR', 'the interpreter in lib/irai.py', 'the model of malloc, free, mmap and munmap in lib/trampmodel.py',
           'pthread mutexes; that accesses are made under the lock is C14']


def result(h, what):
    d = {'rules': dict(h.rules), 'viol': [(r, w, m) for (r, w), m in h.viol.items()], 'unsure': [], 'analysed': {}, 'states': len(h.seen), 'paths': h.n_ops}
    d['analysed']['histories'] = [what]
    d['analysed']['functions'] = sorted(h.ai.visited)
    return d


def states(n, live, fail):
    h = Hist(n, fail)
    try:
        h.explore(live)
    except Broken:
        if not h.viol:
            raise
    return result(h, '%d states and %d operations with tables of %d, at most %d in use%s' % (
        len(h.seen), h.n_ops, n, live, ', the system refusing at any point' if fail else ''))


def full(i, tables):
    h = Hist(102, False)
    try:
        h.line(ORDERS[i], tables)
    except Broken:
        if not h.viol:
            raise
    return result(h, '%d tables of 102 released in %s order, twice' % (tables, ORDERS[i].__name__))


def check(rep, thorough):
    if not any(f.name == 'ffi_tramp_alloc' for m in mods(TRAMP) for f in m.funcs.values()):
        raise Broken('no trampolines')
    mods(TRAMP, FFI64)
    jobs = []
    for n, live in ((1, 5), (2, 5), (3, 5), (2, 6), (4, 6)) if thorough else ((1, 5), (2, 5), (3, 4)):
        for f in (False, True):
            jobs.append(('tables of %d%s' % (n, ', refusing' if f else ''), states, (n, live, f)))
    jobs += [('full size, %s' % o.__name__, full, (i, 3 if thorough else 2)) for i, o in enumerate(ORDERS)]
    run_jobs(rep, jobs)
    rep.assumptions += ['tables of one to %d trampolines with at most %d in use stand for any (and full size tables in %d orders)' % ((4, 6, len(ORDERS)) if thorough else (3, 5, len(ORDERS))),
                        'a trampoline is released once, by who was given it']
