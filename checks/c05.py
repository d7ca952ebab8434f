from common import *
import place, unix64
from abi import *
from report import run_jobs
EXPLANATION = ('Inductive abstract interpretation of the three argument loops (prepare, call, closure) of the System V ABI: one '
               'iteration from an arbitrary head state, for every cell of a partition of argument types, compared with the '
               'psABI placement algorithm carried along as specification state (registers used and stack offset).')


def pack(c, name, what):
    d = {'rules': {}, 'viol': [], 'unsure': [], 'analysed': {}}
    for r, w, msg in c.viol:
        d['viol'].append((r, w, msg))
    for r, w, msg in c.undecided:
        d['unsure'].append((r, w, msg))
    bad = len(set(c.viol))
    d['rules'][what] = max(0, c.ntrans - bad)
    d['analysed']['functions'] = sorted(c.visited)
    d['analysed']['argument kind x register state cells'] = ['%s: %d cells, %d transitions' % (name, len(c.cells), c.ntrans)]
    if c.ntrans == 0 and not c.viol:
        raise Broken('%s: no iteration of an argument loop was seen' % name)
    return d


def job(mode, m, ks, R, rk, fl, go=False):
    if mode == 'prep':
        c = place.run_prep(m, R, ks, rk)
        if not any(by is not None for _, by, _, _ in c.results):
            if c.results and all(isc(v) or v.op == 'undef' for v, _, _, _ in c.results):
                raise Wrong('valid argument types are prepared', 'ffi_prep_cif_machdep', 'no path of the prepare step succeeds (results %s)' % {
                    str(v) for v, _, _, _ in c.results})
            raise Broken('the prepare step has no successful outcome')
        return pack(c, 'prepare', 'prepared stack space covers the psABI stack arguments')
    if mode == 'call':
        c = place.run_call(m, R, ks, rk, fl, go=go)
        if not c.final and not c.viol:
            raise Broken('the call never reaches the assembly')
        return pack(c, 'call', 'each argument is stored where the psABI puts it, and nowhere else')
    c = place.run_inner(m, R, ks, rk, fl)
    if not c.final and not c.viol:
        raise Broken('the closure never reaches the handler')
    return pack(c, 'closure', 'each handler argument pointer leads to the psABI place of the argument')


def exact(mode, m, ks, R, rk, pre):
    if mode == 'prep':
        return pack(place.run_prep(m, R, ks, rk, len(pre), pre), 'prepare, exact', 'prepared stack space (exact argument lists)')
    p = place.run_prep(m, R, [k for k in ks if k.code in (S32, DOUBLE)], rk, 1)
    fl = max((x[2] for x in p.results if x[2] is not None), key=cv)
    c = (place.run_call if mode == 'call' else place.run_inner)(m, R, ks, rk, fl, len(pre), prefix=pre)
    return pack(c, mode + ', exact', 'argument places (exact argument lists)')


def jobs(thorough):
    m = mods(FFI64)
    ks, R, meaning = place.all_kinds(m)
    void = [k for k in scalar_kinds(True) if k.code == VOID][0]
    rks = [void, place.mem_kinds()[0]]
    if thorough:
        rks += [k for k in scalar_kinds() if k.code in (S32, DOUBLE, LDOUBLE)]
    out = []
    for rk in rks:
        out.append(('prepare returning ' + rk.name, job, ('prep', m, ks, R, rk, None)))
        small = [k for k in ks if k.code in (S32, DOUBLE)]
        p = place.run_prep(m, R, small, rk)
        fls = {p2[2] for p2 in p.results if p2[2] is not None}
        if not fls:
            raise Broken('the prepare step has no successful outcome for ' + rk.name)
        fls = sorted((f for f in fls if isc(f)), key=cv)
        for f in fls if thorough or rk is void else fls[-1:]:
            out.append(('call returning %s, flags %#x' % (rk.name, cv(f)), job, ('call', m, ks, R, rk, f)))
            out.append(('closure returning %s, flags %#x' % (rk.name, cv(f)), job, ('inner', m, ks, R, rk, f)))
    return out


def short(thorough):
    """what induction does not settle is explored exactly for short argument lists"""
    m = mods(FFI64)
    ks, R, meaning = place.all_kinds(m)
    void = [k for k in scalar_kinds(True) if k.code == VOID][0]
    out = []
    for pre in place.bounded(ks):
        for rk in (void, place.mem_kinds()[0]):
            nm = '%d arguments returning %s' % (len(pre), rk.name)
            out.append(('prepare, ' + nm, exact, ('prep', m, ks, R, rk, pre)))
            out.append(('call, ' + nm, exact, ('call', m, ks, R, rk, pre)))
            out.append(('closure, ' + nm, exact, ('inner', m, ks, R, rk, pre)))
    # one argument of every exact size
    sizes = [k for k in unix64.exact_kinds(R) if k.code == STRUCT and 'M' not in k.cls]
    i64 = [k for k in ks if k.code == S64][0]
    for n in (0, 5):
        for i in range(4):
            pre = [[i64]] * n + [sizes[i::4]]
            for mode in ('call', 'inner'):
                out.append(('%s, every size behind %d arguments, %d' % (mode, n, i), exact, (mode, m, ks, R, void, pre)))
    return out


def check(rep, thorough):
    rep.note('argument kinds', [k.name for k in place.all_kinds(mods(FFI64))[0]])
    run_jobs(rep, jobs(thorough))
    if thorough or rep.undecided or rep.broken:
        run_jobs(rep, short(thorough))
    rep.assumptions += ['at most 4096 arguments of at most 2^20 bytes, 2^31 bytes of stack in total',
                        'argument alignment is a power of two up to 16', 'cif was filled in by ffi_prep_cif']
