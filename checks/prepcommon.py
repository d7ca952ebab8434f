"""shared by C02, C03 and C29: the whole analysis of prep_cif.c, split by tag of the rule"""
from common import *
import prepmodel
PREP = 'src/prep_cif.c'
TYPES = 'src/types.c'


def analyse(rep, tag, thorough):
    m = mods(PREP, TYPES)
    A = prepmodel.Analysis(m, True)
    viol = []
    n = 0
    for off in (True, False):
        for s in ('unlaid', 'laid'):
            c, seen = prepmodel.run_offsets(A, off, s)
            viol += c.viol
            if 0 not in seen:
                for t in ('status: a well-formed type is accepted', 'layout: a well-formed type is laid out'):
                    viol.append((t, 'ffi_get_struct_offsets', 'no path reports success for a structure whose size is %s' % (
                        'still to be computed' if s == 'unlaid' else 'known')))
            n += c.ntrans
    for v in (False, True):
        for s in ('unlaid', 'laid'):
            c = prepmodel.run_entry(A, v, s)
            viol += c.viol
            if not c.machdep:
                viol.append(('status: a well-formed type is accepted', 'ffi_prep_cif_var' if v else 'ffi_prep_cif', 'no path reaches the platform part'))
            n += c.ntrans
            rep.note('status outcomes', ['%s: %s' % ('variadic' if v else 'fixed', sorted(c.stat, key=str))])
    for r in A.results.values():
        viol += r
    if not A.used:
        if not viol:
            raise Broken('preparation never lays out a type')
        viol += [(t + ': aggregates are laid out', 'src/prep_cif.c', 'no aggregate that has members is ever laid out') for t in ('status', 'layout')]
    rep.note('functions', sorted(A.visited))
    rep.note('layout summaries', ['%s: %s / laid out before: %s' % (k[0].name, sorted(s.unlaid, key=str), sorted(s.laid, key=str)) for k, s in A.sums.items()])
    rep.analysed['member and argument transitions'] = A.ntrans
    rep.analysed['instructions interpreted'] = A.steps
    rep.analysed['stores attributed'] = A.stores
    mine = [v for v in viol if v[0].startswith(tag + ':')]
    for r, w, msg in mine:
        rep.bad(r[len(tag) + 2:], w, msg)
    rep.assumptions += ['aggregates are not members of themselves', 'no aggregate is larger than 2^60 bytes, no member larger than 2^32',
                        'member alignments are powers of two below 2^16', 'at most 2^20 arguments, not fewer in total than fixed ones, at least one fixed one']
    return A, m, n
