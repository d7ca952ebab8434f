from common import *
import classify
EXPLANATION = ('Abstract interpretation of the recursive aggregate classifier over an arbitrary element list, run in product with '
               'the psABI merge rules: the element loop is generalised, every scalar, complex and nested kind is tried at every '
               'reachable state, and the reported classes of every exact size up to 16 bytes (and of larger buckets) are compared '
               'with the psABI classes. Nested aggregates are used by induction hypothesis.')


def check(rep, thorough):
    m = mods(FFI64)
    R = classify.run(m, thorough)
    bad, meaning = classify.judge(R)
    rep.parts += 1
    rep.note('functions', sorted(R.functions))
    rep.note('element kinds', [k.name for k in R.elements])
    rep.note('nested representatives', ['%s@%d' % x for x in R.nested][:400])
    rep.analysed['loop transitions'] = R.transitions
    rep.analysed['instructions interpreted'] = R.steps
    n = sum(len(o) for o in R.outcomes.values())
    rep.ok('classes reported for an aggregate are its psABI classes', n - len(bad))
    rep.ok('nested aggregates are classified at their offset', len(R.nested) or 1)
    for k, o in sorted(R.outcomes.items())[:6]:
        rep.samples.append('sizes %d..%d at offset %d: %s' % (k[1], k[2], k[0], sorted(o, key=str)[:3]))
    for r, msg in bad:
        rep.bad(r, 'src/x86/ffi64.c (%s)' % R.fn.name, msg)
    for r, w, msg in R.viol:
        rep.bad(r, w, msg)
    rep.assumptions.append('element lists describe C types: elements at their natural alignment, sizes as laid out')
