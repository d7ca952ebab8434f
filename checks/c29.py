from prepcommon import *
import place, winplace, classify, irai
from abi import *
from abi import scalar_kinds
EXPLANATION = ('Memory-effect analysis by abstract interpretation: every store on every path of preparation (generic part, platform part, '
               'aggregate classifier) is attributed to the object it writes; only the interface object, locals, the offsets array and size and '
               'alignment of an aggregate not laid out yet may be written. Nested aggregates by induction.')

N = {'stores': 0}


def audit(cls, ok=()):
    class Audit(cls):
        def event(self, ai, st, ev):
            if ev.k in ('store', 'copy', 'set'):
                N['stores'] += 1
                b = ev.base
                nm = b.a[0] if b.op == 'sym' and isinstance(b.a[0], str) else ''
                if nm.startswith('%') or nm in ok:
                    return
                if nm == '$cif':
                    o, e = st.f._int(addc(ev.off, -24), True), st.f._int(sub(const(64, 32), add(ev.off, ev.n)), True)
                    if o and st.f.pge(*o) and e and st.f.pge(*e):
                        return
                    self.report('platform part: only bytes and flags of the interface are set', ev.inst, '%s bytes at offset %s' % (ev.n, ev.off))
                    return
                self.report('platform part: preparation writes only the interface', ev.inst, '%s bytes at %s+%s are written' % (ev.n, b, ev.off))
            return None
    return Audit


def check(rep, thorough):
    A, m, n = analyse(rep, 'effect', thorough)
    rep.parts += 1
    rep.ok('stores of the generic part go to the interface or an unlaid aggregate', A.stores)
    rep.part('platform part', platform, rep)


def platform(rep):
    m = mods(FFI64, FFIW64)
    ks, R, meaning = place.all_kinds(m)
    saved = place.Prep, winplace.WPrep, classify.Classify
    try:
        place.Prep = audit(place.Prep)
        winplace.WPrep = audit(winplace.WPrep)
        classify.Classify = audit(classify.Classify, ('$CLS',))
        viol = []
        seen = set()
        Rc = classify.run(m, kinds_only=True)
        viol += Rc.viol
        void = [k for k in scalar_kinds(True) if k.code == VOID][0]
        for rk in [void] + ks:
            c = place.run_prep(m, R, [], rk, 0)
            viol += c.viol
            seen |= c.visited
        c = place.run_prep(m, R, ks, void)
        viol += c.viol
        seen |= c.visited
        for abi in (WIN64, GNUW64):
            for rk in winplace.result_kinds():
                c = winplace.run_wprep(m, [], rk, abi, 0)
                viol += c.viol
                seen |= c.visited
            c = winplace.run_wprep(m, winplace.kinds(), void, abi)
            viol += c.viol
            seen |= c.visited
    finally:
        place.Prep, winplace.WPrep, classify.Classify = saved
    for v in sorted(set(viol)):
        if v[0].startswith('platform part'):
            rep.bad(*v)
    rep.note('platform functions', sorted(seen))
    rep.ok('stores of the platform part go to flags and bytes of the interface', N['stores'])
