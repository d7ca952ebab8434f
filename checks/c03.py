from prepcommon import *
import place, winplace
from abi import *
from abi import scalar_kinds, complex_kinds
EXPLANATION = ('Abstract interpretation of the public preparation functions for an arbitrary ABI number and an arbitrary signature: every '
               'outcome is compared with whether the ABI is offered and every type can be laid out (members and arguments visited in '
               'generalised loops, nested aggregates by induction); a refused aggregate must stay unlaid. The platform part is then '
               'interpreted for every kind of result and argument and every ABI.')


def check(rep, thorough):
    A, m, n = analyse(rep, 'status', thorough)
    rep.parts += 1
    rep.ok('every outcome of the generic part is the documented one', A.ntrans)
    rep.part('platform part', platform, rep)


def platform(rep):
    m = mods(FFI64, FFIW64)
    ks, R, meaning = place.all_kinds(m)
    void = [k for k in scalar_kinds(True) if k.code == VOID][0]
    n = 0

    def judge(c, abi, what, want):
        for v, _, _, _ in c.results:
            if want is None:
                if isc(v) and cv(v) == OK:
                    rep.bad('what the platform does not support is refused', 'ffi_prep_cif_machdep', 'ABI %d, %s is accepted' % (abi, what))
            elif not (isc(v) and cv(v) == want):
                rep.bad('the platform part accepts every usable type', 'ffi_prep_cif_machdep', 'ABI %d, %s: status %s' % (abi, what, v))
        return len(c.results)

    for rk in [void] + ks:
        n += judge(place.run_prep(m, R, [], rk, 0), UNIX64, 'result ' + rk.name, OK)
    n += judge(place.run_prep(m, R, ks, void), UNIX64, 'some argument list', OK)
    wk = winplace.kinds()
    for abi in (WIN64, GNUW64):
        for rk in winplace.result_kinds():
            n += judge(winplace.run_wprep(m, [], rk, abi, 0), abi, 'result ' + rk.name, OK)
        n += judge(winplace.run_wprep(m, wk, void, abi), abi, 'some argument list', OK)
    for abi in (0, 1, 5, 6, 0x7fffffff, 0x80000000, 0xffffffff):
        c = place.Prep(R, [], void, 0)
        c.abi = abi
        import irai
        ai = irai.AI(m, c)
        c.results = []
        for st, v in ai.run(place.need(m, 'ffi_prep_cif_machdep'), c.start(), [sym('$cif', 64, True)]):
            c.results.append((st.f.norm(v), None, None, None))
        n += judge(c, abi, 'an ABI that is not offered', BAD_ABI)
    for code in (16, 17, 255, 0xffff):
        k = Kind('of unknown kind %d' % code, code, 8, 8, ())
        n += judge(place.run_prep(m, R, [], k, 0), UNIX64, 'result ' + k.name, BAD_TYPEDEF)
    rep.ok('platform part accepts every usable type and refuses the rest', n)
