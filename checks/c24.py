from asmcommon import *
import cloprep
from cloprep import CLO, CIF, FUN, USER, CODE
EXPLANATION = ('The prepare functions are interpreted for every ABI number and every flag word the preparation of calls can produce. For each outcome '
               'the fields left in the closure, and the trampoline (its bytes, decoded and interpreted, or the static trampoline\'s parameters), are '
               'composed with the interpretation of the entry they lead to: it must hand the stored interface, handler and user data to the inner '
               'function with the argument registers saved, vector registers included when an argument travels in one, and that calls the handler with them.')


def STATIC():
    """does this configuration have static trampolines?"""
    return any('ffi_tramp_set_parms' in m.funcs for m in ctx().m)


def may(f, t, v):
    f = f.copy()
    return f.truth(eqb(t, const(t.w, v), f)) is not False and f.assume_eq(t, const(t.w, v)) is not False


def flagset(i, n, k):
    """(flag word, whether a vector register can hold an argument) the prepare step produces for System V:
    any argument list for the result kind k, and an empty and a one-argument list for every n-th kind"""
    C = ctx()
    d = fresh()
    out = {}
    if k is not None:
        p = place.run_prep(C.m, C.R, C.ks, k)
        d['unsure'] += p.undecided
        for v, by, fl, st in p.results:
            if fl is None:
                continue
            if not isc(fl):
                d['unsure'].append(('flag word', str(k), 'the flag word is %s' % fl))
                continue
            s = st.g['s']
            vec = not (isc(s) and cv(s) == 0)
            out.setdefault(cv(fl), [False, str(k)])
            out[cv(fl)][0] |= vec
    else:
        for k in C.K[i::n]:
            try:
                for t in (None, DOUBLE, S32):
                    args = [x for x in C.ks if x.code == t]
                    p = place.run_prep(C.m, C.R, args, k, len(args))
                    for v, by, fl, st in p.results:
                        if fl is not None and isc(fl):
                            out.setdefault(cv(fl), [False, str(k)])
                            out[cv(fl)][0] |= t == DOUBLE
            except Broken as e:
                d['unsure'].append(('analysis', str(k), str(e)))
    d['flags'] = out
    return d


def sysv_prepare(flags):
    C = ctx()
    d = fresh()
    w = 'ffi_prep_closure_loc'
    for fl, (vec, kn) in flags:
        tag = ' (flag word %#x, as for a result of type %s%s)' % (fl, kn, ' with vector arguments' if vec else '')
        for fname, args in (('ffi_prep_closure_loc', [CLO, CIF, FUN, USER, CODE]),):
            outs, ai = cloprep.run(C.m, fname, const(32, UNIX64), const(32, fl), args)
            judge(d, outs, unix64, fl, vec, tag, w)
    d['analysed']['closure preparations'] = [w]
    return d


def judge(d, outs, arch, fl, vec, tag, w):
    okn = 0
    for o in outs:
        if not (isc(o.status) and cv(o.status) == OK):
            add(d, 'an interface of this platform is accepted', w, 'status %s%s' % (o.status, tag))
            continue
        okn += 1
        places = []
        for t, what in ((CIF, 'interface'), (FUN, 'handler'), (USER, 'user data')):
            r = cloprep.field(o, t)
            if len(r) != 1:
                add(d, 'the closure records its ' + what, w, 'it is not stored in the closure' + tag)
                break
            places.append(r[0])
        if len(places) != 3:
            continue
        if o.static is None and STATIC():
            if o.asked:
                raise Broken('whether the closure has a static trampoline is decided by %s' % o.asked[0])
            add(d, 'the static trampoline of a closure is set up where it has one', w, 'this path does not look for one' + tag)
            continue
        if o.static == 1:
            if not o.kept:
                add(d, 'a closure keeps its static trampoline', w, 'the pointer to it is overwritten' + tag)
                continue
            if len(o.parms) != 1:
                add(d, 'a static trampoline is set up exactly once', w, '%d times%s' % (len(o.parms), tag))
                continue
            tr, tgt, dat = o.parms[0]
            tgt, dat = o.st.f.norm(tgt), o.st.f.norm(dat)
            if not (tr.op == 'init' and tr.a[0] is CLO):
                add(d, 'the closure\'s own static trampoline is set up', w, 'it is %s%s' % (tr, tag))
            if dat is not CLO:
                add(d, 'the static trampoline leads to its closure', w, 'its data is %s%s' % (dat, tag))
            if not (tgt.op == 'sym' and tgt.a[0][0] == '@'):
                raise Broken('target of the static trampoline is %s' % tgt)
            entry, base, alt = tgt.a[0][1:], 0, True
        else:
            if o.parms:
                add(d, 'a static trampoline is only used where the closure has one', w, 'it is set up for a closure without' + tag)
                continue
            if not o.bytes:
                add(d, 'the trampoline is written', w, 'the closure starts with what it held before' + tag)
                continue
            res, problems, eb = cloprep.run_bytes(o.bytes)
            for ins, msg in problems:
                add(d, 'the trampoline only passes control on', w, '%s: %s%s' % (ins, msg, tag))
            if len(res) != 1 or res[0][0] is None or res[0][1] is None:
                add(d, 'the trampoline jumps to the recorded entry with the closure in hand', w,
                    ('%s: %%r10 is %s, jumps to %s' % (res[0][2:]) if res else 'it does not jump') + tag)
                continue
            base, toff = res[0][0], res[0][1]
            entry, alt = cloprep.entry_at(o, toff), False
            if entry is None:
                add(d, 'the trampoline\'s target is recorded', w, 'no entry is stored at offset %d of the closure%s' % (toff, tag))
                continue
        obj = unix64.obj(arch.UNIT)
        if entry not in obj.syms:
            add(d, 'the trampoline leads to an entry of the ABI', w, 'it leads to %s%s' % (entry, tag))
            continue
        offs = tuple(p - base for p in places)
        if arch is unix64:
            a = unix64.run_clo_asm(entry, const(32, 0), None, None, 32, offs=offs, sse=True if vec else None, alt=alt)
        else:
            a = win64.run_clow(entry, None, None, offs=offs, alt=alt)
        for I, msg in [] if a.ncalls else [(None, 'never')]:
            add(d, 'the entry calls the inner function', w, '%s does not%s' % (entry, tag))
        take(d, a, ('target', 'args', 'chain'), ' [entry %s]%s' % (entry, tag))
        count(d, 'the closure\'s fields reach the inner function through its trampoline and entry')
    if not okn:
        add(d, 'an interface of this platform is accepted', w, 'no path succeeds' + tag)


def refusals(d, outs, abi):
    w = 'preparing a closure'
    good = {UNIX64, WIN64, GNUW64}
    for o in outs:
        bad = [v for v in list(range(0, 9)) + [(1 << 32) - 1, 1 << 31] if v not in good and may(o.st.f, abi, v)]
        if isc(o.status) and cv(o.status) == OK:
            if bad:
                add(d, 'an interface of another ABI is refused', w, 'ABI %d is accepted' % bad[0])
            else:
                count(d, 'an interface of another ABI is refused')
            continue
        if o.touched or o.parms:
            add(d, 'a refused preparation leaves the closure alone', w, 'it is written')
        else:
            count(d, 'a refused preparation leaves the closure alone')
        if not (isc(o.status) and cv(o.status) == BAD_ABI) and bad:
            add(d, 'an interface of another ABI is refused with its status', w, 'ABI %d gives status %s' % (bad[0], o.status))
        elif bad:
            count(d, 'an interface of another ABI is refused with its status')


def others():
    """other ABIs are refused, the Windows ones handled by their own code"""
    C = ctx()
    d = fresh()
    w = 'ffi_prep_closure_loc'
    fl = sym('$flags', 32)
    abi = sym('$abi', 32)
    for a in (WIN64, GNUW64):
        outs, ai = cloprep.run(C.m, w, const(32, a), fl, [CLO, CIF, FUN, USER, CODE])
        judge(d, outs, win64, None, True, ' (ABI %d)' % a, w)
    outs, ai = cloprep.run(C.m, w, abi, fl, [CLO, CIF, FUN, USER, CODE])
    refusals(d, outs, abi)
    # the shorter form uses the closure itself as code address
    m = mods(FFI64, FFIW64, 'src/prep_cif.c')
    rec = []

    class K(irai.Client):
        def call(self, ai, st, name, fn, args, inst):
            if name == 'ffi_prep_closure_loc':
                rec.append((args, inst))
                return [(st, sym('$status', 32))]
            return None
    f = [x.funcs['ffi_prep_closure'] for x in m if 'ffi_prep_closure' in x.funcs and not x.funcs['ffi_prep_closure'].decl]
    if f:
        for st, v in irai.AI(m, K()).run(f[0], irai.St(), [CLO, CIF, FUN, USER]):
            if v is None or st.f.norm(v) is not sym('$status', 32):
                add(d, 'the short form reports the status of the preparation', 'ffi_prep_closure', 'it returns %s' % v)
            else:
                count(d, 'the short form reports the status of the preparation')
        for args, inst in rec:
            if list(args) != [CLO, CIF, FUN, USER, CLO]:
                add(d, 'the short form prepares the closure at its own address', irai.where(inst), 'it passes %s' % (args,))
            else:
                count(d, 'the short form prepares the closure at its own address')
        if not rec:
            add(d, 'the short form prepares the closure', 'ffi_prep_closure', 'it does not')
    d['analysed']['closure preparations'] = ['ffi_prep_closure_loc for the Windows ABIs', 'ffi_prep_closure']
    return d


def flagwords(rep, thorough):
    C = ctx()
    from report import parallel
    flags = {}
    reps = [k for k in C.K if k.code != STRUCT] + place.mem_kinds()[:1] if thorough else [k for k in C.K if k.code == VOID] + place.mem_kinds()[:1]
    for name, ok, r in parallel([('flag words %s' % k, flagset, (0, 1, k)) for k in reps] +
                               [('flag words %d' % i, flagset, (i, 6, None)) for i in range(6)]):
        if not ok:
            rep.broken.append((name, r))
            continue
        rep.merge(r)
        for k, (v, n) in r.get('flags', {}).items():
            flags.setdefault(k, [False, n])
            flags[k][0] |= v
    fl = sorted(flags.items())
    rep.note('flag words of prepared interfaces', ['%#x%s' % (k, '/vec' if v[0] else '') for k, v in fl])
    return fl


def check(rep, thorough):
    C = ctx()
    w = ('target',)
    fl = flagwords(rep, thorough)
    jobs = [('preparation %d' % i, sysv_prepare, (fl[i::6],)) for i in range(6) if fl[i::6]]
    jobs += [('other ABIs', others, ())]
    jobs += split_jobs('handler', C.K, sysv_closure, w, None, (), n=4)
    jobs += split_jobs('Windows handler', C.WK, win_closure, w, None, ('target',), n=2)
    run_jobs(rep, jobs)
    rep.note('analysed units', ['src/x86/ffi64.c', 'src/x86/ffiw64.c', 'src/prep_cif.c', 'src/x86/unix64.S', 'src/x86/win64.S'])
