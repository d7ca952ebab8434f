from asmcommon import *
import trampmodel as TMod, trampslot
EXPLANATION = ('The trampoline allocator is interpreted from its initial state (both ways of finding the file, every outcome of the search) and asked for every '
               'trampoline of a table; for each the code address it reports, the place it stores parameters in and the mappings made give the instructions that '
               'run there. These are decoded from the assembled table and interpreted: the parameters they load must be the ones stored for that trampoline, '
               'control must go to the stored target, and what is left in registers and on the stack must be what the closure entries expect.')
TGT, DAT = sym('$parm.target', 64, True), sym('$parm.data', 64, True)
X = 4


def same(f, v, t):
    if f.eq(v, t) or f.truth(atom('eq', 1, v, t)) or f.truth(atom('eq', 1, t, v)):
        return True
    e = f.cmp_int(v, t, False) if f._int(v, False) and f._int(t, False) else (0, ((v, 1), (t, -1)))
    return f.pge(*e) and f.pge(-e[0], tuple((a, -k) for a, k in e[1]))


def calls(st, name):
    return [e for e in st.ev if e.k == 'call' and e.name == name]


def mapping(d, st, w):
    """(executable mapping: base, offset, length; whole mapping base, length) of the code table"""
    maps = calls(st, 'mmap')
    ex = [e for e in maps if isc(e.args[2]) and cv(e.args[2]) & X]
    if not ex:
        add(d, 'the code table is mapped executable', w, 'no executable mapping is made')
        return None
    return maps, ex[-1]


def content(d, ai, st, e, text, w):
    """the executable mapping shows the code table from its start"""
    fd, off, ln = st.f.norm(e.args[4]), st.f.norm(e.args[5]), st.f.norm(e.args[1])
    wr = [x for x in calls(st, 'write') if st.f.norm(x.args[0]) is fd]
    rule = 'the file mapped for the code table holds it at the mapped offset'
    if wr:
        ok = st.f.norm(wr[0].args[1]) is text and st.f.eq(st.f.norm(wr[0].args[2]), ln) and isc(off) and cv(off) == 0 and \
            st.f.eq(st.f.norm(st.f.zext(wr[0].ret, 64)), ln)
        if not ok:
            add(d, rule, irai.where(e.inst), 'written %s from %s, result %s; mapped %s at offset %s' % (wr[0].args[2], wr[0].args[1], st.f.norm(wr[0].ret), ln, off))
            return
    else:
        # offset in the file = file offset of the mapping that holds the table + distance into it
        c, p = parts(off)
        pd = dict(p)
        scan = [a for a in pd if a.op == 'sym' and a.a[0].startswith('$scan')]
        so = [a for a in scan if pd[a] == 1]
        ss = [a for a in scan if sgn(pd[a], 64) == -1]
        if not (c == 0 and pd.get(text) == 1 and len(so) == 1 and len(ss) == 1 and len(pd) == 3):
            add(d, rule, irai.where(e.inst), 'mapped at offset %s' % off)
            return
        n = so[0].a[0].split('.')[1]
        i0, i1 = int(ss[0].a[0].split('.')[0][5:]), int(so[0].a[0].split('.')[0][5:])
        if (i0, i1) != (0, 3) or ss[0].a[0].split('.')[1] != n:
            add(d, rule, irai.where(e.inst), 'fields %d and %d of the map line are taken for the start address and the offset' % (i0, i1))
            return
        endv = sym('$scan1.' + n, 64)
        lo = st.f._int(sub(text, ss[0]), True)
        hi = st.f._int(addc(sub(endv, text), -1), True)
        if not (lo and st.f.pge(*lo) and hi and st.f.pge(*hi)):
            add(d, 'the map line used is the one whose range holds the table', irai.where(e.inst), 'start %s, end %s' % (ss[0], endv))
            return
        count(d, 'the map line used is the one whose range holds the table')
        # the file opened by that name is the one that is mapped: its content was compared
        done, whole = 0, ln
        for e2 in calls(st, 'same'):
            for k in (0, 1):
                if e2.args[3 + k] is None or not isc(st.f.norm(e2.args[2])):
                    continue
                o, f2, at, n = e2.args[3 + k]
                x, y = st.f.norm(e2.args[k]), st.f.norm(e2.args[1 - k])
                delta = sub(y, text)
                m = cv(st.f.norm(e2.args[2]))
                skip = sub(ai.split(st, x)[1], o)
                if f2 is fd and isc(delta) and isc(n) and isc(skip) and cv(skip) + m <= cv(n) and cv(delta) <= done and st.f.eq(add(at, skip), add(off, delta)):
                    done = max(done, cv(delta) + m)
        if not isc(whole) or done < cv(whole):
            add(d, 'the file mapped for the code table is the one that holds it', irai.where(e.inst),
                'the file opened by the name in the map line may be another one (replaced, or a part of a name with spaces); %s of its content are compared with the table' % (
                    'only the first %d bytes' % done if done else 'none'))
            return
        count(d, 'the file mapped for the code table is the one that holds it')
    count(d, rule)


def slots(i):
    d = fresh()
    w = 'src/tramp.c'
    c, ai = TMod.machine()
    outs = [(st, v) for st, v in TMod.call(ai, irai.St(), 'ffi_tramp_alloc', const(32, 0)) if not (isc(st.f.norm(v)) and cv(st.f.norm(v)) == 0)]
    if not outs:
        raise Broken('no trampoline is ever allocated')
    if i >= len(outs):
        return d
    text = None
    o = unix64.obj(unix64.UNIT)
    for st, h in outs[i:i + 1]:
        handles = [h]
        m0 = len(calls(st, 'mmap'))
        # the rest of the first table
        while True:
            r = TMod.call(ai, st.copy(), 'ffi_tramp_alloc', const(32, 0))
            r = [(s, v) for s, v in r if not (isc(v) and cv(v) == 0)]
            if len(r) != 1:
                raise Broken('allocation number %d has %d outcomes' % (len(handles) + 1, len(r)))
            s, v = r[0]
            if len(calls(s, 'mmap')) != m0:
                break
            st = s
            handles.append(v)
            if len(handles) > 3000:
                raise Broken('a table has more than 3000 trampolines')
        mp = mapping(d, st, w)
        if mp is None:
            return d
        maps, ex = mp
        xb, xo = ai.split(st, st.f.norm(ex.args[0]))
        xo = cv(xo)
        xl = st.f.norm(ex.args[1])
        whole = [e for e in maps if e.ret is xb and e is not ex]
        if not whole or not isc(xl) or not isc(whole[-1].args[1]):
            raise Broken('mapping of the code table')
        wl = cv(whole[-1].args[1])
        xl = cv(xl)
        # which symbol of the object is shown there
        ts = [t for t in ai.globs if ai.globs[t][1] in o.syms] if hasattr(ai, 'globs') else []
        if len(ts) != 1:
            raise Broken('the code table is not one symbol of the assembly unit: %s' % ts)
        text = ts[0]
        tab = o.syms[ai.globs[text][1]]
        if i == 0:
            sa = o.textalign
            if tab % 4096 or sa % 4096:
                add(d, 'the code table starts a page', unix64.UNIT, 'offset %#x of .text, aligned to %d' % (tab, sa))
            else:
                count(d, 'the code table starts a page')
        content(d, ai, st, ex, text, w)
        seen = {}
        pp = {}
        ref = None
        for n, h in enumerate(handles):
            tag = ' (trampoline %d of %d)' % (n + 1, len(handles))
            r = TMod.call(ai, st.copy(), 'ffi_tramp_get_addr', h)
            if len(r) != 1:
                raise Broken('ffi_tramp_get_addr')
            cb, co = ai.split(st, st.f.norm(r[0][1]))
            if cb is not xb or not isc(co):
                add(d, 'a trampoline\'s code address lies in the code table', w, 'it is %s%s' % (r[0][1], tag))
                continue
            rel = sgn(cv(co), 64) - xo
            if not 0 <= rel < xl:
                add(d, 'a trampoline\'s code address lies in the code table', w, 'offset %d of %d%s' % (rel, xl, tag))
                continue
            if rel in seen:
                add(d, 'each trampoline has code of its own', w, 'offset %d is used twice%s' % (rel, tag))
            seen[rel] = n
            s = st.copy()
            n0 = len(s.ev)
            r = TMod.call(ai, s, 'ffi_tramp_set_parms', h, TGT, DAT)
            if not r:
                raise Broken('ffi_tramp_set_parms')
            where_ = {}
            for e in [e for x, _ in r for e in x.ev[n0:]]:
                if e.k == 'store' and not (e.base.op == 'sym' and e.base.a[0][0] in '%@'):
                    if e.val in (TGT, DAT):
                        if e.val in where_ and where_[e.val][:2] != (e.base, e.off):
                            add(d, 'parameters are stored once', irai.where(e.inst), '%s is stored twice%s' % (e.val, tag))
                        where_[e.val] = (e.base, e.off, e.inst)
                    else:
                        add(d, 'only the parameters are stored', irai.where(e.inst), '%s is stored%s' % (e.val, tag))
            if len(where_) != 2:
                add(d, 'the parameters of a trampoline are stored', w, 'target or data is not stored' + tag)
                continue
            skip = [(t, v) for x, _ in r for t in (TGT, DAT)
                    for v in [x.f.norm(ai.read(x, where_[t][0], where_[t][1], 8, True, None)[0][1])] if not same(x.f, v, t)]
            if skip:
                add(d, 'the parameters of a trampoline are stored', irai.where(where_[skip[0][0]][2]),
                    'there is a path on which the place of %s keeps %s%s' % (skip[0][0], skip[0][1], tag))
                continue
            try:
                cl, m, toff, doff = trampslot.run(tab + rel, DAT, TGT)
            except Broken as e:
                add(d, 'the code at a trampoline\'s address is a trampoline', unix64.UNIT, str(e) + tag)
                continue
            for I, msg in cl.bad:
                add(d, 'a trampoline uses only its parameters and the stack below', unix64.asmwhere(I), msg + tag)
            for I in cl.seen:
                if not 0 <= I.addr - tab or I.addr + I.size - tab > xl:
                    add(d, 'the trampoline\'s code lies in the mapped table', unix64.asmwhere(I), '%s%s' % (I, tag))
            inst = cl.out[0][2]
            for t, off, what in ((TGT, toff, 'target'), (DAT, doff, 'data')):
                b, po, wi = where_[t]
                run = addc(const(64, xo), off - tab)
                if b is not xb or not isc(po) or cv(po) != cv(run):
                    add(d, 'a trampoline loads the parameters stored for it', unix64.asmwhere(inst),
                        'its %s is loaded from %+d of the code table and stored at %s%s%s' % (what, off - tab, b, '%+d' % sgn(cv(po), 64) if isc(po) else po, tag))
                    continue
                a = cv(po)
                if not (xo + xl <= a or a + 8 <= xo) or a + 8 > wl or not cv(whole[-1].args[2]) & 2:
                    add(d, 'parameters lie in writable memory', irai.where(wi), 'offset %d of the mapping%s' % (a, tag))
                else:
                    count(d, 'parameters lie in writable memory')
                for q in range(8):
                    if a + q in pp and pp[a + q] != (n, what):
                        add(d, 'parameters of different trampolines are apart', irai.where(wi), 'offset %d is shared%s' % (a + q, tag))
                        break
                    pp[a + q] = (n, what)
                count(d, 'a trampoline loads the parameters stored for it')
            so, t, I = cl.out[0]
            if t is not TGT:
                add(d, 'a trampoline jumps to its target', unix64.asmwhere(I), 'it jumps to %s%s' % (t, tag))
                continue
            sig = (tuple(sorted((k, str(v)) for k, v in so.loc.items() if k != 'fl')),
                   str(ai.split(so, so.loc['rsp'])), tuple(str(m.ai.read(so, sym('$stk', 64, True, 16), const(64, -8 * q), 8, False, None)[0][1]) for q in range(1, 20)))
            if ref is None:
                ref = sig
                for g in asmai.GPR:
                    if g not in ('rsp', 'r10', 'r11') and so.loc[g] is not sym('$r.' + g, 64):
                        add(d, 'a trampoline changes no argument or saved register', unix64.asmwhere(I), '%%%s is %s%s' % (g, so.loc[g], tag))
                for q in range(16):
                    if so.loc['xmm%d' % q] != (sym('$x%d.lo' % q, 64), sym('$x%d.hi' % q, 64)):
                        add(d, 'a trampoline changes no argument or saved register', unix64.asmwhere(I), '%%xmm%d is changed%s' % (q, tag))
            if sig != ref:
                add(d, 'every trampoline hands over in the same way', unix64.asmwhere(I), 'it differs from the first one' + tag)
            else:
                count(d, 'every trampoline hands over in the same way')
        d['analysed']['trampolines per table'] = ['%d (table found %s)' % (len(handles), 'in a temporary file' if calls(st, 'write') else 'in the library\'s file')]
    return d


def entries():
    """what the trampolines leave behind is what the entries they lead to expect"""
    d = fresh()
    if trampslot.entry_state(sym('$clo', 64, True, 8)) is None:
        raise Broken('the first trampoline cannot be interpreted')
    for e in ('ffi_closure_unix64_alt', 'ffi_closure_unix64_sse_alt'):
        a = unix64.run_clo_asm(e, const(32, 0), None, None, 32)
        take(d, a, ('target', 'state', 'args'), ' [%s reached through a trampoline]' % e)
        if not a.ncalls:
            add(d, 'the entry calls the inner function', e, 'it does not')
    a = win64.run_clow('ffi_closure_win64_alt', None)
    take(d, a, ('target', 'state', 'args'), ' [ffi_closure_win64_alt reached through a trampoline]')
    if not a.ncalls:
        add(d, 'the entry calls the inner function', 'ffi_closure_win64_alt', 'it does not')
    return d


def check(rep, thorough):
    for u in (unix64.UNIT, win64.UNIT):
        unix64.obj(u)
    mods(TMod.TRAMP, FFI64)
    run_jobs(rep, [('trampolines, %d. way of initialising' % (i + 1), slots, (i,)) for i in range(8)] + [('entries', entries, ())])
    rep.note('units', [TMod.TRAMP, FFI64, unix64.UNIT])
    rep.assumptions += ['the linker keeps the code table in one piece of .text at the alignment the object asks for', 'the page size is 4096',
                        'the address is page aligned where mmap returns it']
