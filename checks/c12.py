import os, re
import build
from asmcommon import *
import cloprep, trampslot, trampmodel
from cloprep import CLO, CIF, FUN, USER, CODE
import c19
EXPLANATION = ('Every indirect branch of the assembled entry points is resolved by interpreting them for every flag word the C parts can produce; every '
               'code symbol of the assembly whose address is taken anywhere in the C units or the assembly, every static trampoline, and the trampoline bytes that '
               'closure preparation writes are indirect branch targets too. Each target must be an end-branch instruction unless the branch is marked notrack.')
UNITS = ['src/prep_cif.c', 'src/types.c', 'src/raw_api.c', 'src/java_raw_api.c', 'src/closures.c', 'src/tramp.c', FFI64, FFIW64]


def refs(v, out, depth=0):
    """names of functions and objects an operand mentions"""
    if v is None or depth > 40:
        return
    if v.k in ('func', 'gvar', 'alias'):
        out.add(v.name)
    for o in getattr(v, 'ops', None) or ():
        refs(o, out, depth + 1)


def taken(mod):
    """name -> where its address is taken"""
    r = {}
    for g in mod.globals.values():
        if g.init is not None:
            s = set()
            refs(g.init, s)
            for n in s:
                r.setdefault(n, g.name)
    for f in mod.funcs.values():
        if f.decl:
            continue
        for b in f.blocks:
            for I in b.insts:
                s = set()
                for o in I.ops:
                    if o is not None and o.k != 'inst':
                        refs(o, s)
                if I.op == 'phi':
                    for o in I.x.values():
                        if o.k != 'inst':
                            refs(o, s)
                for n in s:
                    r.setdefault(n, irai.where(I))
    return r


RULE = 'landing: code whose address is taken starts with an end-branch marker'


def endbr(d, o, addr, what, w):
    t = o.ins.get(addr)
    if t is None or t.mn != 'endbr64':
        add(d, RULE, unix64.asmwhere(t) if t is not None else o.unit, '%s starts with %s; its address is taken at %s' % (what, t.text if t is not None else 'no instruction', w))
    else:
        count(d, RULE)


def addresses():
    d = fresh()
    m = mods(*UNITS)
    objs = [unix64.obj(u) for u in (unix64.UNIT, win64.UNIT)]
    names = []
    for mod in m:
        for n, w in taken(mod).items():
            for o in objs:
                if n in o.syms and n != 'trampoline_code_table':
                    endbr(d, o, o.syms[n], n, w)
                    names.append(n)
    for o in objs:
        for I in o.ins.values():
            if I.mn in ('call', 'callq') or I.mn.startswith('j'):
                continue
            if I.reloc:
                n = re.split(r'[+-]', I.reloc[1])[0]
                for p in objs:
                    if n in p.syms and n != 'trampoline_code_table':
                        endbr(d, p, p.syms[n], n, unix64.asmwhere(I))
    for o in objs:
        for n, a in o.syms.items():
            if o.vis.get(n) == 'DEFAULT' and n in o.globals:
                endbr(d, o, a, n, 'other units (it is a global symbol that is not hidden)')
    d['analysed']['code addresses taken'] = sorted(set(names))
    return d


def compiled(unit):
    """the functions of a C unit that are reached indirectly, as the compiler of the build marks them"""
    d = fresh()
    b = build.get()
    src = os.path.join(build.REPO, unit)
    out = os.path.join(b.dir, 'cet-' + unit.replace('/', '_') + '.o')
    b.run(['gcc', '-std=gnu17', '-O2', '-w', '-fPIC', '-fexceptions', '-c', src, '-o', out] + b.flags())
    text = b.run(['objdump', '-d', '--no-show-raw-insn', out])
    first = dict(re.findall(r'^[0-9a-f]+ <([^>]+)>:\n\s*[0-9a-f]+:\s+(.*)$', text, re.M))
    mod = mods(unit)[0]
    addr = taken(mod)
    for n, f in mod.funcs.items():
        if f.decl or n not in first:
            continue
        w = addr.get(n) or ('other units (it is exported)' if f.linkage == 0 and f.vis == 0 else None)
        if w is None:
            continue
        if first[n].strip().startswith('endbr64'):
            count(d, RULE)
        else:
            add(d, RULE, '%s (%s)' % (unit, n), '%s starts with %s; its address is taken at %s' % (n, first[n].strip(), w))
    return d


def tramps():
    d = fresh()
    o = unix64.obj(unix64.UNIT)
    c, ai = trampmodel.machine()
    tab = o.syms.get('trampoline_code_table')
    outs = trampmodel.call(ai, irai.St(), 'ffi_tramp_alloc', const(32, 0))
    outs = [(st, v) for st, v in outs if not (isc(v) and cv(v) == 0)]
    if outs and tab is not None:
        st, h = outs[0]
        n = 0
        while h is not None and n < 3000:
            r = trampmodel.call(ai, st.copy(), 'ffi_tramp_get_addr', h)
            cb, co = ai.split(st, st.f.norm(r[0][1]))
            ex = [e for e in c19.calls(st, 'mmap') if isc(e.args[2]) and cv(e.args[2]) & 4]
            xb, xo = ai.split(st, st.f.norm(ex[-1].args[0]))
            if cb is xb and isc(co) and isc(xo):
                t = o.ins.get(tab + cv(co) - cv(xo))
                rule = 'landing: a static trampoline starts with an end-branch marker'
                if t is None or t.mn != 'endbr64':
                    add(d, rule, unix64.asmwhere(t) if t is not None else o.unit, 'trampoline %d starts with %s' % (n, t))
                else:
                    count(d, rule)
            n += 1
            m0 = len(c19.calls(st, 'mmap'))
            r = [(s, v) for s, v in trampmodel.call(ai, st, 'ffi_tramp_alloc', const(32, 0)) if not (isc(v) and cv(v) == 0)]
            st, h = r[0] if r and len(c19.calls(r[0][0], 'mmap')) == m0 else (None, None)
        # the jump of a static trampoline leads to the entries recorded for it, whose address is taken
    C = ctx()
    for a, fl in [(UNIX64, 0), (UNIX64, 1 << 11), (WIN64, None), (GNUW64, None)]:
        outs, ai = cloprep.run(C.m, 'ffi_prep_closure_loc', const(32, a), const(32, fl) if fl is not None else sym('$flags', 32), [CLO, CIF, FUN, USER, CODE])
        for o2 in outs:
            if o2.static == 1 or not (isc(o2.status) and cv(o2.status) == OK):
                continue
            rule = 'landing: a closure\'s own trampoline starts with an end-branch marker'
            res, problems, eb = cloprep.run_bytes(o2.bytes)
            if not eb:
                add(d, rule, 'ffi_prep_closure_loc', 'the bytes of ABI %d start with %s' % (a, ' '.join('%02x' % b for b in o2.bytes[:4])))
            else:
                count(d, rule)
    return d


def check(rep, thorough):
    C = ctx()
    mods(*UNITS)
    mods(trampmodel.TRAMP)
    w = ('landing',)
    jobs = [('functions of ' + u, compiled, (u,)) for u in UNITS]
    jobs += [('addresses taken', addresses, ()), ('trampolines', tramps, ())]
    jobs += split_jobs('calls', C.K, sysv_call, w, None, ()) + split_jobs('closures', C.K, sysv_closure, w, None, ())
    jobs += split_jobs('Windows calls', C.WK, win_call, w, None, (), n=2) + split_jobs('Windows closures', C.WK, win_closure, w, None, (), n=2)
    run_jobs(rep, jobs)
    rep.note('units', UNITS + [unix64.UNIT, win64.UNIT])
    rep.assumptions += ['the build uses -fcf-protection (the default of its compiler here)', 'the build defines __CET__, as the configured compiler does']
