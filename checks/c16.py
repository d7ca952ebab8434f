import closuremem, osmodel, trampmodel, irai
from closuremem import *
from osmodel import settle
from common import *
from report import run_jobs
EXPLANATION = ('Acquire/release typestate over every path. The functions dlmalloc gets memory from and returns it with are interpreted with each operating system call succeeding or failing, '
               'from every state earlier requests leave (to a fixed point): a failed request has unmapped all it mapped, a successful one hands out file space that nothing else uses and '
               'that is allocated, and from every state a request can still succeed. Returning memory unmaps both views once. ffi_closure_alloc is interpreted with every step failing, and '
               'composed with ffi_closure_free: memory and trampoline are released exactly once. The trampoline allocator is interpreted with every call failing.')
FAILS = 'a failed request unmaps what it mapped'
KEEPS = 'a successful request keeps its mappings and nothing else'
ONCE = 'nothing is unmapped twice, or that was not mapped'
RANGE = 'memory in use is never handed out again through the file'
CUT = 'the file is never cut below memory in use'
SPACE = 'the space in the file is allocated where it is mapped'
AGAIN = 'after every history a request can still succeed'
BACK = 'memory given back is unmapped in both views exactly once'
ALLOC = 'a failed closure allocation returns null and gives everything back once'
WHOLE = 'a closure that is handed out owns its memory and its trampoline'
FREE = 'releasing a closure gives back its trampoline and its memory exactly once'
CODE = 'the code address belongs to the closure that is handed out'
TFAIL = 'a failed trampoline allocation gives everything back once'
TFREE = 'a trampoline table no longer needed is given back whole'


def fresh():
    return {'rules': {}, 'viol': [], 'unsure': [], 'analysed': {}}


def ok(d, rule, n=1):
    d['rules'][rule] = d['rules'].get(rule, 0) + n


def bad(d, rule, where, msg):
    v = (rule, where, msg)
    if v not in d['viol']:
        d['viol'].append(v)


def failed(k):
    return isc(k.ret) and sgn(cv(k.ret), 64) in (-1, 0)


def eq(f, a, b):
    return f.norm(sub(a, b)) is const(a.w, 0) or f.truth(eqb(f.norm(a), f.norm(b), f)) is True


def balance(d, k, keep):
    """match unmappings with mappings; returns the mappings left"""
    live = []
    good = True
    for e in k.ev:
        if e.name == 'mmap' and e.ret is not None:
            live.append(e)
        elif e.name == 'munmap':
            hit = [m for m in live if eq(k.st.f, m.ret, e.args[0]) and eq(k.st.f, m.args[1], e.args[1])]
            if not hit:
                bad(d, ONCE, irai.where(e.inst), 'munmap%s: no such mapping is in force' % (tuple(e.args),))
                good = False
            else:
                live.remove(hit[0])
    if good:
        ok(d, ONCE)
    return live


def scenario(i, length):
    sc = scenarios()[i]
    d = fresh()
    ai, c, calls, classes = explore(sc)
    if length:
        calls = step(ai, sc, classes, const(64, length))
    good = set()
    cells = None
    for k in calls:
        if failed(k):
            if length:
                continue
            left = balance(d, k, None)
            for m in left:
                bad(d, FAILS, irai.where(m.inst), 'the mapping made here is still in force when %s fails, after a failed %s' % (k.fn, ', '.join(n for n, e in k.st.g['errs'])))
            if not left:
                ok(d, FAILS)
        else:
            good.add(k.pre)
            if length:
                space(d, k)
                continue
            left = balance(d, k, k.ret)
            if not [m for m in left if m.ret is k.ret]:
                bad(d, KEEPS, k.where, 'what is handed out is not mapped')
                continue
            mine = [m for m in left if m.ret is k.ret][-1]
            anon = isc(mine.args[3]) and cv(mine.args[3]) & ANON
            other = [m for m in left if m.ret is not k.ret]
            if anon and other or len(other) > 1:
                bad(d, KEEPS, irai.where(other[0].inst), 'a mapping nobody knows of is left behind')
            elif not anon and not other and not sc.tramp and sc.pax != 'both':
                bad(d, KEEPS, k.where, 'its executable view is not mapped any more')
            else:
                ok(d, KEEPS)
    if not length:
        ranges(d, ai, calls)
        for cls in classes:
            if cls in good:
                ok(d, AGAIN)
            else:
                bad(d, AGAIN, describe(cls), 'no request succeeds after this history, whatever the system does, with %s' % sc)
        d['analysed']['policies'] = [str(sc)]
        d['analysed']['states between requests'] = sorted({describe(x) for x in classes})
    settle(d, c, FAILS)
    return d


def space(d, k):
    """the bytes of the file behind the memory were written, or otherwise allocated, in this request"""
    f = k.st.f
    for e in k.ev:
        if e.name != 'mmap' or e.ret is None or not isc(e.args[3]) or cv(e.args[3]) & ANON:
            continue
        fd, off, n = f.norm(e.args[4]), e.args[5], e.args[1]
        at, end = off, add(off, n)
        for x in k.ev[:k.ev.index(e)]:
            if x.name == 'write' and x.ret is not None and f.norm(x.args[0]) is fd:
                dd = f.norm(sub(at, x.args[1]))
                ln = f.norm(x.args[2])
                if isc(dd) and isc(ln) and 0 <= sgn(cv(dd), 64) < cv(ln):
                    at = add(x.args[1], ln)
        r = f.norm(sub(end, at))
        if isc(r) and sgn(cv(r), 64) <= 0:
            ok(d, SPACE)
        else:
            bad(d, SPACE, irai.where(e.inst), 'of the %s bytes mapped at offset %s, those from %s on are not allocated (%s)' % (n, off, at, k.where))


def ranges(d, ai, calls):
    """some variable is at least the end of all memory handed out from the file: each request takes its
    memory from there, and moves it on"""
    cand = None
    why = {}
    suc = []
    for k in calls:
        file_ = [e for e in k.ev if e.name == 'mmap' and e.ret is not None and e.ret is k.ret and isc(e.args[3]) and not cv(e.args[3]) & ANON] if not failed(k) else []
        new = any(e.name == 'tempfile' and e.ret is not None for e in k.ev)
        pre = dict(k.pre)
        post = snapshot(ai, k.st)
        cells = {}
        for m, n, g in gvars(ai):
            for off, sz, isp in leaves(g.ty):
                if sz == 8 and not isp:
                    cells[n, off, sz, isp] = (m, g)
        f = k.st.f
        res = {}
        for c, (m, g) in cells.items():
            v = pre.get(c)
            if v is None:
                i = ai.ginit(k.st, g.init, c[1], c[2], m) if g.init is not None else None
                if i is None:
                    continue
                a = i
            else:
                a = const(64, v[1]) if v[0] == 'c' else sym('$%s%s' % (c[0], '.%d' % c[1] if c[1] else ''), 64, False, PAGE)
            b = post.get(c, a)
            if file_:
                e = file_[0]
                good = (new or ge(f, e.args[5], a)) and ge(f, b, add(e.args[5], e.args[1]))
            else:
                good = new or ge(f, b, a)
            res[c] = good
            if not good:
                why.setdefault(c, (k, a, b))
        if file_:
            suc.append(k)
        cand = {c for c in res if res[c]} if cand is None else {c for c in cand if res.get(c)}
        # cutting the file
        for e in k.ev:
            if e.name == 'ftruncate':
                k.st.g.setdefault('cuts', ())
                k.st.g['cuts'] += (e,)
    if suc and not cand:
        used = [c for c in why]
        # name the variable that fails least
        c = max(why, key=lambda c: calls.index(why[c][0])) if why else None
        k, a, b = why[c] if c else (suc[0], None, None)
        bad(d, RANGE, k.where, 'no variable keeps the end of the memory handed out%s' % (': %s goes from %s to %s although %s' % (
            c[0], a, b, 'the request failed' if failed(k) else 'the range handed out starts at %s and has length %s' % (k.ev[-1].args[5], k.len)) if c else ''))
        return
    if not suc:
        return
    ok(d, RANGE, len(suc))
    d['analysed']['end of the file space in use'] = sorted({c[0] for c in cand})
    for k in calls:
        pre = dict(k.pre)
        f = k.st.f
        for e in k.st.g.get('cuts', ()):
            fresh_fd = any(x.name == 'tempfile' and x.ret is not None and f.norm(x.ret) is f.norm(e.args[0]) for x in k.ev)
            good = fresh_fd
            for c in cand:
                v = pre.get(c)
                a = const(64, 0) if v is None else const(64, v[1]) if v[0] == 'c' else sym('$%s%s' % (c[0], '.%d' % c[1] if c[1] else ''), 64, False, PAGE)
                good = good or ge(f, e.args[1], a)
            if good and not (fresh_fd and not failed(k)):
                ok(d, CUT)
            elif fresh_fd and not failed(k):
                bad(d, CUT, irai.where(e.inst), 'the file is cut to %s in a request that succeeds' % e.args[1])
            else:
                bad(d, CUT, irai.where(e.inst), 'the file is cut to %s' % e.args[1])


def ge(f, a, b):
    x = f.norm(sub(a, b))
    if isc(x):
        return sgn(cv(x), 64) >= 0
    return nonneg(f, x)


def seglayout(ms):
    """offsets of (base, size, next, distance) in a segment record, offset of the first record"""
    g = [x for m in ms for n, x in m.globals.items() if n == '_gm_' and x.ty.kind == 'struct']
    if not g:
        raise Broken('the allocator state is not found')
    for t, o in zip(g[0].ty.fields, g[0].ty.offs):
        if t.kind == 'struct' and t.name and t.name.endswith('malloc_segment'):
            p = [x for y, x in zip(t.fields, t.offs) if y.kind == 'ptr']
            i = [x for y, x in zip(t.fields, t.offs) if y.kind == 'int' and y.size == 8]
            return p[0], i[0], p[1], i[-1], o
    raise Broken('the segment records are not found')


def segments(ai, segs):
    """a state whose allocator holds the segments [(base, size, distance)]"""
    st = irai.St()
    b, s, n, x, first = seglayout(ai.mods)
    m = [m for m in ai.mods if '_gm_' in m.globals][0]
    rec, o = ai.gsym('_gm_', m), first
    for i, (base, size, dist) in enumerate(segs):
        ai.write(st, rec, const(64, o + b), 8, base)
        ai.write(st, rec, const(64, o + s), 8, size)
        ai.write(st, rec, const(64, o + x), 8, dist)
        nx = sym('$segment%d' % (i + 1), 64, True, 16)
        ai.write(st, rec, const(64, o + n), 8, nx if i + 1 < len(segs) else const(64, 0))
        rec, o = nx, 0
    return st


def giveback():
    """returning (a part of) a segment, with one or two segments known, split in two views or not"""
    d = fresh()
    ms = unit()
    maps, unmaps, sites, direct = boundary(ms)
    if not unmaps:
        raise Broken('the allocator never gives memory back')
    for t, I in direct:
        if t in ('munmap', 'mremap'):
            bad(d, BACK, irai.where(I), '%s is called for memory that may have a second view, of which it knows nothing' % t)
    A = sym('$view', 64, True, PAGE)
    XA, XB = sym('$codeview', 64, True, PAGE), sym('$othercode', 64, True, PAGE)
    S, T = 16 * PAGE, 8 * PAGE
    for fn in sorted(unmaps):
        for split, B in ((x, addc(A, y)) for x in (True, False) for y in (1 << 30, -1 << 30)):
            seg = [(A, const(64, S), sub(XA, A) if split else const(64, 0)), (B, const(64, T), sub(XB, B) if split else const(64, 0))]
            for segs in ([seg[0]], [seg[0], seg[1]], [seg[1], seg[0]], [seg[1]]):
                for lo, n in ((0, S), (S - 2 * PAGE, 2 * PAGE), (PAGE, PAGE)):
                    c, ai = machine(Scenario(0, 'no', 'no'))
                    known = seg[0] in segs
                    st = segments(ai, segs)
                    st.f.rng[A] = (1 << 40, 1 << 46)
                    st.f.assume_ne(XA, A)
                    st.g['errs'] = ()
                    want = [(addc(A, lo), n)] + ([(addc(XA, lo), n)] if split and known else [])
                    for s, v in ai.run(need(ms, fn), st, [addc(A, lo), const(64, n)]):
                        got = [(e.args[0], e.args[1]) for e in s.ev if e.k == 'call' and e.name == 'munmap' and e.ret is None]
                        w = need(ms, fn).name
                        rest = list(got)
                        good = True
                        for a, ln in want:
                            hit = [g for g in rest if eq(s.f, g[0], a) and eq(s.f, g[1], const(64, ln))]
                            if not hit:
                                bad(d, BACK, w, 'of %s bytes %s %d+%d, the %s is not unmapped' % (
                                    'two views' if split else 'one view', 'in a segment' if known else 'in no segment', lo, n, 'memory' if a is want[0][0] else 'executable view'))
                                good = False
                            else:
                                rest.remove(hit[0])
                        for r in rest:
                            bad(d, BACK, w, 'munmap(%s, %s) does not belong to the memory given back' % r)
                            good = False
                        if good:
                            if not (isc(s.f.norm(v)) and cv(s.f.norm(v)) == 0):
                                bad(d, BACK, w, 'it reports %s although everything is unmapped' % v)
                            else:
                                ok(d, BACK)
    d['analysed']['memory given back through'] = sorted(unmaps)
    return d


class Alloc(OS):
    """ffi_closure_alloc and ffi_closure_free with the allocators below them modelled"""
    MEM, TR, TRC = sym('$block', 64, True, 16), sym('$tramp', 64, True, 16), sym('$trampcode', 64, True, 16)

    def call(self, ai, st, name, fn, args, inst):
        if name == 'dlmalloc':
            s0 = st.copy()
            self.emit(st, 'alloc', args, self.MEM, inst)
            self.emit(s0, 'alloc', args, None, inst)
            return [(st, self.MEM), (s0, const(64, 0))]
        if name == 'dlfree':
            self.emit(st, 'release', args, None, inst)
            return [(st, None)]
        if name == 'ffi_tramp_alloc':
            s0 = st.copy()
            self.emit(st, 'tramp', args, self.TR, inst)
            self.emit(s0, 'tramp', args, None, inst)
            return [(st, self.TR), (s0, const(64, 0))]
        if name == 'ffi_tramp_free':
            self.emit(st, 'trampfree', args, None, inst)
            return [(st, None)]
        if name == 'ffi_tramp_get_addr':
            if st.f.norm(args[0]) is not self.TR:
                self.emit(st, 'wrongtramp', args, None, inst)
            return [(st, self.TRC)]
        if name in ('dlcalloc', 'dlrealloc', 'dlmemalign', 'malloc', 'calloc', 'dlmemalign'):
            self.unknown.setdefault(name, irai.where(inst))
        return OS.call(self, ai, st, name, fn, args, inst)


SIZE = sym('$size', 64)
PCODE = sym('$codeptr', 64, True, 8)


def closures(tramp):
    d = fresh()
    X = sym('$codeblock', 64, True, 16)
    for dist in (const(64, 0), sub(X, Alloc.MEM)):
        c, ai = machine(Scenario(tramp, 'no', 'no'), Alloc)
        st = segments(ai, [(Alloc.MEM, const(64, 16 * PAGE), dist)])
        st.g['errs'] = ()
        fa, ff = need(ai.mods, 'ffi_closure_alloc'), need(ai.mods, 'ffi_closure_free')
        wa, wf = 'ffi_closure_alloc', 'ffi_closure_free'
        for s, v in ai.run(fa, st.copy(), [SIZE, const(64, 0)]):
            if not (isc(s.f.norm(v)) and cv(s.f.norm(v)) == 0):
                bad(d, ALLOC, wa, 'it gives %s when the code address is not wanted' % v)
            elif count(s, 'alloc') != count(s, 'release'):
                bad(d, ALLOC, wa, 'it keeps memory when the code address is not wanted')
            else:
                ok(d, ALLOC)
        for s, v in ai.run(fa, st.copy(), [SIZE, PCODE]):
            v = s.f.norm(v)
            got, fre = [e for e in ev(s, 'alloc') if e.ret is not None], ev(s, 'release')
            tg, tf = [e for e in ev(s, 'tramp') if e.ret is not None], ev(s, 'trampfree')
            fa_ = [e for e in ev(s, 'alloc', 'tramp') if e.ret is None]
            for e in ev(s, 'wrongtramp'):
                bad(d, CODE, irai.where(e.inst), 'the address of %s is taken, which is not the trampoline allocated' % e.args[0])
            if isc(v) and cv(v) == 0:
                if not fa_:
                    bad(d, WHOLE, wa, 'it fails although memory and trampoline were obtained')
                    continue
                good = True
                for what, a, b in (('memory', got, fre), ('trampoline', tg, tf)):
                    if [s.f.norm(x.ret) for x in a] != [s.f.norm(x.args[0]) for x in b]:
                        bad(d, ALLOC, irai.where((a or b)[0].inst), 'the %s is released %d times when the allocation fails' % (what, len(b)))
                        good = False
                if good:
                    ok(d, ALLOC)
                continue
            if fa_ and fa_[-1].name == 'alloc' or fa_ and tramp:
                bad(d, ALLOC, irai.where(fa_[-1].inst), 'the failure is not reported: %s is returned' % v)
                continue
            if v is not Alloc.MEM or fre or tf or len(got) != 1 or len(tg) != (1 if tramp else 0):
                bad(d, WHOLE, wa, 'it returns %s with %d blocks and %d trampolines obtained, %d and %d released' % (v, len(got), len(tg), len(fre), len(tf)))
                continue
            if not eq(s.f, got[0].args[0], SIZE) and not ge(s.f, got[0].args[0], SIZE):
                bad(d, WHOLE, irai.where(got[0].inst), '%s bytes are obtained for a closure of %s' % (got[0].args[0], SIZE))
            else:
                ok(d, WHOLE)
            r = ai.read(s, PCODE, const(64, 0), 8, True, None)
            want = Alloc.TRC if tramp else add(Alloc.MEM, dist)
            if len(r) != 1 or s.f.norm(r[0][1]) is not s.f.norm(want):
                bad(d, CODE, wa, 'the code address is %s instead of %s' % (r[0][1], want))
            else:
                ok(d, CODE)
            # the user prepares the closure; the trampoline record must survive that (C24), then it is released
            s.ev = []
            for s2, _ in ai.run(ff, s.copy(), [v]):
                a = [s2.f.norm(e.args[0]) for e in ev(s2, 'release')]
                b = [s2.f.norm(e.args[0]) for e in ev(s2, 'trampfree')]
                if a != [Alloc.MEM]:
                    bad(d, FREE, wf, 'the memory is released %d times (%s)' % (len(a), a))
                elif b != [Alloc.TR] * tramp:
                    bad(d, FREE, wf, 'the trampoline is released %d times (%s)' % (len(b), b))
                else:
                    i = [e.name for e in s2.ev if e.k == 'call' and e.name in ('release', 'trampfree')]
                    ok(d, FREE)
                    if tramp and i != ['trampfree', 'release']:
                        bad(d, FREE, wf, 'the memory holding the trampoline record is released before the trampoline')
            for s2, v2 in ai.run(need(ai.mods, 'ffi_data_to_code_pointer'), s.copy(), [v]):
                if s2.f.norm(v2) is not s2.f.norm(want):
                    bad(d, CODE, 'ffi_data_to_code_pointer', 'it gives %s instead of %s' % (v2, want))
                else:
                    ok(d, CODE)
        settle(d, c, WHOLE)
    return d


def ev(s, *names):
    return [e for e in s.ev if e.k == 'call' and e.name in names]


def count(s, n):
    return len([e for e in ev(s, n) if e.name != 'alloc' or e.ret is not None])


def trampfail():
    d = fresh()
    c, ai = trampmodel.machine(True)
    n = 0
    for st, tr in trampmodel.call(ai, irai.St(), 'ffi_tramp_alloc', const(32, 0)):
        n += 1
        failed_ = isc(tr) and cv(tr) == 0
        heap = {}
        rng = {}
        for e in st.ev:
            if e.k != 'call':
                continue
            if e.name == 'malloc' and e.ret is not None:
                heap[e.ret] = e
            elif e.name == 'free':
                a = st.f.norm(e.args[0])
                if isc(a) and cv(a) == 0:
                    continue
                if a not in heap:
                    bad(d, TFAIL, irai.where(e.inst), 'free(%s): not obtained, or released before' % a)
                heap.pop(a, None)
            elif e.name == 'mmap' and e.ret is not None:
                b, o = ai.split(st, e.ret)
                ln = st.f.norm(e.args[1])
                if not isc(ln) or not isc(o):
                    raise Broken('mapping of length %s' % ln)
                rng.setdefault(b, set()).update(range(cv(o) // PAGE, (cv(o) + cv(ln) + PAGE - 1) // PAGE))
            elif e.name == 'munmap':
                b, o = ai.split(st, st.f.norm(e.args[0]))
                ln = st.f.norm(e.args[1])
                if b not in rng or not isc(o) or not isc(ln):
                    bad(d, TFAIL, irai.where(e.inst), 'munmap(%s, %s): no such mapping' % tuple(e.args))
                    continue
                p = set(range(sgn(cv(o), 64) // PAGE, (sgn(cv(o), 64) + cv(ln) + PAGE - 1) // PAGE))
                if not p <= rng[b]:
                    bad(d, TFAIL, irai.where(e.inst), 'munmap(%s, %s) unmaps more than was mapped' % tuple(e.args))
                rng[b] -= p
        left = ['memory obtained at %s' % irai.where(x.inst) for x in heap.values()] + ['%d pages of a mapping' % len(x) for x in rng.values() if x]
        if failed_ and left:
            bad(d, TFAIL, 'ffi_tramp_alloc', 'it fails and keeps %s' % ', '.join(left))
        elif failed_:
            ok(d, TFAIL)
        elif len(heap) > 2 or len([x for x in rng.values() if x]) != 1:
            bad(d, TFAIL, 'ffi_tramp_alloc', 'a retry keeps %s of a failed attempt' % ', '.join(left))
        else:
            ok(d, TFAIL)
    d['analysed']['ends of ffi_tramp_alloc'] = [n]
    return d


def check(rep, thorough):
    sc = scenarios()
    jobs = []
    for i, s in enumerate(sc):
        jobs.append(('%s' % s, scenario, (i, 0)))
        if not s.tramp and s.sel == 'no' and s.pax in ('no', 'on'):
            for n in (1, 3) + ((2, 5, 16) if thorough else ()):
                jobs.append(('%s, %d pages' % (s, n), scenario, (i, n * PAGE)))
    jobs += [('giving back', giveback, ()), ('closures', closures, (0,)), ('closures with static trampolines', closures, (1,)), ('trampolines', trampfail, ())]
    run_jobs(rep, jobs)
    rep.assumptions += ['dlmalloc itself keeps its blocks apart and releases what it is told to (C26)', 'munmap of a mapping succeeds']
