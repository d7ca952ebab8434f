import closuremem, osmodel, irai
from closuremem import *
from osmodel import settle
from common import *
from report import run_jobs
import c16
from c16 import fresh, ok, bad, eq, segments
EXPLANATION = ('The functions that find a code address are interpreted over lists of one to three memory segments with different distances between data and code, for a pointer anywhere in a segment '
               'and for pointers to memory that is in none. The allocator itself (dlmalloc with what libffi added to it) is interpreted over histories of allocations and releases '
               'in which each mapping fails, or lies anywhere with respect to the earlier ones (next to one with the same or another distance, or apart): after every step the code address '
               'of every closure that lives is the one of the mapping its memory lies in, and the one it got when it was allocated; nothing outside mappings is used, and both views of memory given back go.')
HOLD = 'the code address is the data address moved by the distance of its segment'
OWN = 'memory of the user\'s own is its own code address'
PRESENT = 'a closure is said to have a trampoline exactly when it has one'
SAME = 'the code address stays the one the allocation gave'
INSIDE = 'a closure lies in mapped memory with one distance to its code'
USED = 'memory that was given back is not used any more'
APART = 'no two closures share memory, and the allocator writes into none'
VIEWS = 'memory that is given back takes the view of its code with it'
GROW = 'the allocator takes new memory and gives it back without stopping'
A = sym('$view', 64, True, PAGE)
PCODE = sym('$codeptr', 64, True, 8)
TR = sym('$tramp', 64, True, 16)
G = 1 << 30
SEGS = ((0, 16 * PAGE), (G, 4 * PAGE), (-G, 64 * PAGE))


class Look(OS):
    """ffi_closure_alloc with the memory and the trampoline it obtains given"""

    def call(self, ai, st, name, fn, args, inst):
        if name == 'dlmalloc':
            return [(st, ai.given)]
        if name == 'ffi_tramp_alloc':
            return [(st, TR)]
        if name == 'ffi_tramp_get_addr':
            self.emit(st, 'tramp', args, None, inst)
            return [(st, add(st.f.norm(args[0]), sym('$slot', 64)))]
        return OS.call(self, ai, st, name, fn, args, inst)

    def branched(self, ai, st, inst, cnd):
        if not isc(st.f.norm(cnd)) and st.f.truth(cnd) is None:
            st.g['vague'] = irai.where(inst)


def wrong(d, s, rule, where, msg):
    """a path that depends on something not known need not exist"""
    if s.g.get('vague'):
        d['unsure'].append((rule, s.g['vague'], msg))
    else:
        bad(d, rule, where, msg)


def known(v):
    return isc(v) and cv(v) != 0


def lookup(order, tramp):
    d = fresh()
    dist = [sub(sym('$code%d' % i, 64, True, PAGE), addc(A, SEGS[i][0])) for i in range(3)]
    for zero in (None, 0, 1, 2):
        D = list(dist)
        if zero is not None:
            D[zero] = const(64, 0)
        c, ai = machine(Scenario(tramp, 'no', 'no'), Look)
        st0 = segments(ai, [(addc(A, SEGS[i][0]), const(64, SEGS[i][1]), D[i]) for i in order])
        st0.f.rng[A] = (1 << 40, 1 << 46)
        st0.g['errs'] = ()
        for i in range(3):
            o, n = SEGS[i]
            u = sym('$within', 64, False, 16)
            for what, p, lim in (('its first byte', addc(A, o), None), ('within', add(addc(A, o), u), n - 256), ('near its end', addc(A, o + n - 256), None),
                                 ('the byte before it', addc(A, o - 1), 'out'), ('the byte behind it', addc(A, o + n), 'out')):
                inside = i in order and lim != 'out'
                st = st0.copy()
                if isinstance(lim, int):
                    st.f.rng[u] = (0, lim)
                where = '%s of %s' % (what, 'segment %d of %d' % (order.index(i) + 1, len(order)) if i in order else 'memory in no segment')
                ai.given = p
                starts = [(st, None)]
                if inside:
                    starts = []
                    for s, v in ai.run(need(ai.mods, 'ffi_closure_alloc'), st, [const(64, 256), PCODE]):
                        v = s.f.norm(v)
                        if not eq(s.f, v, p):
                            continue        # C16
                        r = ai.read(s, PCODE, const(64, 0), 8, True, None)
                        got = s.f.norm(r[0][1]) if len(r) == 1 else None
                        want = add(TR, sym('$slot', 64)) if tramp else s.f.norm(add(p, D[i]))
                        if got is None or not eq(s.f, got, want):
                            wrong(d, s, HOLD, 'ffi_closure_alloc', 'for %s the code address is %s instead of %s' % (where, got, want))
                            continue
                        ok(d, HOLD)
                        starts.append((s, got))
                for s, code in starts:
                    s.ev = []
                    for s2, v in ai.run(need(ai.mods, 'ffi_data_to_code_pointer'), s.copy(), [p]):
                        v = s2.f.norm(v)
                        want = code if inside else p
                        if eq(s2.f, v, want):
                            ok(d, HOLD if inside else OWN)
                        else:
                            wrong(d, s2, SAME if inside else OWN, 'ffi_data_to_code_pointer', 'for %s it gives %s instead of %s' % (where, v, want))
                    for s2, v in ai.run(need(ai.mods, 'ffi_tramp_is_present'), s.copy(), [p]):
                        v = s2.f.norm(v)
                        yes = known(v) or s2.f.truth(eqb(v, const(v.w, 0), s2.f)) is False
                        no = isc(v) and cv(v) == 0
                        if (yes if inside and tramp else no):
                            ok(d, PRESENT)
                        else:
                            wrong(d, s2, PRESENT, 'ffi_tramp_is_present', 'for %s it says %s' % (where, v))
        settle(d, c, HOLD)
    d['analysed']['lists of segments'] = ['%d segments, order %s' % (len(order), order)]
    return d


class Grow(OS):
    """the allocator over mappings that lie where the system puts them"""

    def __init__(self, sc):
        OS.__init__(self, sc)
        self.symbolic = ()
        self.dead = []

    def init_load(self, st, base, off, n, isptr, inst):
        if base is A:
            return const(8 * n, 0)          # the system gives zeroed pages
        return OS.init_load(self, st, base, off, n, isptr, inst)

    def branched(self, ai, st, inst, cnd):
        if not isc(st.f.norm(cnd)) and st.f.truth(cnd) is None:
            st.g['vague'] = irai.where(inst)

    def end(self, ai, kind, st, inst):
        self.dead.append((kind, irai.where(inst), st.g.get('vague'), st.g.get('hist', ())))

    def event(self, ai, st, ev):
        if ev.k not in ('store', 'load') or ev.base is not A or ev.inst is None:
            return
        o = st.f.norm(ev.off)
        n = ev.n if isinstance(ev.n, int) else cv(ev.n) if ev.n is not None and isc(ev.n) else 1
        if isc(o):
            o = sgn(cv(o), 64)
            at = o
            for a, l, dd in sorted(st.g.get('live', ()), key=lambda x: x[0]):
                if a <= at < a + l:
                    at = a + l
            if at < o + n and not st.g.get('stray'):
                st.g['stray'] = (ev.k, irai.where(ev.inst))
            if ev.k == 'store':
                for p, size, _ in st.g.get('closures', ()):
                    q = st.f.norm(sub(p, A))
                    if isc(q) and o < sgn(cv(q), 64) + size and sgn(cv(q), 64) < o + n:
                        st.g['hits'] = irai.where(ev.inst)

    def places(self, st, n):
        """[(offset from A, distance, what)] where the next mapping may be put"""
        live = st.g.get('live', ())
        k = st.g.get('nmap', 0)
        out = []
        X = sym('$code%d' % k, 64, True, PAGE)

        def put(off, why):
            if any(off < o + l and o < off + n for o, l, _ in live):
                return
            ds = [sub(X, addc(A, off))]
            if k == 0 or any(dd is const(64, 0) for o, l, dd in live):
                ds.append(const(64, 0))
            if live:
                near = [dd for o, l, dd in live if o == off + n or o + l == off]
                for dd in near:
                    if dd not in ds:
                        ds.append(dd)
            for dd in ds:
                out.append((off, dd, why))
        put(k * G, 'apart')
        if k:
            put(-k * G, 'apart, below')
        for o, l, _ in live:
            put(o + l, 'right behind another')
            put(o - n, 'right before another')
        seen = []
        for x in out:
            if x[:2] not in seen:
                seen.append(x[:2])
                yield x

    def call(self, ai, st, name, fn, args, inst):
        if name in ai.maps:
            ln = [st.f.norm(a) for a, x in zip(args, ai.lens[name]) if x]
            if len(ln) != 1 or not isc(ln[0]):
                raise Broken('length of a mapping')
            n = cv(ln[0])
            outs = []
            if not st.g.get('failed'):
                s0 = st.copy()
                s0.g['failed'] = 1
                s0.g['hist'] += ('no mapping',)
                outs.append((s0, const(64, -1)))
            k = st.g.get('nmap', 0)
            for off, dd, why in list(self.places(st, n)):
                s = st.copy()
                s.g['nmap'] = k + 1
                s.g['live'] = s.g.get('live', ()) + ((off, n, dd),)
                s.g['hist'] += ('mapping %s%s' % (why, ', distance %s' % ('none' if dd is const(64, 0) else 'its own' if '$code%d' % k in repr(dd) else 'of the other')),)
                if dd is not const(64, 0):
                    for i in range(k):
                        if not any(dd is x for _, _, x in s.g['live'][:-1]):
                            break
                    for _, _, x in s.g['live'][:-1]:
                        if x is not dd:
                            s.f.assume_ne(x, dd)
                    s.f.assume_ne(dd, const(64, 0))
                ai.write(s, A, const(64, off + n - 8), 8, dd)
                if dd is not const(64, 0):
                    b, o = ai.split(s, s.f.norm(add(addc(A, off + n - 8), dd)))
                    if b is None or b is A:
                        raise Broken('code view')
                    ai.write(s, b, o, 8, dd)
                outs.append((s, addc(A, off)))
            return outs
        if name == 'munmap':
            return self.unmap(ai, st, args, inst)
        return OS.call(self, ai, st, name, fn, args, inst)

    def unmap(self, ai, st, args, inst):
        o, n = st.f.norm(sub(args[0], A)), st.f.norm(args[1])
        if not isc(o):
            st.g['codegone'] = st.g.get('codegone', ()) + ((args[0], n, irai.where(inst)),)
        if isc(o) and isc(n):
            o, n = sgn(cv(o), 64), cv(n)
            for a, l, dd in st.g.get('live', ()):
                if dd is not const(64, 0) and o < a + l and a < o + n:
                    lo, hi = max(o, a), min(o + n, a + l)
                    st.g['datagone'] = st.g.get('datagone', ()) + ((lo, hi - lo, dd, irai.where(inst)),)
            live = []
            for a, l, dd in st.g.get('live', ()):
                if o < a + l and a < o + n:
                    if a < o:
                        live.append((a, o - a, dd))
                    if o + n < a + l:
                        live.append((o + n, a + l - o - n, dd))
                else:
                    live.append((a, l, dd))
            st.g['live'] = tuple(live)
            st.g['hist'] += ('unmapped',)
        return [(st, const(32, 0))]


BIG, SMALL = 3 << 20, 64


def histories(n):
    """sequences of sizes to allocate and positions (0 oldest, -1 newest) to release"""
    out = []

    def go(h, live):
        if len(h) == n or h and h[-1] is None:
            out.append(tuple(h))
            return
        for op in ('B', 's'):
            go(h + [op], live + 1)
        if live:
            go(h + ['0'], live - 1)
            if live > 1:
                go(h + ['-'], live - 1)
    go([], 0)
    return out


def views(s):
    """do the views unmapped in a step match?"""
    f = s.f
    left = {}
    for a, n, w in s.g.get('codegone', ()):
        for lo, m, dd, _ in s.g.get('datagone', ()):
            q = f.norm(sub(sub(a, A), dd))
            if isc(q) and isc(n):
                left.setdefault(dd, []).append((sgn(cv(q), 64), cv(n), w))
                break
        else:
            return w, 'munmap(%s, %s) is for the view of no memory given back' % (a, n)
    for lo, m, dd, w in s.g.get('datagone', ()):
        at = lo
        for x, y, _ in sorted(left.get(dd, ())):
            if x <= at < x + y:
                at = x + y
        if at < lo + m:
            return w, 'the code view of %d bytes of it stays' % (lo + m - at)
    for dd, l in left.items():
        for x, y, w in l:
            at = x
            for lo, m, _, _ in sorted((g for g in s.g['datagone'] if g[2] is dd), key=lambda g: g[0]):
                if lo <= at < lo + m:
                    at = lo + m
            if at < x + y:
                return w, 'the code view of %d bytes still in use is unmapped' % (x + y - at)
    return None


def check_all(d, ai, s, hist):
    r = sorted((sgn(cv(s.f.norm(sub(p, A))), 64), size) for p, size, _ in s.g['closures'] if isc(s.f.norm(sub(p, A))))
    for (a, n), (b, _) in zip(r, r[1:]):
        if a + n > b:
            bad(d, APART, 'the allocator', 'the closures at %d and %d overlap (%s)' % (a, b, hist))
            return
    ok(d, APART)
    for p, size, code in s.g['closures']:
        o = sgn(cv(s.f.norm(sub(p, A))), 64) if isc(s.f.norm(sub(p, A))) else None
        if o is None:
            bad(d, INSIDE, 'ffi_closure_alloc', 'the memory is %s (%s)' % (p, hist))
            continue
        # the pieces of memory the block covers
        at, ds = o, set()
        for _ in range(9):
            m = [x for x in s.g.get('live', ()) if x[0] <= at < x[0] + x[1]]
            if not m:
                break
            ds.add(m[0][2])
            at = m[0][0] + m[0][1]
            if at >= o + size:
                break
        if at < o + size:
            bad(d, INSIDE, 'the allocator', 'the closure at %s is not in mapped memory (%s)' % (p, hist))
            continue
        if len(ds) != 1:
            bad(d, INSIDE, 'the allocator', 'the closure at %s spans mappings with different distances to their code (%s)' % (p, hist))
            continue
        ok(d, INSIDE)
        want = s.f.norm(add(p, list(ds)[0]))
        if not eq(s.f, code, want):
            bad(d, HOLD, 'ffi_closure_alloc', 'the code address is %s instead of %s (%s)' % (code, want, hist))
            continue
        for s2, v in ai.run(need(ai.mods, 'ffi_data_to_code_pointer'), s.copy(), [p]):
            v = s2.f.norm(v)
            if eq(s2.f, v, code):
                ok(d, SAME)
            else:
                bad(d, SAME, 'ffi_data_to_code_pointer', 'it gives %s instead of %s (%s)' % (v, code, hist))


def grow(prefix, depth, failing=True):
    """all histories that begin with the operations of prefix"""
    d = fresh()
    c = Grow(Scenario(0, 'no', 'no'))
    ai = irai.AI(unit(), c, log_loads=True)
    c.ai = ai
    ai.unroll_cap = 4096
    ai.maps, ai.unmaps, _, _ = boundary(ai.mods)
    reqs = requests(ai.mods)[0]
    ai.lens = {n: [x is None for x in reqs[n][0]] for n in reqs}
    if not ai.maps:
        raise Broken('the allocator asks nothing for memory')
    fa, ff = need(ai.mods, 'ffi_closure_alloc'), need(ai.mods, 'ffi_closure_free')
    st = irai.St()
    st.g['errs'] = ()
    if not failing:
        st.g['failed'] = 1
    st.f.rng[A] = (1 << 40, 1 << 46)
    for m, n, g in [(m, n, g) for m in ai.mods for n, g in m.globals.items() if not g.decl]:
        st.f.rng[ai.gsym(n, m)] = (PAGE, 1 << 36)       # variables are not where mappings are
    st.g['hist'], st.g['closures'] = (), ()
    nh = [0]

    def text(s):
        return '; '.join(s.g['hist'])

    def step(s, op):
        s = s.copy()
        s.ev = []
        s.g['vague'] = None
        s.g['codegone'] = s.g['datagone'] = ()
        c.dead = []
        outs = []
        if op in 'Bs':
            size = BIG if op == 'B' else SMALL
            s.g['hist'] += ('allocation of %d' % size,)
            for s2, v in ai.run(fa, s, [const(64, size), PCODE]):
                v = s2.f.norm(v)
                if not (isc(v) and cv(v) == 0):
                    r = ai.read(s2, PCODE, const(64, 0), 8, True, None)
                    if len(r) != 1:
                        raise Broken('code address')
                    s2.g['closures'] += ((v, size, s2.f.norm(r[0][1])),)
                outs.append(s2)
        else:
            i = 0 if op == '0' else -1
            l = list(s.g['closures'])
            p = l.pop(i)
            s.g['closures'] = tuple(l)
            s.g['hist'] += ('release of the %s' % ('oldest' if op == '0' else 'newest'),)
            for s2, v in ai.run(ff, s, [p[0]]):
                outs.append(s2)
        for kind, w, vague, h in c.dead:
            if vague:
                d['unsure'].append((GROW, w, '%s, depending on what %s compares (%s)' % (kind, vague, '; '.join(h))))
            else:
                bad(d, GROW, w, '%s (%s)' % (kind, '; '.join(h)))
        good = []
        for s2 in outs:
            if s2.g.get('vague'):
                d['unsure'].append((GROW, s2.g['vague'], 'the allocator depends on something not known (%s)' % text(s2)))
                continue
            ok(d, GROW)
            if s2.g.get('stray'):
                bad(d, USED, s2.g['stray'][1], 'the %s is outside all mappings (%s)' % (s2.g['stray'][0], text(s2)))
                continue
            ok(d, USED)
            half = views(s2)
            if half:
                bad(d, VIEWS, half[0], '%s (%s)' % (half[1], text(s2)))
                continue
            ok(d, VIEWS)
            if s2.g.get('hits'):
                bad(d, APART, s2.g['hits'], 'the store goes into a closure that lives (%s)' % text(s2))
                continue
            check_all(d, ai, s2, text(s2))
            good.append(s2)
        return good

    def go(s, k):
        nh[0] += 1
        if k == depth or len(d['viol']) > 20:
            return
        if k < len(prefix):
            ops = [prefix[k]]
        else:
            n = len(s.g['closures'])
            ops = ['B', 's'] + (['0'] if n else []) + (['-'] if n > 1 else [])
        for op in ops:
            if op in '0-' and len(s.g['closures']) < (1 if op == '0' else 2):
                continue
            for s2 in step(s, op):
                go(s2, k + 1)
    go(st, 0)
    settle(d, c, GROW)
    d['analysed']['histories'] = ['%s... up to %d operations' % (''.join(prefix), depth)]
    d['analysed']['states after %s...' % ''.join(prefix)] = [str(nh[0])]
    d['unsure'] = d['unsure'][:20]
    return d


def check(rep, thorough):
    jobs = []
    for tramp in (0, 1):
        for order in ((0,), (1,), (0, 1), (1, 0), (0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0)):
            jobs.append(('segments %s%s' % (order, ', static trampolines' if tramp else ''), lookup, (order, tramp)))
    depth = 5 if thorough else 4
    for a in 'Bs':
        for b in 'Bs0':
            for e in 'Bs0-':
                jobs.append(('histories %s%s%s' % (a, b, e), grow, ((a, b, e), depth)))
    # several segments that become unused together
    for h in ('BBB000', 'BBB-00', 'BBB0-0') + (('BBBB0000', 'BsB000B', 'BBB00B0') if thorough else ()):
        jobs.append(('history %s' % h, grow, (tuple(h), len(h), False)))
    run_jobs(rep, jobs)
    rep.assumptions += ['the mapping functions record the distance between the two views at the end of the mapping (C15)', 'the lock of the allocator is held where its list is used (C14)',
                        'closures are released once, by the address their allocation returned']
