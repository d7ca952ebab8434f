import build, closuremem, osmodel, trampmodel, irai
from closuremem import *
from osmodel import settle
from common import *
from report import run_jobs
EXPLANATION = ('The functions dlmalloc uses in place of mmap and munmap are interpreted under every announced policy of the system (SELinux mounted in either place, the PaX flags of the '
               'process, static trampolines or not), with every operating system call succeeding or failing, from the initial state and from every state earlier requests leave, to a fixed point. '
               'On every path the protection, flags, file and offset of each mapping are compared: none is writable and executable unless the policy permits it, a successful request hands out a '
               'writable view and, unless the trampolines are static, an executable view of the same range of the same file, with the distance recorded where the allocator looks for it. '
               'The mappings of a static trampoline table are interpreted the same way.')
NOWX = 'no mapping is writable and executable where that is not permitted'
NOWX2 = 'once closures live in a file, no mapping is writable and executable'
NOPROT = 'no mapping is made executable or writable later'
ANSWER = 'a request hands out a mapping it made, or fails'
WRITE = 'the memory handed out is writable'
EXEC = 'the memory handed out can be executed where the system lets it'
PAIR = 'the executable and the writable view show the same bytes'
WORD = 'the distance between the views is recorded for the allocator'
TRAMP = 'code of a trampoline table is executable and not writable, its parameters writable and not executable'
ALL = 'every mapping call of the library is analysed'


def fresh():
    return {'rules': {}, 'viol': [], 'unsure': [], 'analysed': {}}


def ok(d, rule, n=1):
    d['rules'][rule] = d['rules'].get(rule, 0) + n


def bad(d, rule, where, msg):
    d['viol'].append((rule, where, msg))


def mapped(k):
    """[(base, length, prot, flags, fd, offset, event)] of successful mappings, with what was unmapped"""
    return [(e.ret,) + tuple(e.args[1:6]) + (e,) for e in k.ev if e.name == 'mmap' and e.ret is not None]


def unmapped(k):
    return [e for e in k.ev if e.name == 'munmap']


def scenario(i):
    sc = scenarios()[i]
    d = fresh()
    ai, c, calls, classes = explore(sc)
    where = '%s' % sc
    for k in calls:
        infile = any(v[0] == 'f' for q, v in k.pre)
        for e in k.ev:
            if e.name == 'mmap':
                if not isc(k.st.f.norm(e.args[2])):
                    d['unsure'].append((NOWX, irai.where(e.inst), 'protection %s' % e.args[2]))
                    continue
                if e.name == 'mmap' and e is not None:
                    p = cv(k.st.f.norm(e.args[2]))
                    if p & (W | X) == W | X:
                        if not sc.permits() or sc.tramp:
                            bad(d, NOWX, irai.where(e.inst), 'mapping with protection %d is asked for with %s' % (p, where))
                        elif infile or any(x.name == 'tempfile' and x.ret is not None for x in k.ev[:k.ev.index(e)]):
                            bad(d, NOWX2, irai.where(e.inst), 'mapping with protection %d' % p)
                        else:
                            ok(d, NOWX)
                    else:
                        ok(d, NOWX)
            elif e.name in ('mprotect', 'pkey_mprotect', 'mremap'):
                bad(d, NOPROT, irai.where(e.inst), '%s%s' % (e.name, tuple(e.args)))
        if isc(k.ret) and sgn(cv(k.ret), 64) in (-1, 0):
            continue
        judge(d, k, sc, ai, where)
    settle(d, c, ANSWER)
    d['analysed']['policies'] = [where]
    d['analysed']['mapping calls'] = sorted({irai.where(e.inst) for k in calls for e in k.ev if e.name == 'mmap'})
    d['states'] = len(classes)
    d['paths'] = len(calls)
    return d


def judge(d, k, sc, ai, where):
    f = k.st.f
    gone = [f.norm(e.args[0]) for e in unmapped(k)]
    live = [m for m in mapped(k) if m[0] not in gone]
    mine = [m for m in live if m[0] is k.ret]
    if not mine:
        bad(d, ANSWER, k.where, 'it hands out %s, which is not a mapping it made' % k.ret)
        return
    b, n, p, fl, fd, off, e = mine[-1]
    ok(d, ANSWER)
    w = irai.where(e.inst)
    p, fl = f.norm(p), f.norm(fl)
    if not isc(p) or not isc(fl):
        return
    p, fl = cv(p), cv(fl)
    if p & 3 != 3:
        bad(d, WRITE, w, 'protection %d' % p)
        return
    ok(d, WRITE)
    if p & X:
        ok(d, EXEC)
        return          # permitted, or reported above
    if sc.tramp:
        ok(d, EXEC)
        return
    ex = [m for m in live if m[0] is not b and isc(f.norm(m[2])) and cv(f.norm(m[2])) & X]
    if not ex:
        if sc.pax == 'both':
            ok(d, EXEC)     # the kernel emulates the trampoline
            return
        bad(d, EXEC, w, 'nothing executable is mapped for it, with %s' % where)
        return
    ok(d, EXEC)
    xb, xn, xp, xfl, xfd, xoff, xe = ex[-1]
    xp = cv(f.norm(xp))
    if xp & W:
        return          # reported above
    if not xp & R:
        bad(d, PAIR, irai.where(xe.inst), 'the executable view cannot be read (protection %d): trampolines load their target from it' % xp)
    for a, x, what in ((fd, xfd, 'file'), (off, xoff, 'file offset'), (n, xn, 'length')):
        if f.norm(a) is not f.norm(x) and f.truth(eqb(f.norm(a), f.norm(x), f)) is not True:
            bad(d, PAIR, irai.where(xe.inst), 'the %s of the views differs: %s and %s' % (what, a, x))
        else:
            ok(d, PAIR)
    for v, ev in ((fl, e), (f.norm(xfl), xe)):
        v = v if isinstance(v, int) else cv(v) if isc(v) else None
        if v is None:
            continue
        if v & ANON or v & 3 != SHARED:
            bad(d, PAIR, irai.where(ev.inst), 'the view is not shared with the file (flags %#x)' % v)
        else:
            ok(d, PAIR)
    if f.truth(eqb(f.norm(n), k.len, f)) is not True:
        bad(d, ANSWER, w, 'length %s instead of %s' % (n, k.len))
    r = ai.read(k.st, b, addc(f.norm(n), -8), 8, False, None)
    want = sub(xb, b)
    if len(r) != 1 or sub(f.norm(r[0][1]), want) is not const(64, 0):
        bad(d, WORD, w, 'the last word of the memory is %s instead of the distance between the views' % (r[0][1] if r else '?'))
    else:
        ok(d, WORD)


def tables():
    """the mappings behind static trampolines"""
    d = fresh()
    c, ai = trampmodel.machine()
    outs = trampmodel.call(ai, irai.St(), 'ffi_tramp_alloc', const(32, 0))
    n = 0
    seen = set()
    for st, tr in outs:
        if isc(tr) and cv(tr) == 0:
            continue
        n += 1
        for e in st.ev:
            if e.k == 'call' and e.name in ('mprotect', 'mremap'):
                bad(d, NOPROT, irai.where(e.inst), '%s%s' % (e.name, tuple(e.args)))
        for s2, a in trampmodel.call(ai, st.copy(), 'ffi_tramp_get_addr', tr):
            m0 = len(s2.ev)
            for s3, _ in trampmodel.call(ai, s2, 'ffi_tramp_set_parms', tr, sym('$target', 64, True), sym('$data', 64, True)):
                lay = layout(s3, d)
                want = [(s3.f.norm(a), X | R, W, 'code')]
                for e in s3.ev[m0:]:
                    if e.k == 'store':
                        want.append((add(e.base, e.off), R | W, X, 'parameters'))
                if len(want) < 3:
                    bad(d, TRAMP, 'ffi_tramp_set_parms', 'it stores %d values' % (len(want) - 1))
                for t, need_, no, what in want:
                    p = prot_at(s3, lay, t)
                    if p is None:
                        bad(d, TRAMP, 'ffi_tramp_alloc', 'the %s of a trampoline are outside of its mappings' % what)
                    elif p & need_ != need_ or p & no:
                        bad(d, TRAMP, 'ffi_tramp_alloc', 'the %s of a trampoline are mapped with protection %d' % (what, p))
                    else:
                        ok(d, TRAMP)
        for e in st.ev:
            if e.k == 'call' and e.name == 'mmap':
                seen.add(irai.where(e.inst))
    if not n:
        raise Broken('no trampoline is allocated')
    d['analysed']['mapping calls'] = sorted(seen)
    return d


def layout(st, d):
    lay = []
    for e in st.ev:
        if e.k == 'call' and e.name == 'mmap' and e.ret is not None:
            p = st.f.norm(e.args[2])
            if not isc(p):
                raise Broken('protection %s' % p)
            if cv(p) & (W | X) == W | X:
                bad(d, TRAMP, irai.where(e.inst), 'a trampoline table is mapped with protection %d' % cv(p))
            lay.append((e.ret, st.f.norm(e.args[1]), cv(p)))
    return lay


def prot_at(st, lay, t):
    """protection of the latest mapping holding the address"""
    for b, n, p in reversed(lay):
        o = st.f.norm(sub(t, b))
        if isc(o) and isc(n) and 0 <= sgn(cv(o), 64) < cv(n):
            return p
    return None


def check(rep, thorough):
    sc = scenarios()
    run_jobs(rep, [('%s' % s, scenario, (i,)) for i, s in enumerate(sc)] + [('static trampoline tables', tables, ())])
    maps, unmaps, sites, direct = boundary(unit())
    for t, I in direct:
        rep.bad(NOPROT, irai.where(I), 'the allocator calls %s itself' % t)
    seen = set(rep.analysed.get('mapping calls', []))
    for m in mods(*build.C_UNITS):
        for fn in m.funcs.values():
            for b in fn.blocks:
                for I in b.insts:
                    if I.op == 'call' and I.callee is not None and I.callee.k == 'func' and I.callee.name in ('mmap', 'mmap64', 'mprotect', 'mremap', 'pkey_mprotect'):
                        if irai.where(I) in seen:
                            rep.ok(ALL)
                        else:
                            rep.unsure(ALL, irai.where(I), 'no analysed path reaches it')
    rep.note('functions the allocator gets memory from', sorted(maps))
    rep.assumptions += ['the system announces its policy in /selinux, the mounts and /proc/self/status, or refuses the mapping',
                        'the search for a file succeeds at most twice in one request (each further retry is alike)']
