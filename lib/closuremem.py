"""Histories of closure memory requests: the functions of osmodel.boundary run from the initial
state of the globals and from every state earlier requests may leave, until no new state appears.
A state is the values of the module's variables; values that are not constants (a descriptor, the
size of the file) are replaced by symbols that stand for any such value."""
from osmodel import *
from place import need

LEN = sym('$length', 64, False, PAGE)
MAXLEN = 1 << 40


class Call:
    """one path of one request"""
    __slots__ = ('sc', 'pre', 'st', 'ret', 'ev', 'len', 'fn', 'post', 'where')


def leaves(ty, off=0):
    if ty.kind in ('int', 'ptr'):
        yield off, max(1, ty.size), ty.kind == 'ptr'
    elif ty.kind == 'struct':
        for f, o in zip(ty.fields, ty.offs):
            yield from leaves(f, off + o)
    elif ty.kind == 'array' and ty.n <= 64:
        for i in range(ty.n):
            yield from leaves(ty.elem, off + i * ty.elem.asize)


def gvars(ai):
    for m in ai.mods:
        for n, g in m.globals.items():
            if not g.const and not g.decl and not any(n.startswith(p) for p in ('_gm_', 'mparams', '.str', 'llvm.')):
                yield m, n, g


def snapshot(ai, st):
    """((global, offset, size, is pointer), value) of every written variable"""
    out = {}
    for m, n, g in gvars(ai):
        b = ai.gsym(n, m)
        if b not in st.mem:
            continue
        for off, sz, isp in leaves(g.ty):
            r = ai.read(st, b, const(64, off), sz, isp, None)
            if len(r) != 1:
                raise Broken('variable %s+%d has several values' % (n, off))
            out[n, off, sz, isp] = st.f.norm(r[0][1])
    return out


def abstract(ai, st):
    """the state class: constants kept, others by what is known about their sign and alignment"""
    d = {}
    for k, v in snapshot(ai, st).items():
        if isc(v):
            d[k] = ('c', cv(v))
        elif v.op == 'sym' and v.a[0].startswith('$fd'):
            d[k] = ('f',)
        elif k[3]:
            d[k] = ('p', repr(v))
        else:
            w = v.w
            z = st.f.truth(eqb(v, const(w, 0), st.f))
            neg_ = st.f.truth(eqb(v, const(w, -1), st.f))
            pos = nonneg(st.f, v)
            d[k] = ('s', w, z is False, neg_ is False, pos)
    return tuple(sorted(d.items()))


def nonneg(f, v):
    """provably not negative (as a signed number)"""
    g = f.copy()
    i = g._int(v, True)
    try:
        return bool(i and g.pge(*i))
    except Exception:
        return False


def restore(ai, cls):
    st = irai.St()
    st.g['errs'] = ()
    for (n, off, sz, isp), v in cls:
        for m, gn, g in gvars(ai):
            if gn == n:
                b = ai.gsym(n, m)
                break
        else:
            continue
        if v[0] == 'c':
            t = const(8 * sz, v[1])
        elif v[0] == 'f':
            t = sym('$fd.%s' % n, 8 * sz)
            st.f.rng[t] = (0, (1 << 31) - 1)
        elif v[0] == 'p':
            t = sym('$was:%s' % v[1], 64, True)
        else:
            t = sym('$%s%s' % (n, '.%d' % off if off else ''), 8 * sz, False, PAGE if sz == 8 else 1)
            if v[4]:
                st.f.rng[t] = (1 if v[2] else 0, (1 << (8 * sz - 2)))
        ai.write(st, b, const(64, off), sz, t)
    return st


def describe(cls):
    return ', '.join('%s = %s' % (k[0] + ('+%d' % k[1] if k[1] else ''), v[1] if v[0] == 'c' else 'set') for k, v in cls) or 'first call'


def requests(ms):
    """[(function, [argument tuples the allocator passes])]: constants as passed, the length symbolic"""
    maps, unmaps, sites, direct = boundary(ms)
    out = {}
    for n in sorted(maps):
        args = set()
        for I in sites[n]:
            a = []
            for o in I.ops[:len(need(ms, n).args)]:
                if o.k == 'cint':
                    a.append(const(o.ty.w, o.v))
                elif o.k == 'cnull':
                    a.append(const(64, 0))
                elif o.ty.kind == 'int' and o.ty.w == 64:
                    a.append(None)      # the length
                else:
                    raise Broken('argument of %s at %s is not followed' % (n, irai.where(I)))
            if a.count(None) != 1:
                raise Broken('which argument of %s at %s is the length?' % (n, irai.where(I)))
            args.add(tuple(a))
        out[n] = sorted(args, key=str)
    return out, unmaps, sites, direct


def step(ai, sc, classes, ln):
    """every path of every request with one length from the given state classes"""
    reqs, unmaps, sites, direct = requests(ai.mods)
    if not reqs:
        raise Broken('the allocator asks nothing for memory')
    calls = []
    for cls in classes:
        for fn in sorted(reqs):
            for at in reqs[fn]:
                st = restore(ai, cls)
                if not isc(ln):
                    st.f.rng[ln] = (PAGE, MAXLEN)
                f = need(ai.mods, fn)
                for s, v in ai.run(f, st, [ln if a is None else a for a in at]):
                    k = Call()
                    k.sc, k.pre, k.st, k.fn, k.len = sc, cls, s, fn, ln
                    k.ret = s.f.norm(v)
                    k.ev = [e for e in s.ev if e.k == 'call']
                    k.post = abstract(ai, s)
                    k.where = '%s (%s)' % (fn, describe(cls))
                    calls.append(k)
    return calls


def explore(sc, limit=40):
    """every path of every request from every reachable state class under one scenario"""
    c, ai = machine(sc)
    seen = [()]
    calls = []
    i = 0
    while i < len(seen):
        if len(seen) > limit:
            raise Broken('too many states')
        for k in step(ai, sc, [seen[i]], LEN):
            calls.append(k)
            if k.post not in seen:
                seen.append(k.post)
        i += 1
    return ai, c, calls, seen
