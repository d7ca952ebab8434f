"""The preparation functions (prep_cif.c): interface objects, type descriptions that
may still have to be laid out, and the C layout rules they are compared with.

The recursive layout code is summarised: it is interpreted for one aggregate with an
arbitrary list of members, every member being already laid out (any size, every
alignment), laid out now by recursion (the same summary, by induction over the
nesting), or malformed.  The members are visited in a generalised loop next to the
layout rules of the C ABI."""
from abi import *
import irai
from place import need

ALIGNS = [1 << i for i in range(16)]
T_ = sym('$T', 64, True)
OFFS = sym('$offsets', 64, True)
CIF = sym('$cif', 64, True)
RT = sym('$rtype', 64, True)
ARGT = sym('$argt', 64, True)
MAXSZ = 1 << 32


class Summary:
    def __init__(self):
        self.unlaid = set()     # (return value, 'laid'|'fail')
        self.laid = set()       # (return value, 'same'|'laid'|'fail')
        self.done = False


class PM(TypeModel):
    """one aggregate, or a whole signature, under preparation"""

    def __init__(self, S, mods, aligns, variadic=False, argkinds=None):
        TypeModel.__init__(self)
        self.S = S                  # shared analysis state
        self.mods = mods
        self.aligns = aligns
        self.variadic = variadic
        self.ghost_mode = {'off': 'sym', 'al': 'part', 'bad': 'part', 'i': 'inv', 'machdep': 'part', 'vbad': 'part', 'seen': 'part'}
        self.ntrans = 0
        self.machdep = []
        self.nargs = None
        self.nfixed = None

    def mark(self):
        return (len(self.viol), self.ntrans, len(self.machdep))

    def reset(self, m):
        del self.viol[m[0]:]
        self.ntrans = m[1]
        del self.machdep[m[2]:]

    # ---------------------------------------------------------------- state
    def start(self, tstate=None, rstate=None):
        st = St()
        st.g['off'] = const(64, 0)
        st.g['al'] = const(16, 0)
        st.g['bad'] = False
        st.g['i'] = const(64, 0)
        st.g['machdep'] = False
        st.g['vbad'] = False
        st.g['seen'] = 0
        if tstate:
            self.set_state(st, T_, tstate)
        if rstate:
            self.set_state(st, RT, rstate)
        return st

    def set_state(self, st, p, state, al=None):
        """state: 'unlaid', 'laid', 'fail' """
        st.g[('_state', p)] = state
        if state == 'laid':
            t = sym('size(%s)%s' % (show(p), st.g.get(('_gen', p), '')), 64)
            st.f.rng[t] = (1, MAXSZ)
            st.g[('_size', p)] = t
            st.g[('_align', p)] = const(16, al) if al is not None else sym('align(%s)' % show(p), 16, pow2=True)
        else:
            st.g[('_size', p)] = const(64, 0)
            st.g[('_align', p)] = sym('oldalign(%s)' % show(p), 16)

    def tfield(self, st, p, off, n):
        if off == 0 and n == 8:
            return st.g[('_size', p)]
        if off == 8 and n == 2:
            return st.g[('_align', p)]
        if off == 10 and n == 2:
            return st.g.get(('_code', p)) or sym('code(%s)' % show(p), 16)
        if off == 16 and n == 8:
            if p is T_:
                k = ('_els', p)
                if k not in st.g:
                    a, b = st, st.copy()
                    a.g[k] = sym('$els', 64, True)
                    b.g[k] = const(64, 0)
                    return [(a, a.g[k]), (b, b.g[k])]
                return st.g[k]
            return sym('$elements(%s)' % show(p), 64, True)
        return None

    def head_sym(self, ai, st, key, s):
        if key == ('g', 'off'):
            st.f.rng[s] = (0, 1 << 60)

    def listlen(self, st):
        """the list being walked: its length, or None when it ends with a null pointer"""
        return None

    def init_load(self, st, base, off, n, isptr, inst):
        b = base
        if b.op == 'sym' and isinstance(b.a[0], str):
            nm = b.a[0]
            if b is T_ or b is RT:
                return self.tfield(st, b, cv(off), n) if isc(off) else None
            if nm == '$els' and n == 8:
                return self.member(st, b, off, inst)
            if nm == '$argt' and n == 8:
                return self.argtype(st, b, off, inst)
            return None
        if b.op == 'init' and b.a[0].op == 'sym' and b.a[0].a[0] in ('$els', '$argt') and isc(off):
            return self.mfield(st, b, cv(off), n, inst)
        return None

    # ---------------------------------------------------------------- members of the aggregate
    def member(self, st, b, off, inst):
        k = ('_null', off)
        if k not in st.g:
            if not st.f.eq(off, mulc(st.g['i'], 8)):
                self.report('layout: members are visited in order', inst, 'member list read at offset %s, expected member %s' % (off, st.g['i']))
                return None
            o = st.g['off']
            if cv(st.g['al']) == 0:
                if not st.f.assume_eq(o, const(64, 0)):
                    return []
                st.g['off'] = const(64, 0)
            elif not isc(o) and st.f.urange(o)[0] < 1:
                st.f.rng[o] = (1, st.f.urange(o)[1])
            a, z = st, st.copy()
            a.g[k] = False
            z.g[k] = True
            z.g['_end'] = True
            t = atom('init', 64, b, off)
            t.ptr = True
            a.f.rng[t] = (4096, 1 << 47)
            return [(a, t), (z, const(64, 0))]
        if st.g[k]:
            return const(64, 0)
        t = atom('init', 64, b, off)
        t.ptr = True
        return t

    def mfield(self, st, p, off, n, inst):
        if ('_state', p) not in st.g:
            outs = []
            for s in self.choose(st, p):
                v = self.tfield(s, p, off, n)
                outs.append((s, v))
            return outs
        return self.tfield(st, p, off, n)

    def choose(self, st, p):
        """what the member or argument type p may be"""
        if p.a[0].a[0] == '$argt':
            return self.choose_arg(st, p)
        outs = []
        for a in self.aligns:
            s = st.copy()
            self.set_state(s, p, 'laid', a)
            self.consume(s, p)
            outs.append(s)
        s = st.copy()
        self.set_state(s, p, 'unlaid')
        s.g['_pending'] = p
        s.g['i'] = addc(s.g['i'], 1)
        s.g['seen'] = 1
        outs.append(s)
        return outs

    def consume(self, st, p, advance=True):
        """the C layout rule: next multiple of the member's alignment"""
        a = cv(st.g[('_align', p)])
        pos = align(st.g['off'], a)
        st.g[('_pos', p)] = pos
        st.g['off'] = add(pos, st.g[('_size', p)])
        if st.g['al'].op == 'c' and cv(st.g['al']) < a:
            st.g['al'] = const(16, a)
        if advance:
            st.g['i'] = addc(st.g['i'], 1)
            st.g['seen'] = 1
        st.g['_cur'] = p

    # ---------------------------------------------------------------- argument types of a signature
    def argtype(self, st, b, off, inst):
        if not st.f.eq(off, mulc(st.g['i'], 8)) and ('_state', self.argatom(b, off)) not in st.g and ('_given', off) not in st.g:
            self.report('status: every argument type is looked at', inst, 'argument type read at offset %s, expected number %s' % (off, st.g['i']))
            return None
        k = ('_given', off)
        if k in st.g:
            return st.g[k]
        t = self.argatom(b, off)
        if ('_state', t) not in st.g and self.nargs is not None and not below(st.f, st.g['i'], self.nargs):
            self.report('status: only the types of the signature are looked at', inst, 'argument type %s of %s is read' % (st.g['i'], self.nargs))
            return None
        if st.g['machdep'] and self.variadic:
            a = st.copy()
            fl = sym('@ffi_type_float', 64, True)
            a.g[k] = fl
            a.g['vbad'] = True
            a.g['i'] = addc(a.g['i'], 1)
            st.g[k] = t
            st.f.assume_ne(t, fl)
            return [(st, t), (a, fl)]
        return t

    def argatom(self, b, off):
        t = atom('init', 64, b, off)
        t.ptr = True
        return t

    VKINDS = [(c, SCAL[c]) for c in (U8, S8, U16, S16, U32, S32, U64, S64, POINTER, DOUBLE, LDOUBLE)]

    def choose_arg(self, st, p):
        outs = []
        if st.g['machdep'] and self.variadic:
            for c, (sz, al) in self.VKINDS:
                s = st.copy()
                self.set_state(s, p, 'laid', al)
                s.g[('_size', p)] = const(64, sz)
                s.g[('_code', p)] = const(16, c)
                if sz < 4:
                    s.g['vbad'] = True
                s.g['i'] = addc(s.g['i'], 1)
                outs.append(s)
            for c in (STRUCT, COMPLEX):
                s = st.copy()
                self.set_state(s, p, 'laid', None)
                s.g[('_code', p)] = const(16, c)
                s.g['i'] = addc(s.g['i'], 1)
                outs.append(s)
            return outs
        s = st.copy()
        self.set_state(s, p, 'laid', None)
        s.g['i'] = addc(s.g['i'], 1)
        outs.append(s)
        s = st.copy()
        self.set_state(s, p, 'unlaid')
        s.g['i'] = addc(s.g['i'], 1)
        outs.append(s)
        return outs

    # ---------------------------------------------------------------- calls
    def target(self, st, args):
        """the type a recursive layout call is about"""
        for j, a in enumerate(args):
            if a is None:
                continue
            if a is RT or a is T_:
                return j, a
            if a.op == 'init' and a.a[0].op == 'sym' and a.a[0].a[0] in ('$els', '$argt') and isc(a.a[1]) is not None:
                return j, a
        return None, None

    def call(self, ai, st, name, fn, args, inst):
        if name == 'ffi_prep_cif_machdep':
            return self.at_machdep(ai, st, args, inst)
        if fn is None or fn not in self.S.cyc:
            return None
        j, p = self.target(st, args)
        if p is None:
            for a in args:
                if a is not None and (a.op == 'undef' or any(x.op == 'init' and x.a[0] is CIF for x in atoms_of(a))):
                    self.report('status: the types looked at are those handed in', inst, 'a type is taken from %s' % (
                        'an uninitialised variable' if a.op == 'undef' else 'what the interface held before'))
                    return []
            return None
        if p is T_:
            return None                     # the aggregate being summarised: interpreted
        if p.op == 'init' and ('_state', p) not in st.g:
            outs = []
            for s in self.choose(st, p):
                outs.extend(self.by_summary(ai, s, fn, args, j, p, inst))
            return outs
        return self.by_summary(ai, st, fn, args, j, p, inst)

    def by_summary(self, ai, st, fn, args, j, p, inst):
        rest = []
        for i, a in enumerate(args):
            if i == j:
                continue
            if a is not None and not isc(a):
                if a.op == 'sym' and a.a[0] == '$offsets' or ptr_atom(a) is OFFS:
                    self.report('layout: offsets are written for the members of the aggregate only', inst,
                                'the offsets array is handed down to the layout of another type')
                    return []
                rest.append(a)
            else:
                rest.append(a)
        s = self.S.summary(fn, j, tuple(rest), inst)
        state = st.g[('_state', p)]
        outs = []
        if state == 'unlaid':
            self.S.used.add(('unlaid', fn.name))
            for ret, eff in s.unlaid:
                r = const(self.retw(fn), ret) if ret is not None else None
                if eff == 'laid':
                    for a in (self.aligns if p.a[0].a[0] == '$els' else [None]) if p.op == 'init' else [None]:
                        q = st.copy()
                        q.g[('_gen', p)] = "'"
                        self.set_state(q, p, 'laid', a)
                        if q.g.get('_pending') is p:
                            q.g['_pending'] = None
                            self.consume(q, p, False)
                        outs.append((q, r))
                else:
                    q = st.copy()
                    self.set_state(q, p, 'fail')
                    q.g[('_state', p)] = 'fail'
                    if q.g.get('_pending') is p:
                        q.g['_pending'] = None
                    q.g['bad'] = True
                    outs.append((q, r))
        elif state == 'fail':
            for ret, eff in s.unlaid:
                if eff == 'fail':
                    outs.append((st.copy(), const(self.retw(fn), ret) if ret is not None else None))
        else:
            self.S.used.add(('laid', fn.name))
            for ret, eff in s.laid:
                q = st.copy()
                if eff != 'same':
                    self.report('effect: a type that is already laid out is left alone', inst,
                                '%s lays out a type again that was complete' % fn.name)
                outs.append((q, const(self.retw(fn), ret) if ret is not None else None))
        return outs

    def retw(self, fn):
        for b in fn.blocks:
            t = b.insts[-1]
            if t.op == 'ret':
                return t.ops[0].ty.w if t.ops else 32
        return 32

    # ---------------------------------------------------------------- effects
    def event(self, ai, st, ev):
        if ev.k not in ('store', 'copy', 'set'):
            return
        b = ev.base
        nm = b.a[0] if b.op == 'sym' and isinstance(b.a[0], str) else ''
        if nm.startswith('%'):
            return
        self.S.stores += 1
        if b is CIF:
            o = st.f._int(ev.off, True)
            e = st.f._int(sub(const(64, 32), add(ev.off, ev.n)), True)
            if not (o and st.f.pge(*o) and e and st.f.pge(*e)):
                self.report('effect: writes stay inside the interface object', ev.inst, '%s bytes at offset %s' % (ev.n, ev.off))
            return
        if b is T_:
            if not (isc(ev.off) and isc(ev.n) and cv(ev.off) + cv(ev.n) <= 10):
                self.report('effect: only size and alignment of an aggregate are written', ev.inst, '%s bytes at offset %s of the type' % (ev.n, ev.off))
            st.g['_twritten'] = True
            return
        if b is OFFS:
            p = st.g.get('_cur')
            pos = st.g.get(('_pos', p)) if p is not None else None
            i = addc(st.g['i'], -1)
            if pos is None or not st.f.eq(ev.off, mulc(i, 8)) or not (isc(ev.n) and cv(ev.n) == 8) or st.g.get(('_offdone', p)):
                self.report('layout: each member offset is stored at its index', ev.inst, 'store of %s at offset %s of the offsets array' % (ev.val, ev.off))
                return
            st.g[('_offdone', p)] = True
            if not st.f.eq(st.f.norm(ev.val), pos):
                self.report('layout: member offsets are those of the C layout', ev.inst, 'offset %s stored, the member lies at %s' % (ev.val, pos))
            return
        self.report('effect: preparation writes only the interface and aggregates not laid out yet', ev.inst,
                    '%s bytes at %s+%s are written' % (ev.n, b, ev.off))

    # ---------------------------------------------------------------- loops
    def transition(self, ai, loop, hs, st):
        p = st.g.get('_cur')
        if hs.g['i'] is st.g['i'] and st.g.get('_end') is None:
            if hs.g.get('_cur') is p:
                return
        self.ntrans += 1
        if hs.g['i'] is not st.g['i']:
            if not st.f.eq(st.g['i'], addc(hs.g['i'], 1)):
                self.report('layout: every member is used once', where(loop.head.insts[-1]), 'one round of the loop goes from member %s to %s' % (hs.g['i'], st.g['i']))
        if self.want_offsets and p is not None and hs.g.get('_cur') is not p and not st.g.get(('_offdone', p)):
            self.report('layout: each member offset is stored at its index', where(loop.head.insts[-1]), 'no offset is stored for a member')

    want_offsets = False

    def end(self, ai, kind, st, inst):
        if kind == 'null':
            self.report('effect: nothing is read or written through a null pointer', inst, 'access through a null pointer (no offsets array, '
                        'no member list or no member)')
        else:
            self.report('status: preparation reports a status and returns', inst, 'the path ends in %s' % kind)

    def head(self, ai, st, loop, it):
        if self.nargs is None:
            return []
        z = st.f.zext
        r = []
        for t in (it, trunc(it, 32)):
            for n, m in ((self.nargs, self.nfixed), (z(self.nargs, 64), z(self.nfixed, 64) if self.nfixed is not None else None)):
                r.append((0, ((n, 1), (t, -1))))
                if m is not None:
                    r.append((0, ((n, 1), (m, -1), (t, -1))))
        return r

    # ---------------------------------------------------------------- end of the generic part
    def at_machdep(self, ai, st, args, inst):
        f = st.f

        def rd(off, n, p=False):
            return f.norm(ai.read(st, CIF, const(64, off), n, p, None)[0][1])
        if args[0] is not CIF:
            self.report('status: the platform part prepares this interface', inst, str(args[0]))
        for off, n, want, what in ((0, 4, self.abi, 'ABI'), (4, 4, self.nargs, 'number of arguments'), (8, 8, ARGT, 'argument types'),
                                   (16, 8, RT, 'result type')):
            v = rd(off, n)
            if not f.eq(v, want):
                self.report('status: the interface records what it was asked for', inst, 'the %s in the interface is %s instead of %s' % (what, v, want))
        if st.g['bad'] or st.g[('_state', RT)] != 'laid':
            self.report('status: a malformed type is refused', inst, 'the platform part is reached with a type that could not be laid out')
        if not same_count(f, st.g['i'], self.nargs):
            self.report('status: every argument type is looked at', inst, 'the platform part is reached after %s of %s argument types' % (
                st.g['i'], self.nargs))
        self.machdep.append((st, inst))
        outs = []
        if feasible(st, self.abi, (0, 1, 5, 6, 1 << 31, (1 << 32) - 1)):
            # the platform part refuses these itself, which is judged separately
            s = st.copy()
            s.g['machdep'] = ('ret', BAD_ABI)
            outs.append((s, const(32, BAD_ABI)))
        for v in (OK, BAD_TYPEDEF, BAD_ABI):
            s = st.copy()
            if not (s.f.assume_ge(self.abi, const(32, 2), False) and s.f.assume_lt(self.abi, const(32, 5), False)):
                continue
            s.g['machdep'] = ('ret', v)
            if self.variadic:
                s.g['i'] = s.f.zext(self.nfixed, 64)
            outs.append((s, const(32, v)))
        return outs


class Analysis:
    """summaries of the layout code, and the public entry points"""

    def __init__(self, mods, thorough=True):
        self.mods = mods
        self.aligns = ALIGNS if thorough else ALIGNS[:7]
        self.cyc = scc_funcs(mods)
        self.sums = {}
        self.results = {}
        self.used = set()
        self.stores = 0
        self.visited = set()
        self.steps = 0
        self.ntrans = 0
        self.rounds = 0

    def reset(self):
        pass

    def summary(self, fn, j, rest, inst):
        key = (fn, j, rest)
        s = self.sums.get(key)
        if s is None:
            s = self.sums[key] = Summary()
            for rnd in range(6):
                old = (set(s.unlaid), set(s.laid))
                self.compute(fn, j, rest, s)
                self.rounds += 1
                if (s.unlaid, s.laid) == old:
                    break
            else:
                raise Broken('the layout summary of %s does not stabilise' % fn.name)
        return s

    def compute(self, fn, j, rest, s):
        viol = []
        for state in ('unlaid', 'laid'):
            c = PM(self, self.mods, self.aligns)
            ai = irai.AI(self.mods, c)
            args = list(rest)
            args.insert(j, T_)
            for r in rest:
                if r is not None and not isc(r):
                    b = ptr_atom(r)
                    if b is None or b.a[0][0] != '%':
                        raise Broken('the layout code %s takes an argument the analysis cannot follow: %s' % (fn.name, r))
            st = c.start(tstate=state)
            rets = ai.run(fn, st, args)
            self.account(c, ai)
            for q, v in rets:
                v = q.f.norm(v) if v is not None else None
                rv = cv(v) if v is not None and isc(v) else None
                if v is not None and v.op == 'undef':
                    c.report('status: preparation reports a status and returns', fn.name, 'a path ends without a status')
                    rv = 'undef'
                elif v is not None and rv is None:
                    raise Broken('the layout code %s returns an undetermined value %s' % (fn.name, v))
                eff = self.effect(c, ai, q, state, fn)
                (s.unlaid if state == 'unlaid' else s.laid).add((rv, eff))
            if state == 'unlaid':
                viol += c.viol
        self.results[(fn.name, j, len(rest))] = viol

    def account(self, c, ai):
        self.visited |= ai.visited
        self.steps += ai.steps
        self.ntrans += c.ntrans

    def effect(self, c, ai, st, state, fn):
        """judge the final state of one layout of T"""
        f = st.f
        size = f.norm(ai.read(st, T_, const(64, 0), 8, False, None)[0][1])
        if state == 'laid' and not st.g.get('_twritten'):
            return 'same'
        good = spec_good(st)
        if good is None:
            if st.g[('_els', T_)] and not isc(st.g[('_els', T_)]) if ('_els', T_) in st.g else True:
                c.report('layout: every member is used', fn.name, 'the layout ends before the member list does')
            return 'fail'
        if good:
            judge_layout(c, ai, st, fn.name)
            return 'laid' if f.urange(size)[0] >= 1 else 'fail'
        if not (isc(size) and cv(size) == 0):
            c.report('status: a malformed aggregate stays recognisable as not laid out', fn.name,
                     'after the refusal its size is %s: the next attempt would take it for complete' % size)
        return 'fail'


def same_count(f, i, n):
    """the position i is the end n of the list"""
    if f.eq(i, f.zext(n, 64)):
        return True
    e = f._int(i, False)
    if e is None:
        return False
    # the position never exceeds the end (only the types of the list are looked at): it is enough that it is not below it
    if any(f.pge(e[0], e[1] + ((m, -1),)) for m in (n, f.zext(n, 64))):
        return True
    # counters kept in 32 bits
    q = {}
    for a, k in e[1]:
        b = a
        if a.op == 'zext':
            b = a.a[0]
        elif a.w == 64:
            b = trunc(a, 32)
        q[b] = q.get(b, 0) + k
    q[n] = q.get(n, 0) - 1
    return f.pge(e[0], tuple((a, k) for a, k in q.items() if k))


def below(f, i, n):
    """position i of a list of n is not at its end"""
    e = f._int(i, False)
    if e is None:
        return False
    z = f.zext(n, 64)
    for m in (n, z):
        if f.pge(-e[0] - 1, tuple((a, -k) for a, k in e[1]) + ((m, 1),)):
            return True
    q = {}
    for a, k in e[1]:
        b = a.a[0] if a.op == 'zext' else trunc(a, 32) if a.w == 64 else a
        q[b] = q.get(b, 0) - k
    q[n] = q.get(n, 0) + 1
    if f.pge(-e[0] - 1, tuple((a, k) for a, k in q.items() if k)):
        return True
    for x, m in ((i, z), (trunc(i, 32), n)):
        g = f.copy()
        if g.truth(eqb(x, m, g)) is False or g.assume_eq(x, m) is False:
            return True
    return False


def spec_good(st):
    """does the aggregate have a layout?  None: not all members were considered"""
    els = st.g.get(('_els', T_))
    if els is not None and isc(els):
        return False
    if st.g['bad']:
        return False
    if not st.g.get('_end'):
        return None
    return cv(st.g['al']) > 0


def judge_layout(c, ai, st, name):
    f = st.f
    size = f.norm(ai.read(st, T_, const(64, 0), 8, False, None)[0][1])
    al = f.norm(ai.read(st, T_, const(64, 8), 2, False, None)[0][1])
    a = cv(st.g['al'])
    want = align(st.g['off'], a)
    if not (isc(al) and cv(al) == a):
        c.report('layout: the alignment is that of the most aligned member', name, 'alignment %s instead of %d' % (al, a))
    if not f.eq(size, want):
        c.report('layout: the size is that of the C layout', name, 'size %s instead of %s (alignment %d)' % (size, want, a))


def run_offsets(A, offsets, state):
    """ffi_get_struct_offsets for a structure"""
    c = PM(A, A.mods, A.aligns)
    c.want_offsets = offsets
    ai = irai.AI(A.mods, c)
    st = c.start(tstate=state)
    code = sym('$code', 16)
    st.g[('_code', T_)] = code
    abi = sym('$abi', 32)
    rets = ai.run(need(A.mods, 'ffi_get_struct_offsets'), st, [abi, T_, OFFS if offsets else const(64, 0)])
    A.account(c, ai)
    seen = set()
    for q, v in rets:
        v = q.f.norm(v)
        if v.op == 'undef':
            c.report('status: preparation reports a status and returns', 'ffi_get_struct_offsets', 'a path ends without a status')
            continue
        if not isc(v):
            raise Broken('ffi_get_struct_offsets returns an undetermined status')
        r = cv(v)
        seen.add(r)
        okabi = feasible(q, abi, (2, 3, 4))
        badabi = feasible(q, abi, (0, 1, 5, 6, 1 << 31, (1 << 32) - 1))
        w = 'ffi_get_struct_offsets'
        if r == BAD_ABI:
            if okabi:
                c.report('status: an ABI the platform offers is accepted', w, 'ABI %d is refused' % okabi[0])
            continue
        if badabi:
            c.report('status: an ABI the platform does not offer is refused', w, 'ABI %#x' % badabi[0])
            continue
        if not q.f.eq(code, const(16, STRUCT)):
            if q.f.eq(code, const(16, STRUCT)) is None:
                s = q.copy()
                if not s.f.assume_ne(code, const(16, STRUCT)):
                    pass
                elif r != BAD_TYPEDEF:
                    c.report('status: only structures have member offsets', w, 'status %d for a type that is not a structure' % r)
                    continue
            else:
                if r != BAD_TYPEDEF:
                    c.report('status: only structures have member offsets', w, 'status %d for a type that is not a structure' % r)
                continue
        good = spec_good(q)
        if good is None:
            c.report('layout: every member is used', w, 'status %d before the end of the member list' % r)
        elif good:
            if r != OK:
                c.report('status: a well-formed type is accepted', w, 'status %d' % r)
            else:
                judge_layout(c, ai, q, w)
        else:
            if r != BAD_TYPEDEF:
                c.report('status: a malformed type is refused', w, 'status %d' % r)
            size = q.f.norm(ai.read(q, T_, const(64, 0), 8, False, None)[0][1])
            if state == 'unlaid' and not (isc(size) and cv(size) == 0):
                c.report('status: a malformed aggregate stays recognisable as not laid out', w, 'after the refusal its size is %s' % size)
    return c, seen


def feasible(st, t, vals):
    r = []
    for v in vals:
        s = st.copy()
        if s.f.assume_eq(t, const(t.w, v)):
            r.append(v)
    return r


def run_entry(A, variadic, rstate):
    """ffi_prep_cif or ffi_prep_cif_var for an arbitrary signature"""
    c = PM(A, A.mods, A.aligns, variadic)
    ai = irai.AI(A.mods, c)
    st = c.start(rstate=rstate)
    c.abi = sym('$abi', 32)
    c.nargs = sym('$nargs', 32)
    st.f.rng[c.nargs] = (0, 1 << 20)
    if variadic:
        c.nfixed = sym('$nfixed', 32)
        st.f.rng[c.nfixed] = (1, 1 << 20)
        st.f.add_ge(0, ((c.nargs, 1), (c.nfixed, -1)))
        st.f.add_ge(0, ((st.f.zext(c.nargs, 64), 1), (st.f.zext(c.nfixed, 64), -1)))
        args = [CIF, c.abi, c.nfixed, c.nargs, RT, ARGT]
    else:
        args = [CIF, c.abi, c.nargs, RT, ARGT]
    name = 'ffi_prep_cif_var' if variadic else 'ffi_prep_cif'
    rets = ai.run(need(A.mods, name), st, args)
    A.account(c, ai)
    stat = set()
    for q, v in rets:
        v = q.f.norm(v)
        if v.op == 'undef':
            c.report('status: preparation reports a status and returns', name, 'a path ends without a status')
            continue
        if not isc(v):
            raise Broken('%s returns an undetermined status %s' % (name, v))
        r = cv(v)
        md = q.g['machdep']
        stat.add((r, md))
        if not md:
            if r == BAD_ABI:
                ok = feasible(q, c.abi, (2, 3, 4))
                if ok:
                    c.report('status: an ABI the platform offers is accepted', name, 'ABI %d is refused' % ok[0])
            elif r == BAD_TYPEDEF:
                if feasible(q, c.abi, (0, 1, 5)) :
                    c.report('status: an ABI the platform does not offer is refused as such', name, 'status %d' % r)
                if not q.g['bad']:
                    c.report('status: a well-formed type is accepted', name, 'a bad type is reported although every type can be laid out')
            else:
                c.report('status: an interface is only prepared completely', name, 'status %d without preparing' % r)
            continue
        mr = md[1]
        if mr != OK:
            if r != mr:
                c.report('status: a refusal of the platform part is reported', name, 'it reports %d, the caller gets %d' % (mr, r))
            continue
        if variadic and q.g['vbad']:
            if r != BAD_ARGTYPE:
                c.report('status: a variadic argument that the default promotions exclude is refused', name, 'status %d' % r)
        elif variadic and r == BAD_ARGTYPE:
            c.report('status: a variadic argument of a promoted type is accepted', name, 'refused although no variadic argument is too narrow')
        elif r != OK:
            c.report('status: a prepared interface is reported as such', name, 'status %d' % r)
        elif variadic and not same_count(q.f, q.g['i'], c.nargs):
            c.report('status: every variadic argument is checked', name, 'checked up to argument %s of %s' % (q.g['i'], c.nargs))
    c.stat = stat
    return c
