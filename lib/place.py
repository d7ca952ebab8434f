"""Argument passing on the System V ABI: the argument loops of the prepare step,
of the call and of the closure are each interpreted for an arbitrary argument at
an arbitrary point of the loop, next to the psABI placement algorithm."""
from abi import *
import classify

REGAREA = 192          # public to the assembly: 6 gprs, 8 vector registers, rax, r10
CHAIN = sym('$chain', 64)
GPR, SSE, RAX, R10 = 0, 48, 0xb0, 0xb8


def struct_kinds(R, sizes_codes, meaning):
    """kinds of aggregate from the classifier's outcomes"""
    tab = {}
    for (lo, hi), outs in sizes_codes.items():
        for n, codes, spec, ext, _ in outs:
            if all(c == 'N' for c in spec) or None in codes:
                continue
            pm = post_merge(spec, hi)
            if (pm == ('M',)) != (n == 0) or (n and n != len(spec)):
                continue                          # reported by the classification check
            key = (n, codes, pm if n == 0 else spec)
            d = tab.setdefault(key, {})
            for z in range(lo, hi + 1):
                d[z] = tuple(max(a, b) for a, b in zip(ext, d[z])) if z in d else ext
    ks = []
    for (n, codes, spec), d in sorted(tab.items(), key=str):
        if n == 0:
            continue
        runs = []
        for z in sorted(d):
            if runs and z == runs[-1][1] + 1:
                runs[-1][1] = z
            else:
                runs.append([z, z])
        for lo, hi in runs:
            ext = d[lo]
            for z in range(lo, hi + 1):
                ext = tuple(max(a, b) for a, b in zip(ext, d[z]))
            if 'X' in spec and hi < 16:
                continue
            for al, an in ((8, '') , (16, ', alignment 16')):
              k = Kind('struct[%s]%s of %s bytes%s' % (ms(spec), list(codes), lo if lo == hi else '%d..%d' % (lo, hi), an), STRUCT,
                       (lo, hi) if lo != hi else lo, (1, 8) if al == 8 else 16, tuple(spec), codes=(n, codes), ext=ext)
              ks.append(k)
    return ks


def mem_kinds():
    return [Kind('struct in memory, alignment 1..8', STRUCT, (1, MAXSIZE), (1, 8), ('M',), codes=(0, ()), ext=()),
            Kind('struct in memory, alignment 16', STRUCT, (1, MAXSIZE), 16, ('M',), codes=(0, ()), ext=())]


_sk = {}


def all_kinds(mods, thorough=False):
    """(return/argument kinds, classification result, meaning of codes)"""
    if 'v' in _sk:
        return _sk['v']
    R = classify.run(mods, thorough, kinds_only=True)
    bad, meaning = classify.judge(R)
    R.bad = bad
    R.meaning = meaning
    R.sk = struct_kinds(R, R.exact, meaning)
    ks = scalar_kinds() + complex_kinds() + R.sk + mem_kinds()
    _sk['v'] = (ks, R, meaning)
    return _sk['v']


class ArgModel(TypeModel):
    """the cif and its argument types, with the psABI placement carried along"""

    def __init__(self, R, kinds, rkind, nargs=None, flags=None):
        TypeModel.__init__(self)
        cyc, roles = R.cyc, R.roles
        self.R = R
        self.kinds = kinds
        self.rkind = rkind
        self.cyc = cyc
        self.roles = roles
        self.nargs = sym('$nargs', 32) if nargs is None else const(32, nargs)
        self.flags = flags
        self.bytes = sym('$cifbytes', 32)
        self.abi = UNIX64
        self.ghost_mode = {'g': 'part', 's': 'part', 'off': 'sym'}
        self.ntrans = 0
        self.cells = set()
        self.undecided = []
        self.prefix = None       # bounded exploration: the kinds tried for each of the first arguments
        self.argloops = set()
        self.iters = {}
        self.loopfn = None

    def start(self):
        st = St()
        if not isc(self.nargs):
            st.f.rng[self.nargs] = (0, MAXARGS)
        st.f.rng[self.bytes] = (0, 1 << 31)
        m = self.rkind is not None and self.rkind.cls and 'M' in self.rkind.cls
        st.g['g'] = const(32, 1 if m else 0)
        st.g['s'] = const(32, 0)
        st.g['off'] = const(64, 0)
        if self.rkind is not None:
            self.set_kind(None, st, sym('$rtype', 64, True), self.rkind)
        return st

    def unsure(self, rule, inst, msg):
        self.undecided.append((rule, where(inst) if inst is not None and not isinstance(inst, str) else (inst or '?'), msg))

    def mark(self):
        return (len(self.viol), len(self.undecided), self.ntrans, set(self.cells))

    def reset(self, m):
        del self.viol[m[0]:]
        del self.undecided[m[1]:]
        self.ntrans = m[2]
        self.cells = m[3]

    def init_load(self, st, base, off, n, isptr, inst):
        b = base
        if b.op == 'sym' and isinstance(b.a[0], str) and isc(off):
            nm, o = b.a[0], cv(off)
            if nm == '$cif':
                if o == 0 and n == 4:
                    return const(32, self.abi)
                if o == 4 and n == 4:
                    return self.nargs
                if o == 8 and n == 8:
                    return sym('$argt', 64, True)
                if o == 16 and n == 8:
                    return sym('$rtype', 64, True)
                if o == 24 and n == 4:
                    return self.bytes
                if o == 28 and n == 4 and self.flags is not None:
                    return self.flags if isinstance(self.flags, T) else const(32, self.flags)
                return None
            if nm == '$rtype' and self.rkind is not None:
                return self.type_field(st, b, o, n)
            if nm.startswith('$elements('):
                own = st.g.get(('_own', b))
                if o == 0 and own is not None:
                    t = sym('$inner' + nm[9:], 64, True)
                    st.g[('_innerof', t)] = own
                    return t
                if o == 8:
                    return const(64, 0)
            if nm.startswith('$inner('):
                own = st.g.get(('_innerof', b))
                k = st.g.get(('_kind', own)) if own is not None else None
                if k is not None and k.elem is not None:
                    return {0: const(64, SCAL[k.elem][0]), 8: const(16, SCAL[k.elem][1]), 10: const(16, k.elem),
                            16: const(64, 0)}.get(o)
            return None
        if b.op == 'sym' and b.a[0] == '$argt' and n == 8:
            t = atom('init', 64, base, off)
            t.ptr = True
            return t
        if b.op == 'sym' and b.a[0] == '$avalue' and n == 8:
            t = atom('init', 64, base, off)
            t.ptr = True
            return t
        if b.op == 'init' and b.a[0].op == 'sym' and b.a[0].a[0] == '$argt' and isc(off):
            return self.arg_field(st, b, cv(off), n)
        return None

    def type_field(self, st, p, off, n):
        v = TypeModel.type_field(self, st, p, off, n)
        if off == 16 and v is not None:
            st.g[('_own', v)] = p
        return v

    def arg_field(self, st, p, off, n):
        if ('_kind', p) in st.g:
            return self.type_field(st, p, off, n)
        outs = []
        kinds = self.kinds
        if self.prefix is not None:
            i = sgn(cv(p.a[1]), 64) // 8 if isc(p.a[1]) else None
            if i is not None and not 0 <= i < len(self.prefix):
                self.report('only the arguments of the list are looked at', self.loopfn, 'element %d of a list of %d is looked at' % (i, len(self.prefix)))
                return []
            kinds = self.prefix[i] if i is not None else kinds
        for k in kinds:
            s = st.copy()
            self.set_kind(None, s, p, k)
            self.place(s, p, k)
            outs.append(s)
        return [(s, self.type_field(s, p, off, n)) for s in outs]

    def event(self, ai, st, ev):
        if ev.k not in ('store', 'copy', 'set') or ev.base.op != 'sym' or ev.base.a[0][0] != '%':
            return
        sz = st.g.get(('_sz', ev.base))
        if sz is None or within(st.f, ev.off, ev.n, sz):
            return
        out = [st.f._int(x, True) for x in (addc(sub(add(ev.off, ev.n), sz), -1), addc(neg(ev.off), -1))]
        sure = any(i and st.f.pge(*i) for i in out)
        if self.prefix is None:
            at = atoms_of(ev.off) | atoms_of(sz)
            if any(a.op in ('hv', 'ld') or a.op == 'sym' and a.a[0].startswith('L[') for a in at):
                return          # relative to where earlier arguments end: the places of arguments are judged as such
            n = st.f.zext(self.nargs, 64)
            for it in self.iters.values():
                if it in at and any(st.f.pge(-1, ((a, 1), (x, -1))) for x in (it, trunc(it, self.nargs.w)) for a in (self.nargs, n) if not isc(a)):
                    f = st.f.copy()
                    f.add_ge(-1, ((n, 1), (it, -1)))
                    self.inlist(f, it)
                    if within(f, ev.off, ev.n, sz):
                        return
        (self.report if sure and self.prefix is not None else self.unsure)(
            'what is stored for an argument fits the object it is stored in', ev.inst, '%s bytes at %s of %s' % (ev.n, ev.off, sz))

    def inlist(self, f, it):
        """iteration it is one of the list: what else that implies"""

    def unset(self, ai, st, inst, addr):
        self.report('addresses of arguments do not depend on variables nobody set', inst, 'address %s' % addr)

    def place(self, st, p, k):
        """psABI 3.2.3: where argument p of kind k goes"""
        g, s, off = st.g['g'], st.g['s'], st.g['off']
        gi, si = cv(g), cv(s)
        if k.argmem or gi + k.ngpr > 6 or si + k.nsse > 8:
            al = st.f.zext(st.g[('_align', p)], 64)
            lo, hi = st.f.urange(al)
            a = 8 if hi <= 8 else cv(al)
            pos = align(off, a)
            st.g[('_loc', p)] = ('mem', pos)
            st.g['off'] = add(pos, st.g[('_size', p)])
        else:
            st.g[('_loc', p)] = ('reg', gi, si)
            st.g['g'] = const(32, gi + k.ngpr)
            st.g['s'] = const(32, si + k.nsse)
        st.g[('_at', p)] = (gi, si)
        st.g['_cur'] = p

    def call(self, ai, st, name, fn, args, inst):
        if fn in self.cyc and fn is self.R.fn and st.depth and st.depth[-1] not in self.cycnames:
            p = args[self.roles[0]]
            b, o = ai.split(st, p)
            if b is None:
                return None
            k = st.g.get(('_kind', p))
            if k is None and p.op == 'init':
                # the kind has not been looked at yet
                return [(s, v) for s, _ in self.arg_field(st, p, 10, 2) for s, v in self.cut(ai, s, p, args, fn, inst)]
            if k is not None and k.code == STRUCT:
                return self.cut(ai, st, p, args, fn, inst)
        return None

    def cut(self, ai, st, p, args, fn, inst):
        k = st.g[('_kind', p)]
        if k.code != STRUCT:
            return ai.call(st, fn, args, inst)
        bo = args[self.roles[2]]
        if not (isc(bo) and cv(bo) == 0):
            self.report('an argument is classified at a non-zero offset', inst, '%s: offset %s' % (k, bo))
        n, codes = k.codes
        b, o = ai.split(st, args[self.roles[1]])
        for i, c in enumerate(codes):
            ai.write(st, b, addc(o, 4 * i), 4, const(32, c))
        return [(st, const(fn.retw, n))]

    @property
    def cycnames(self):
        if not hasattr(self, '_cn'):
            self._cn = {f.name for f in self.cyc}
        return self._cn

    def head_sym(self, ai, st, key, s):
        if key == ('g', 'off'):
            st.f.rng[s] = (0, 1 << 31)

    def head(self, ai, st, loop, it):
        self.iters[loop] = it
        if isc(self.nargs):
            return []
        return [(0, ((a, 1), (x, -1))) for x in (it, trunc(it, self.nargs.w)) for a in (self.nargs, st.f.zext(self.nargs, 64))]

    def loop_exit(self, ai, loop, hs, st):
        if loop in self.argloops:
            st.g[('_done', self.iters[loop])] = True

    def complete(self, st):
        """every loop over the arguments ran to the end of the list"""
        if isc(self.nargs):
            return
        its = [k[1] for k in st.g if isinstance(k, tuple) and k[0] == '_done']
        n = st.f.zext(self.nargs, 64)
        if not its and not st.f.eq(n, const(64, 0)):
            self.unsure('all arguments are handled', None, 'no loop over the arguments on a path to the end')
        for it in its:
            if not self.all_done(st, it):
                self.unsure('all arguments are handled', None, 'the loop over the arguments ends after %s of %s' % (it, n))

    def all_done(self, st, it):
        """is the number of iterations the number of arguments?"""
        n = st.f.zext(self.nargs, 64)
        x = trunc(it, self.nargs.w)
        pairs = [(a, b) for a in (it, x) for b in (n, self.nargs)]       # the same two numbers: neither is near 2^31
        if any(a.w == b.w and st.f.eq(a, b) for a, b in pairs):
            return True
        return any(st.f.pge(0, ((a, 1), (b, -1))) for a, b in pairs) and any(st.f.pge(0, ((b, 1), (a, -1))) for a, b in pairs)

    def indexed(self, loop, st, p):
        """iteration i handles argument i, of those there are"""
        if isc(self.nargs):
            return
        it = self.iters[loop]
        o = st.f.norm(p.a[1])
        if not st.f.eq(o, mulc(it, 8)):
            self.unsure('each iteration handles the argument of its number', self.loopfn, 'element at offset %s in iteration %s' % (o, it))
        elif not any(st.f.pge(-1, ((a, 1), (x, -1))) for x in (it, trunc(it, self.nargs.w)) for a in (self.nargs, st.f.zext(self.nargs, 64))):
            self.unsure('only the arguments of the list are looked at', self.loopfn, 'argument %s of %s' % (it, self.nargs))

    def cur(self, st, hs):
        """the argument handled by the iteration hs -> st"""
        p = st.g.get('_cur')
        return None if p is None or hs.g.get('_cur') is p else p

    def transition(self, ai, loop, hs, st):
        p = self.cur(st, hs)
        if p is None:
            return
        self.ntrans += 1
        self.argloops.add(loop)
        self.indexed(loop, st, p)
        self.cells.add((st.g[('_kind', p)].name, st.g[('_at', p)]))
        self.step(ai, loop, hs, st, p, st.g[('_kind', p)], st.g[('_loc', p)])

    def step(self, ai, loop, hs, st, p, k, loc):
        pass

    def path_args(self, st):
        """the arguments of an exactly explored path"""
        for i in range(cv(self.nargs)):
            p = atom('init', 64, sym('$argt', 64, True), const(64, 8 * i))
            if ('_kind', p) in st.g:
                self.ntrans += 1
                yield p, st.g[('_kind', p)], st.g[('_loc', p)]
            else:
                self.report('an argument is not looked at', self.loopfn, 'argument %d of %d' % (i, cv(self.nargs)))


def cover(ai, st, base, off, n, sbase, soff):
    """do bytes [off, off+n) of base hold bytes [soff, soff+n) of the pristine object sbase?
    True / False / None (not decidable)"""
    f = st.f
    log = st.mem.get(base, ())
    n = n if isinstance(n, T) else const(64, n)
    for e in reversed(log):
        if e[0] == 'hv':
            return None
        d = sub(off, e[1])
        ln = const(64, e[2]) if isinstance(e[2], int) else e[2]
        i1 = f._int(sub(d, ln), True)
        if i1 and f.pge(*i1):
            continue
        i2 = f._int(sub(neg(d), n), True)
        if i2 and f.pge(*i2):
            continue
        i0 = f._int(d, True)
        i3 = f._int(sub(ln, add(d, n)), True)
        if not (i0 and f.pge(*i0) and i3 and f.pge(*i3)):
            return None if e[0] != 'st' else part(ai, st, base, off, n, sbase, soff)
        if e[0] == 'set':
            return False
        if e[0] == 'cp':
            if e[3] is not sbase:
                return False if e[3].op == 'sym' or e[3].op == 'init' else None
            if any(x for x in e[5]):
                return None
            return bool(f.eq(add(e[4], d), soff))
        return part(ai, st, base, off, n, sbase, soff)
    if base is sbase:
        return bool(f.eq(off, soff))
    return False


def thru(ai, st, base, off, n):
    """what the object held before the argument loop; the loop's own stores are confined
    to the arguments' places, which is judged separately"""
    def strip(log):
        out = ()
        for e in log:
            if e[0] == 'hv':
                out = strip(e[4])
            else:
                out = out + (e,)
        return out
    return ai.read(st, base, off, n, False, None, strip(st.mem.get(base, ())))[0][1]


def opaque(t):
    """does the term depend on memory the analysis lost track of?"""
    for a in atoms_of(t):
        if a.op in ('hv', 'ld'):
            return True
        if a.op == 'sym' and isinstance(a.a[0], str) and a.a[0].startswith('L[') and '.g.' not in a.a[0]:
            return True
    return False


def part(ai, st, base, off, n, sbase, soff):
    if not isc(n):
        return None
    k = cv(n)
    for i, w in pieces(k):
        r = ai.read(st, base, addc(off, i), w, False, None)
        q = ai.read(st, sbase, addc(soff, i), w, False, None)
        if len(r) != 1 or len(q) != 1:
            return None
        if not st.f.eq(st.f.norm(r[0][1]), st.f.norm(q[0][1])):
            if opaque(r[0][1]):
                return None
            return False
    return True


def pieces(k):
    i = 0
    while k:
        w = 8 if k >= 8 else 4 if k >= 4 else 2 if k >= 2 else 1
        yield i, w
        i += w
        k -= w


def within(f, off, n, size):
    """0 <= off and off + n <= size provable"""
    a = f._int(off, True)
    b = f._int(sub(size, add(off, n)), True)
    return bool(a and f.pge(*a) and b and f.pge(*b))


class Prep(ArgModel):
    """the prepare step: how many bytes of stack the arguments need"""

    def __init__(self, *a, **k):
        ArgModel.__init__(self, *a, **k)
        self.flags = None

    def judge(self, ai, rets):
        self.results = []
        for st, v in rets:
            v = st.f.norm(v)
            if not (isc(v) and cv(v) == OK):
                self.results.append((v, None, None, st))
                continue
            cif = sym('$cif', 64, True)
            by = st.f.norm(ai.read(st, cif, const(64, 24), 4, False, None)[0][1])
            fl = st.f.norm(ai.read(st, cif, const(64, 28), 4, False, None)[0][1])
            self.results.append((v, by, fl, st))
            if self.prefix is not None:
                self.ntrans += 1
            off = st.g['off']
            if self.kinds:
                self.complete(st)
            x = st.f._int(sub(st.f.zext(by, 64), off), True)
            if not (x and st.f.pge(*x)):
                msg = 'with %d general and %d vector registers used, ffi_cif.bytes is %s but the arguments end at %s' % (
                    cv(st.g['g']), cv(st.g['s']), by, off)
                if opaque(by) or opaque(off):
                    self.unsure('stack space', None, msg)
                else:
                    self.report('prepared stack space does not cover the stack arguments', 'ffi_prep_cif_machdep', msg)


def local(b):
    """an object of the function's own frame"""
    return b.op == 'sym' and isinstance(b.a[0], str) and b.a[0][0] == '%'


def past(f, ev, pos, size):
    """the store ends behind the last slot of an argument at pos (the block may end there)"""
    end = f._int(sub(sub(add(ev.off, ev.n), pos), slots(f, size)), True)
    return bool(end and f.pge(end[0] - 1, end[1]))


def slots(f, size):
    """size rounded up to whole slots"""
    return const(64, (cv(size) + 7) & ~7) if isc(size) else f.norm(addc(size, 7))


class Call(ArgModel):
    """the call: where the argument values are stored"""
    TARGETS = ('ffi_call_unix64',)

    def __init__(self, *a, **k):
        ArgModel.__init__(self, *a, **k)
        self.trans = []
        self.final = []
        self.judged = 0

    def mark(self):
        return ArgModel.mark(self) + (len(self.trans),)

    def reset(self, m):
        ArgModel.reset(self, m)
        del self.trans[m[4]:]

    def step(self, ai, loop, hs, st, p, k, loc):
        self.trans.append((hs, st, p, k, loc))

    def call(self, ai, st, name, fn, args, inst):
        if name in self.TARGETS:
            self.at_call(ai, st, args, inst)
            self.final.append((st, args, inst))
            return [(st, None)]
        return ArgModel.call(self, ai, st, name, fn, args, inst)

    def at_call(self, ai, st, args, inst):
        B, o0 = ai.split(st, args[0])
        if B is None or not local(B) or not isc(o0):
            if B is not None and not opaque(args[0]) and not local(B):
                self.report('the argument block is an object of the call', inst, 'it is %s' % args[0])
                return
            raise Broken('argument block passed to the assembly is not a local object')
        o0 = cv(o0)
        f = st.f
        self.complete(st)
        # block large enough for registers, stack arguments and the four saved words
        sz = st.g.get(('_sz', B))
        nb = f.zext(args[1], 64)
        if not within(f, const(64, o0), addc(nb, 32), sz):
            self.report('argument block too small', inst, 'the block has %s bytes, the assembly uses %s + 32' % (sz, nb))
        if not within(f, const(64, 0), addc(f.zext(self.bytes, 64), REGAREA), nb):
            self.report('argument block does not include the prepared stack space', inst,
                        '%s bytes passed for ffi_cif.bytes = %s' % (nb, self.bytes))
        # number of vector registers
        rax = f.norm(ai.read(st, B, const(64, o0 + RAX), 1, False, inst)[0][1])
        s = cv(st.g['s'])
        if not isc(rax):
            (self.unsure if opaque(rax) else self.report)('vector register count passed in %al', inst, '%s, expected %d' % (rax, s))
        elif not s <= cv(rax) <= 8:
            self.report('wrong vector register count in %al', inst, '%d vector registers used, %d passed' % (s, cv(rax)))
        if getattr(self, 'go', False):
            v = f.norm(thru(ai, st, B, const(64, o0 + R10), 8))
            if v is not CHAIN:
                self.report('the environment pointer is passed as static chain', inst, 'the static chain register gets %s' % v)
        if self.rkind is not None and 'M' in self.rkind.cls:
            v = f.norm(thru(ai, st, B, const(64, o0), 8))
            if not f.eq(v, args[3]):
                self.report('address of the in-memory result is not the first argument', inst, 'first integer register holds %s' % v)
        if self.prefix is not None:
            for p, k, loc in self.path_args(st):
                self.one(ai, B, o0, st, p, k, loc)
            return
        for hs, s2, p, k, loc in self.trans[self.judged:]:
            self.one(ai, B, o0, s2, p, k, loc)
        self.judged = len(self.trans)

    def one(self, ai, B, o0, st, p, k, loc):
        f = st.f
        A = ai.split(st, atom('init', 64, sym('$avalue', 64, True), p.a[1]))[0]
        A.ptr = True
        at = 'with %d general and %d vector registers used' % st.g[('_at', p)]
        size = st.g[('_size', p)]
        allowed = []
        bad = None

        def res(ok, rule, msg):
            if ok is None:
                self.unsure(rule, self.loopfn, '%s, %s: %s' % (k, at, msg))
            elif not ok:
                self.report(rule, self.loopfn, '%s, %s: %s' % (k, at, msg))
        if loc[0] == 'mem':
            pos = addc(loc[1], o0 + REGAREA)
            allowed.append((pos, size))
            ok = cover(ai, st, B, pos, size, A, const(64, 0))
            res(ok, 'stack argument misplaced', 'its %s bytes are not stored at stack offset %s' % (size, loc[1]))
        else:
            g, s = loc[1:]
            for j, c in enumerate(k.cls):
                if c == 'I':
                    slot = o0 + GPR + 8 * g
                    g += 1
                    n = self.rest(f, size, j)
                    allowed.append((const(64, slot), const(64, 8)))
                    ok = cover(ai, st, B, const(64, slot), n, A, const(64, 8 * j))
                    res(ok, 'integer register argument misplaced', 'eightbyte %d is not in general register %d' % (j, g - 1))
                    if ok and k.code in INTS:
                        v = f.norm(ai.read(st, B, const(64, slot), 8, False, None)[0][1])
                        w = 8 * SCAL[k.code][0]
                        src = ai.read(st, A, const(64, 0), w // 8, False, None)[0][1]
                        want = f.sext(src, 64) if k.code in (S8, S16, S32) else f.zext(src, 64)
                        if not f.eq(v, want):
                            res(None if opaque(v) else False, 'narrow integer argument not extended', 'register holds %s' % v)
                elif c == 'S':
                    slot = o0 + SSE + 16 * s
                    s += 1
                    allowed.append((const(64, slot), const(64, 16)))
                    ok = cover(ai, st, B, const(64, slot), k.ext[j], A, const(64, 8 * j))
                    res(ok, 'vector register argument misplaced', 'eightbyte %d is not in vector register %d' % (j, s - 1))
        # nothing else of the block is touched
        for ev in st.ev if self.prefix is None else ():
            if ev.k in ('store', 'copy', 'set') and ev.base is B:
                if not any(within(f, sub(ev.off, a), ev.n, b) for a, b in allowed):
                    if any(overlap_ok(f, ev, a, b) for a, b in allowed):
                        continue
                    beyond = loc[0] == 'mem' and past(f, ev, allowed[0][0], size)
                    self.report('an argument is stored beyond the end of its place' if beyond else 'an argument is stored outside its place', ev.inst, '%s, %s: %s bytes at %s+%s' % (
                        k, at, ev.n, 'block', ev.off))
            if ev.k == 'load' and ev.base is A:
                if not within(f, ev.off, ev.n, size):
                    self.report('reads beyond the argument', ev.inst, '%s: %s bytes at offset %s of %s' % (k, ev.n, ev.off, size))
            if ev.k in ('store', 'copy', 'set') and ev.base is A:
                self.report('writes to the argument', ev.inst, '%s' % k)

    def rest(self, f, size, j):
        """number of bytes of eightbyte j"""
        r = addc(size, -8 * j)
        lo, hi = f.urange(r)
        if lo >= 8:
            return const(64, 8)
        return r


def overlap_ok(f, ev, a, b):
    return False


class Inner(ArgModel):
    """the closure: where the handler's argument pointers lead"""

    def __init__(self, *a, **k):
        ArgModel.__init__(self, *a, **k)
        self.trans = []
        self.final = []
        self.judged = 0

    def mark(self):
        return ArgModel.mark(self) + (len(self.trans),)

    def reset(self, m):
        ArgModel.reset(self, m)
        del self.trans[m[4]:]

    def step(self, ai, loop, hs, st, p, k, loc):
        self.trans.append((hs, st, p, k, loc))

    def indirect(self, ai, st, target, args, inst):
        if target is sym('$fun', 64, True):
            self.at_call(ai, st, args, inst)
            self.final.append((st, args, inst))
            return [(st, None)]
        return None

    def at_call(self, ai, st, args, inst):
        f = st.f
        self.complete(st)
        AV, o0 = ai.split(st, args[2])
        if AV is None or not isc(o0):
            raise Broken('argument vector handed to the handler')
        n8 = mulc(f.zext(self.nargs, 64), 8)
        if not local(AV):
            if opaque(AV):
                raise Broken('argument vector handed to the handler is %s' % AV)
            self.report('the argument vector is an object of the closure call', inst, 'it is %s' % args[2])
            return
        else:
            sz = st.g.get(('_sz', AV))
            if not within(f, o0, n8, sz):
                self.report('argument vector too small', inst, '%s bytes for %s' % (sz, n8))
            if not ('%' + '/'.join(st.depth)).startswith(AV.a[0].split('.')[0]):
                self.report('argument vector no longer exists when the handler runs', inst, str(AV))
        if self.prefix is not None:
            for p, k, loc in self.path_args(st):
                self.one(ai, AV, cv(o0), st, p, k, loc, st)
            return
        for hs, s2, p, k, loc in self.trans[self.judged:]:
            self.one(ai, AV, cv(o0), s2, p, k, loc, hs)
        self.judged = len(self.trans)

    def one(self, ai, AV, o0, st, p, k, loc, hs):
        f = st.f
        at = 'with %d general and %d vector registers used' % st.g[('_at', p)]
        size = st.g[('_size', p)]
        idx = p.a[1]

        def res(ok, rule, msg):
            if ok is None:
                self.unsure(rule, self.loopfn, '%s, %s: %s' % (k, at, msg))
            elif not ok:
                self.report(rule, self.loopfn, '%s, %s: %s' % (k, at, msg))
        ptr = f.norm(ai.read(st, AV, addc(idx, o0), 8, True, None)[0][1])
        P, o = ai.split(st, ptr)
        if P is None or opaque(ptr):
            res(None if P is not None and opaque(ptr) else False, 'argument pointer', 'argument pointer is %s' % ptr)
            return
        o = f.norm(o)
        if loc[0] == 'mem':
            ok = P is sym('$stackargs', 64, True, 16) and f.eq(o, loc[1])
            res(bool(ok), 'stack argument fetched from the wrong place', 'argument pointer is %s, argument is at stack offset %s' % (ptr, loc[1]))
        else:
            g, s = loc[1:]
            RG = sym('$regs', 64, True, 16)
            for j, c in enumerate(k.cls):
                if c == 'I':
                    src, n = GPR + 8 * g, min(8, k.ext[j])
                    g += 1
                elif c == 'S':
                    src, n = SSE + 16 * s, k.ext[j]
                    s += 1
                else:
                    continue
                ok = cover(ai, st, P, addc(o, 8 * j), n, RG, const(64, src))
                res(ok, 'register argument fetched from the wrong place',
                    'eightbyte %d of the argument (at %s) is not the incoming register at offset %d' % (j, ptr, src))
            if P.op == 'sym' and P.a[0][0] == '%':
                fresh = self.prefix is not None or any(e.k == 'alloca' and e.base is P for e in st.ev)
                if not fresh and not any(a.op == 'sym' and a.a[0].startswith('ITER') for a in atoms_of(o)):
                    self.report('register arguments share one buffer', self.loopfn, '%s, %s' % (k, at))
                if not ('%' + '/'.join(hs.depth)).startswith(P.a[0].split('.')[0]):
                    self.report('argument copy no longer exists when the handler runs', self.loopfn, '%s: %s' % (k, P))
                sz = st.g.get(('_sz', P))
                if sz is not None:
                    for ev in st.ev:
                        if ev.k in ('store', 'copy', 'set') and ev.base is P and not within(f, ev.off, ev.n, sz):
                            self.report('argument copy overflows', ev.inst, str(k))
        for ev in st.ev if self.prefix is None else ():
            if ev.k in ('store', 'copy', 'set') and ev.base.op == 'sym' and ev.base.a[0] in ('$regs', '$stackargs'):
                self.report('incoming arguments are overwritten', ev.inst, str(k))
            if ev.k in ('store', 'copy', 'set') and ev.base is AV and not f.eq(ev.off, addc(idx, o0)):
                self.report('argument vector written at another index', ev.inst, '%s: offset %s' % (k, ev.off))


BOUNDED = [
    [], ['int64'] * 5, ['int64'] * 6, ['double'] * 7, ['double'] * 8, ['int64'] * 6 + ['double'] * 8]


def bounded_kinds(ks):
    r = [k for k in ks if k.code in (S32, DOUBLE, LDOUBLE)]
    for z, a in ((17, 1), (20, 4), (24, 8), (48, 16)):
        r.append(Kind('struct of %d bytes, alignment %d' % (z, a), STRUCT, z, a, ('M',), codes=(0, ()), ext=()))
    seen = set()
    for k in ks:
        if k.code == STRUCT and k.codes[0] == 2 and k.cls not in seen and 'X' not in k.cls and 'N' not in k.cls:
            seen.add(k.cls)
            q = Kind(k.name + ' (16 bytes)', STRUCT, 16, 16 if k.cls == ('I', 'I') else 8, k.cls, codes=k.codes, ext=k.ext)
            r.append(q)
    return r


def bounded(ks):
    """argument sequences explored exactly"""
    r = bounded_kinds(ks)
    i64 = [k for k in ks if k.code == S64][0]
    dbl = [k for k in ks if k.code == DOUBLE][0]
    for b in BOUNDED:
        pre = [[i64 if x == 'int64' else dbl] for x in b]
        yield pre + [r] * (3 if not b else 2)


def need(mods, name):
    for m in mods:
        f = m.funcs.get(name)
        if f is not None and not f.decl:
            return f
    raise Broken('%s not found' % name)


def run_prep(mods, R, kinds, rkind, nargs=None, prefix=None):
    c = Prep(R, kinds, rkind, nargs)
    c.prefix = prefix
    ai = irai.AI(mods, c)
    if prefix is not None:
        ai.unroll_width = 6000
    rets = ai.run(need(mods, 'ffi_prep_cif_machdep'), c.start(), [sym('$cif', 64, True)])
    c.judge(ai, rets)
    c.visited, c.steps = ai.visited, ai.steps
    return c


def run_call(mods, R, kinds, rkind, flags, nargs=None, rnull=False, prefix=None, go=False):
    c = Call(R, kinds, rkind, nargs, flags)
    c.go = go
    c.loopfn = 'ffi_call'
    c.prefix = prefix
    ai = irai.AI(mods, c, log_loads=True)
    if prefix is not None:
        ai.unroll_width = 6000
    rv = const(64, 0) if rnull else sym('$rvalue', 64, True, 16)
    ai.run(need(mods, 'ffi_call_go' if go else 'ffi_call'), c.start(),
           [sym('$cif', 64, True), sym('$fn', 64, True), rv, sym('$avalue', 64, True)] + ([CHAIN] if go else []))
    c.visited, c.steps = ai.visited, ai.steps
    c.ai = ai
    return c


def run_inner(mods, R, kinds, rkind, flags, nargs=None, prefix=None):
    c = Inner(R, kinds, rkind, nargs, flags)
    c.loopfn = 'ffi_closure_unix64_inner'
    c.prefix = prefix
    ai = irai.AI(mods, c)
    if prefix is not None:
        ai.unroll_width = 6000
    c.rets = ai.run(need(mods, 'ffi_closure_unix64_inner'), c.start(),
                    [sym('$cif', 64, True), sym('$fun', 64, True), sym('$user', 64, True), sym('$crvalue', 64, True, 16),
                     sym('$regs', 64, True, 16), sym('$stackargs', 64, True, 16)])
    c.visited, c.steps = ai.visited, ai.steps
    c.ai = ai
    return c
