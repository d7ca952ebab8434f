"""Classification of aggregates: product of the classifier's code with the psABI
rules.  The recursive classifier is interpreted for a structure of arbitrary
elements; every element kind is tried at every reachable state of the element
loop, nested structures by induction hypothesis.  The result is the relation
between the codes the classifier reports and the psABI classes."""
from abi import *


class Capture(TypeModel):
    """finds the recursive classifier and how it is called, from the prepare step"""

    def __init__(self, cyc):
        TypeModel.__init__(self)
        self.cyc = cyc
        self.found = []

    def init_load(self, st, base, off, n, isptr, inst):
        if base.op == 'sym' and base.a[0] == '$cif' and isc(off):
            o = cv(off)
            if o == 0:
                return const(32, UNIX64)
            if o == 4:
                return const(32, 1)
            if o == 8:
                return sym('$argt', 64, True)
            if o == 16:
                return sym('$rtype', 64, True)
        if base.op == 'sym' and base.a[0] == '$argt':
            return sym('$T', 64, True)
        if base.op == 'sym' and base.a[0] == '$rtype' and isc(off):
            return {0: const(64, 4), 8: const(16, 4), 10: const(16, U32)}.get(cv(off))
        if base.op == 'sym' and base.a[0] == '$T' and isc(off):
            return {10: const(16, STRUCT)}.get(cv(off))
        return None

    def call(self, ai, st, name, fn, args, inst):
        if fn in self.cyc and not any(d == fn.name for d in st.depth):
            self.found.append((fn, list(args), inst))
            return []
        return None


class Classify(TypeModel):
    prefer_part = True

    def __init__(self, fn, roles, cyc, nested, boff, size, ekinds):
        TypeModel.__init__(self)
        self.fn = fn
        self.roles = roles       # index of (type, classes, offset)
        self.cyc = cyc
        self.nested = nested     # o -> list of nested kinds usable at offset o (mod 8)
        self.boff = boff
        self.size = size
        self.ekinds = ekinds
        self.outcomes = []
        self.transitions = 0
        self.ghost_mode = {'off': 'part', 'cls': 'part', 'ext': 'part'}

    def init_load(self, st, base, off, n, isptr, inst):
        b = base
        if b.op == 'sym' and b.a[0] == '$T' and isc(off):
            o = cv(off)
            if o == 0 and n == 8:
                return st.g[('_size', b)]
            if o == 8 and n == 2:
                return sym('align($T)', 16, pow2=True)
            if o == 10 and n == 2:
                return const(16, STRUCT)
            if o == 16:
                return sym('$els', 64, True)
            return None
        if b.op == 'sym' and b.a[0] == '$els' and n == 8:
            t = atom('init', 64, base, off)
            t.ptr = True
            return t
        if b.op == 'init' and b.a[0].op == 'sym' and b.a[0].a[0] == '$els' and isc(off):
            return self.elem_field(st, b, cv(off), n, inst)
        if b.op == 'sym' and isinstance(b.a[0], str) and b.a[0].startswith('$elements(') and isc(off):
            if cv(off) == 0:
                t = sym('$inner' + b.a[0][9:], 64, True)
                own = self._own[b]
                self._inner[t] = own
                return t
            if cv(off) == 8:
                return const(64, 0)
        if b in getattr(self, '_inner', {}) and isc(off):
            k = st.g.get(('_kind', self._inner[b]))
            if k is not None and k.elem is not None:
                return {0: const(64, SCAL[k.elem][0]), 8: const(16, SCAL[k.elem][1]), 10: const(16, k.elem),
                        16: const(64, 0)}.get(cv(off))
        return None

    _own = {}
    _inner = {}

    def elem_field(self, st, p, off, n, inst):
        if ('_kind', p) not in st.g:
            outs = []
            o = st.g['off']
            for k in self.ekinds:
                outs.extend(self.place(st, p, k, cv(o), None))
            al = {}
            for k, at in self.nested:
                outs.extend(self.place(st, p, k, cv(o), at))
            res = []
            for s in outs:
                res.append((s, self.type_field(s, p, off, n)))
            return res
        v = self.type_field(st, p, off, n)
        if v is not None and off == 16:
            self._own[v] = p
        return v

    def place(self, st, p, k, off, nested):
        a, sz = k.align, k.size
        lim = self.size[1] + self.boff
        pos = (off + a - 1) & -a
        if pos + sz > lim:
            return []
        s = st.copy()
        self.set_kind(None, s, p, k)
        cls = list(s.g['cls'])
        ext = list(s.g['ext'])

        def put(e, c, end):
            cls[e] = merge(cls[e], c)
            ext[e] = max(ext[e], end)
        if nested is not None and pos % 8 != nested:
            return []
        if nested is None:
            for e, c, end in field_classes(k, pos):
                put(e, c, end)
        else:
            if k.cls == ('M',):
                for e in range(len(cls)):
                    cls[e] = 'M'
            else:
                o = pos % 8
                nn = (sz + o + 7) // 8
                if len(k.cls) != nn:
                    return []
                # the hypothesis was established for a field at this offset
                for i, c in enumerate(k.cls):
                    end = k.ext[i]
                    if c != 'N':
                        put(pos // 8 + i, c, end)
        s.g['cls'] = tuple(cls)
        s.g['ext'] = tuple(ext) if len(ext) < 3 else (0,) * len(ext)
        s.g['off'] = const(64, pos + sz)
        return [s]

    def call(self, ai, st, name, fn, args, inst):
        if fn in self.cyc and st.depth and len(st.depth) > 0:
            p = args[self.roles[0]]
            k = st.g.get(('_kind', p))
            if fn is self.fn and k is not None and k.code == STRUCT:
                n, codes = k.codes
                cls = args[self.roles[1]]
                b, o = ai.split(st, cls)
                off = st.f.norm(args[self.roles[2]])
                # the offset handed down must be the position within the eightbyte
                pos = (cv(st.g['off']) - k.size)
                if not isc(off) or cv(off) != pos % 8:
                    self.report('nested structure is classified at the wrong offset', inst,
                                'struct of size %d placed at byte %d is classified at offset %s' % (k.size, pos, off))
                for i, c in enumerate(codes):
                    ai.write(st, b, addc(o, 4 * i), 4, const(32, c))
                return [(st, const(fn.retw, n))]
            if fn is not self.fn and k is not None and k.code == STRUCT and p.op == 'init':
                pass
        return None

    def transition(self, ai, loop, head, back):
        self.transitions += 1


def find(ai_mods, mods):
    cyc = scc_funcs(mods)
    if not cyc:
        raise Broken('no recursive aggregate classifier found')
    m = mods[0]
    prep = m.funcs.get('ffi_prep_cif_machdep')
    if prep is None or prep.decl:
        raise Broken('ffi_prep_cif_machdep not found')
    c = Capture(cyc)
    ai = irai.AI(mods, c)
    ai.run(prep, St(), [sym('$cif', 64, True)])
    if not c.found:
        raise Broken('the prepare step does not reach the aggregate classifier')
    fn, args, inst = c.found[0]
    roles = [None, None, None]
    for i, a in enumerate(args):
        if a.op == 'sym' and a.a[0] == '$T':
            roles[0] = i
        elif ptr_atom(a) is not None and ptr_atom(a).a[0].startswith('%'):
            roles[1] = i
        elif isc(a) and cv(a) == 0 and roles[2] is None:
            roles[2] = i
    if None in roles:
        raise Broken('cannot tell the parameters of the classifier %s' % fn.name)
    return cyc, fn, roles, args


NESTED_Q = [(1, 1), (3, 1), (4, 4), (8, 4), (8, 8), (12, 4), (16, 8), (16, 16)]
NESTED_T = NESTED_Q + [(2, 1), (2, 2), (5, 1), (6, 2), (7, 1), (9, 1), (10, 2), (12, 2), (15, 1), (16, 4)]


class Result:
    """what was established about the classifier"""

    def __init__(self):
        self.viol = []
        self.outcomes = {}       # (boff, lo, hi) -> set of (n, codes, spec classes, extents)
        self.functions = set()
        self.transitions = 0
        self.steps = 0
        self.fn = None
        self.elements = []
        self.nested = []


def words(boff, hi):
    return (boff + hi + 7) // 8


def spec_of(spec, boff, size_hi):
    return post_merge(spec, size_hi if boff == 0 else boff % 8 + size_hi)


def run(mods, thorough=False, kinds_only=False):
    R = Result()
    cyc, fn, roles, args = find(None, mods)
    R.fn = fn
    R.cyc, R.roles, R.args = cyc, roles, args
    for f in cyc:
        f.retw = 64
        for b in f.blocks:
            t = b.insts[-1]
            if t.op == 'ret' and t.ops:
                f.retw = t.ops[0].ty.w
    sk = [k for k in scalar_kinds()]
    ck = complex_kinds()
    # integers of one size differ only in their code; the quick partition takes one of each size
    el = [k for k in sk if k.code in (U8, S16, S32, U64, POINTER, FLOAT, DOUBLE, LDOUBLE)]
    el += [k for k in ck if k.elem in (S8, U32, S64, FLOAT, DOUBLE, LDOUBLE)]
    if thorough:
        el = sk + ck
    R.elements = el

    def one(boff, size, nested, ekinds):
        w = max(1, words(boff, min(size[1], 64)))
        c = Classify(fn, roles, cyc, nested, boff, size, ekinds)
        ai = irai.AI(mods, c)
        st = St()
        T = sym('$T', 64, True)
        sz = sym('size($T)', 64)
        st.f.rng[sz] = size
        st.g[('_size', T)] = sz
        st.g['off'] = const(64, boff)
        st.g['cls'] = ('N',) * w
        st.g['ext'] = (0,) * w
        a = list(args)
        a[roles[0]] = T
        CL = sym('$CLS', 64, True, 16)
        a[roles[1]] = CL
        a[roles[2]] = const(args[roles[2]].w, boff)
        rets = ai.run(fn, st, a)
        R.transitions += c.transitions
        R.steps += ai.steps
        R.functions |= ai.visited
        R.viol.extend(c.viol)
        outs = set()
        for s, v in rets:
            v = s.f.norm(v)
            nv = s.f.value(v)
            if nv is None:
                raise Broken('the classifier %s returns an undetermined count' % fn.name)
            codes = []
            for i in range(nv if nv <= 4 else 0):
                r = ai.read(s, CL, const(64, 4 * i), 4, False, None)
                x = s.f.norm(r[0][1])
                codes.append(cv(x) if isc(x) else None)
            outs.add((nv, tuple(codes), s.g['cls'], s.g['ext'], s.g.get('_desc', '')))
        return outs

    R.exact = {}
    if kinds_only:
        for z in range(1, 17):
            R.exact[(z, z)] = R.outcomes[(0, z, z)] = one(0, (z, z), [], el)
        return R
    # induction hypothesis: structures of scalars of exact sizes at each position
    nested = []
    for size, al in (NESTED_T if thorough else NESTED_Q):
        for o in range(0, 8, al) if al < 8 else (0,):
            outs = one(o, (size, size), [], el)
            R.outcomes[(o, size, size)] = outs
            seen = set()
            for n, codes, spec, ext, _ in outs:
                key = (n, codes)
                if key in seen or all(c == 'N' for c in spec) or None in codes:
                    continue
                seen.add(key)
                pm = post_merge(spec, size + o)
                nested.append((Kind('struct[%s] of %d bytes' % (ms(spec), size), STRUCT, size, al, pm if n == 0 else spec,
                                    codes=(n, codes), ext=ext), o))
    big = Kind('struct of 24 bytes', STRUCT, 24, 8, ('M',), codes=(0, ()), ext=())
    nested.append((big, 0))
    R.nested = nested
    coarse = [k for k in sk if k.code in (U32, POINTER, FLOAT, DOUBLE, LDOUBLE)]
    for z in range(1, 17):
        R.exact[(z, z)] = R.outcomes[(0, z, z)] = one(0, (z, z), nested, el)
    for lo, hi in ((17, 24), (25, 32), (33, 40)):
        R.outcomes[(0, lo, hi)] = one(0, (lo, hi), [x for x in nested if x[0].size == 24], coarse)
    for o in range(1, 8):
        for lo, hi in ((1, 8), (9, 16)):
            for w in range(words(o, lo), words(o, hi) + 1):
                l2 = max(lo, 8 * (w - 1) + 1 - o)
                h2 = min(hi, 8 * w - o)
                if l2 <= h2:
                    R.outcomes[(o, l2, h2)] = one(o, (l2, h2), nested if thorough else [], el)
    return R


def judge(R):
    """compare with the psABI: list of (rule, message)"""
    bad = []
    meaning = {}
    for (o, lo, hi), outs in sorted(R.outcomes.items()):
        for n, codes, spec, ext, desc in sorted(outs, key=str):
            if all(c == 'N' for c in spec):
                continue                      # no fields: unspecified for C
            pm = post_merge(spec, o + hi)
            what = 'a structure of %s bytes%s whose eightbytes have psABI classes [%s]' % (
                lo if lo == hi else '%d..%d' % (lo, hi), ' at offset %d' % o if o else '', ms(spec))
            if pm == ('M',):
                if n != 0 and o + lo > 16 and lo <= 16:
                    continue                  # decided by the enclosing structure
                if n != 0:
                    bad.append(('a structure that must be passed in memory is given register classes',
                                '%s is classified as %d eightbytes %s' % (what, n, codes)))
                continue
            if n == 0:
                bad.append(('a structure that fits registers is sent to memory', what))
                continue
            if n != len(spec):
                bad.append(('wrong number of eightbytes', '%s is classified as %d eightbytes' % (what, n)))
                continue
            for i, (c, s) in enumerate(zip(codes, spec)):
                if c is None:
                    bad.append(('undetermined class', '%s, eightbyte %d' % (what, i)))
                    continue
                m = meaning.setdefault(c, {})
                m.setdefault(s, what)
    for c, m in sorted(meaning.items()):
        if len(m) > 1:
            k = sorted(m)
            bad.append(('eightbytes of different psABI classes are given the same class',
                        'class code %d is reported for %s' % (c, ' and for '.join('%s (%s)' % (x, m[x]) for x in k))))
    return bad, {c: list(m)[0] for c, m in meaning.items() if len(m) == 1}
