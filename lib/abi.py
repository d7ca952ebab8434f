"""The public object model of libffi (ffi_type, ffi_cif) for the interpreter, the
kinds of argument an ffi_type can describe, and the System V x86-64 psABI rules
the results are compared with."""
from build import Broken
from terms import *
import irai
from irai import St, Ev, where

# public type codes (ffi.h)
VOID, INT, FLOAT, DOUBLE, LDOUBLE, U8, S8, U16, S16, U32, S32, U64, S64, STRUCT, POINTER, COMPLEX = range(16)
TNAME = ['void', 'int', 'float', 'double', 'long double', 'uint8', 'sint8', 'uint16', 'sint16', 'uint32', 'sint32', 'uint64',
         'sint64', 'struct', 'pointer', 'complex']
SCAL = {U8: (1, 1), S8: (1, 1), U16: (2, 2), S16: (2, 2), U32: (4, 4), S32: (4, 4), U64: (8, 8), S64: (8, 8), POINTER: (8, 8),
        FLOAT: (4, 4), DOUBLE: (8, 8), LDOUBLE: (16, 16), VOID: (1, 1)}
INTS = (U8, S8, U16, S16, U32, S32, U64, S64)
OK, BAD_TYPEDEF, BAD_ABI, BAD_ARGTYPE = 0, 1, 2, 3
FIRST_ABI, UNIX64, WIN64, EFI64, GNUW64, LAST_ABI = 1, 2, 3, 3, 4, 5
MAXSIZE = 1 << 20
MAXARGS = 4096


class Kind:
    """One cell of the partition of argument/return types."""

    def __init__(self, name, code, size, align, cls, elem=None, codes=None, ext=None, n=None):
        self.name = name
        self.code = code
        self.size = size        # int, or (lo, hi) for every size in the interval
        self.align = align      # int, or (lo, hi)
        self.cls = cls          # psABI class of each eightbyte: tuple over 'I','S','N','X','Y'(X87UP),'C', or 'M'
        self.elem = elem        # element kind of complex types
        self.codes = codes      # (n, class codes) the classifier reports for it (structs only)
        self.ext = ext          # significant bytes in each eightbyte
        self.psize = size

    def __repr__(self):
        return self.name

    @property
    def ngpr(self):
        return sum(1 for c in self.cls if c == 'I')

    @property
    def nsse(self):
        return sum(1 for c in self.cls if c == 'S')

    @property
    def argmem(self):
        """passed in memory as an argument, registers or not"""
        return 'M' in self.cls or 'X' in self.cls or 'Y' in self.cls or 'C' in self.cls


def scalar_kinds(void=False):
    ks = []
    for t in (U8, S8, U16, S16, U32, S32, U64, S64, POINTER):
        s = SCAL[t][0]
        ks.append(Kind(TNAME[t], t, s, s, ('I',), ext=(s,)))
    ks.append(Kind('float', FLOAT, 4, 4, ('S',), ext=(4,)))
    ks.append(Kind('double', DOUBLE, 8, 8, ('S',), ext=(8,)))
    ks.append(Kind('long double', LDOUBLE, 16, 16, ('X', 'Y'), ext=(8, 2)))
    if void:
        ks.append(Kind('void', VOID, 1, 1, (), ext=()))
    return ks


def complex_kinds():
    ks = []
    for t in INTS:
        s = SCAL[t][0]
        ks.append(Kind('complex ' + TNAME[t], COMPLEX, 2 * s, s, ('I', 'I') if s == 8 else ('I',), elem=t,
                       ext=(8, 8) if s == 8 else (2 * s,)))
    ks.append(Kind('complex float', COMPLEX, 8, 4, ('S',), elem=FLOAT, ext=(8,)))
    ks.append(Kind('complex double', COMPLEX, 16, 8, ('S', 'S'), elem=DOUBLE, ext=(8, 8)))
    ks.append(Kind('complex long double', COMPLEX, 32, 16, ('C',), elem=LDOUBLE, ext=(8, 8, 8, 8)))
    return ks


def ms(cls):
    return ''.join(cls)


# --- psABI merge of two classes (3.2.3) ----------------------------------------
def merge(a, b):
    if a == b:
        return a
    if a == 'N':
        return b
    if b == 'N':
        return a
    if 'M' in (a, b):
        return 'M'
    if 'I' in (a, b):
        return 'I'
    if a in 'XYC' or b in 'XYC':
        return 'M'
    return 'S'


def field_classes(k, pos):
    """psABI classes of a scalar/complex field placed at byte pos of its aggregate:
    list of (eightbyte index, class, end of the significant bytes in it)"""
    if k.code == COMPLEX:
        half = Kind('', k.elem, SCAL[k.elem][0], SCAL[k.elem][1], None)
        return field_classes(half, pos) + field_classes(half, pos + SCAL[k.elem][0])
    e = pos // 8
    if k.code in INTS or k.code == POINTER:
        return [(e, 'I', pos % 8 + SCAL[k.code][0])]
    if k.code == FLOAT:
        return [(e, 'S', pos % 8 + 4)]
    if k.code == DOUBLE:
        return [(e, 'S', 8)]
    if k.code == LDOUBLE:
        return [(e, 'X', 8), (e + 1, 'Y', 2)]
    raise Broken('field kind %s' % k)


def post_merge(cls, nbytes):
    """psABI post-merger clean-up; the classes, or ('M',)"""
    if 'M' in cls or 'C' in cls:
        return ('M',)
    for i, c in enumerate(cls):
        if c == 'Y' and (i == 0 or cls[i - 1] != 'X'):
            return ('M',)
    if nbytes > 16:
        return ('M',)
    return tuple(cls)


# ------------------------------------------------------------------------------
class TypeModel(irai.Client):
    """ffi_type and ffi_cif objects.  Subclasses choose kinds."""

    def __init__(self):
        self.viol = []
        self.kinds_for = {}

    # violation collection is transactional
    def mark(self):
        return len(self.viol)

    def reset(self, m):
        del self.viol[m:]

    def report(self, rule, inst, msg):
        self.viol.append((rule, where(inst) if inst is not None and not isinstance(inst, str) else (inst or '?'), msg))

    def kind_of(self, st, p):
        return st.g.get(('_kind', p))

    def set_kind(self, ai, st, p, k):
        st.g[('_kind', p)] = k
        sz = k.size
        if isinstance(sz, tuple):
            t = sym('size(%s)' % show(p), 64)
            st.f.rng[t] = sz
            st.g[('_size', p)] = t
        else:
            st.g[('_size', p)] = const(64, sz)
        al = k.align
        if isinstance(al, tuple):
            t = sym('align(%s)' % show(p), 16, pow2=True)
            st.f.rng[t] = al
            st.g[('_align', p)] = t
        else:
            st.g[('_align', p)] = const(16, al)

    def type_field(self, st, p, off, n):
        """value of a field of the ffi_type p whose kind is known"""
        k = st.g[('_kind', p)]
        if off == 0 and n == 8:
            return st.g[('_size', p)]
        if off == 8 and n == 2:
            return st.g[('_align', p)]
        if off == 10 and n == 2:
            return const(16, k.code)
        if off == 16 and n == 8:
            return sym('$elements(%s)' % show(p), 64, True)
        return None

    def split_kinds(self, ai, st, p, kinds):
        out = []
        for k in kinds:
            s = st.copy()
            if self.set_kind(ai, s, p, k) is False:
                continue
            out.append(s)
        return out


def scc_funcs(mods):
    """functions on a call-graph cycle (direct calls)"""
    calls = {}
    for m in mods:
        for f in m.funcs.values():
            if f.decl:
                continue
            c = set()
            for b in f.blocks:
                for I in b.insts:
                    if I.op == 'call' and I.callee.k == 'func':
                        g = m.funcs.get(I.callee.name)
                        if g is not None and not g.decl:
                            c.add(g)
            calls[f] = c
    cyc = set()
    for f in calls:
        seen = set()
        st = list(calls[f])
        while st:
            g = st.pop()
            if g is f:
                cyc.add(f)
                break
            if g in seen:
                continue
            seen.add(g)
            st.extend(calls.get(g, ()))
    return cyc
