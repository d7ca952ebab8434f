from common import *
import re
from abi import *
EXPLANATION = ('Evaluation of the constant initialisers of every predefined type descriptor in the LLVM IR (and of the public macro names, '
               'through a compiled witness that names each of them) against size, alignment and kind of the C type according to the target '
               'description of the compiler; audit of every store, copy and atomic in the library for a descriptor as its destination.')

# public name -> C type ('' for void), whether it is a complex type
NAMES = {
    'uint8': 'uint8_t', 'sint8': 'int8_t', 'uint16': 'uint16_t', 'sint16': 'int16_t', 'uint32': 'uint32_t', 'sint32': 'int32_t',
    'uint64': 'uint64_t', 'sint64': 'int64_t', 'float': 'float', 'double': 'double', 'longdouble': 'long double', 'pointer': 'void *',
    'uchar': 'unsigned char', 'schar': 'signed char', 'ushort': 'unsigned short', 'sshort': 'short', 'uint': 'unsigned int',
    'sint': 'int', 'ulong': 'unsigned long', 'slong': 'long',
    'complex_float': '_Complex float', 'complex_double': '_Complex double', 'complex_longdouble': '_Complex long double',
}
CODE = {('u', 1): U8, ('s', 1): S8, ('u', 2): U16, ('s', 2): S16, ('u', 4): U32, ('s', 4): S32, ('u', 8): U64, ('s', 8): S64}
UNITS = ['src/prep_cif.c', 'src/types.c', 'src/raw_api.c', 'src/java_raw_api.c', 'src/closures.c', 'src/tramp.c', FFI64, FFIW64]


def witness():
    t = ['#include <stdint.h>', '#include <stddef.h>', '#include <ffi.h>',
         '#ifndef FFI_TARGET_HAS_COMPLEX_TYPE', '#error no complex types', '#endif']
    for n, c in NAMES.items():
        t.append('const ffi_type *w_ptr_%s = &ffi_type_%s;' % (n, n))
        t.append('struct w_al_%s { char c; %s x; };' % (n, c))
        t.append('const size_t w_size_%s = sizeof(%s), w_align_%s = offsetof(struct w_al_%s, x);' % (n, c, n, n))
        if 'Complex' not in c and '*' not in c:
            t.append('const int w_neg_%s = (%s)-1 < (%s)0;' % (n, c, c))
    t.append('const ffi_type *w_ptr_void = &ffi_type_void;')
    for f in ('size', 'alignment', 'type', 'elements'):
        t.append('const size_t w_off_%s = offsetof(ffi_type, %s);' % (f, f))
    return '\n'.join(t) + '\n'


def check(rep, thorough):
    b = build.get()
    w = llvmc.Module(b.bitcode('witness', text=witness()))
    tm = mods('src/types.c')[0]
    ai = irai.AI([tm], irai.Client())
    st = irai.St()

    def val(name):
        return cv(ai.ginit(st, w.globals[name].init, 0, w.globals[name].init.ty.size, w))

    off = {f: val('w_off_' + f) for f in ('size', 'alignment', 'type', 'elements')}
    if off != {'size': 0, 'alignment': 8, 'type': 10, 'elements': 16}:
        rep.bad('the descriptor has its published shape', 'include/ffi.h.in', str(off))
    target = {}
    for n in list(NAMES) + ['void']:
        v = w.globals['w_ptr_' + n].init
        if v.k != 'gvar':
            raise Broken('ffi_type_%s is not an object' % n)
        target[n] = v.name

    def desc(sym):
        g = tm.globals.get(sym)
        if g is None or g.init is None:
            rep.bad('every declared descriptor is defined', 'src/types.c', '%s is not defined' % sym)
            return None
        r = {}
        for f, k in (('size', 8), ('alignment', 2), ('type', 2), ('elements', 8)):
            x = ai.ginit(st, g.init, off[f], k, tm)
            r[f] = x
        if g.linkage in (8, 9):
            rep.bad('every declared descriptor is exported', 'src/types.c', '%s is not visible to programs' % sym)
        return r

    def expect(n, sym, what, got, want):
        if got is None or not isc(got) or cv(got) != want:
            rep.bad('descriptors match their C types', 'src/types.c (%s)' % sym, 'ffi_type_%s: %s is %s, the C type has %d' % (n, what, got, want))
        else:
            rep.ok('descriptors match their C types')

    for n, c in NAMES.items():
        d = desc(target[n])
        if d is None:
            continue
        size, al = val('w_size_' + n), val('w_align_' + n)
        expect(n, target[n], 'size', d['size'], size)
        expect(n, target[n], 'alignment', d['alignment'], al)
        if 'Complex' in c:
            expect(n, target[n], 'kind', d['type'], COMPLEX)
            base = n[len('complex_'):]
            okel = False
            e = d['elements']
            if e is not None and not isc(e):
                nm = ai.globs.get(e)
                g = tm.globals.get(nm[1]) if nm else None
                if g is not None and g.init is not None:
                    try:
                        e0 = ai.ginit(st, g.init, 0, 8, tm)
                        e1 = ai.ginit(st, g.init, 8, 8, tm)
                        okel = e0 in ai.globs and ai.globs[e0][1] == target[base] and isc(e1) and cv(e1) == 0
                    except (AttributeError, IndexError):
                        okel = False
            if okel:
                rep.ok('complex descriptors name their component')
            else:
                rep.bad('complex descriptors name their component', 'src/types.c (%s)' % target[n], 'ffi_type_%s: its component list is not {&ffi_type_%s, NULL}' % (n, base))
            continue
        if '*' in c:
            want = POINTER
        elif c in ('float', 'double', 'long double'):
            want = {'float': FLOAT, 'double': DOUBLE, 'long double': LDOUBLE}[c]
        else:
            want = CODE['s' if val('w_neg_' + n) else 'u', size]
        expect(n, target[n], 'kind', d['type'], want)
    d = desc(target['void'])
    if d is not None:
        expect('void', target['void'], 'kind', d['type'], VOID)
        for f in ('size', 'alignment'):
            if d[f] is None or not isc(d[f]) or cv(d[f]) == 0:
                rep.bad('the void descriptor counts as complete', 'src/types.c', 'its %s is %s: preparation would try to lay it out' % (f, d[f]))
            else:
                rep.ok('the void descriptor counts as complete')
    # every descriptor the header declares is one of these
    decl = set(re.findall(r'\bffi_type\s+(ffi_type_\w+)\s*;', b.preprocess(b.bitcode('witness', text=witness()) + '.c')))
    for s in sorted(decl):
        g = tm.globals.get(s)
        if g is None or g.init is None:
            rep.bad('every declared descriptor is defined', 'src/types.c', '%s is declared but not defined' % s)
        else:
            rep.ok('every declared descriptor is defined')
    rep.note('descriptors', sorted(decl | set(target.values())))
    rep.parts += 1
    rep.part('store audit', audit, rep, decl | set(target.values()))


def audit(rep, names):
    n = 0
    elems = {'ffi_elements_' + x[len('ffi_type_'):] for x in names}
    for m in mods(*UNITS):
        def root(v, seen):
            """descriptors the address v may be derived from without a load"""
            if v in seen:
                return set()
            seen.add(v)
            if v.k == 'gvar':
                return {v.name} & (names | elems)
            if v.k == 'cexpr':
                return set().union(*[root(o, seen) for o in v.ops]) if v.ops else set()
            if v.k == 'inst' and v.name.op in ('gep', 'bitcast', 'phi', 'select', 'freeze', 'ptrtoint', 'inttoptr', 'add'):
                return set().union(*[root(o, seen) for o in (v.name.ops if v.name.op != 'phi' else v.name.x.values())])
            return set()
        for f in m.funcs.values():
            if f.decl:
                continue
            for bb in f.blocks:
                for I in bb.insts:
                    dst = []
                    if I.op == 'store':
                        dst = [I.ops[1]]
                    elif I.op in ('cmpxchg', 'atomicrmw'):
                        dst = [I.ops[0]]
                    elif I.op == 'call' and I.callee.k == 'func' and re.match(r'(llvm\.)?(memcpy|memmove|memset)', I.callee.name):
                        dst = [I.ops[0]]
                    for d in dst:
                        n += 1
                        r = root(d, set())
                        if r:
                            rep.bad('no part of the library writes a predefined descriptor', irai.where(I), 'writes %s' % ', '.join(sorted(r)))
    rep.ok('no part of the library writes a predefined descriptor', n)
