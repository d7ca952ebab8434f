import json, re, os, subprocess
import build
from common import *
from report import run_jobs
EXPLANATION = ('What the installed headers declare is read from the syntax tree of a program that only includes them; what the library defines from the symbol tables of the objects of every '
               'unit; what it exports from the version script as the build preprocesses it. Every declared function and object must be defined once with default visibility and be listed in '
               'one version, the version the released interface has it in; nothing else may be listed or left to the default. Each unit is compiled together with the declarations a user sees, '
               'and the layout of every public structure, the value of every public constant and the name of every public symbol are compared between the unit and a user in C and in C++.')
TRUSTED = ['clang 18: syntax trees, record layouts, constant evaluation', 'gcc and readelf: symbol tables of the objects', 'the linker applies the version script as documented']

DEF = 'every declared function and object is defined once, with default visibility'
KIND = 'what is declared a function is a function, and an object has the declared size'
SIG = 'a definition has the declared signature'
EXP = 'every declared function and object is exported under one version'
VER = 'an exported symbol keeps its version'
INT = 'an internal symbol is not exported'
LAY = 'user and library agree on the layout of public structures'
VAL = 'user and library agree on public constants'
CXX = 'a C++ program refers to the same symbols'
DOC = 'every documented function is declared with as many parameters'
ALIAS = 'the name for a C type stands for a descriptor of its size and sign'
STAND = 'the installed headers need nothing else of the library'

# the binary interface of the released library, which programs linked against it refer to
ABI = {
    'LIBFFI_BASE_8.0': 'ffi_type_void ffi_type_uint8 ffi_type_sint8 ffi_type_uint16 ffi_type_sint16 ffi_type_uint32 ffi_type_sint32 ffi_type_uint64 ffi_type_sint64 ffi_type_float '
                       'ffi_type_double ffi_type_longdouble ffi_type_pointer ffi_call ffi_prep_cif ffi_prep_cif_var ffi_raw_call ffi_ptrarray_to_raw ffi_raw_to_ptrarray ffi_raw_size '
                       'ffi_java_raw_call ffi_java_ptrarray_to_raw ffi_java_raw_to_ptrarray ffi_java_raw_size ffi_get_struct_offsets',
    'LIBFFI_COMPLEX_8.0': 'ffi_type_complex_float ffi_type_complex_double ffi_type_complex_longdouble',
    'LIBFFI_CLOSURE_8.0': 'ffi_closure_alloc ffi_closure_free ffi_prep_closure ffi_prep_closure_loc ffi_prep_raw_closure ffi_prep_raw_closure_loc ffi_prep_java_raw_closure '
                          'ffi_prep_java_raw_closure_loc',
    'LIBFFI_GO_CLOSURE_8.0': 'ffi_call_go ffi_prep_go_closure',
}
BASE = {n: v for v, l in ABI.items() for n in l.split()}


def fresh():
    return {'rules': {}, 'viol': [], 'unsure': [], 'analysed': {}}


def ok(d, rule, n=1):
    d['rules'][rule] = d['rules'].get(rule, 0) + n


def bad(d, rule, where, msg):
    d['viol'].append((rule, where, msg))


CLANG = 'clang-18'


def user_dir(b):
    """the two installed headers, alone"""
    u = os.path.join(b.dir, 'user')
    if not os.path.isdir(u):
        os.makedirs(u)
        for f in ('ffi.h', 'ffitarget.h'):
            open(os.path.join(u, f), 'w').write(open(os.path.join(b.inc, f)).read())
    return u


def clang(b, text, args, lang='c', user=True, name='w'):
    p = os.path.join(b.dir, '%s%d.%d.%s' % (name, os.getpid(), len(os.listdir(b.dir)), 'cc' if lang == 'c++' else 'c'))
    open(p, 'w').write(text)
    fl = ['-I' + user_dir(b)] if user else b.flags()
    r = subprocess.run([CLANG, '-w', '-std=' + ('gnu++17' if lang == 'c++' else 'gnu17')] + fl + args + [p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.returncode, r.stdout, r.stderr


def ast(b, text, user=True, lang='c'):
    rc, out, err = clang(b, text, ['-fsyntax-only', '-Xclang', '-ast-dump=json'], lang, user)
    if rc:
        return None, err
    return json.loads(out), err


def declared(tree):
    """functions and objects with external linkage the two headers declare: {name: (kind, type, line)}"""
    out = {}
    cur = [None, None]

    def loc(l):
        for k in ('spellingLoc', 'expansionLoc'):
            if k in l:
                loc(l[k])
        if 'file' in l:
            cur[0] = l['file']
        if 'line' in l:
            cur[1] = l['line']

    def walk(n):
        if 'loc' in n:
            loc(n['loc'])
        here = tuple(cur)
        if 'range' in n:
            for k in ('begin', 'end'):
                loc(n['range'].get(k, {}))
        if n.get('kind') in ('FunctionDecl', 'VarDecl') and n.get('storageClass') != 'static' and not n.get('isImplicit'):
            f = os.path.basename(here[0] or '')
            if f in ('ffi.h', 'ffitarget.h') and n.get('name'):
                np = sum(1 for i in n.get('inner', []) if i.get('kind') == 'ParmVarDecl')
                out[n['name']] = (n['kind'], n['type']['qualType'], '%s:%s' % (f, here[1]), np, n.get('mangledName', n['name']), n.get('inline', False))
        if n.get('kind') in ('TranslationUnitDecl', 'LinkageSpecDecl', 'NamespaceDecl'):
            for i in n.get('inner', []):
                walk(i)
        else:
            # locations inside are relative to what came before
            def deep(x):
                if isinstance(x, dict):
                    if 'loc' in x:
                        loc(x['loc'])
                    if 'range' in x:
                        for k in ('begin', 'end'):
                            loc(x['range'].get(k, {}))
                    for i in x.get('inner', []):
                        deep(i)
            for i in n.get('inner', []):
                deep(i)
    walk(tree)
    return out


def symbols(b, path):
    r = []
    for l in b.run(['readelf', '-sW', path]).splitlines():
        f = l.split()
        if len(f) >= 8 and f[0][:-1].isdigit() and f[4] in ('GLOBAL', 'WEAK') and f[6] != 'UND':
            r.append((f[7].split('@')[0], f[3], int(f[2], 0), f[5], f[4]))
    return r


def script(b):
    """[(version, global patterns, local patterns)] of the version script as the build makes it"""
    src = os.path.join(build.REPO, 'libffi.map.in')
    t = b.run(['gcc', '-E', '-P', '-x', 'assembler-with-cpp', '-DX86_64', '-DGENERATE_LIBFFI_MAP'] + b.flags() + [src])
    t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
    t = re.sub(r'^\s*#.*$', ' ', t, flags=re.M)
    out = []
    pos = 0
    for m in re.finditer(r'([\w.]*)\s*\{([^{}]*)\}\s*([\w.\s]*);', t):
        if t[pos:m.start()].strip():
            raise Broken('version script: %s' % t[pos:m.start()].strip()[:80])
        pos = m.end()
        g, l = [], []
        cur = g
        for it in re.split(r';', m.group(2)):
            it = it.strip()
            while True:
                x = re.match(r'(global|local)\s*:\s*', it)
                if not x:
                    break
                cur = g if x.group(1) == 'global' else l
                it = it[x.end():]
            if it:
                if not re.match(r'[\w*?\[\]"]+$', it):
                    raise Broken('version script: %s' % it[:80])
                cur.append(it.strip('"'))
        out.append((m.group(1), g, l))
    if t[pos:].strip():
        raise Broken('version script: %s' % t[pos:].strip()[:80])
    return out


def exported(sc, n):
    """versions the symbol is exported under; [] when it is local; None when the script does not say"""
    import fnmatch
    ex = [v for v, g, l in sc if n in g]
    if ex:
        return ex
    if any(n in l for v, g, l in sc):
        return []
    w = [v for v, g, l in sc if any(p != '*' and fnmatch.fnmatchcase(n, p) for p in g)]
    if w:
        return w
    if any(p != '*' and fnmatch.fnmatchcase(n, p) for v, g, l in sc for p in l):
        return []
    w = [v for v, g, l in sc if '*' in g]
    if w:
        return w
    if any('*' in l for v, g, l in sc):
        return []
    return None


def main():
    b = build.get()
    d = fresh()
    tree, err = ast(b, '#include <ffi.h>\n')
    if tree is None:
        bad(d, STAND, 'include/ffi.h.in', err[:300])
        return d
    ok(d, STAND)
    D = declared(tree)
    if 'ffi_call' not in D:
        raise Broken('the headers declare no ffi_call')
    # ---- definitions
    defs = {}
    for u in build.C_UNITS:
        for s in symbols(b, b.obj(u, ('-O1',))):
            defs.setdefault(s[0], []).append((u,) + s[1:])
    for u in build.ASM_UNITS:
        for s in symbols(b, b.obj(u)):
            defs.setdefault(s[0], []).append((u,) + s[1:])
    size = type_sizes(b, D)
    for n, (k, ty, where, np, mg, inl) in sorted(D.items()):
        ds = defs.get(n, [])
        if not ds:
            if inl:
                continue
            bad(d, DEF, where, '%s is declared and no unit defines it' % n)
            continue
        if len(ds) > 1:
            bad(d, DEF, ds[1][0], '%s is defined in %s' % (n, ' and '.join(x[0] for x in ds)))
            continue
        u, t, sz, vis, bind = ds[0]
        if vis not in ('DEFAULT', 'PROTECTED'):
            bad(d, DEF, u, '%s is %s' % (n, vis.lower()))
        else:
            ok(d, DEF)
        if k == 'FunctionDecl' and t not in ('FUNC', 'NOTYPE', 'IFUNC') or k == 'VarDecl' and t not in ('OBJECT', 'NOTYPE'):
            bad(d, KIND, u, '%s is declared a %s and defined as %s' % (n, 'function' if k == 'FunctionDecl' else 'variable', t))
        elif k == 'VarDecl' and t == 'OBJECT' and n in size and sz != size[n]:
            bad(d, KIND, u, '%s has %d bytes, the declared type %d' % (n, sz, size[n]))
        else:
            ok(d, KIND)
    # ---- export
    sc = script(b)
    for n, (k, ty, where, np, mg, inl) in sorted(D.items()):
        ex = exported(sc, n)
        if not ex:
            bad(d, EXP, 'libffi.map.in', '%s, declared at %s, is not exported' % (n, where))
        elif len(ex) > 1:
            bad(d, EXP, 'libffi.map.in', '%s is listed in %s' % (n, ' and '.join(ex)))
        else:
            ok(d, EXP)
            if n in BASE:
                if ex[0] != BASE[n]:
                    bad(d, VER, 'libffi.map.in', '%s is exported under %s; programs refer to %s' % (n, ex[0], BASE[n]))
                else:
                    ok(d, VER)
    for n, v in sorted(BASE.items()):
        if n not in D:
            ex = exported(sc, n) or []
            bad(d, VER, 'include/ffi.h.in', '%s of the released interface is no longer declared%s' % (n, '' if v in ex else ' or exported'))
    vis = {n for n, l in defs.items() if any(x[3] in ('DEFAULT', 'PROTECTED') for x in l)}
    for n in sorted(vis - set(D)):
        ex = exported(sc, n)
        if ex is None or ex:
            bad(d, INT, 'libffi.map.in', '%s (%s) is not declared in the headers and exported%s' % (n, defs[n][0][0], ' under ' + ex[0] if ex else ': no pattern makes it local'))
        else:
            ok(d, INT)
    if exported(sc, '?no such symbol?') is None:
        bad(d, INT, 'libffi.map.in', 'what the script does not list is exported')
    else:
        ok(d, INT)
    d['analysed']['declared'] = sorted(D)
    d['analysed']['versions'] = [v for v, g, l in sc]
    d['analysed']['internal symbols with default visibility'] = sorted(vis - set(D))
    return d


def type_sizes(b, D):
    """sizes of the declared types of the objects"""
    objs = sorted(n for n, x in D.items() if x[0] == 'VarDecl')
    rc, out, err = clang(b, '#include <ffi.h>\n' + ''.join('char S_%s[sizeof(%s)];\n' % (n, n) for n in objs), ['-fsyntax-only', '-Xclang', '-ast-dump=json'])
    if rc:
        return {}
    r = {}
    for i in json.loads(out)['inner']:
        m = re.match(r'S_(\w+)$', i.get('name', ''))
        if m and i['kind'] == 'VarDecl':
            x = re.search(r'\[(\d+)\]', i['type']['qualType'])
            r[m.group(1)] = int(x.group(1)) if x else 0
    return r


def signatures(u):
    """the unit compiled after the declarations a user sees: a definition that differs does not compile"""
    b = build.get()
    d = fresh()
    tree, err = ast(b, '#include <ffi.h>\n')
    if tree is None:
        raise Broken('the headers do not compile')
    D = declared(tree)
    rc, out, err = clang(b, '#include "%s"\n' % os.path.join(build.REPO, u), ['-fsyntax-only', '-Xclang', '-ast-dump=json'], user=False)
    if rc:
        raise Broken('%s does not compile: %s' % (u, err[:300]))
    names = set()
    for i in json.loads(out).get('inner', []):
        if i.get('kind') == 'FunctionDecl' and i.get('name') in D and any(x.get('kind') == 'CompoundStmt' for x in i.get('inner', [])):
            names.add(i['name'])
    for n in sorted(names):
        # the declared type, spelled out in a program that has only the headers
        ty = D[n][1]
        # in the unit, the definition must be compatible with a declaration of that type
        m = re.match(r'(.*?)\((.*)\)$', ty)
        rc, out, err = clang(b, '#include "%s"\nextern __typeof__(%s) *witness;\n_Static_assert(__builtin_types_compatible_p(__typeof__(%s), %s), "signature");\n' % (
            os.path.join(build.REPO, u), n, n, ty), ['-fsyntax-only'], user=False)
        if rc and 'signature' in err:
            bad(d, SIG, u, '%s is defined with another type than %s' % (n, ty))
        elif rc:
            d['unsure'].append((SIG, u, '%s: %s' % (n, err[:200])))
        else:
            ok(d, SIG)
    d['analysed']['definitions compared'] = sorted(names)
    return d


PUBLIC_MACRO = re.compile(r'^\s*#\s*define\s+((?:FFI|ffi)_\w+)\s+(\S.*)$')


def public(b):
    """names of the types and macros the headers define"""
    types, macros = [], []
    rc, out, err = clang(b, '#include <ffi.h>\n', ['-E', '-dD'])
    cur = None
    for l in out.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            cur = os.path.basename(m.group(1))
            continue
        if cur in ('ffi.h', 'ffitarget.h'):
            m = PUBLIC_MACRO.match(l)
            if m and '(' not in m.group(1):
                macros.append(m.group(1))
    tree, err = ast(b, '#include <ffi.h>\n')
    f = [None]
    fields, rec = {}, {}

    def ids(n):
        out = []
        for k in ('ownedTagDecl', 'decl'):
            if n.get(k, {}).get('kind') == 'RecordDecl':
                out.append(n[k]['id'])
        for i in n.get('inner', []):
            if i.get('kind') not in ('PointerType', 'FunctionProtoType', 'ParenType'):
                out += ids(i)
        return out

    def walk(n):
        l = n.get('loc', {})
        for k in ('expansionLoc', 'spellingLoc'):
            l = l.get(k, l)
        if 'file' in l:
            f[0] = l['file']
        if n.get('kind') == 'RecordDecl':
            fields[n['id']] = [i['name'] for i in n.get('inner', []) if i.get('kind') in ('FieldDecl', 'IndirectFieldDecl') and i.get('name')]
        if n.get('kind') == 'TypedefDecl':
            rec[n['name']] = ids(n)
        if n.get('kind') == 'TypedefDecl' and not n.get('isImplicit') and os.path.basename(f[0] or '') in ('ffi.h', 'ffitarget.h'):
            types.append(n['name'])
        if n.get('kind') == 'EnumDecl':
            for i in n.get('inner', []):
                if i.get('kind') == 'EnumConstantDecl' and os.path.basename(f[0] or '') in ('ffi.h', 'ffitarget.h'):
                    macros.append(i['name'])
        rng = n.get('range', {})
        for k in ('begin', 'end'):
            x = rng.get(k, {})
            x = x.get('expansionLoc', x)
            if 'file' in x:
                f[0] = x['file']
        for i in n.get('inner', []) if n.get('kind') in ('TranslationUnitDecl', 'LinkageSpecDecl') else ():
            walk(i)
    walk(tree)
    types = [t for t in types if t.lower().startswith('ffi')]
    members = [(t, m) for t in sorted(set(types)) for r in rec.get(t, [])[:1] for m in fields.get(r, [])]
    return sorted(set(types)), sorted(set(macros)), members


def view(b, pre, types, macros, members, user, lang):
    """layout of the types and value of the constants in a program that starts with the given text"""
    # which types are complete and which macros are integer constants there
    t = pre + '\n'
    for i, n in enumerate(types):
        t += '#line 1 "T%d"\nchar ST_%s[sizeof(%s)]; char AL_%s[_Alignof(%s)];\n'.replace('_Alignof', 'alignof' if lang == 'c++' else '_Alignof') % (i, n, n, n, n)
    for i, n in enumerate(macros):
        t += '#line 1 "M%d"\nenum { MV_%s = (int)(%s) };\n' % (i, n, n)
    for i, (n, m) in enumerate(members):
        t += '#line 1 "O%d"\nchar OF_%s__%s[__builtin_offsetof(%s, %s) + 1]; char SF_%s__%s[sizeof(((%s *) 0)->%s)];\n' % ((i,) + (n, m) * 4)
    rc, out2, err2 = clang(b, t, ['-fsyntax-only', '-ferror-limit=0', '-Xclang', '-ast-dump=json'], lang, user)
    sizes, vals = {}, {}

    def ev(n):
        if 'value' in n and n.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
            return n['value']
        for i in n.get('inner', []):
            v = ev(i)
            if v is not None:
                return v
        return None

    def walk(n):
        nm = n.get('name', '')
        if n.get('kind') == 'VarDecl' and nm[:3] in ('ST_', 'AL_', 'OF_', 'SF_'):
            x = re.search(r'\[(\d+)\]', n['type']['qualType'])
            if x:
                sizes[nm] = int(x.group(1))
        elif n.get('kind') == 'EnumConstantDecl' and nm.startswith('MV_') and n.get('inner'):
            vals[nm[3:]] = ev(n)
        elif n.get('kind') in ('TranslationUnitDecl', 'LinkageSpecDecl', 'EnumDecl'):
            for i in n.get('inner', []):
                walk(i)
    walk(json.loads(out2))
    return sizes, vals


def agree(u):
    b = build.get()
    d = fresh()
    types, macros, members = public(b)
    user = view(b, '#include <ffi.h>', types, macros, members, True, 'c')
    if u == 'c++':
        other = view(b, '#include <ffi.h>', types, macros, members, True, 'c++')
        where = 'include/ffi.h.in'
        what = 'a C++ program'
    else:
        other = view(b, '#include "%s"\n#include <ffi.h>' % os.path.join(build.REPO, u), types, macros, members, False, 'c')
        where = u
        what = u
    words = {'ST': 'size of %s', 'AL': 'alignment of %s', 'OF': 'offset of %s', 'SF': 'size of %s'}
    if not other[0]:
        raise Broken('no layout in %s' % u)
    for n in sorted(user[0]):
        w = words[n[:2]] % n[3:].replace('__', '.')
        if n not in other[0]:
            if n[:2] in ('ST', 'OF'):
                bad(d, LAY, where, '%s is %d for a user and does not exist in %s' % (w, user[0][n] - (n[:2] == 'OF'), what))
        elif user[0][n] != other[0][n]:
            k = n[:2] == 'OF'
            bad(d, LAY, where, '%s is %d for a user and %d in %s' % (w, user[0][n] - k, other[0][n] - k, what))
        else:
            ok(d, LAY)
    for n in sorted(user[1]):
        if user[1][n] is not None and other[1].get(n) is not None:
            if user[1][n] != other[1][n]:
                bad(d, VAL, where, '%s is %s for a user and %s in %s' % (n, user[1][n], other[1][n], what))
            else:
                ok(d, VAL)
    d['analysed']['public types'] = types
    d['analysed']['public members'] = ['%s.%s' % x for x in members]
    d['analysed']['public constants'] = sorted(n for n in user[1] if user[1][n] is not None)
    return d


def cplusplus():
    b = build.get()
    d = fresh()
    c, err = ast(b, '#include <ffi.h>\n')
    x, err = ast(b, '#include <ffi.h>\n', lang='c++')
    if c is None:
        raise Broken('the headers do not compile')
    if x is None:
        bad(d, STAND, 'include/ffi.h.in', 'in C++: ' + err[:300])
        return d
    ok(d, STAND)
    D, X = declared(c), declared(x)
    for n in sorted(D):
        if n not in X:
            bad(d, CXX, D[n][2], '%s is not declared in C++' % n)
        elif X[n][4] != n:
            bad(d, CXX, D[n][2], '%s is %s in C++' % (n, X[n][4]))
        else:
            ok(d, CXX)
    return d


def documented():
    b = build.get()
    d = fresh()
    tree, err = ast(b, '#include <ffi.h>\n')
    D = declared(tree)
    text = open(os.path.join(build.REPO, 'doc/libffi.texi')).read()
    n = 0
    for m in re.finditer(r'^@(?:deftypefunx?|defunx?|deftypefn\s+\S+)\s+(.*)$', text, re.M):
        l = re.sub(r'@var\{(\w+)\}', r'\1', m.group(1))
        x = re.match(r'(.*?)(\w+) \((.*)\)\s*$', l)
        if not x:
            continue
        name, ps = x.group(2), x.group(3)
        depth, np = 0, 1 if ps.strip() and ps.strip() != 'void' else 0
        for ch in ps:
            depth += (ch == '(') - (ch == ')')
            np += ch == ',' and depth == 0
        line = text[:m.start()].count('\n') + 1
        if name not in D:
            bad(d, DOC, 'doc/libffi.texi:%d' % line, '%s is documented and not declared' % name)
        elif D[name][3] != np:
            bad(d, DOC, D[name][2], '%s has %d parameters, the documentation says %d' % (name, D[name][3], np))
        else:
            ok(d, DOC)
    return d


def aliases():
    """the names for C types"""
    b = build.get()
    d = fresh()
    kinds = [('uchar', 'unsigned char'), ('schar', 'signed char'), ('ushort', 'unsigned short'), ('sshort', 'short'), ('uint', 'unsigned int'), ('sint', 'int'),
             ('ulong', 'unsigned long'), ('slong', 'long')]
    rc, out, err = clang(b, '#include <ffi.h>\n#define S_(x) #x\n#define S(x) S_(x)\n' + ''.join('A_%s S(ffi_type_%s)\n' % (n, n) for n, c in kinds), ['-E', '-P'])
    got = dict(re.findall(r'A_(\w+) "(\w+)"', out))
    rc, out, err = clang(b, ''.join('char Z_%s[sizeof(%s)]; char G_%s[((%s)-1 < 0) + 1];\n' % (n, c, n, c) for n, c in kinds), ['-fsyntax-only', '-Xclang', '-ast-dump=json'])
    val = {i['name']: int(re.search(r'\[(\d+)\]', i['type']['qualType']).group(1)) for i in json.loads(out)['inner'] if i.get('kind') == 'VarDecl'}
    for n, c in kinds:
        want = 'ffi_type_%sint%d' % ('s' if val['G_' + n] == 2 else 'u', 8 * val['Z_' + n])
        if got.get(n) != want:
            bad(d, ALIAS, 'include/ffi.h.in', 'ffi_type_%s, for %s, is %s and should be %s' % (n, c, got.get(n), want))
        else:
            ok(d, ALIAS)
    return d


def check(rep, thorough):
    user_dir(build.get())
    jobs = [('interface', main, ())]
    jobs += [('signatures in %s' % u, signatures, (u,)) for u in build.C_UNITS]
    jobs += [('constants and layouts in %s' % u, agree, (u,)) for u in build.C_UNITS + ['c++']]
    jobs += [('C++', cplusplus, ()), ('documentation', documented, ()), ('names for C types', aliases, ())]
    run_jobs(rep, jobs)
    rep.assumptions += ['the default configuration of x86-64 Linux', 'a user compiles with only the two installed headers in view and none of the macros of the build defined']
