"""Builds what the analyses read, from /repo's current working tree, in a
throw-away directory: LLVM bitcode of every C unit of the x86-64 Linux build
and objects of the assembly units.  Nothing is executed and nothing is written
into /repo."""
import os, re, subprocess, sys, tempfile, shutil, atexit

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

C_UNITS = ['src/prep_cif.c', 'src/types.c', 'src/raw_api.c', 'src/java_raw_api.c',
           'src/closures.c', 'src/tramp.c', 'src/x86/ffi64.c', 'src/x86/ffiw64.c']
ASM_UNITS = ['src/x86/unix64.S', 'src/x86/win64.S']


class Broken(Exception):
    """The analysis cannot give an answer (vanished anchor, unsupported construct)."""


class Wrong(Exception):
    """A violation after which there is nothing left to follow."""

    def __init__(self, rule, where, msg):
        Exception.__init__(self, rule, where, msg)
        self.v = (rule, where, msg)


class Build:
    def __init__(self):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix='ffiverif.', dir=base)
        atexit.register(shutil.rmtree, self.dir, True)
        self.inc = os.path.join(self.dir, 'include')
        os.makedirs(self.inc)
        self._config()
        self._cache = {}

    def _config(self):
        shutil.copy(os.path.join(VERIF, 'config', 'fficonfig.h'), self.inc)
        t = open(os.path.join(REPO, 'include/ffi.h.in')).read()
        ver = '3.4.8'
        m = re.search(r'AC_INIT\(\[libffi\],\s*\[([^\]]+)\]', open(os.path.join(REPO, 'configure.ac')).read())
        if m:
            ver = m.group(1)
        p = (ver.split('.') + ['0', '0'])[:3]
        num = '%d' % (int(re.sub(r'\D.*', '', p[0]) or 0) * 10000 + int(re.sub(r'\D.*', '', p[1]) or 0) * 100
                      + int(re.sub(r'\D.*', '', p[2]) or 0))
        for k, v in {'VERSION': ver, 'TARGET': 'X86_64', 'HAVE_LONG_DOUBLE': '1',
                     'FFI_EXEC_TRAMPOLINE_TABLE': '0', 'FFI_VERSION_STRING': ver,
                     'FFI_VERSION_NUMBER': num}.items():
            t = t.replace('@%s@' % k, v)
        if re.search(r'@[A-Z_]+@', t):
            raise Broken('unknown substitution in include/ffi.h.in: %s' % re.search(r'@[A-Z_]+@', t).group(0))
        open(os.path.join(self.inc, 'ffi.h'), 'w').write(t)
        shutil.copy(os.path.join(REPO, 'src/x86/ffitarget.h'), self.inc)

    def flags(self):
        return ['-DHAVE_CONFIG_H', '-DPIC', '-fPIC', '-I' + self.inc, '-I' + os.path.join(REPO, 'include'),
                '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'src/x86'), '-fcf-protection=full']

    def run(self, cmd, **kw):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
        if r.returncode != 0:
            raise Broken('command failed: %s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
        return r.stdout

    def bitcode(self, unit, extra=(), passes='sroa', text=None):
        key = ('bc', unit, tuple(extra), passes)
        if key in self._cache:
            return self._cache[key]
        out = os.path.join(self.dir, re.sub(r'\W', '_', unit) + '%d.bc' % len(self._cache))
        if text is not None:
            src = out + '.c'
            open(src, 'w').write(text)
        else:
            src = unit if os.path.isabs(unit) else os.path.join(REPO, unit)
        self.run(['clang-18' if shutil.which('clang-18') else 'clang', '-std=gnu17', '-O0', '-g', '-w', '-Wno-int-conversion', '-Wno-implicit-function-declaration',
                  '-Wno-implicit-int', '-Wno-incompatible-function-pointer-types', '-Wno-return-type',
                  '-Xclang', '-disable-O0-optnone', '-fexceptions', '-emit-llvm', '-c', src, '-o', out + '.0']
                 + self.flags() + list(extra))
        self.run(['opt-18' if shutil.which('opt-18') else '/usr/lib/llvm-18/bin/opt', '-passes=' + passes,
                  out + '.0', '-o', out])
        self._cache[key] = out
        return out

    def obj(self, unit, extra=()):
        key = ('obj', unit, tuple(extra))
        if key in self._cache:
            return self._cache[key]
        out = os.path.join(self.dir, re.sub(r'\W', '_', unit) + '%d.o' % len(self._cache))
        src = unit if os.path.isabs(unit) else os.path.join(REPO, unit)
        self.run(['gcc', '-c', '-g', '-Wa,-g', src, '-o', out] + self.flags() + list(extra))
        self._cache[key] = out
        return out

    def preprocess(self, path, extra=()):
        return self.run(['gcc', '-E', '-P'] + self.flags() + list(extra) + [path])


_b = None


def get():
    global _b
    if _b is None:
        _b = Build()
    return _b
