"""The code that asks the operating system for closure memory (the functions dlmalloc uses
in place of mmap and munmap), interpreted with the system modelled: mappings, files and
their failures are symbolic, what the system says about its policy (SELinux, PaX, static
trampolines) is a fixed scenario."""
import re
from abi import *
import build
import irai
import llvmc
from place import need
from common import Broken

CLOSURES = 'src/closures.c'
PAGE = 4096
_unit = None
R, W, X = 1, 2, 4
SHARED, PRIVATE, FIXED, ANON = 1, 2, 16, 32
EPERM, ENOMEM, EACCES = 1, 12, 13

MOUNTS = ['proc /proc proc rw,nosuid,nodev,noexec 0 0\n', '/dev/sda1 / ext4 rw,relatime 0 0\n', 'tmpfs /run tmpfs rw,nosuid 0 0\n']
SELMOUNT = 'selinuxfs /sys/fs/selinux selinuxfs rw,relatime 0 0\n'
STATUS = ['Name:\tprogram\n', 'Umask:\t0022\n', 'State:\tR (running)\n']


class Scenario:
    def __init__(self, tramp, sel, pax):
        self.tramp, self.sel, self.pax = tramp, sel, pax

    def permits(self):
        """may a mapping be writable and executable at once?"""
        return self.sel == 'no' and self.pax in ('no', 'off', 'e')

    def __repr__(self):
        return ', '.join(x for x in ('static trampolines' if self.tramp else 'no static trampolines',
                                     {'fs': 'SELinux at /selinux', 'mounts': 'SELinux in the mounts', 'no': ''}[self.sel],
                                     {'no': '', 'off': 'PaX without MPROTECT', 'e': 'PaX with EMUTRAMP only', 'on': 'PaX MPROTECT', 'both': 'PaX MPROTECT and EMUTRAMP'}[self.pax]) if x)

    def lines(self, path):
        if re.search(r'mounts|mtab', path):
            return MOUNTS[:2] + ([SELMOUNT] if self.sel == 'mounts' else []) + MOUNTS[2:]
        if re.search(r'/status$', path):
            f = {'no': None, 'off': 'pemrs', 'e': 'pEmrs', 'on': 'PeMRs', 'both': 'PEMRs'}[self.pax]
            return STATUS[:2] + (['PaX:\t%s\n' % f] if f else []) + STATUS[2:]
        return []


def scenarios():
    r = []
    for tramp in (0, 1):
        for sel in ('no', 'fs', 'mounts'):
            for pax in ('no', 'off', 'e', 'on', 'both'):
                r.append(Scenario(tramp, sel, pax))
    return r


class OS(irai.Client):
    def __init__(self, sc):
        self.sc = sc
        self.unknown = {}
        self.strings = {}
        self.symbolic = ('mparams', '_gm_')     # what the allocator has set up by then

    # ---- memory
    def init_load(self, st, base, off, n, isptr, inst):
        if base in self.strings and isc(off):
            b = self.strings[base]
            o = cv(off)
            if 0 <= o and o + n <= len(b):
                return const(8 * n, int.from_bytes(b[o:o + n], 'little'))
            return None
        g = getattr(self.ai, 'globs', {}).get(base)
        if g is not None and isc(off):
            if g[1] in self.symbolic:
                return None
            v = g[0].globals.get(g[1])
            if v is not None and v.init is not None:
                return self.ai.ginit(st, v.init, cv(off), n, g[0])
        return None

    def byte(self, st, p, i):
        b, o = self.ai.split(st, p)
        o = st.f.norm(o)
        if b is None or not isc(o):
            return None
        r = self.ai.read(st, b, addc(o, i), 1, False, None)
        if len(r) != 1 or not isc(st.f.norm(r[0][1])):
            return None
        return cv(st.f.norm(r[0][1]))

    def cstr(self, st, p, n=4096):
        out = bytearray()
        for i in range(n):
            c = self.byte(st, p, i)
            if c is None:
                return None
            if c == 0:
                return bytes(out)
            out.append(c)
        return bytes(out)

    def text(self, s):
        t = sym('$text:%s' % s, 64, True, 16)
        self.strings[t] = s.encode() + b'\0'
        return t

    def emit(self, st, name, args, ret, inst):
        self.ai.emit(st, irai.Ev('call', inst, name=name, args=tuple(args), ret=ret))

    def err(self, st, e):
        st.g['errs'] = tuple(sorted(set(st.g.get('errs', ())) | {e}))

    def errno(self, st, v):
        self.ai.write(st, sym('$errno', 64, True, 4), const(64, 0), 4, const(32, v))

    def fail(self, st, name, args, inst, v, err):
        outs = []
        for e in err:
            s = st.copy()
            self.errno(s, e)
            self.emit(s, name, args, None, inst)
            self.err(s, (name, e))
            outs.append((s, v))
        return outs

    # ---- calls
    def call(self, ai, st, name, fn, args, inst):
        if name in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_init', 'fclose', 'closedir'):
            return [(st, const(32, 0))]
        if name == 'ffi_tramp_is_supported':
            return [(st, const(32, self.sc.tramp))]
        if name == '__errno_location':
            return [(st, sym('$errno', 64, True, 4))]
        if name in ('sysconf', 'getpagesize'):
            return [(st, const(inst.ty.w, PAGE))]
        if name in ('free', 'endmntent'):
            return [(st, const(inst.ty.w, 1) if inst.ty.kind == 'int' else None)]
        m = getattr(self, 'do_' + re.sub(r'64$|^__|_chk$', '', name), None)
        if m is not None:
            return m(st, args, inst, name)
        if fn is None and name not in irai.NORETURN and not name.startswith('llvm.') and name not in ('memcpy', 'memmove', 'memset', '__memcpy_chk'):
            self.unknown.setdefault(name, irai.where(inst))
        return None

    def do_open_temp_exec_file(self, st, args, inst, name):
        """the search for a place: it may fail, and it is exhausted in the end (C18); the files it finds are alike"""
        st.seq += 1
        s0 = st.copy()
        self.emit(s0, 'tempfile', args, None, inst)
        self.err(s0, (name, 0))
        if st.g.get('found', 0) >= 2:
            return [(s0, const(32, -1))]
        st.g['found'] = st.g.get('found', 0) + 1
        fd = sym('$fd%d' % st.seq, 32)
        st.f.rng[fd] = (0, (1 << 31) - 1)
        self.emit(st, 'tempfile', args, fd, inst)
        return [(st, fd), (s0, const(32, -1))]

    def do_open_temp_exec_file_done(self, st, args, inst, name):
        return [(st, None)]

    def do_statfs(self, st, args, inst, name):
        b, o = self.ai.split(st, args[1])
        s2 = st.copy()
        p = self.cstr(st, args[0])
        if p is None:
            return None
        if p in (b'/selinux', b'/sys/fs/selinux') and (self.sc.sel == 'fs' and p == b'/selinux' or self.sc.sel == 'mounts' and p != b'/selinux'):
            self.ai.write(st, b, o, 8, const(64, 0xf97cff8c))
            return [(st, const(32, 0))]
        self.ai.write(s2, b, o, 8, const(64, 0x01021994))
        self.errno(st, 2)
        return [(st, const(32, -1)), (s2, const(32, 0))]

    def do_fopen(self, st, args, inst, name):
        p = self.cstr(st, args[0])
        if p is None:
            return None
        st.seq += 1
        t = sym('$stream%d:%s' % (st.seq, p.decode()), 64, True, 16)
        st.g['pos', t] = 0
        return [(st, t)]

    def line(self, st, f):
        if f.op != 'sym' or not f.a[0].startswith('$stream'):
            return None
        k = st.g.get(('pos', f), 0)
        ls = self.sc.lines(f.a[0].split(':', 1)[1])
        if k >= len(ls):
            return ''
        st.g['pos', f] = k + 1
        return ls[k]

    def do_getline(self, st, args, inst, name):
        s = self.line(st, args[2])
        if s is None:
            return None
        if not s:
            return [(st, const(64, -1))]
        b, o = self.ai.split(st, args[0])
        self.ai.write(st, b, o, 8, self.text(s))
        return [(st, const(64, len(s)))]

    def do_fgets(self, st, args, inst, name):
        s = self.line(st, args[2])
        if s is None:
            return None
        if not s:
            return [(st, const(64, 0))]
        b, o = self.ai.split(st, args[0])
        for i, c in enumerate(s.encode() + b'\0'):
            self.ai.write(st, b, addc(o, i), 1, const(8, c))
        return [(st, args[0])]

    def do_feof(self, st, args, inst, name):
        f = args[0]
        if f.op != 'sym':
            return None
        return [(st, const(32, int(st.g.get(('pos', f), 0) >= len(self.sc.lines(f.a[0].split(':', 1)[1])))))]

    def two(self, st, args, n=None):
        a, b = self.cstr(st, args[0], n or 4096), self.cstr(st, args[1], n or 4096)
        return (a, b)

    def cmp(self, a, b):
        return [(a > b) - (a < b)]

    def do_strcmp(self, st, args, inst, name):
        a, b = self.two(st, args)
        return None if a is None or b is None else [(st, const(32, (a > b) - (a < b)))]

    def do_strncmp(self, st, args, inst, name):
        if not isc(args[2]):
            return None
        a, b = self.two(st, args, cv(args[2]))
        return None if a is None or b is None else [(st, const(32, (a > b) - (a < b)))]

    do_memcmp = do_strncmp

    def do_strchr(self, st, args, inst, name):
        a = self.cstr(st, args[0])
        if a is None or not isc(args[1]):
            return None
        i = (a + b'\0').find(bytes([cv(args[1]) & 255]))
        return [(st, addc(args[0], i) if i >= 0 else const(64, 0))]

    def do_strstr(self, st, args, inst, name):
        a, b = self.two(st, args)
        if a is None or b is None:
            return None
        i = a.find(b)
        return [(st, addc(args[0], i) if i >= 0 else const(64, 0))]

    def do_strlen(self, st, args, inst, name):
        a = self.cstr(st, args[0])
        return None if a is None else [(st, const(64, len(a)))]

    def do_strrchr(self, st, args, inst, name):
        a = self.cstr(st, args[0])
        if a is None or not isc(args[1]):
            return None
        i = (a + b'\0').rfind(bytes([cv(args[1]) & 255]))
        return [(st, addc(args[0], i) if i >= 0 else const(64, 0))]

    def do_strnlen(self, st, args, inst, name):
        a = self.cstr(st, args[0])
        return None if a is None or not isc(args[1]) else [(st, const(64, min(len(a), cv(args[1]))))]

    def do_memchr(self, st, args, inst, name):
        if not isc(args[1]) or not isc(args[2]):
            return None
        for i in range(cv(args[2])):
            c = self.byte(st, args[0], i)
            if c is None:
                return None
            if c == cv(args[1]) & 255:
                return [(st, addc(args[0], i))]
        return [(st, const(64, 0))]

    def puts(self, st, p, s):
        b, o = self.ai.split(st, p)
        if b is None:
            return False
        for i, c in enumerate(s):
            self.ai.write(st, b, addc(o, i), 1, const(8, c))
        return True

    def copy_text(self, st, args, at, n, r):
        a = self.cstr(st, args[1])
        if a is None or at is None:
            return None
        s = (a + b'\0') if n is None else (a + b'\0' * n)[:n]
        return [(st, addc(args[0], r(a) if r else 0))] if self.puts(st, addc(args[0], at), s) else None

    def do_strcpy(self, st, args, inst, name):
        return self.copy_text(st, args, 0, None, None)

    def do_stpcpy(self, st, args, inst, name):
        return self.copy_text(st, args, 0, None, len)

    def do_strncpy(self, st, args, inst, name):
        return self.copy_text(st, args, 0, cv(args[2]), None) if isc(args[2]) and cv(args[2]) < 8192 else None

    def do_strcat(self, st, args, inst, name):
        a = self.cstr(st, args[0])
        return self.copy_text(st, args, None if a is None else len(a), None, None)

    def do_mempcpy(self, st, args, inst, name):
        if not isc(args[2]) or cv(args[2]) > 8192:
            return None
        bs = [self.byte(st, args[1], i) for i in range(cv(args[2]))]
        return [(st, addc(args[0], len(bs)))] if None not in bs and self.puts(st, args[0], bytes(bs)) else None

    def format(self, st, fmt, args):
        out = b''
        args = list(args)
        for m in re.finditer(rb'%(?:(\.\*)?(s)|(?:l|ll|z|h)?([diux])|(%))|([^%]+)|(%)', fmt):
            if m[6]:
                return None
            if m[5]:
                out += m[5]
            elif m[4]:
                out += b'%'
            else:
                n = args.pop(0) if m[1] and args else None
                a = args.pop(0) if args else None
                if a is None or n is not None and not isc(n):
                    return None
                if m[2]:
                    t = self.cstr(st, a)
                    if t is None:
                        return None
                    out += t if n is None else t[:cv(n)]
                elif not isc(a):
                    return None
                else:
                    out += (b'%x' if m[3] == b'x' else b'%d') % (cv(a) if m[3] in b'ux' else sgn(cv(a), a.w))
        return out

    def print(self, st, dst, size, fmt, args, inst):
        f = self.cstr(st, fmt)
        t = None if f is None else self.format(st, f, args)
        if t is None:
            return None
        s = t + b'\0'
        if size is not None:
            if not isc(size):
                return None
            n = cv(size)
            if 0 < n < len(s):
                s = s[:n - 1] + b'\0'
            elif n == 0:
                s = b''
        return [(st, const(32, len(t)))] if self.puts(st, dst, s) else None

    def do_snprintf(self, st, args, inst, name):
        k = 4 if name.endswith('_chk') else 2
        return self.print(st, args[0], args[1], args[k], args[k + 1:], inst)

    def do_sprintf(self, st, args, inst, name):
        k = 3 if name.endswith('_chk') else 1
        return self.print(st, args[0], None, args[k], args[k + 1:], inst)

    # ---- the C library's own heap (not the one handing out closures)
    def do_malloc(self, st, args, inst, name):
        st.seq += 1
        s0 = st.copy()
        t = sym('$heap%d' % st.seq, 64, True, 16)
        self.err(s0, (name, 12))
        self.errno(s0, 12)
        return [(st, t), (s0, const(64, 0))]

    def do_calloc(self, st, args, inst, name):
        if not isc(args[0]) or not isc(args[1]) or cv(args[0]) * cv(args[1]) > 8192:
            return None
        r = self.do_malloc(st, args, inst, name)
        self.puts(st, r[0][1], bytes(cv(args[0]) * cv(args[1])))
        return r

    def do_strdup(self, st, args, inst, name):
        a = self.cstr(st, args[0])
        if a is None:
            return None
        r = self.do_malloc(st, args, inst, name)
        self.puts(st, r[0][1], a + b'\0')
        return r

    def do_strndup(self, st, args, inst, name):
        a = self.cstr(st, args[0])
        if a is None or not isc(args[1]):
            return None
        r = self.do_malloc(st, args, inst, name)
        self.puts(st, r[0][1], a[:cv(args[1])] + b'\0')
        return r

    def do_mmap(self, st, args, inst, name):
        bad = self.fail(st, 'mmap', args, inst, const(64, -1), self.maperrs(st, args))
        st.seq += 1
        fixed = isc(args[3]) and cv(args[3]) & FIXED
        o = args[0] if fixed else sym('$map%d' % st.seq, 64, True, PAGE)
        self.emit(st, 'mmap', args, o, inst)
        good = [(st, o)]
        prot = cv(args[2]) if isc(args[2]) else None
        if prot is not None and prot & (W | X) == W | X and not self.sc.permits():
            good = []           # the system refuses
        return good + bad

    def maperrs(self, st, args):
        return (EPERM, EACCES, ENOMEM) if isc(args[2]) and cv(args[2]) & (W | X) == W | X else (ENOMEM,)

    def do_munmap(self, st, args, inst, name):
        self.emit(st, 'munmap', args, None, inst)
        return [(st, const(32, 0))]

    def do_mprotect(self, st, args, inst, name):
        self.emit(st, name, args, None, inst)
        return [(st, const(32, 0)), (st.copy(), const(32, -1))]

    do_pkey_mprotect = do_mprotect

    def do_mremap(self, st, args, inst, name):
        st.seq += 1
        self.emit(st, name, args, None, inst)
        return [(st, sym('$map%d' % st.seq, 64, True, PAGE))]

    def do_ftruncate(self, st, args, inst, name):
        self.emit(st, 'ftruncate', args, None, inst)
        s = st.copy()
        self.err(s, (name, 5))
        return [(st, const(32, 0)), (s, const(32, -1))]

    def fpos(self, st, fd):
        """position in an open file: 0 in a new one, unknown in one kept from before"""
        fd = st.f.norm(fd)
        p = st.g.get(('fpos', fd))
        if p is None:
            p = sym('$fpos', 64) if fd.op == 'sym' and '.' in fd.a[0] else const(64, 0)
        return p

    def do_lseek(self, st, args, inst, name):
        wh = cv(args[2]) if isc(args[2]) else None
        st.seq += 1
        p = args[1] if wh == 0 else add(self.fpos(st, args[0]), args[1]) if wh == 1 else sym('$seek%d' % st.seq, 64)
        st.g['fpos', st.f.norm(args[0])] = p
        self.emit(st, 'lseek', args, None, inst)
        return [(st, p)]

    def do_write(self, st, args, inst, name):
        s = st.copy()
        p = self.fpos(st, args[0])
        n = st.f.zext(args[2], 64) if args[2].w < 64 else args[2]
        self.emit(st, 'write', [args[0], p, n], args[2], inst)
        st.g['fpos', st.f.norm(args[0])] = add(p, n)
        self.err(s, ('write', 28))
        self.emit(s, 'write', [args[0], p, n], None, inst)
        self.errno(s, 28)
        return [(st, args[2]), (s, const(64, -1))]

    def do_pwrite(self, st, args, inst, name):
        s = st.copy()
        self.emit(st, 'write', [args[0], args[3], args[2]], args[2], inst)
        self.err(s, ('write', 28))
        self.emit(s, 'write', [args[0], args[3], args[2]], None, inst)
        self.errno(s, 28)
        return [(st, args[2]), (s, const(64, -1))]

    def do_posix_fallocate(self, st, args, inst, name):
        s = st.copy()
        self.emit(st, 'write', args, args[2], inst)
        self.err(s, ('fallocate', 28))
        return [(st, const(32, 0)), (s, const(32, 28))]

    def do_fallocate(self, st, args, inst, name):
        s = st.copy()
        self.emit(st, 'write', [args[0], args[2], args[3]], args[3], inst)
        self.err(s, ('fallocate', 28))
        self.errno(s, 28)
        return [(st, const(32, 0)), (s, const(32, -1))]

    def do_close(self, st, args, inst, name):
        self.emit(st, 'close', args, None, inst)
        return [(st, const(32, 0))]


def settle(d, c, rule):
    """what a function of unknown effect takes part in is not decided: neither kept nor broken"""
    w = {n: p for n, p in c.unknown.items() if n not in HARMLESS}
    for n, p in w.items():
        d['unsure'].append((rule, p, 'effect of %s is unknown' % n))
    if w:
        for r, p, msg in d['viol']:
            d['unsure'].append((r, p, 'after %s, unknown: %s' % (', '.join(sorted(w)), msg)))
        d['viol'] = []


HARMLESS = {'madvise', 'posix_madvise', 'prctl', 'fchmod', 'fsync', 'fdatasync', 'msync', 'posix_fadvise', 'getpid', 'getuid', 'sched_yield',
            'pthread_self', 'pthread_setcancelstate', 'abs', 'time', 'clock', 'rand', 'random', 'umask', 'setlinebuf', '__cxa_finalize'}


def boundary(ms):
    """(functions the allocator gets memory from, functions it gives it back with, call sites): called by
    functions of dlmalloc.c, defined outside of it, and reaching mmap or munmap"""
    fs = {}
    for m in ms:
        for n, f in m.funcs.items():
            if not f.decl:
                fs[n] = f
    home = {}
    calls = {}
    for n, f in fs.items():
        c = {}
        for b in f.blocks:
            for I in b.insts:
                if I.file:
                    c[I.file] = c.get(I.file, 0) + 1
        home[n] = max(c, key=c.get) if c else ''
        calls[n] = {I.callee.name for b in f.blocks for I in b.insts if I.op == 'call' and I.callee is not None and I.callee.k == 'func'}

    def reaches(n, what, seen):
        if n in seen or n not in calls:
            return False
        seen.add(n)
        return bool(calls[n] & what) or any(reaches(x, what, seen) for x in calls[n])
    maps, unmaps, sites = set(), set(), {}
    direct = []
    for n, f in fs.items():
        if not home[n].endswith('dlmalloc.c'):
            continue
        for b in f.blocks:
            for I in b.insts:
                if I.op != 'call' or I.callee is None or I.callee.k != 'func':
                    continue
                t = I.callee.name
                if t in ('mmap', 'mmap64', 'mremap', 'mprotect', 'munmap', 'sbrk'):
                    direct.append((t, I))
                    continue
                if t in fs and not home[t].endswith('dlmalloc.c'):
                    if reaches(t, {'mmap', 'mmap64'}, set()):
                        maps.add(t)
                        sites.setdefault(t, []).append(I)
                    elif reaches(t, {'munmap'}, set()):
                        unmaps.add(t)
                        sites.setdefault(t, []).append(I)
    return maps, unmaps, sites, direct


def unit():
    """closures.c (with dlmalloc.c in it), irreducible loops (goto into a branch) made reducible"""
    global _unit
    if _unit is None:
        _unit = [llvmc.Module(build.get().bitcode(CLOSURES, passes='sroa,fix-irreducible'))]
    return _unit


def machine(sc, cls=OS):
    c = cls(sc)
    ai = irai.AI(unit(), c)
    c.ai = ai
    return c, ai
