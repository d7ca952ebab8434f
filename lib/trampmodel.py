"""The trampoline bookkeeping (src/tramp.c), interpreted through its internal interface
(ffi_tramp_alloc, ffi_tramp_free, ffi_tramp_set_parms, ffi_tramp_get_addr) with the
operating system modelled: every call of it may succeed or fail."""
import re
from abi import *
import irai
from place import need
from common import mods, FFI64

TRAMP = 'src/tramp.c'
CLOSURES = 'src/closures.c'


class TM(irai.Client):
    fail = False            # explore failures of the operating system too

    def __init__(self):
        self.ends = []

    def init_load(self, st, base, off, n, isptr, inst):
        g = getattr(self.ai, 'globs', {}).get(base)
        if g is not None and isc(off):
            v = g[0].globals.get(g[1])
            if v is not None and v.init is not None:
                return self.ai.ginit(st, v.init, cv(off), n, g[0])
        return None

    def alts(self, st, good, bad):
        """outcome of an operating system call: success always possible, failure when asked for"""
        out = [(st, good)]
        if self.fail:
            s = st.copy()
            out.append((s, bad))
        return out

    def obj(self, st, what, al=16, n=None):
        k = '_n' + what
        i = st.g.get(k, 0)
        st.g[k] = i + 1
        t = sym('$%s%d' % (what, i), 64, True, al)
        st.mem.setdefault(t, ())
        return t

    def ev(self, ai, st, name, args, ret, inst):
        ai.emit(st, irai.Ev('call', inst, name=name, args=tuple(args), ret=ret))

    def cstr(self, ai, t):
        g = getattr(ai, 'globs', {}).get(t)
        if g is None:
            return None
        v = g[0].globals.get(g[1])
        b = bytearray()
        st = irai.St()
        for i in range(200):
            x = ai.ginit(st, v.init, i, 1, g[0]) if v is not None and v.init is not None else None
            if x is None or not isc(x):
                return None
            if cv(x) == 0:
                return b.decode('latin1')
            b.append(cv(x))
        return None

    def call(self, ai, st, name, fn, args, inst):
        R = lambda n, v=None: [(st, v)]
        if name in ('pthread_mutex_lock', 'pthread_mutex_unlock'):
            self.ev(ai, st, name, args, None, inst)
            return [(st, const(32, 0))]
        if name in ('malloc', 'calloc'):
            outs = []
            s0 = st.copy()
            o = self.obj(st, 'heap')
            sz = args[0] if name == 'malloc' else mul(args[0], args[1])
            if name == 'calloc':
                ai.memset(st, o, const(8, 0), sz, inst)
            self.ev(ai, st, 'malloc', [sz], o, inst)
            outs.append((st, o))
            if self.fail:
                self.ev(ai, s0, 'malloc', [sz], None, inst)
                outs.append((s0, const(64, 0)))
            return outs
        if name == 'free':
            self.ev(ai, st, 'free', args, None, inst)
            return [(st, None)]
        if name in ('mmap', 'mmap64'):
            outs = []
            s0 = st.copy()
            fixed = isc(args[3]) and cv(args[3]) & 0x10
            o = args[0] if fixed else self.obj(st, 'map', 4096)
            self.ev(ai, st, 'mmap', args, o, inst)
            outs.append((st, o))
            if self.fail:
                self.ev(ai, s0, 'mmap', args, None, inst)
                outs.append((s0, const(64, -1)))
            return outs
        if name == 'munmap':
            self.ev(ai, st, name, args, None, inst)
            return [(st, const(32, 0))]
        if name == 'sysconf':
            return [(st, const(64, 4096))]
        if name in ('open', 'open64', 'open_temp_exec_file'):
            st.seq += 1
            s0 = st.copy()
            fd = sym('$fd%d' % st.seq, 32)
            st.f.rng[fd] = (0, (1 << 31) - 1)
            self.ev(ai, st, 'open', [name] + list(args), fd, inst)
            outs = [(st, fd)]
            if self.fail:
                self.ev(ai, s0, 'open', [name] + list(args), None, inst)
                outs.append((s0, const(32, -1)))
            return outs
        if name == 'close':
            self.ev(ai, st, name, args, None, inst)
            return [(st, const(32, 0))]
        if name == 'write':
            st.seq += 1
            r = sym('$written%d' % st.seq, 64)
            self.ev(ai, st, name, args, r, inst)
            return [(st, r)]
        if name in ('pread', 'pread64'):
            st.seq += 1
            b, o = ai.split(st, args[1])
            if b is None:
                return None
            ai.havoc(st, b, 'pread%d' % st.seq)
            st.g.pop(('file', b), None)
            outs = [(st.copy(), const(64, -1)), (st.copy(), const(64, 0))]
            st.g['file', b] = (st.f.norm(o), st.f.norm(args[0]), st.f.norm(args[3]), st.f.norm(args[2]))
            self.ev(ai, st, name, args, args[2], inst)
            return [(st, args[2])] + outs
        if name in ('memcmp', 'bcmp'):
            st.seq += 1
            s0, v = st.copy(), sym('$differ%d' % st.seq, 32)
            s0.f.assume_ne(v, const(32, 0))
            self.ev(ai, st, 'same', [args[0], args[1], args[2], st.g.get(('file', ai.split(st, args[0])[0])), st.g.get(('file', ai.split(st, args[1])[0]))], const(32, 0), inst)
            return [(st, const(32, 0)), (s0, v)]
        if name in ('fopen', 'fopen64'):
            st.seq += 1
            s0 = st.copy()
            o = sym('$file%d' % st.seq, 64, True)
            self.ev(ai, st, 'fopen', args, o, inst)
            outs = [(st, o)]
            if self.fail:
                outs.append((s0, const(64, 0)))
            return outs
        if name == 'fclose':
            self.ev(ai, st, name, args, None, inst)
            return [(st, const(32, 0))]
        if name in ('feof', 'ferror', 'getpid', 'snprintf', 'sprintf', '__snprintf_chk'):
            st.seq += 1
            for a in args:
                b, o = ai.split(st, a) if a is not None and a.w == 64 else (None, None)
                if b is not None and b.op == 'sym' and b.a[0][0] == '%':
                    ai.havoc(st, b, '%s%d' % (name, st.seq))
            return [(st, sym('$%s%d' % (name, st.seq), inst.ty.w or 32))]
        if name in ('fgets',):
            st.seq += 1
            b, o = ai.split(st, args[0])
            ai.havoc(st, b, 'fgets%d' % st.seq)
            s0 = st.copy()
            return [(st, args[0]), (s0, const(64, 0))]
        m = re.match(r'(?:__isoc\d+_)?sscanf$', name)
        if m:
            fmt = self.cstr(ai, args[1])
            if fmt is None:
                return None
            conv = re.findall(r'%(\*?)\d*(hh|h|ll|l|z|j)?([a-z])', fmt)
            st.seq += 1
            k = 2
            for i, (skip, ln, c) in enumerate(conv):
                if skip:
                    continue
                b, o = ai.split(st, args[k])
                k += 1
                if c == 's':
                    ai.havoc(st, b, 'scan%d' % st.seq)
                else:
                    w = {'l': 8, 'll': 8, 'z': 8, 'j': 8, 'h': 2, 'hh': 1}.get(ln, 4)
                    v = sym('$scan%d.%d' % (i, st.seq), 8 * w)
                    if w == 8:
                        st.f.rng[v] = (0, 1 << 47)
                    ai.write(st, b, o, w, v)
            return [(st, sym('$fields%d' % st.seq, 32))]
        return None

    def end(self, ai, kind, st, inst):
        self.ends.append((kind, irai.where(inst)))


def machine(fail=False):
    c = TM()
    c.fail = fail
    ai = irai.AI(mods(TRAMP, FFI64), c)
    c.ai = ai
    ai.unroll_cap = 2200
    ai.max_steps = 8000000
    return c, ai


def call(ai, st, name, *args):
    return ai.run(need(ai.mods, name), st, list(args))
