"""The code that reads what the system says (files under /proc, lists of mounts, the
environment), interpreted with every text unknown: a line is any terminated string, any
call may fail, a scan may stop at any field."""
import itertools
import re
from abi import *
import irai
from common import Broken

STREAM = 'only streams that were opened are used'
TEXT = 'only text that was obtained is read'
FITS = 'text and copies fit the buffers they are written to'
VALUE = 'only values that were obtained are used'
DEREF = 'no pointer a failed call returned is dereferenced'
RULES = [STREAM, TEXT, FITS, VALUE, DEREF]
BIG = 1 << 30


def witness(f, q):
    """can q >= 0 hold?  A small assignment of the free lengths and positions that satisfies all that is known about them"""
    c, p = q
    lits = [(c, tuple(p))]
    at = []
    more = [a for a, _ in p]
    while more:
        a = more.pop()
        if a in at:
            continue
        if a.op != 'sym' or a.a[0].split('.')[0].rstrip('0123456789') not in ('$len', '$at', '$opt'):
            return False
        at.append(a)
        for l in f.ge:
            if any(b is a for b, _ in l[1]) and l not in lits:
                lits.append(l)
                more += [b for b, _ in l[1]]
    if len(at) > 5:
        return False
    for vs in itertools.product(range(10), repeat=len(at)):
        d = dict(zip(at, vs))
        if all(f.arange(a)[0] <= v <= f.arange(a)[1] and v not in f.exc.get(a, ()) for a, v in d.items()) and \
                all(l[0] + sum(k * d[a] for a, k in l[1]) >= 0 for l in lits):
            return True
    return False


class Text(irai.Client):
    def __init__(self):
        self.bad, self.doubt, self.n = {}, {}, {}
        self.unknown = {}
        self.lits = {}

    # ---- verdicts (undone when a loop is tried again)
    def mark(self):
        return dict(self.bad), dict(self.doubt)

    def reset(self, m):
        self.bad, self.doubt = dict(m[0]), dict(m[1])

    def viol(self, rule, inst, msg):
        self.bad.setdefault((rule, irai.where(inst)), msg)

    def unsure(self, rule, inst, msg):
        self.doubt.setdefault((rule, irai.where(inst)), msg)

    def good(self, rule, inst):
        self.n.setdefault(rule, set()).add((inst.fn.name, inst.bb.idx, inst.idx))

    def end(self, ai, kind, st, inst):
        if kind == 'null':
            self.viol(DEREF, inst, 'the address is a constant: the call that should deliver it failed')

    def unset(self, ai, st, inst, addr):
        self.viol(VALUE, inst, 'an address depends on a variable nobody set: %s' % addr)

    def branched(self, ai, st, inst, cnd):
        if irai.unset(cnd):
            self.viol(VALUE, inst, 'a decision depends on what no successful call delivered: %s' % cnd)
        else:
            self.good(VALUE, inst)

    def event(self, ai, st, ev):
        if ev.k in ('store', 'copy', 'set'):
            if ev.base.op == 'sym' and ev.base.a[0][0] == '@' and ev.k == 'store' and irai.unset(ev.val):
                self.viol(VALUE, ev.inst, 'what no successful call delivered is kept: %s' % ev.val)
            self.fits(st, ev.base, ev.off, ev.n, ev.inst)

    # ---- sizes
    def size(self, st, b):
        s = st.g.get(('_sz', b))
        if s is not None:
            return st.f.norm(s)
        g = getattr(self.ai, 'globs', {}).get(b)
        if g is not None:
            v = g[0].globals.get(g[1])
            if v is not None and v.ty is not None and not v.decl:
                return const(64, v.ty.asize)
        return None

    def fits(self, st, b, off, n, inst):
        sz = self.size(st, b) if b is not None else None
        if sz is None:
            return
        off, n = st.f.norm(off), st.f.norm(st.f.zext(n, 64))
        i = st.f._int(off, True), st.f._int(sub(sz, add(off, n)), True)
        if all(x and st.f.pge(*x) for x in i):
            self.good(FITS, inst)
            return
        T = lambda a, b: st.f.truth(ltb(a, b, True, st.f))
        if isc(off) and cv(off) == 0 and (T(sz, n) is False or T(n, sz)) and (T(const(64, 0), n) or T(n, const(64, 0)) is False):
            self.good(FITS, inst)
            return
        neg_ = [st.f._int(addc(sub(add(off, n), sz), -1), True), st.f._int(addc(neg(off), -1), True)]
        (self.viol if any(x and st.f.pge(*x) for x in neg_) else self.unsure)(FITS, inst, '%s bytes at offset %s of an object of %s' % (n, off, sz))

    # ---- strings
    def lit(self, t):
        if t in self.lits:
            return self.lits[t]
        g = getattr(self.ai, 'globs', {}).get(t)
        v = g[0].globals.get(g[1]) if g else None
        out = None
        if v is not None and v.init is not None:
            st = irai.St()
            bs = bytearray()
            for i in range(v.ty.asize):
                x = self.ai.ginit(st, v.init, i, 1, g[0])
                if x is None or not isc(x):
                    break
                bs.append(cv(x))
            else:
                out = bytes(bs)
        self.lits[t] = out
        return out

    def literal(self, st, p):
        """the constant string p points to"""
        b, o = self.ai.split(st, st.f.norm(p))
        if b is None or not isc(st.f.norm(o)):
            return None
        s = self.lit(b)
        if s is None or b'\0' not in s[cv(o):]:
            return None
        return s[cv(o):s.index(b'\0', cv(o))]

    def length(self, t):
        return sym('$len.%s' % t.a[0], 64)

    def line(self, st, what, lo=0):
        st.seq += 1
        t = sym('$line%d.%s' % (st.seq, what), 64, True, 1)
        st.mem.setdefault(t, ())
        st.f.rng[self.length(t)] = (lo, BIG)
        return t

    def top(self, st, b):
        log = st.mem.get(b, ())
        return log[-1] if log else None

    def string(self, st, p, inst, what):
        """p must point to a terminated string that was obtained; -> (base, offset, length of the whole or None)"""
        p = st.f.norm(p)
        if p.op == 'ite':
            return None
        if isc(p):
            self.viol(TEXT, inst, '%s is given the pointer %s' % (what, cv(p)))
            return None
        if irai.unset(p):
            self.viol(TEXT, inst, '%s is given a pointer nobody set: %s' % (what, p))
            return None
        if p.op == 'sym' and p.a[0].startswith('$bad'):
            self.viol(TEXT, inst, '%s is given the text of a call that failed' % what)
            return None
        b, o = self.ai.split(st, p)
        if b is None:
            self.unsure(TEXT, inst, '%s is given %s' % (what, p))
            return None
        o = st.f.norm(o)
        if b.op == 'sym' and b.a[0].startswith('$bad'):
            self.viol(TEXT, inst, '%s is given the text of a call that failed' % what)
            return None
        if b.op == 'sym' and b.a[0].startswith('$line'):
            n = self.length(b)
            lo, hi = st.f._int(o, True), st.f._int(sub(n, o), True)
            if lo and hi and st.f.pge(*lo) and st.f.pge(*hi):
                self.good(TEXT, inst)
                return b, o, n
            over = st.f._int(addc(sub(o, n), -1), True)
            (self.viol if over and (st.f.pge(*over) or witness(st.f, over)) else self.unsure)(
                TEXT, inst, '%s is given a pointer to offset %s of a text that may have only %s characters' % (what, o, n))
            return None
        s = self.lit(b)
        if s is not None:
            self.good(TEXT, inst)
            return b, o, const(64, len(s) - 1)
        e = self.top(st, b)
        if b.op == 'sym' and b.a[0][0] == '%':
            if e is None:
                self.viol(TEXT, inst, '%s is given a buffer nobody wrote to' % what)
                return None
            if e[0] == 'hv' and isinstance(e[3], str) and e[3].startswith('bad'):
                self.viol(TEXT, inst, '%s is given a buffer the last call left without text' % what)
                return None
            if e[0] == 'hv' and isinstance(e[3], str) and e[3].startswith('text'):
                self.good(TEXT, inst)
                return b, o, None
            if any(x[0] in ('cp', 'st', 'set') for x in st.mem[b]):
                self.good(TEXT, inst)       # built piece by piece; what it says is C18's
                return b, o, None
        self.unsure(TEXT, inst, '%s is given %s' % (what, p))
        return None

    def bound(self, st, p):
        """upper bound of the length of the string at p, or None"""
        b, o = self.ai.split(st, st.f.norm(p))
        e = self.top(st, b) if b is not None else None
        if e is not None and e[0] == 'hv' and isinstance(e[3], str) and e[3].startswith('text'):
            m = re.match(r'text\d+:(\d+)$', e[3])
            return int(m[1]) if m else None
        s = self.literal(st, p)
        return len(s) if s is not None else None

    def content(self, st, p, tag):
        b, o = self.ai.split(st, st.f.norm(p))
        if b is not None:
            st.seq += 1
            self.ai.havoc(st, b, tag.replace('#', str(st.seq)))

    def char(self, st, b, off, inst):
        """one character of a text: the terminator exactly at its end"""
        n = self.length(b)
        off = st.f.norm(off)
        over = st.f._int(addc(sub(off, n), -1), True)
        if over and (st.f.pge(*over) or witness(st.f, over)):
            self.viol(TEXT, inst, 'a character at offset %s of a text that may have only %s is read' % (off, n))
        v = atom('init', 8, b, off)
        t = st.f.eq(off, n)
        if t is None and self.ai.active and self.ai.active[-1].mode == 'unroll':
            raise irai.Undecided()      # the loop goes on as the text does
        out = []
        if t is not True:
            s = st.copy()
            d = s.f._int(addc(sub(n, off), -1), True)
            if (d is None or s.f.add_ge(*d)) and s.f.assume_ne(v, const(8, 0)):
                out.append((s, v))
        if t is not False and st.f.assume_eq(off, n):
            out.append((st, const(8, 0)))
        return out

    # ---- streams
    def opened(self, st, args, inst, name):
        self.string(st, args[0], inst, name)
        st.seq += 1
        s = st.copy()
        return [(st, sym('$stream%d' % st.seq, 64, True, 16)), (s, const(64, 0))]

    def stream(self, st, p, inst, name):
        p = st.f.norm(p)
        if isc(p):
            self.viol(STREAM, inst, '%s is given %s: the stream could not be opened' % (name, 'NULL' if cv(p) == 0 else hex(cv(p))))
            return False
        if irai.unset(p):
            self.viol(STREAM, inst, '%s is given a stream nobody set' % name)
            return False
        if p.op == 'sym' and p.a[0].startswith('$stream'):
            self.good(STREAM, inst)
        elif st.f.eq(p, const(64, 0)) is False:
            self.good(STREAM, inst)         # kept from an earlier call, found not to be null (C17: not closed either)
        else:
            self.unsure(STREAM, inst, '%s is given %s' % (name, p))
        return True

    # ---- calls
    def call(self, ai, st, name, fn, args, inst):
        nm = re.sub(r'64$|^__isoc\d+_|^__|_chk$|^IO_', '', name)
        if fn is None or getattr(self, 'over_' + nm, None):
            m = getattr(self, 'over_' + nm, None) or getattr(self, 'do_' + nm, None)
            if m is not None:
                return m(st, args, inst, name)
            if fn is None and name not in irai.NORETURN and not name.startswith('llvm.') and nm not in ('memcpy', 'memmove', 'memset'):
                self.unknown.setdefault(name, irai.where(inst))
        return None

    def zero(self, st, args, inst, name):
        return [(st, const(inst.ty.w, 0) if inst.ty.kind == 'int' else None)]

    do_pthread_mutex_lock = do_pthread_mutex_unlock = do_pthread_mutex_init = do_free = do_close = do_munmap = do_fcntl = zero

    def number(self, st, name, w, lo=None, hi=None):
        st.seq += 1
        v = sym('$%s%d' % (name, st.seq), w)
        if lo is not None:
            st.f.rng[v] = (lo, hi)
        return v

    def any(self, st, args, inst, name):
        return [(st, self.number(st, name, inst.ty.w))]

    do_getpid = do_ftruncate = do_lseek = do_fileno = do_posix_fallocate = any

    def do_write(self, st, args, inst, name):
        b, o = self.ai.split(st, st.f.norm(args[1]))
        e = self.top(st, b) if b is not None else None
        if b is not None and b.op == 'sym' and b.a[0][0] == '%' and e is None:
            self.viol(TEXT, inst, '%s is given a buffer nobody wrote to' % name)
        self.fits(st, b, o, args[2], inst)
        s = st.copy()
        return [(st, st.f.zext(args[2], 64)), (s, const(64, -1))]

    def do_pread(self, st, args, inst, name):
        b, o = self.ai.split(st, st.f.norm(args[1]))
        self.fits(st, b, o, args[2], inst)
        s = st.copy()
        self.content(st, args[1], 'data#')
        self.content(s, args[1], 'bad#')
        return [(st, st.f.zext(args[2], 64)), (s, const(64, -1))]

    def do_read(self, st, args, inst, name):
        return self.do_pread(st, args, inst, name)

    def do_memcmp(self, st, args, inst, name):
        for p in args[:2]:
            b, o = self.ai.split(st, st.f.norm(p))
            e = self.top(st, b) if b is not None else None
            if b is not None and b.op == 'sym' and b.a[0][0] == '%' and (e is None or e[0] == 'hv' and str(e[3]).startswith('bad')):
                self.viol(TEXT, inst, '%s is given a buffer the last call left without content' % name)
        return self.any(st, args, inst, name)

    do_bcmp = do_memcmp

    def do_sysconf(self, st, args, inst, name):
        return [(st, const(inst.ty.w, 4096))]

    do_getpagesize = do_sysconf

    def do_errno_location(self, st, args, inst, name):
        return [(st, sym('$errno', 64, True, 4))]

    def do_fopen(self, st, args, inst, name):
        return self.opened(st, args, inst, name)

    do_setmntent = do_fopen

    def do_fclose(self, st, args, inst, name):
        if not self.stream(st, args[0], inst, name):
            return []
        return self.any(st, args, inst, name) if inst.ty.kind == 'int' else [(st, None)]

    do_endmntent = do_feof = do_ferror = do_clearerr = do_rewind = do_fclose

    def do_fgets(self, st, args, inst, name):
        if not self.stream(st, args[2], inst, name):
            return []
        b, o = self.ai.split(st, st.f.norm(args[0]))
        n = st.f.norm(args[1])
        self.fits(st, b, o, n, inst)
        s = st.copy()
        self.content(st, args[0], 'text#:%d' % (cv(n) - 1) if isc(n) else 'text#')
        self.content(s, args[0], 'bad#')
        return [(st, args[0]), (s, const(64, 0))]

    def do_getline(self, st, args, inst, name):
        if not self.stream(st, args[-1], inst, name):
            return []
        b, o = self.ai.split(st, st.f.norm(args[0]))
        s = st.copy()
        t = self.line(st, 'line', 1)
        self.ai.write(st, b, o, 8, t)
        s.seq = st.seq
        self.ai.write(s, b, o, 8, sym('$bad%d' % s.seq, 64, True, 1))
        for x in (st, s):
            b2, o2 = self.ai.split(x, x.f.norm(args[1]))
            self.ai.write(x, b2, o2, 8, self.number(x, 'cap', 64))
        n = self.length(t)
        return [(st, n), (s, const(64, -1))]

    do_getdelim = do_getline

    def found(self, st, b, o, n, what):
        """a pointer to a character of the string at b + o, and null"""
        s = st.copy()
        st.seq += 1
        k = sym('$%s%d' % (what, st.seq), 64)
        st.f.rng[k] = (0, BIG)
        d = st.f._int(sub(n, add(o, addc(k, 1))), True)
        out = []
        if d is None or st.f.add_ge(*d):
            out.append((st, add(b, add(o, k))))
        return out + [(s, const(64, 0))]

    def do_strchr(self, st, args, inst, name):
        r = self.string(st, args[0], inst, name)
        c = st.f.norm(args[1])
        if r is None or r[2] is None:
            return []
        b, o, n = r
        if isc(c) and cv(c) & 255 == 0 and name != 'strstr':
            return [(st, add(b, n))]
        return self.found(st, b, o, n, 'at')

    do_strrchr = do_strchr

    def do_strstr(self, st, args, inst, name):
        if self.string(st, args[1], inst, name) is None:
            return []
        r = self.string(st, args[0], inst, name)
        if r is None or r[2] is None:
            return []
        return self.found(st, *r, what='at')

    def do_strncmp(self, st, args, inst, name):
        x, y = self.string(st, args[0], inst, name), self.string(st, args[1], inst, name)
        if x is None or y is None:
            return []
        s, v = st.copy(), self.number(st, 'cmp', inst.ty.w)
        s.seq = st.seq
        s.f.assume_ne(v, const(inst.ty.w, 0))
        out = [(s, v)]
        okay = True
        for r, other in ((x, args[1]), (y, args[0])):
            l = self.literal(st, other)
            if l is not None and r[2] is not None:
                n = len(l)
                if len(args) > 2:
                    m = st.f.norm(args[2])
                    n = min(n, cv(m)) if isc(m) else 0
                d = st.f._int(addc(sub(r[2], r[1]), -n), True)
                okay = okay and (d is None or st.f.add_ge(*d))
        if okay:
            out.append((st, const(inst.ty.w, 0)))
        return out

    do_strcmp = do_strncmp

    def do_strlen(self, st, args, inst, name):
        r = self.string(st, args[0], inst, name)
        if r is None:
            return []
        if r[2] is None:
            return [(st, self.number(st, 'strlen', 64, 0, BIG))]
        return [(st, sub(r[2], r[1]))]

    def conv(self, fmt):
        return re.findall(r'%(?:%|([-+ #0]*)(\*|\d*)(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z]))', fmt)

    def do_snprintf(self, st, args, inst, name):
        chk = name.startswith('__')
        n = st.f.norm(args[1])
        fa = 4 if chk else 2
        b, o = self.ai.split(st, st.f.norm(args[0]))
        self.formatted(st, args[fa:], inst, name)
        self.fits(st, b, o, n, inst)
        self.content(st, args[0], 'text#:%d' % (cv(n) - 1) if isc(n) and cv(n) else 'text#')
        return self.any(st, args, inst, name)

    def formatted(self, st, args, inst, name):
        """checks the arguments; -> most characters it can give, or None"""
        f = self.literal(st, args[0])
        if f is None:
            self.string(st, args[0], inst, name)
            return None
        tot, k = len(re.sub(r'%[^a-zA-Z%]*(hh|h|ll|l|z|j|t)?[a-zA-Z%]', '', f.decode('latin1'))), 1
        for fl, w, p, ln, c in self.conv(f.decode('latin1')):
            if not c:
                tot += 1
                continue
            if k >= len(args):
                self.viol(VALUE, inst, '%s has fewer arguments than its format' % name)
                return None
            a = args[k]
            k += 1
            if c == 's':
                if self.string(st, a, inst, name) is None:
                    return None
                m = self.bound(st, a)
                if p.isdigit():
                    m = min(int(p), m) if m is not None else int(p)
                if m is None or tot is None:
                    tot = None
                else:
                    tot += m
            else:
                if irai.unset(a):
                    self.viol(VALUE, inst, '%s prints what nobody set' % name)
                if tot is not None:
                    tot += max(21, int(w) if w.isdigit() else 0)
        return tot

    def do_sprintf(self, st, args, inst, name):
        chk = name.startswith('__')
        b, o = self.ai.split(st, st.f.norm(args[0]))
        tot = self.formatted(st, args[3 if chk else 1:], inst, name)
        if tot is None:
            self.unsure(FITS, inst, 'how much %s writes' % name)
            self.content(st, args[0], 'text#')
        else:
            self.fits(st, b, o, const(64, tot + 1), inst)
            self.content(st, args[0], 'text#:%d' % tot)
        return self.any(st, args, inst, name)

    def do_sscanf(self, st, args, inst, name):
        if self.string(st, args[0], inst, name) is None:
            return []
        f = self.literal(st, args[1])
        if f is None:
            return None
        most = self.bound(st, args[0])
        cs = re.findall(r'%(\*?)(\d*)(hh|h|ll|l|z|j|t)?([a-zA-Z]|\[\^?\]?[^\]]*\])', f.decode('latin1').replace('%%', ''))
        if any(c == 'n' for _, _, _, c in cs):
            return None
        cs = [(w, ln, c) for skip, w, ln, c in cs if not skip]
        if len(args) - 2 < len(cs):
            self.viol(VALUE, inst, '%s has fewer arguments than its format' % name)
            return []
        for (w, ln, c), a in zip(cs, args[2:]):
            b, o = self.ai.split(st, st.f.norm(a))
            if b is None or irai.unset(o):
                self.viol(VALUE, inst, '%s stores to %s' % (name, a))
                return []
            if c[0] in 's[c':
                n = int(w) if w else (1 if c == 'c' else most)
                if w and most is not None and c != 'c':
                    n = min(n, most)
                if n is None:
                    self.viol(FITS, inst, 'nothing bounds what %%%s stores' % c)
                else:
                    self.fits(st, b, o, const(64, n + (c != 'c')), inst)
            else:
                self.fits(st, b, o, const(64, {'l': 8, 'll': 8, 'z': 8, 'j': 8, 't': 8, 'h': 2, 'hh': 1}.get(ln, 4)), inst)
        outs = []
        st.seq += 1
        for j in [-1] + list(range(len(cs) + 1)):
            s = st.copy()
            for i, ((w, ln, c), a) in enumerate(zip(cs, args[2:])):
                b, o = self.ai.split(s, s.f.norm(a))
                if c[0] in 's[c':
                    n = int(w) if w else most
                    self.ai.havoc(s, b, 'text%d:%d' % (s.seq * 100 + i, n) if i < j and n is not None else 'text%d' % (s.seq * 100 + i) if i < j else 'bad%d' % (s.seq * 100 + i))
                else:
                    wd = {'l': 8, 'll': 8, 'z': 8, 'j': 8, 't': 8, 'h': 2, 'hh': 1}.get(ln, 4)
                    v = sym('$scan%d.%d' % (i, s.seq), 8 * wd)
                    self.ai.write(s, b, o, wd, v if i < j else atom('undef', 8 * wd, 'field %d, not scanned' % (i + 1), const(64, s.seq)))
            outs.append((s, const(32, j)))
        return outs

    def do_getenv(self, st, args, inst, name):
        if self.string(st, args[0], inst, name) is None:
            return []
        s = st.copy()
        t = self.line(st, 'env')
        s.seq = st.seq
        return [(st, t), (s, const(64, 0))]

    do_secure_getenv = do_getenv

    def mnt(self, st, f, m, inst, name):
        if not self.stream(st, f, inst, name):
            return []
        b, o = self.ai.split(st, st.f.norm(m))
        s = st.copy()
        for i in range(4):
            self.ai.write(st, b, addc(o, 8 * i), 8, self.line(st, 'mnt%d' % i))
        s.seq = st.seq
        for i in range(4):
            self.ai.write(s, b, addc(o, 8 * i), 8, sym('$bad%d.%d' % (s.seq, i), 64, True, 1))
        return [(st, m), (s, const(64, 0))]

    def do_getmntent_r(self, st, args, inst, name):
        b, o = self.ai.split(st, st.f.norm(args[2]))
        self.fits(st, b, o, args[3], inst)
        return self.mnt(st, args[0], args[1], inst, name)

    def do_getmntent(self, st, args, inst, name):
        st.seq += 1
        t = sym('$mntent%d' % st.seq, 64, True, 16)
        st.mem.setdefault(t, ())
        return self.mnt(st, args[0], t, inst, name)

    def do_hasmntopt(self, st, args, inst, name):
        p = st.f.norm(args[0])
        if isc(p):
            self.viol(DEREF, inst, '%s is given a null entry' % name)
            return []
        b, o = self.ai.split(st, p)
        r = self.ai.read(st, b, addc(o, 24), 8, True, None)
        if self.string(st, args[1], inst, name) is None:
            return []
        r = self.string(st, st.f.norm(r[0][1]), inst, name)
        if r is None or r[2] is None:
            return []
        return self.found(st, *r, what='opt')

    def path(self, st, args, inst, name):
        if self.string(st, args[0], inst, name) is None:
            return []
        s = st.copy()
        return [(st, const(inst.ty.w, 0)), (s, const(inst.ty.w, -1))]

    do_access = do_eaccess = do_unlink = do_chdir = path

    def do_statfs(self, st, args, inst, name):
        b, o = self.ai.split(st, st.f.norm(args[1]))
        self.fits(st, b, o, const(64, 120), inst)
        r = self.path(st, args, inst, name)
        for s, v in r:
            self.content(s, args[1], 'data#')
            if cv(v):
                self.ai.write(s, b, o, 8, atom('undef', 64, 'statfs', const(64, s.seq)))
        return r

    def fd(self, st, inst, name):
        s = st.copy()
        st.seq += 1
        fd = sym('$fd%d' % st.seq, 32)
        st.f.rng[fd] = (0, (1 << 31) - 1)
        e = self.number(s, 'errno', 32, 1, 133)
        self.ai.write(s, sym('$errno', 64, True, 4), const(64, 0), 4, e)
        return [(st, fd), (s, const(32, -1))]

    def do_open(self, st, args, inst, name):
        if self.string(st, args[0], inst, name) is None:
            return []
        return self.fd(st, inst, name)

    do_mkstemp = do_mkostemp = do_memfd_create = do_shm_open = do_creat = do_open

    def heap(self, st, n, inst):
        s = st.copy()
        st.seq += 1
        t = sym('$heap%d' % st.seq, 64, True, 16)
        st.mem.setdefault(t, ())
        st.g['_sz', t] = st.f.norm(n)
        return [(st, t), (s, const(64, 0))]

    def do_malloc(self, st, args, inst, name):
        return self.heap(st, args[0], inst)

    def do_calloc(self, st, args, inst, name):
        r = self.heap(st, mul(args[0], args[1]), inst)
        self.ai.memset(r[0][0], r[0][1], const(8, 0), mul(args[0], args[1]), inst)
        return r

    def do_mmap(self, st, args, inst, name):
        s = st.copy()
        fl = st.f.norm(args[3])
        if isc(fl) and cv(fl) & 0x10:
            t = args[0]
        else:
            st.seq += 1
            t = sym('$map%d' % st.seq, 64, True, 4096)
            st.mem.setdefault(t, ())
        e = self.number(s, 'errno', 32, 1, 133)
        self.ai.write(s, sym('$errno', 64, True, 4), const(64, 0), 4, e)
        return [(st, t), (s, const(64, -1))]
