"""All histories of trampoline allocations and releases over a small table size, up to renaming
of the objects: the states reachable through ffi_tramp_alloc and ffi_tramp_free, with what is
in use and what has been given back to the system tracked beside them."""
from trampmodel import *
from closuremem import leaves, gvars
import build
from common import Broken, mods
from report import *

PG = 4096


class HM(TM):
    """tables of n trampolines"""
    def __init__(self, n):
        TM.__init__(self)
        self.n = n
        self.others = True
        self.split = 0

    def obj(self, st, what, al=16, n=None):
        # objects are apart from each other
        t = TM.obj(self, st, what, al, n)
        i = st.g.get('objs', 0)
        st.g['objs'] = i + 1
        st.f.rng[t] = ((i + 1) << 28, ((i + 1) << 28) + (1 << 24))
        return t

    def init_load(self, st, base, off, n, isptr, inst):
        if base.op == 'sym' and base.a[0].startswith('$heap') and not st.g.get('other'):
            self.ai.emit(st, irai.Ev('call', inst, name='uninit', args=(base, off), ret=None))
        return TM.init_load(self, st, base, off, n, isptr, inst)

    def end(self, ai, kind, st, inst):
        self.ends.append((kind, irai.where(inst)))

    def call(self, ai, st, name, fn, args, inst):
        if name == 'ffi_tramp_arch':
            for a, v in ((args[0], PG // self.n), (args[1], PG)):
                b, o = ai.split(st, a)
                ai.write(st, b, o, 8, const(64, v))
            return [(st, sym('@tramptext', 64, True, 16))]
        if name == 'pthread_mutex_lock' and not st.g.get('other'):
            # between two critical sections of one operation other threads may do theirs
            k = st.g.get('sections', 0)
            st.g['sections'] = k + 1
            if k and self.others:
                outs = []
                cur = [st]
                for i in range(self.n + 1):
                    for s in cur:
                        outs += [(x, v) for x, v in TM.call(self, ai, s.copy(), name, fn, args, inst)]
                    nx = []
                    for s in cur:
                        s = s.copy()
                        s.g['other'] = True
                        for s2, h in ai.call(s, need(ai.mods, 'ffi_tramp_alloc'), [const(32, 0)], inst):
                            s2.g['other'] = False
                            s2.g['took'] = s2.g.get('took', ()) + ((h,) if not isc(s2.f.norm(h)) else ())
                            nx.append(s2)
                    cur = nx[:4]
                self.split += 1
                return outs
        return TM.call(self, ai, st, name, fn, args, inst)


class State:
    __slots__ = ('st', 'live', 'heap', 'maps', 'key', 'how', 'pos')


class Hist:
    def __init__(self, n, fail):
        self.n = n
        self.c = HM(n)
        self.ai = irai.AI(mods(TRAMP, FFI64), self.c, log_loads=True)
        self.c.ai = self.ai
        self.ai.unroll_cap = 2200
        self.ai.max_steps = 50000000
        self.fail = fail
        self.viol = {}
        self.n_ops = 0
        self.rules = {}
        self.seen = {}
        self.lines = False

    def bad(self, rule, where, msg):
        self.viol.setdefault((rule, where), msg)

    def ok(self, rule, n=1):
        self.rules[rule] = self.rules.get(rule, 0) + n

    # ---- state keys
    def base(self, st, t):
        t = st.f.norm(t)
        if isc(t):
            return None
        b, o = self.ai.split(st, t)
        o = st.f.norm(o)
        if b is None or not isc(o):
            return None
        return b, sgn(cv(o), 64)

    def isobj(self, b):
        return b.op == 'sym' and b.a[0][0] == '$' and (b.a[0].startswith('$heap') or b.a[0].startswith('$map'))

    def cells(self, st, b):
        d = {}
        for e in st.mem.get(b, ()):
            if e[0] == 'st' and isc(e[1]):
                d[sgn(cv(e[1]), 64), e[2]] = e[3]
        return sorted(d.items())

    def key(self, s):
        st = s.st
        lab = {}
        order = []
        out = []

        def val(v):
            v = st.f.norm(v)
            if isc(v):
                return cv(v)
            r = self.base(st, v)
            if r and self.isobj(r[0]):
                if r[0] not in s.heap and r[0] not in s.maps:
                    return 'gone'       # what it held cannot be accessed without being reported
                if r[0] not in lab:
                    lab[r[0]] = len(lab)
                    order.append(r[0])
                return ('p', lab[r[0]], r[1])
            return repr(v)
        for m, n, g in gvars(self.ai):
            b = self.ai.gsym(n, m)
            if b in st.mem:
                out.append((n, tuple((k, val(v)) for k, v in self.cells(st, b))))
        i = 0
        todo = sorted(s.live, key=str)
        while True:
            while i < len(order):
                b = order[i]
                i += 1
                out.append((lab[b], b in s.heap or b in s.maps, tuple((k, val(v)) for k, v in self.cells(st, b))))
            # objects reachable only from trampolines in use
            rest = [h for h in todo if self.base(st, h)[0] not in lab]
            if not rest:
                break
            # by their structure, so that the label does not depend on the name
            rest.sort(key=lambda h: (self.base(st, h)[1], str([(k, cv(st.f.norm(v)) if isc(st.f.norm(v)) else 0) for k, v in self.cells(st, self.base(st, h)[0])])))
            val(rest[0])
        out.append(tuple(sorted((lab[self.base(st, h)[0]], self.base(st, h)[1]) for h in s.live)))
        return repr(out)

    # ---- operations
    def run(self, s, name, *args):
        st = s.st.copy()
        st.ev = []
        st.loc = {}
        st.g['sections'] = 0
        st.g['took'] = ()
        self.c.ends = []
        r = self.ai.run(need(self.ai.mods, name), st, list(args))
        if s.how:
            for k, w in self.c.ends:
                self.bad('an operation does not end the program', w, '%s in %s after %s (tables of %d)' % (
                    {'null': 'a null pointer is followed'}.get(k, k), name, ', '.join(s.how), self.n))
        return r

    def after(self, s, st, what):
        """apply the effects of one operation to what is tracked; None when the path is wrong already"""
        r = State()
        r.st = st
        r.live = set(s.live)
        r.heap = dict(s.heap)
        r.pos = {h: p for h, p in s.pos.items() if h in r.live}
        r.maps = {b: set(p) for b, p in s.maps.items()}
        r.how = s.how + (what,)
        if st.g.get('took'):
            r.how += ('%d taken meanwhile by other threads' % len(st.g['took']),)
            r.live |= {st.f.norm(h) for h in st.g['took']}
        good = True
        mapped = 0
        for e in st.ev:
            if e.k in ('load', 'store'):
                if e.base is not None and self.isobj(e.base) and e.base.a[0].startswith('$heap') and e.base not in r.heap:
                    self.bad('bookkeeping never refers to memory given back', irai.where(e.inst), 'it is accessed there %s' % self.path(r))
                    return None
            elif e.k == 'copy':
                pass
            elif e.k == 'call':
                if e.name == 'uninit':
                    self.bad('bookkeeping is set before it is used', irai.where(e.inst), self.path(r))
                    return None
                if e.name == 'malloc' and e.ret is not None:
                    r.heap[e.ret] = e
                elif e.name == 'free':
                    a = st.f.norm(e.args[0])
                    if isc(a) and cv(a) == 0:
                        continue
                    if a not in r.heap:
                        self.bad('memory is given back once', irai.where(e.inst), 'free(%s) %s' % (a, self.path(r)))
                        return None
                    del r.heap[a]
                elif e.name == 'mmap' and e.ret is not None:
                    mapped += 1
                    b, o = self.base(st, e.ret)
                    n = cv(st.f.norm(e.args[1]))
                    r.maps.setdefault(b, set()).update(range(o // PG, (o + n + PG - 1) // PG))
                elif e.name == 'munmap':
                    x = self.base(st, e.args[0])
                    n = st.f.norm(e.args[1])
                    if x is None or not isc(n) or x[0] not in r.maps:
                        self.bad('memory is given back once', irai.where(e.inst), 'munmap(%s, %s) %s' % (e.args[0], n, self.path(r)))
                        return None
                    p = set(range(x[1] // PG, (x[1] + cv(n) + PG - 1) // PG))
                    if not p <= r.maps[x[0]]:
                        self.bad('memory is given back once', irai.where(e.inst), 'munmap(%s, %s) %s' % (e.args[0], n, self.path(r)))
                        return None
                    r.maps[x[0]] -= p
                    if not r.maps[x[0]]:
                        del r.maps[x[0]]
        st.ev = []
        st.loc = {}
        return r

    def path(self, s):
        return 'after %s (tables of %d)' % (', '.join(s.how) or 'nothing', self.n)

    def cell(self, s, h, name='ffi_tramp_get_addr'):
        o = self.run(s, name, h)
        if len(o) != 1:
            raise Broken('%s has %d outcomes' % (name, len(o)))
        return o[0]

    def place(self, s, h):
        """where code and parameters of a trampoline are; None when it is not whole"""
        b = self.base(s.st, h)
        if b[0] not in s.heap:
            self.bad('a table with trampolines in use is kept', 'src/tramp.c', 'the record of a trampoline in use is released %s' % self.path(s))
            return None
        st, a = self.cell(s, h)
        x = self.base(st, a)
        if x is None:
            raise Broken('the code address is %s' % a)
        s2 = State()
        s2.st = s.st
        s2.how = s.how
        o = self.run(s2, 'ffi_tramp_set_parms', h, sym('$t', 64, True), sym('$d', 64, True))
        if len(o) != 1:
            raise Broken('ffi_tramp_set_parms has %d outcomes' % len(o))
        ps = []
        for e in o[0][0].ev:
            if e.k == 'store':
                if not isc(e.off):
                    raise Broken('parameters are stored at %s+%s' % (e.base, e.off))
                ps.append((e.base, sgn(cv(e.off), 64)))
        return x, tuple(ps)

    def inuse(self, s, only=None):
        """the trampolines in use are whole: memory, code and parameters are there, and their own"""
        code, parm = {}, {}
        if only is None:
            s.pos = {}
        for h in s.live:
            if h not in s.pos or only is not None and h in only:
                k = self.place(s, h)
                if k is None:
                    return False
                s.pos[h] = k
            elif self.base(s.st, h)[0] not in s.heap:
                self.bad('a table with trampolines in use is kept', 'src/tramp.c', 'the record of a trampoline in use is released %s' % self.path(s))
                return False
            x, ps = s.pos[h]
            if x[0] not in s.maps or x[1] // PG not in s.maps[x[0]]:
                self.bad('a table with trampolines in use is kept', 'src/tramp.c', 'the code of a trampoline in use is unmapped %s' % self.path(s))
                return False
            if x in code:
                self.bad('trampolines in use are distinct', 'src/tramp.c', 'two have the same code address %s' % self.path(s))
                return False
            code[x] = h
            for k in ps:
                if k[0] not in s.maps or k[1] // PG not in s.maps[k[0]]:
                    self.bad('a table with trampolines in use is kept', 'src/tramp.c', 'the parameters of a trampoline in use are unmapped %s' % self.path(s))
                    return False
                if k in parm:
                    self.bad('trampolines in use are distinct', 'src/tramp.c', 'two have the same parameters %s' % self.path(s))
                    return False
                parm[k] = h
        self.ok('trampolines in use are distinct', len(s.live))
        self.ok('a table with trampolines in use is kept', len(s.live))
        return True

    def capacity(self, s):
        """number of trampolines of the tables mapped"""
        return len(s.maps) * self.n

    def alloc(self, s):
        outs = []
        self.n_ops += 1
        spare = self.capacity(s) - len(s.live)
        for st, h in self.run(s, 'ffi_tramp_alloc', const(32, 0)):
            h = st.f.norm(h)
            lost = [e for e in st.ev if e.k == 'call' and e.name in ('malloc', 'mmap', 'open') and e.ret is None]
            got = [e for e in st.ev if e.k == 'call' and e.name in ('malloc', 'mmap')]
            r = self.after(s, st, 'alloc' if not lost else 'a failing alloc')
            if r is None:
                continue
            if isc(h):
                if cv(h) != 0:
                    self.bad('an allocation gives a trampoline or null', 'ffi_tramp_alloc', '%s %s' % (h, self.path(r)))
                elif not lost and s.how:
                    self.bad('an allocation succeeds when the system grants what it needs', 'ffi_tramp_alloc', 'it fails %s' % self.path(r))
                else:
                    self.ok('an allocation gives a trampoline or null')
                    outs.append(r)
                continue
            b = self.base(st, h)
            if b is None or not self.isobj(b[0]):
                raise Broken('a trampoline is %s' % h)
            if any(self.base(r.st, x) == b for x in r.live):
                self.bad('a trampoline in use is not handed out again', 'ffi_tramp_alloc', 'it is %s' % self.path(r))
                continue
            self.ok('a trampoline in use is not handed out again')
            if spare > 0 and got and not st.g.get('took'):
                self.bad('a released trampoline can be handed out again', 'ffi_tramp_alloc', 'a new table is made although %d trampolines are free %s' % (spare, self.path(r)))
                continue
            self.ok('a released trampoline can be handed out again')
            r.live.add(h)
            if self.inuse(r, [h] if self.lines else None):
                outs.append(r)
        return outs

    def free(self, s, h):
        outs = []
        self.n_ops += 1
        i = sorted(s.live, key=str).index(h)
        for st, _ in self.run(s, 'ffi_tramp_free', h):
            r = self.after(s, st, 'free of the one at %s+%d' % (self.base(s.st, h)[0].a[0][1:], self.base(s.st, h)[1]))
            if r is None:
                continue
            r.live.discard(h)
            if self.inuse(r, [] if self.lines and len(r.live) % 40 else None):
                outs.append(r)
        return outs

    def leak(self, s):
        """what is kept: each table that is mapped has its records, and nothing else is kept"""
        heap, maps = len(s.heap), len(s.maps)
        k = getattr(self, 'per', None)
        if k is None:
            return
        if heap != maps * k:
            self.bad('a table is given back whole', 'src/tramp.c', '%d mapped tables with %d records %s' % (maps, heap, self.path(s)))
        else:
            self.ok('a table is given back whole')
        for b, p in s.maps.items():
            if len(p) != self.pages:
                self.bad('a table is given back whole', 'src/tramp.c', '%d of %d pages are mapped %s' % (len(p), self.pages, self.path(s)))

    def start(self):
        s = State()
        s.st = irai.St()
        s.live, s.heap, s.maps, s.how, s.pos = set(), {}, {}, (), {}
        self.c.others = False
        # the first allocation also finds the library's own file; how that can fail is C14's matter
        outs = [r for r in self.alloc(s) if r.live]
        if not outs:
            raise Broken('no trampoline is allocated')
        for r in outs:
            if len(r.maps) != 1:
                self.bad('one table serves the first trampoline', 'src/tramp.c', '%d are mapped' % len(r.maps))
        self.per = len(outs[0].heap)
        self.pages = len(list(outs[0].maps.values())[0])
        self.c.others = True
        return outs[:1]

    def line(self, order, tables):
        """one history over full size tables: fill them, release in an order, and again"""
        s = self.start()[0]
        self.lines = True
        for rnd in range(2):
            while len(s.live) < tables * self.n:
                s.how = ('%d are in use' % len(s.live),)
                r = self.alloc(s)
                if self.viol:
                    return
                if len(r) != 1:
                    raise Broken('%d outcomes' % len(r))
                s = r[0]
                self.leak(s)
            hs = sorted(s.live, key=lambda h: (int(re.sub(r'\D', '', self.base(s.st, h)[0].a[0]) or 0), self.base(s.st, h)[1]))
            for h in order(hs, self.n):
                s.how = ('releasing in %s order, %d are in use' % (order.__name__, len(s.live)),)
                r = self.free(s, h)
                if self.viol:
                    return
                if len(r) != 1:
                    raise Broken('%d outcomes' % len(r))
                s = r[0]
                self.leak(s)
        self.last = s

    def explore(self, maxlive, maxstates=40000):
        work = self.start()
        self.c.fail = self.fail
        for s in work:
            self.seen[self.key(s)] = s
        while work:
            s = work.pop(0)
            if len(self.viol) > 6:
                return
            nxt = []
            if len(s.live) < maxlive:
                nxt += self.alloc(s)
            for h in sorted(s.live, key=str):
                nxt += self.free(s, h)
            for r in nxt:
                self.leak(r)
                k = self.key(r)
                if k not in self.seen:
                    if len(self.seen) >= maxstates:
                        raise Broken('too many states')
                    self.seen[k] = r
                    work.append(r)


def fifo(hs, n):
    return hs


def lifo(hs, n):
    return hs[::-1]


def alternating(hs, n):
    return hs[::2] + hs[1::2]


def across(hs, n):
    """one of each table in turn"""
    return [h for i in range(n) for h in hs[i::n]]


ORDERS = (fifo, lifo, alternating, across)
