import os, re
import closuremem, osmodel, irai, build
from closuremem import *
from osmodel import settle
from common import *
from report import run_jobs
EXPLANATION = ('The search is interpreted from its initial state and from every state it leaves behind when it found a file (so after any history of found and refused files), with every '
               'location working or failing in each way, under every combination of: environment variables set or not, unnamed temporary files supported or not, lists of mounts readable or not. '
               'The order of locations is read from the manual. From each state the locations tried must be the next ones of the list, each once, until one works or the list is exhausted; '
               'then the search is back in its initial state. The requests for memory are interpreted with the search as a black box: each failure of a new file goes back to the search, '
               'and each new search starts at the front of the list.')
ORDER = 'locations are tried in the documented order, none skipped or repeated'
END = 'the search ends, failing, exactly when the list is exhausted'
RESET = 'after the list is exhausted a new search starts at its front'
REFUSE = 'mounts that are read-only, not executable or not writable are not used'
NAME = 'the file has no name left when it is used'
KIND = 'the file can be written and executed'
RESULT = 'the search returns the file it found'
NEXT = 'a failure of a new file makes the search go on'
FRONT = 'a request that needs a file searches from the front of the list'
NAMED = 'where unnamed files do not exist, a named one is made instead'
USE = 'the first location that works is used'
OUT = 'a request for a file fails only when the search is exhausted'

ENVS = ['LIBFFI_TMPDIR', 'TMPDIR', 'HOME']
O_TMPFILE, O_DIRECTORY = 0x400000, 0x10000
MNT = [('/mnt%s/first', 'rw,relatime', True), ('/mnt%s/locked', 'ro,relatime', True), ('/mnt%s/data', 'rw,nosuid,noexec', True), ('/mnt%s/foreign', 'rw', False),
       ('/mnt%s/second', 'rw,nosuid', True), ('/mnt%s/last', 'rw,errors=remount-ro', True)]


def fresh():
    return {'rules': {}, 'viol': [], 'unsure': [], 'analysed': {}}


def ok(d, rule, n=1):
    d['rules'][rule] = d['rules'].get(rule, 0) + n


def bad(d, rule, where, msg):
    v = (rule, where, msg)
    if v not in d['viol']:
        d['viol'].append(v)


def documented():
    """the list of the manual"""
    p = os.path.join(build.REPO, 'doc/libffi.texi')
    out = []
    try:
        t = open(p, errors='replace').read()
        t = t[t.index('@node Memory Usage'):]
        t = t[:t.index('@end itemize')]
        for it in t.split('@item\n')[1:]:
            m = re.search(r'memfd_create', it)
            if m:
                out.append('memfd')
                continue
            m = re.search(r'@code\{\$?([A-Z_]+)\}', it)
            if m:
                out.append('env:' + m.group(1))
                continue
            m = re.search(r'@code\{(/\S+)\}', it)
            if m:
                out.append(('mounts:' if 'listed in' in it else 'dir:') + m.group(1))
    except (OSError, ValueError):
        pass
    return out or ['memfd', 'env:LIBFFI_TMPDIR', 'env:TMPDIR', 'dir:/tmp', 'dir:/var/tmp', 'dir:/dev/shm', 'env:HOME', 'mounts:/etc/mtab', 'mounts:/proc/mounts']


class Case:
    def __init__(self, env, tmp, mnt, memfd=True):
        self.env, self.tmp, self.mnt = env, tmp, mnt

    def __repr__(self):
        return '%s set, unnamed files %s, lists of mounts %s' % (
            'no variable' if not self.env else ', '.join(self.env), {'ok': 'supported', 22: 'unknown to the system (EINVAL)', 21: 'unknown to the system (EISDIR)', 95: 'not supported'}[self.tmp],
            'readable' if self.mnt else 'missing')


def cases():
    r = []
    for env in (ENVS, [], ['TMPDIR'], ['HOME', 'LIBFFI_TMPDIR']):
        for tmp in ('ok', 95, 21, 22):
            for mnt in (True, False):
                if env in (ENVS, []) or tmp == 'ok' and mnt:
                    r.append(Case(env, tmp, mnt))
    return r


def places(case):
    """[(label, item)] of the attempts that must be made, in order"""
    out = []
    for it in documented():
        k, _, v = it.partition(':')
        if k == 'memfd':
            out.append('memfd')
        elif k == 'env':
            if v in case.env:
                out.append('/env/' + v)
        elif k == 'dir':
            out.append(v)
        elif k == 'mounts' and case.mnt:
            for dr, opts, w in MNT:
                o = opts.split(',')
                if w and 'ro' not in o and 'noexec' not in o:
                    out.append(dr % v)
    return out


class Search(OS):
    def __init__(self, sc, case):
        OS.__init__(self, sc)
        self.case = case
        self.d = fresh()
        self.opened = []

    def do_open_temp_exec_file(self, st, args, inst, name):
        return None

    do_open_temp_exec_file_done = do_open_temp_exec_file

    def attempt(self, st, label, inst):
        """a location is tried; a second time in one search is a violation, and the path ends"""
        a = st.g.get('tried', ())
        self.pending(st, inst)
        if label in a:
            bad(self.d, ORDER, irai.where(inst), '%s is tried again in the same search, after %s' % (label, a[-1]))
            return False
        st.g['tried'] = a + (label,)
        return True

    def do_malloc(self, st, args, inst, name):
        # nothing is promised when the heap is exhausted
        return OS.do_malloc(self, st, args, inst, name)[:1]

    def pending(self, st, inst):
        p = st.g.get('fallback')
        if p:
            bad(self.d, NAMED, irai.where(inst) if inst else 'open_temp_exec_file', 'in %s no named file is tried, with unnamed files %s' % (p, str(self.case).split('unnamed files ')[1].split(',')[0]))
            st.g['fallback'] = None
        else:
            ok(self.d, NAMED)

    def file(self, st, label, inst, err, named=None):
        if not self.attempt(st, label, inst):
            return []
        return self.outcome(st, label, inst, err, named)

    def outcome(self, st, label, inst, err, named=None):
        s = st.copy()
        st.seq += 1
        fd = sym('$fd%d' % st.seq, 32)
        st.f.rng[fd] = (0, (1 << 31) - 1)
        st.g['file'] = (fd, label, named)
        self.errno(s, err)
        return [(st, fd), (s, const(32, -1))]

    def do_memfd_create(self, st, args, inst, name):
        fl = cv(args[1]) if isc(args[1]) else None
        if fl is None:
            self.d['unsure'].append((KIND, irai.where(inst), 'flags %s' % args[1]))
        elif fl & 8:
            bad(self.d, KIND, irai.where(inst), 'the file is made not executable (flags %#x)' % fl)
        else:
            ok(self.d, KIND)
        return self.file(st, 'memfd', inst, 38)

    def do_open(self, st, args, inst, name):
        p = self.cstr(st, args[0])
        fl = cv(args[1]) if isc(args[1]) else None
        if p is None or fl is None:
            return None
        p = p.decode()
        if fl & O_TMPFILE:
            if fl & 3 != 2:
                bad(self.d, KIND, irai.where(inst), 'the file is opened with flags %#o, not for reading and writing' % fl)
            else:
                ok(self.d, KIND)
            if not self.attempt(st, p, inst):
                return []
            if self.case.tmp != 'ok':
                st.g['fallback'] = p
                self.errno(st, self.case.tmp)
                return [(st, const(32, -1))]
            return self.outcome(st, p, inst, 13)
        if fl & 0o100:
            return self.file(st, os.path.dirname(p), inst, 13, args[0])
        self.d['unsure'].append((ORDER, irai.where(inst), 'open("%s", %#o)' % (p, fl)))
        return None

    def do_mkstemp(self, st, args, inst, name):
        p = self.cstr(st, args[0])
        if p is None:
            return None
        p = p.decode()
        dr = os.path.dirname(p)
        if not p.endswith('XXXXXX'):
            bad(self.d, KIND, irai.where(inst), 'the template "%s" is not one' % p)
        if st.g.get('fallback') == dr:
            st.g['fallback'] = None
        elif not self.attempt(st, dr, inst):
            return []
        st.seq += 1
        return self.outcome(st, dr, inst, 13, args[0])

    do_mkostemp = do_mkstemp

    def do_unlink(self, st, args, inst, name):
        f = st.g.get('file')
        if f and f[2] is not None and st.f.norm(args[-1] if name == 'unlink' else args[1]) is st.f.norm(f[2]):
            st.g['file'] = (f[0], f[1], None)
        else:
            bad(self.d, NAME, irai.where(inst), 'unlink of something else')
        return [(st, const(32, 0))]

    def do_unlinkat(self, st, args, inst, name):
        return self.do_unlink(st, args, inst, name)

    def do_fcntl(self, st, args, inst, name):
        return [(st, const(32, 0))]

    def do_fchmod(self, st, args, inst, name):
        return [(st, const(32, 0))]

    def do_getenv(self, st, args, inst, name):
        p = self.cstr(st, args[0])
        if p is None:
            return None
        p = p.decode()
        if p in self.case.env:
            return [(st, self.text('/env/' + p))]
        return [(st, const(64, 0))]

    do_secure_getenv = do_getenv

    def do_setmntent(self, st, args, inst, name):
        p = self.cstr(st, args[0])
        if p is None:
            return None
        if not self.case.mnt:
            self.errno(st, 2)
            return [(st, const(64, 0))]
        st.seq += 1
        t = sym('$stream:%s' % p.decode(), 64, True, 16)
        st.g['pos', t] = 0
        return [(st, t)]

    def getmnt(self, st, f, p, inst):
        if f.op != 'sym' or not f.a[0].startswith('$stream'):
            return None
        k = st.g.get(('pos', f), 0)
        if k >= len(MNT):
            return [(st, const(64, 0))]
        st.g['pos', f] = k + 1
        b, o = self.ai.split(st, p)
        dr, opts, w = MNT[k]
        for i, s in ((0, '/dev/disk%d' % k), (8, dr % f.a[0].split(':', 1)[1]), (16, 'ext4'), (24, opts)):
            self.ai.write(st, b, addc(o, i), 8, self.text(s))
        return [(st, p)]

    def do_getmntent_r(self, st, args, inst, name):
        return self.getmnt(st, args[0], args[1], inst)

    def do_getmntent(self, st, args, inst, name):
        return self.getmnt(st, args[0], sym('$mntent', 64, True, 16), inst)

    def do_hasmntopt(self, st, args, inst, name):
        b, o = self.ai.split(st, args[0])
        r = self.ai.read(st, b, addc(o, 24), 8, True, None)
        opts, want = self.cstr(st, st.f.norm(r[0][1])), self.cstr(st, args[1])
        if opts is None or want is None:
            return None
        at = 0
        for w in opts.decode().split(','):
            if w == want.decode() or w.startswith(want.decode() + '='):
                return [(st, addc(st.f.norm(r[0][1]), at))]
            at += len(w) + 1
        return [(st, const(64, 0))]

    def do_access(self, st, args, inst, name):
        p = self.cstr(st, args[0])
        if p is None or not isc(args[1]):
            return None
        for dr, opts, w in MNT:
            if re.fullmatch(dr.replace('%s', '.*'), p.decode()) and not w and cv(args[1]) & 2:
                self.errno(st, 13)
                return [(st, const(32, -1))]
        return [(st, const(32, 0))]

    do_eaccess = do_access


def cls(ai, st):
    d = []
    for k, v in snapshot(ai, st).items():
        if k[0].startswith(('allocate_space', 'selinux', 'cached_pax')):
            pass
        d.append((k, v))
    for k, v in st.g.items():
        if isinstance(k, tuple) and k[0] == 'pos' and v:
            d.append((('pos', str(k[1]), 0, False), v))
    live = {v for k, v in d if not isinstance(v, int) and v.op == 'sym'}
    return tuple(sorted(((k, v) for k, v in d if k[0] != 'pos' or any(str(x) == k[1] for x in live)), key=str))


def put(ai, c):
    st = irai.St()
    st.g['errs'] = ()
    for k, v in c:
        if k[0] == 'pos':
            st.g['pos', sym(k[1], 64, True, 16)] = v
            continue
        for m, gn, g in gvars(ai):
            if gn == k[0]:
                ai.write(st, ai.gsym(gn, m), const(64, k[1]), k[2], v)
                break
    return st


def effective(ai, c):
    """a state as the values of all variables, initial ones included"""
    d = {}
    for m, n, g in gvars(ai):
        for off, sz, isp in leaves(g.ty):
            i = ai.ginit(irai.St(), g.init, off, sz, m) if g.init is not None else None
            if i is not None:
                d[n, off, sz, isp] = i
    d.update({k: v for k, v in c if k[0] != 'pos'})
    return d


def search(i):
    case = cases()[i]
    want = places(case)
    c = Search(Scenario(0, 'no', 'no'), case)
    ai = irai.AI(unit(), c)
    c.ai = ai
    d = c.d
    f = need(ai.mods, 'open_temp_exec_file')
    w = 'open_temp_exec_file'
    st0 = irai.St()
    st0.g['errs'] = ()
    first = cls(ai, st0)
    seen = {first: 0}            # state -> how many locations were used up
    work = [first]
    n = 0
    while work:
        s0 = work.pop(0)
        at = seen[s0]
        if len(seen) > 60:
            raise Broken('too many states of the search')
        st = put(ai, s0)
        for s, v in ai.run(f, st, []):
            n += 1
            c.pending(s, None)
            tried = list(s.g.get('tried', ()))
            v = s.f.norm(v)
            rest = want[at:]
            file_ = s.g.get('file')
            if tried != rest[:len(tried)]:
                j = [k for k in range(len(tried)) if k >= len(rest) or tried[k] != rest[k]][0]
                if tried[j] not in want and any(re.fullmatch(x[0].replace('%s', '.*'), tried[j]) for x in MNT):
                    bad(d, REFUSE, w, 'a file is made in %s' % tried[j])
                else:
                    bad(d, ORDER, w, 'after %s the search tries %s instead of %s, with %s' % (
                        (want[:at] + tried[:j])[-1] if at + j else 'nothing', tried[j], rest[j] if j < len(rest) else 'nothing', case))
                continue
            ok(d, ORDER, max(1, len(tried)))
            if isc(v) and sgn(cv(v), 32) == -1:
                if file_ is not None:
                    bad(d, RESULT, w, 'it fails although a file was made in %s' % file_[1])
                elif tried != rest:
                    bad(d, END, w, 'it fails after %s, %s is never tried, with %s' % ((want[:at] + tried)[-1] if at + len(tried) else 'nothing', rest[len(tried)], case))
                else:
                    ok(d, END)
                    a, b = effective(ai, cls(ai, s)), effective(ai, first)
                    diff = [k for k in a if a[k] != b.get(k) and a[k] is not b.get(k)]
                    if diff:
                        # the state may differ in ways that do not matter: the next search decides
                        t2 = put(ai, cls(ai, s))
                        for s2, v2 in ai.run(f, t2, []):
                            t = list(s2.g.get('tried', ()))
                            if t != want[:len(t)]:
                                bad(d, RESET, w, 'a search after an exhausted one starts with %s, with %s' % (t[0] if t else 'nothing', case))
                            else:
                                ok(d, RESET)
                    else:
                        ok(d, RESET)
                continue
            if file_ is None or v is not file_[0]:
                bad(d, RESULT, w, 'it returns %s, %s' % (v, 'nothing was made' if file_ is None else 'the file made is %s' % file_[0]))
                continue
            ok(d, RESULT)
            if file_[2] is not None:
                bad(d, NAME, w, 'the file made in %s keeps its name' % file_[1])
            else:
                ok(d, NAME)
            k = cls(ai, s)
            if seen.setdefault(k, at + len(tried)) != at + len(tried):
                # the same state after different places: one of them must go wrong
                if not (seen[k] == len(want) and at + len(tried) == 0):
                    bad(d, ORDER, w, 'the search is in the same state after %s as after %s, with %s' % (
                        want[seen[k] - 1] if seen[k] else 'nothing', want[at + len(tried) - 1], case))
            elif k not in work and k != s0:
                work.append(k)
    settle(d, c, ORDER)
    if not n and not d['viol'] and not d['unsure']:
        raise Broken('the search has no end')
    d['analysed']['cases'] = [str(case)]
    d['analysed']['locations'] = want
    return d


def request(i):
    """requests for memory, the search a black box"""
    sc = scenarios()[i]
    d = fresh()
    ai, c, calls, classes = explore(sc)
    for k in calls:
        failed = isc(k.ret) and sgn(cv(k.ret), 64) in (-1, 0)
        f = k.st.f
        news = [e for e in k.ev if e.name == 'tempfile']
        for x, e in enumerate(news):
            nxt = news[x + 1] if x + 1 < len(news) else None
            part = k.ev[k.ev.index(e) + 1:k.ev.index(nxt) if nxt else len(k.ev)]
            if e.ret is None:
                if nxt is not None:
                    bad(d, OUT, irai.where(nxt.inst), 'the search is started again after it was exhausted')
                elif not failed:
                    bad(d, OUT, k.where, 'the request succeeds without a file')
                else:
                    ok(d, OUT)
                continue
            fd = e.ret
            lost = [y for y in part if y.ret is None and y.name in ('mmap', 'write') and f.norm(y.args[4 if y.name == 'mmap' else 0]) is fd]
            mapped_ = [y for y in part if y.ret is not None and y.name == 'mmap' and f.norm(y.args[4]) is fd]
            if lost and not mapped_:
                # the location does not do
                if nxt is None:
                    bad(d, NEXT, irai.where(lost[0].inst), 'the request %s although other locations were not tried' % ('fails' if failed else 'goes on'))
                else:
                    ok(d, NEXT)
            elif nxt is not None:
                bad(d, USE, irai.where(nxt.inst), 'another location is searched although the file works')
            else:
                ok(d, USE)
    settle(d, c, NEXT)
    d['analysed']['policies'] = [str(sc)]
    return d


def front(i):
    """a request from states in which the search was used before (for the trampoline file)"""
    case = cases()[i]
    want = places(case)
    w = 'the request'
    reqs, unmaps, sites, direct = requests(unit())
    d = fresh()
    done = [n for m in unit() for n, g in m.funcs.items() if n == 'open_temp_exec_file_done' and not g.decl]
    for used in range(0, 4):
        c = Front(Scenario(0, 'no', 'on'), case)
        ai = irai.AI(unit(), c)
        c.ai = ai
        st = irai.St()
        st.g['errs'] = ()
        todo = [st]
        for u in range(used):
            nx = []
            for s in todo:
                for s2, v in ai.run(need(ai.mods, 'open_temp_exec_file'), s, []):
                    if isc(v):
                        continue
                    s2.g['tried'] = ()
                    s2.g['file'] = None
                    nx.append(s2)
                    break       # the first location that works
            todo = nx
        if used and done:
            nx = []
            for s in todo:
                nx += [s2 for s2, v in ai.run(need(ai.mods, done[0]), s, [])]
            todo = nx
        for s in todo:
            s.g['tried'] = ()
            for fn in sorted(reqs):
                for at in reqs[fn]:
                    for s2, v in ai.run(need(ai.mods, fn), s.copy(), [const(64, PAGE) if a is None else a for a in at]):
                        t = list(s2.g.get('tried', ()))
                        if not t or t[0] != want[0]:
                            bad(d, FRONT, fn, 'after %d files were searched for the trampolines, it starts with %s instead of %s' % (used, t[0] if t else 'nothing', want[0]))
                        else:
                            ok(d, FRONT)
    for r, n in c.d['rules'].items():
        pass
    return d


class Front(Search):
    """everything works"""
    def outcome(self, st, label, inst, err, named=None):
        return Search.outcome(self, st, label, inst, err, named)[:1]

    def fail(self, st, name, args, inst, v, err):
        return []

    def do_write(self, st, args, inst, name):
        return OS.do_write(self, st, args, inst, name)[:1]


def check(rep, thorough):
    sc = scenarios()
    jobs = [('search %d' % i, search, (i,)) for i in range(len(cases()))]
    jobs += [('%s' % s, request, (i,)) for i, s in enumerate(sc) if not s.tramp]
    jobs += [('front', front, (0,)), ('front without variables', front, (8,))]
    run_jobs(rep, jobs)
    rep.note('documented order', documented())
    rep.assumptions += ['two lists of mounts with usable and unusable entries stand for any', 'one search at a time (C14)']
