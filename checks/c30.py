import re
import irai, build, osmodel, closuremem
from abi import *
from textmodel import *
from closuremem import gvars, leaves, snapshot
from place import need
from common import *
from report import run_jobs
EXPLANATION = ('Everything that reads what the system says is interpreted with the answers unknown: any file may be missing, any read may fail, a line is any terminated string, a scan stops at any '
               'field, a search in a text finds something anywhere or nothing, memory and mappings may be refused. On every path: streams, texts, scanned values and pointers are used only when '
               'the call that delivers them succeeded, pointers into a text stay inside it, and whatever is written to a buffer fits it. The search for executable memory is followed from every '
               'state its calls leave behind.')


class Reader(Text):
    def init_load(self, st, base, off, n, isptr, inst):
        if base.op == 'sym' and base.a[0] == '$errno':
            return None
        if base.op == 'sym' and base.a[0].startswith('$line') and n == 1:
            return self.char(st, base, off, inst)
        g = getattr(self.ai, 'globs', {}).get(base)
        if g is not None and isc(off):
            v = g[0].globals.get(g[1])
            if v is not None and v.init is not None:
                return self.ai.ginit(st, v.init, cv(off), n, g[0])
        return None


class Closures(Reader):
    def over_open_temp_exec_file(self, st, args, inst, name):
        # the functions it calls are analysed one by one; the files it finds are alike
        k = st.g.get('found', 0)
        if k >= 2:
            return [(st, const(32, -1))]
        st.g['found'] = k + 1
        return self.fd(st, inst, name)

    def over_ffi_tramp_is_supported(self, st, args, inst, name):
        s = st.copy()
        return [(st, const(32, 0)), (s, const(32, 1))]


def machine(c, units):
    ai = irai.AI(mods(*units) if units else osmodel.unit(), c)
    c.ai = ai
    ai.unroll_cap = 40
    ai.max_steps = 3000000
    return ai


def result(c, where_):
    d = {'rules': {}, 'viol': [], 'unsure': [], 'analysed': {}}
    for (r, w), msg in sorted(c.bad.items()):
        d['viol'].append((r, w, msg))
    for (r, w), msg in sorted(c.doubt.items()):
        if (r, w) not in c.bad:
            d['unsure'].append((r, w, msg))
    for r, x in c.n.items():
        d['rules'][r] = len(x)
    d['analysed']['interpreted'] = [where_]
    if c.unknown:
        d['analysed']['answers taken as arbitrary'] = sorted('%s at %s' % x for x in c.unknown.items())
    return d


def entered(ai):
    """functions whose address a table holds, with the argument that stands beside it"""
    out = []
    for m, n, g in gvars(ai):
        if g.init is None:
            continue
        at = {}
        for off, sz, isp in leaves(g.ty):
            if isp:
                v = ai.ginit(irai.St(), g.init, off, sz, m)
                if v is not None:
                    at[off] = v
        for off, v in at.items():
            if v.op == 'sym' and v.a[0][0] == '@':
                f = ai.globs.get(v)
                nm = f[1] if f else v.a[0][1:].split('.')[0]
                fn = next((x.funcs[nm] for x in ai.mods if nm in x.funcs and not x.funcs[nm].decl), None)
                if fn is not None and len(fn.args) == 1:
                    out.append((nm, at.get(off + 8, const(64, 0))))
    return out


def key(ai, st):
    return tuple(sorted((str(k), re.sub(r'\d+', '#', str(v)) if not isc(v) else str(v)) for k, v in snapshot(ai, st).items()))


def search():
    c = Closures()
    ai = machine(c, None)
    es = entered(ai)
    if not es:
        raise Broken('no table of places to search is found')
    todo, seen = [irai.St()], set()
    while todo:
        st = todo.pop()
        k = key(ai, st)
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > 40:
            raise Broken('the search has more than 40 states')
        for nm, arg in es:
            s = st.copy()
            s.ev = []
            for s2, v in ai.run(need(ai.mods, nm), s, [arg]):
                todo.append(s2)
    d = result(c, 'the places to search: %s' % ', '.join(sorted({n for n, _ in es})))
    d['analysed']['states of the search'] = [str(len(seen))]
    return d


def memory():
    """the requests for memory, with the questions about what the system permits"""
    c = Closures()
    ai = machine(c, None)
    reqs = closuremem.requests(ai.mods)[0]
    if not reqs:
        raise Broken('the allocator asks nothing for memory')
    n = closuremem.LEN
    todo, seen = [()], set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > 60:
            raise Broken('too many states between requests')
        for fn in sorted(reqs):
            for at in reqs[fn]:
                st = closuremem.restore(ai, k)
                st.f.rng[n] = (4096, 1 << 40)
                for s, v in ai.run(need(ai.mods, fn), st, [n if a is None else a for a in at]):
                    todo.append(closuremem.abstract(ai, s))
    d = result(c, ', '.join(sorted(reqs)))
    d['analysed']['states between requests'] = [str(len(seen))]
    return d


def tramp():
    c = Reader()
    c.over_open_temp_exec_file = lambda st, args, inst, name: c.fd(st, inst, name)
    c.over_open_temp_exec_file_done = c.zero
    ai = machine(c, ('src/tramp.c', FFI64))
    ai.unroll_cap = 2200
    for s, v in ai.run(need(ai.mods, 'ffi_tramp_alloc'), irai.St(), [const(32, 0)]):
        pass
    return result(c, 'ffi_tramp_alloc, first use')


def check(rep, thorough):
    run_jobs(rep, [('places to search', search, ()), ('requests for memory', memory, ()), ('static trampolines', tramp, ())])
    for r in RULES:
        rep.ok(r, 0)
    rep.assumptions += ['texts and directory names are shorter than 2^31 characters', 'a read that succeeds leaves a terminated string (fgets, getline, getmntent_r)']
