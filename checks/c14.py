import build, lockset
from common import *
EXPLANATION = ('Interprocedural, path-sensitive lock-set analysis of the LLVM IR of every C unit, from every exported function (and every other function nothing calls): '
               'for each access to a mutable global or to a field of a bookkeeping structure, the locks held on each path that reaches it. All accesses of one class '
               '(global, or field of a structure) must have a lock in common; accesses made while a once-flag is zero (lazy initialisation) may instead hold only the '
               'lock of the flag when every other access is made by a thread that saw the flag set under that lock. No lock is taken while held or released while not '
               'held, none is held when an entry returns, and the order in which locks are nested has no cycle.')


def check(rep, thorough):
    L = lockset.Lockset(mods(*build.C_UNITS))
    L.solve()
    N = L.cname
    if not L.lockops:
        raise Broken('no lock is used anywhere')
    structs = set()

    def inner(t):
        if t.kind == 'struct':
            n = L.tyname(t)
            if n:
                structs.add(n)
            for x in t.fields:
                inner(x)
        elif t.kind == 'array':
            inner(t.elem)
    for g in L.globals.values():
        if not g.const:
            inner(g.ty)
    for (rule, w, msg) in L.errors:
        rep.bad(rule, w, msg)
    rep.ok('no lock is taken while it is already held', max(0, L.lockops - len(L.errors)))
    rep.ok('a lock is released only by who holds it', L.lockops)
    for (f, held), w in L.held.items():
        if held:
            rep.bad('no lock is held when an entry returns', w or f, '%s returns holding %s' % (f, ', '.join(held)))
        else:
            rep.ok('no lock is held when an entry returns')
    # order of nesting
    nodes = {x for e in L.edges for x in e}

    def reach(a):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for (p, q) in L.edges:
                if p == x and q not in seen:
                    seen.add(q)
                    todo.append(q)
        return seen
    cyc = [(a, b) for (a, b) in L.edges if a in reach(b)]
    for (a, b) in cyc:
        rep.bad('locks are nested in one order', L.edges[(a, b)], '%s is taken while %s is held, and elsewhere the other way round' % (N(b), N(a)))
    rep.ok('locks are nested in one order', len(L.edges) - len(cyc))
    rep.note('nesting of locks', sorted('%s > %s' % (N(a), N(b)) for a, b in L.edges))
    # every class of shared locations
    pub = {}
    for c in sorted(L.acc, key=N):
        A = [a for a in L.acc[c] if a[0] != 'l']
        islock = any(a[0] == 'l' for a in L.acc[c])
        if not any(a[0] in 'wp' for a in A):
            continue
        A = [a for a in A if a[0] != 'p']
        if not A:
            continue
        if islock:
            A = list(L.acc[c])
        if c[0] != 'global' and c[0] not in structs and not any(a[2] for a in L.acc[c]):
            continue        # a structure no lock is ever held for and no global is made of: handed in by the caller
        rule = 'accesses to one piece of bookkeeping have a lock in common'
        if frozenset.intersection(*[a[2] for a in A]):
            rep.ok(rule, len({a[1] for a in A}))
            pub.setdefault('+'.join(sorted(N(x) for x in frozenset.intersection(*[a[2] for a in A]))), []).append(N(c))
            continue
        # lazily initialised?
        ok = None
        for f, (l, vals) in sorted(L.flags.items(), key=str):
            pre = [a for a in A if f in a[4] and l in a[2]]
            rest = [a for a in A if not (f in a[4] and l in a[2])]
            if any(f not in a[3] and l not in a[2] for a in rest):
                continue
            if not any(a[0] == 'w' for a in rest) or (rest and frozenset.intersection(*[a[2] for a in rest])):
                ok = (f, l, rest)
                break
        if ok:
            rep.ok('bookkeeping set up once is set up under the lock of its flag, and others come later', len({a[1] for a in A}))
            pub.setdefault('%s until %s is set, then %s' % (N(ok[1]), N(ok[0]), '+'.join(sorted(N(x) for x in frozenset.intersection(*[a[2] for a in ok[2]]))) if ok[2] and frozenset.intersection(*[a[2] for a in ok[2]]) else 'read only'), []).append(N(c))
            continue
        # the lock that guards it most
        cnt = {}
        for a in A:
            for l in a[2]:
                cnt.setdefault(l, set()).add(a[1])
        g = max(sorted(cnt, key=N), key=lambda l: len(cnt[l])) if cnt else None
        out = sorted({a[1] for a in A if g not in a[2]})
        ws = sorted({a[1] for a in A if a[0] == 'w'})
        rep.bad(rule, out[0], '%s is accessed without %s here%s; written at %s' % (
            N(c), N(g) if g else 'any lock', ' and at ' + ', '.join(out[1:4]) if out[1:] else '', ', '.join(ws[:3])), key='unlocked:' + N(c))
    rep.note('functions', sorted(L.seenf))
    rep.note('guarded by', sorted('%s: %s' % (k, ' '.join(v)) for k, v in pub.items()))
    rep.note('entries', sorted({f for f, h in L.held}))
    rep.analysed['entry states of functions'] = len(L.summ)
    rep.assumptions += ['pthread_mutex_lock succeeds', 'what a caller of the library does with memory of its own closures is its business',
                        'a non-constant value stored to a once-flag is not zero', 'memory fresh from malloc is not shared in the function that obtained it']
