import build, fdflow
from common import *
EXPLANATION = ('Interprocedural typestate analysis of file descriptors and stdio streams on the LLVM IR of every C unit. Every call that yields one makes a token '
               '(maybe open, open, failed, closed) that follows the value through phis, returns, arguments and globals; comparisons with the failure value refine it. '
               'The analysis runs every entry from every state the previous calls may have left (descriptors kept in globals, their condition, the cursor of the '
               'search and the status flags), to a fixed point, so it covers every sequence of calls. At the end of an entry, and whenever the last name of a '
               'descriptor dies, an open one that no global keeps has leaked; none is closed twice, used after it was closed, kept after it was closed, or kept when no later call can use or close it; and '
               'each is close-on-exec from the flags it is opened with (or set at once), by the time it is kept or closed.')
RULES = ['every descriptor opened is closed or kept', 'a descriptor is closed at most once', 'no descriptor is used after it was closed',
         'a descriptor is kept only as long as a later call may use or close it', 'nothing keeps a descriptor that was closed', 'only descriptors the library opened are closed', 'every descriptor is opened close-on-exec']


def check(rep, thorough):
    L = fdflow.FdFlow(mods(*build.C_UNITS))
    L.solve()
    if not L.made:
        raise Broken('the library opens nothing')
    for (rule, w, msg) in sorted(L.leaks):
        rep.bad(rule, w, msg)
    for c, xs in sorted(L.idles.items(), key=str):
        rep.bad(RULES[3], L.cname(c), '%s stays open although no later call can use or close it, when %s' % (
            L.cname(c), ', '.join('%s is %s' % (L.cname(q[1]), v[1]) for q, v in xs[0] if q[0] == 'v' and v[0] == 'c')))
    n = {RULES[0]: len(L.made) * len(L.entry), RULES[1]: len(L.closes), RULES[2]: len(L.uses), RULES[3]: L.keeps, RULES[4]: L.paths, RULES[5]: len(L.closes), RULES[6]: len(L.made)}
    for r in RULES:
        rep.ok(r, max(0, n[r] - sum(1 for x in L.leaks if x[0] == r) - (len(L.idles) if r == RULES[3] else 0)))
    rep.note('opened at', sorted(L.made))
    rep.note('closed at', sorted(L.closes))
    rep.note('kept in', sorted(L.cname(c) for c in L.fdclasses))
    rep.note('followed between calls', sorted(L.cname(c) for c in L.consts))
    if L.lost:
        rep.note('stored where it is not followed', sorted('%s (opened at %s)' % x for x in L.lost))
    rep.analysed['states left by one call to the next'] = len(L.entry)
    rep.analysed['entries'] = len(L.rts)
    rep.analysed['ends of entries'] = L.paths
    rep.assumptions += ['setmntent opens close-on-exec (glibc, musl)', 'one history at a time: that threads do not interleave inside it is C14',
                        'the window between mkstemp and fcntl(F_SETFD) on systems without mkostemp is accepted']
