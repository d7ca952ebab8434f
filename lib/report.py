"""Collects obligations and findings of one check and produces its verdict,
its evidence file and its known-finding lines."""
import os, sys, json, time, re, traceback, multiprocessing
from build import Broken, Wrong, VERIF

KNOWN = os.path.join(VERIF, 'known-findings.txt')


def known_findings(pid):
    """open findings of one property: list of (key regex-free text, description)"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.rules = {}          # rule -> obligations
        self.violations = []     # (rule, where, message, key)
        self.undecided = []
        self.analysed = {}       # what -> list or number
        self.samples = []
        self.parts = 0
        self.broken = []
        self.assumptions = []

    def ok(self, rule, n=1):
        self.rules[rule] = self.rules.get(rule, 0) + n

    def bad(self, rule, where, msg, key=None):
        self.ok(rule, 0)
        k = key or re.sub(r'[^\w]+', '-', rule).strip('-')
        self.violations.append((rule, where or '?', msg, k))

    def unsure(self, rule, where, msg):
        self.undecided.append((rule, where or '?', msg))

    def note(self, what, items):
        cur = self.analysed.setdefault(what, [])
        for i in items:
            if i not in cur:
                cur.append(i)

    def part(self, name, fn, *a):
        """run one sub-analysis; its inability to decide does not hide the others"""
        self.parts += 1
        try:
            return fn(*a)
        except Broken as e:
            self.broken.append((name, str(e)))
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError) as e:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            self.broken.append((name, 'internal: %s %s' % (type(e).__name__, e)))
        return None

    def merge(self, d):
        for k, v in d.get('rules', {}).items():
            self.ok(k, v)
        for v in d.get('viol', []):
            self.bad(*v)
        for v in d.get('unsure', []):
            self.unsure(*v)
        for k, v in d.get('analysed', {}).items():
            self.note(k, v)

    def finish(self, explanation, trusted):
        pid = self.pid
        seen = set()
        viol = []
        for v in self.violations:
            k = (v[0], v[1], v[2])
            if k not in seen:
                seen.add(k)
                viol.append(v)
        known = known_findings(pid)
        new, old = [], {}
        for v in viol:
            hit = [k for k, d in known if k == v[3]]
            if hit:
                old.setdefault(hit[0], []).append(v)
            else:
                new.append(v)
        n = sum(self.rules.values())
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        cov = {
            'explanation': explanation,
            'obligations': n + len(viol) + len(self.undecided),
            'discharged': n,
            'rules': self.rules,
            'undecided': ['%s: %s: %s' % u for u in self.undecided[:50]],
            'undecided_count': len(self.undecided),
            'analysis_failures': ['%s: %s' % b for b in self.broken],
            'analysed': self.analysed,
            'samples': self.samples[:12],
            'known_findings': sorted(old),
            'trusted_base': trusted,
        }
        out = {'property': pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
               'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
               'violations': len(new)}
        json.dump(out, open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
        print('%s: %d obligations discharged by %d rules, %d undecided, %d analysis failures, %d violations (%.1f s)' % (
            pid, n, len(self.rules), len(self.undecided), len(self.broken), len(new), time.time() - self.t0))
        for what, items in self.analysed.items():
            print('  analysed %s: %s' % (what, ', '.join(str(i) for i in items)[:300] if isinstance(items, list) else items))
        for r, c in sorted(self.rules.items()):
            print('  rule %s: %d' % (r, c))
        for u in self.undecided[:8]:
            print('  undecided: %s: %s: %s' % u)
        for b in self.broken:
            print('  no answer: %s: %s' % b)
        for k, d in known:
            if k in old:
                print('KNOWN-FINDING: property=%s %s' % (pid, d))
        if new:
            path = os.path.join(ev, pid + '.violations.txt')
            with open(path, 'w') as f:
                for rule, where, msg, k in new:
                    f.write('%s\n  at %s\n  %s\n  key=%s\n' % (rule, where, msg, k))
                f.write('\nreproduce: python3 /verif/checks/run.py %s\n' % pid)
            for rule, where, msg, k in new[:10]:
                print('  violation: %s\n    at %s\n    %s' % (rule, where, str(msg)[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        if n == 0 or (self.parts and len(self.broken) == self.parts):
            print('%s: the analysis could not decide anything' % pid)
            return 2
        return 0


START = time.time()


def _child(q, i, fn, a):
    try:
        q.put((i, 'ok', fn(*a)))
    except Wrong as e:
        q.put((i, 'ok', {'viol': [e.v]}))
    except Broken as e:
        q.put((i, 'broken', str(e)))
    except BaseException as e:
        q.put((i, 'broken', 'internal: %s %s %s' % (type(e).__name__, e, traceback.format_exc()[-600:])))


def parallel(jobs):
    """jobs: list of (name, fn, args) whose results are picklable; returns list of (name, ok, result)"""
    ctx = multiprocessing.get_context('fork')
    width = int(os.environ.get('VERIF_JOBS', '8'))
    res = [None] * len(jobs)
    q = ctx.Queue()
    running = {}
    nxt = 0
    done = 0
    end = START + float(os.environ.get('VERIF_BUDGET', '720'))
    while done < len(jobs):
        if time.time() > end:
            for i, p in running.items():
                p.kill()
                p.join()
            for i in range(len(jobs)):
                if res[i] is None:
                    res[i] = (jobs[i][0], False, 'not finished in time')
            break
        while nxt < len(jobs) and len(running) < width:
            p = ctx.Process(target=_child, args=(q, nxt, jobs[nxt][1], jobs[nxt][2]))
            p.start()
            running[nxt] = p
            nxt += 1
        try:
            i, st, r = q.get(timeout=1)
        except Exception:
            for i, p in list(running.items()):
                if not p.is_alive() and p.exitcode != 0:
                    res[i] = (jobs[i][0], False, 'analysis process ended with %s' % p.exitcode)
                    running.pop(i)
                    done += 1
            continue
        if i in running:
            running.pop(i).join()
            res[i] = (jobs[i][0], st == 'ok', r)
            done += 1
    return res


def run_jobs(rep, jobs):
    for name, ok, r in parallel(jobs):
        rep.parts += 1
        if ok:
            rep.merge(r)
        else:
            rep.broken.append((name, r))
