"""Writing and testing planted bugs (development only; no check uses this).

mk(...) writes /verif/seeded/<id>; 'python3 tools/seedlib.py <id>...' tests them in
copies of /repo: builds, stable tests, demo on both trees, and the claimed checks."""
import os, sys, json, subprocess, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd /repo after the build: 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
gcc -O1 -g -w %s-o "$w/demo" "$d/demo.c" %s-I_build/include -I_build -Iinclude -Isrc/x86 _build/.libs/%s -lpthread -ldl -Wl,-rpath,"$PWD/_build/.libs" || exit 3
cd "$w" && timeout 60 ./demo
'''


def mk(id, prop, edits, demo, needs, breaks, files=(), cflags='', extra='', lib='libffi.so', sh=None):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = '/dev/shm/mk.' + id
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.email=a@b -c user.name=a commit -qm x' % (w, w), shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', w, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    shutil.rmtree(w)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    if demo is not None:
        open(os.path.join(d, 'demo.c'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write(sh or SH % (cflags + ' ' if cflags else '', extra + ' ' if extra else '', lib))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def run(cmd, cwd=None, t=600, env=None):
    e = dict(os.environ, **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=e, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def test(id, tests=True, checks=None):
    d = os.path.join(V, 'seeded', id)
    w = '/dev/shm/sd.' + id
    shutil.rmtree(w, ignore_errors=True)
    res = {'id': id, 'property': json.load(open(d + '/meta.json'))['property']}
    try:
        subprocess.run(['cp', '-a', '/repo', w], check=True)
        for s in ('build', 'test'):
            t = open('/opt/vp/%s.sh' % s).read().replace('/repo', w).replace('/opt/vp/build.sh', w + '.build.sh')
            open('%s.%s.sh' % (w, s), 'w').write(t)
        run('sed -i s#/repo#%s#g %s/_build/testsuite/Makefile; rm -f %s/_build/testsuite/site.exp' % (w, w, w))
        rc, o = run('bash %s/demo.sh' % d, '/repo', 120)
        res['demo clean'] = rc
        if rc:
            res['out'] = o[-600:]
        rc, o = run('git apply %s/patch.diff' % d, w)
        if rc:
            res['error'] = 'apply: ' + o[-300:]
            return res
        rc, o = run('bash %s.build.sh' % w, w, 300)
        if rc:
            res['error'] = 'build: ' + o[-1500:]
            return res
        rc, o = run('bash %s/demo.sh' % d, w, 120)
        res['demo patched'] = rc
        res['demo says'] = o[-200:].strip()
        if tests:
            rc, o = run('bash %s.test.sh %s.json' % (w, w), w, 800)
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            p = set(json.load(open(w + '.json'))['passed'])
            miss = [x for x in base if x not in p]
            res['stable tests failing'] = len(miss)
            if miss:
                res['e.g.'] = miss[:2]
        ids = checks or [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
        if checks == ['own']:
            ids = [res['property']]

        def chk(i):
            ev = w + '.ev'
            os.makedirs(ev, exist_ok=True)
            return (i,) + run('python3 %s/checks/run.py %s quick' % (V, i), V, 900, {'VERIF_REPO': w, 'VERIF_EVIDENCE': ev})
        for i in ids:
            i, rc, o = chk(i)
            if rc == 1:
                res.setdefault('caught by', []).append(i)
                if i == res['property']:
                    res['report'] = o[o.find('  violation:'):][:500].split('\n')[:3]
            elif rc:
                res.setdefault('broken', []).append((i, o[-300:]))
    finally:
        run('rm -rf %s %s.build.sh %s.test.sh %s.json %s.ev' % (w, w, w, w, w))
    return res


if __name__ == '__main__':
    a = sys.argv[1:]
    tests = '-n' not in a
    checks = None
    for x in a:
        if x.startswith('-c='):
            checks = x[3:].split(',')
    ids = [x for x in a if not x.startswith('-')] or sorted(os.listdir(V + '/seeded'))
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda i: test(i, tests, checks), ids):
            ok = r.get('demo clean') == 0 and r.get('demo patched') and not r.get('stable tests failing')
            print('%s %s  %s' % ('ok ' if ok else 'BAD', 'CAUGHT' if r['property'] in r.get('caught by', []) else 'missed', json.dumps(r)))
            sys.stdout.flush()
