"""Development aid: (re)generate /verif/seeded/<id> from dev/seeds.py and confirm each one in a scratch copy of /repo:
builds, stable tests pass, demo fails with the patch and passes without; optionally runs the property's check.
usage: seed.py gen | verify [ids..] | check [ids..]"""
import sys, os, subprocess, json, shutil, tempfile, concurrent.futures as cf
V = '/verif'; sys.path.insert(0, V)
from dev.seeds import S
DEMO = '''#!/bin/sh
# cwd: the built repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
L=_build/default
%s
g++ -std=gnu++17 -O0 -w -DEnableJNIVMGC -DJNI_DEBUG -DJNI_RETURN_NON_ZERO -Iinclude %s"$here/demo.cpp" $L/libfake-jni.a $L/libbaron.a $L/libjnivm.a $L/libfake-jni.a $L/libjnivm.a -lpthread -ldl -o "$d/demo" || exit 2
timeout 60 "$d/demo" "$d" > "$d/out" 2>&1
rc=$?
tail -n 20 "$d/out"
exit $rc
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def gen(s):
    d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seedgen-', dir='/tmp')
    try:
        sh('git', '-C', '/repo', 'worktree', 'prune')
        sh('sh', '-c', 'git -C /repo archive HEAD | tar x -C ' + t)
        sh('git', 'init', '-q', t); sh('git', '-C', t, 'add', '-A', '-f'); sh('git', '-C', t, '-c', 'user.email=a', '-c', 'user.name=a', 'commit', '-qm', 'b')
        for f, old, new in s['edits']:
            p = os.path.join(t, f); x = open(p, newline='').read()
            if '\r\n' in x and '\r\n' not in old: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
            assert old in x, (s['id'], f, old)
            open(p, 'w', newline='').write(x.replace(old, new, 1))
        df = subprocess.run(['git', '-C', t, 'diff', '--no-color'], capture_output=True).stdout
        open(d + '/patch.diff', 'wb').write(df)
    finally: shutil.rmtree(t)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO % (s.get('pre', ''), s.get('flags', '')))
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def scratch():
    t = '/tmp/seedrepo'
    if not os.path.isdir(t):
        sh('cp', '-a', '/repo', t); shutil.rmtree(t + '/_build', ignore_errors=True)
    sh('git', '-C', t, 'fetch', '-q', '/repo', 'HEAD'); sh('git', '-C', t, 'checkout', '-q', '-f', 'FETCH_HEAD'); sh('git', '-C', t, 'clean', '-fdq')
    for n in ('build.sh', 'test.sh'):
        x = open('/opt/vp/' + n).read().replace('/repo', t).replace('/opt/vp/build.sh', t + '/../seed-build.sh')
        open('/tmp/seed-' + n, 'w').write(x)
    return t
def verify(ids):
    t = scratch(); stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    env = dict(os.environ)
    r = sh('bash', '/tmp/seed-build.sh'); assert r.returncode == 0, r.stdout[-2000:]
    todo = [s for s in S if not ids or s['id'] in ids]
    for s in todo:
        d = os.path.join(V, 'seeded', s['id'])
        r = sh('sh', d + '/demo.sh', cwd=t); s['clean'] = r.returncode
        if r.returncode: print(s['id'], 'DEMO FAILS ON CLEAN TREE', r.returncode, r.stdout[-1500:], r.stderr[-1500:])
    for s in todo:
        d = os.path.join(V, 'seeded', s['id'])
        r = sh('git', '-C', t, 'apply', d + '/patch.diff'); assert r.returncode == 0, (s['id'], r.stderr)
        o = '/tmp/seed-out.json'
        r = sh('bash', '/tmp/seed-test.sh', o)
        try: p = set(json.load(open(o))['passed'])
        except Exception: p = set()
        miss = [x for x in stable if x not in p]
        q = sh('sh', d + '/demo.sh', cwd=t)
        sh('git', '-C', t, 'checkout', '-q', '--', '.')
        print(s['id'], 'OK' if not miss and q.returncode not in (0, 2) and s['clean'] == 0 else 'WRONG', 'tests missing', miss[:5], len(miss), 'demo', q.returncode, q.stdout[-300:].strip().replace('\n', ' | '), q.stderr[-600:] if q.returncode == 2 else '', r.stdout[-800:] if miss else '', flush=True)
def check(ids):
    def one(s):
        t = tempfile.mkdtemp(prefix='seedchk-', dir='/tmp')
        try:
            shutil.copytree('/repo/src', t + '/src'); shutil.copytree('/repo/include', t + '/include')
            r = sh('git', 'apply', '--unsafe-paths', os.path.join(V, 'seeded', s['id'], 'patch.diff'), cwd=t)
            if r.returncode: return s['id'], 'apply: ' + r.stderr, 9
            e = dict(os.environ, VP_REPO=t, VP_CONFIGS='default', VP_NOEVIDENCE='1', VP_CACHE=t + '/cache')
            r = sh('python3', V + '/check.py', s['property'], env=e, cwd=V)
            return s['id'], r.stdout[-900:] + r.stderr[-500:], r.returncode
        finally: shutil.rmtree(t)
    with cf.ThreadPoolExecutor(5) as ex:
        for i, o, rc in ex.map(one, [s for s in S if not ids or s['id'] in ids or s['property'] in ids]): print(i, 'caught' if rc == 1 and 'VIOLATION' in o else 'MISSED %d\n%s' % (rc, o))
def main():
    c = sys.argv[1]; ids = sys.argv[2:]
    if c == 'gen':
        for s in S:
            if not ids or s['id'] in ids: gen(s)
    elif c == 'verify': verify(ids)
    elif c == 'check': check(ids)
main()
