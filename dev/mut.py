"""Development aid: apply textual source edits (bugs and behaviour-preserving refactorings) to a scratch copy of /repo
and run checks on it.  usage: mut.py [-p CNN] [-n NAME] [-k bug|ref] [-a: run all checks on refactorings]"""
import sys, os, re, subprocess, shutil, tempfile, concurrent.futures as cf, argparse
V = '/verif'; sys.path.insert(0, V)
from dev.mutants import M
def one(m, checks, cfg):
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        B = os.environ.get('MUT_BASE', '/repo'); shutil.copytree(B + '/src', d + '/src'); shutil.copytree(B + '/include', d + '/include')
        for f, old, new in m['edits']:
            p = os.path.join(d, f); s = open(p).read()
            if old not in s: return m, [('?', 'EDIT-NOT-FOUND %s: %s' % (f, old[:60]), 9)]
            open(p, 'w').write(s.replace(old, new, 1))
        out = []
        for c in checks:
            env = dict(os.environ, VP_REPO=d, VP_CONFIGS=cfg, VP_NOEVIDENCE='1', VP_CACHE=d + '/cache')
            r = subprocess.run(['python3', V + '/check.py', c], capture_output=True, text=True, env=env, cwd=V)
            out.append((c, r.stdout[-1500:] + r.stderr[-800:], r.returncode))
        return m, out
    finally:
        shutil.rmtree(d)
def main():
    a = argparse.ArgumentParser(); a.add_argument('-p'); a.add_argument('-n'); a.add_argument('-k'); a.add_argument('-a', action='store_true'); a.add_argument('-v', action='store_true'); a.add_argument('-c', default='default'); a.add_argument('-j', type=int, default=6)
    o = a.parse_args()
    allc = sorted(f[:-3].upper() for f in os.listdir(V + '/checks') if re.match(r'c\d+\.py', f))
    jobs = []
    for m in M:
        if o.n and not re.search(o.n, m['name']): continue
        if o.k and m['kind'] != o.k: continue
        cs = m['props'] if m['kind'] == 'bug' else (allc if o.a else m['props'])
        if o.p: cs = [c for c in cs if c in o.p.split(',')] if not o.a or m['kind'] == 'bug' else o.p.split(',')
        cs = [c for c in cs if c in allc]
        if cs: jobs.append((m, cs, o.c))
    bad = 0
    with cf.ThreadPoolExecutor(o.j) as ex:
        for m, out in ex.map(lambda j: one(*j), jobs):
            for c, txt, rc in out:
                want = 1 if m['kind'] == 'bug' else 0
                if rc != want or (want == 1 and 'VIOLATION' not in txt): bad += 1; print('## %s %s %s: exit %d WRONG\n%s' % (m['kind'], m['name'], c, rc, txt))
                else: print('ok %s %s %s' % (m['kind'], m['name'], c), ('\n' + txt) if o.v else '')
    print(len(jobs), 'jobs', bad, 'wrong')
main()
