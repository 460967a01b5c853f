#!/usr/bin/env python3
"""/verif/check.py CNN [--tier quick|thorough]: decide one property from /repo's current source."""
import sys, os, json, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from checks import lib
from engine import build
V = lib.VERIF
LEVEL = {}
def known():
    d = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN '):
                # KNOWN property=<id> key=<key> :: <what fails>
                h, _, what = l.partition(' :: ')
                pid = h.split('property=')[1].split()[0]; key = h.split('key=', 1)[1].strip()
                d[(pid, key)] = what
    return d
def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid.lower())
    cfgs = getattr(mod, 'CONFIGS', None) or (['default', 'plain', 'trace'])
    if os.environ.get('VP_CONFIGS'): cfgs = os.environ['VP_CONFIGS'].split(',')
    elif tier == 'quick': cfgs = getattr(mod, 'QUICK', cfgs)
    kn = known(); rules = {}; viols = {}; samples = []; fns = set(); notes = []
    try:
        for c in cfgs:
            R = lib.Ctx(pid, tier, c)
            try: mod.run(R)
            except build.Broken:
                # a rule lost its instances: only an answer when a violation was already established
                if not any((pid, k) not in kn for k in R.viols): raise
            for r, (n, b) in R.rules.items():
                e = rules.setdefault(r, {'instances': 0, 'violations': 0}); e['instances'] += n; e['violations'] += b
            for k, v in R.viols.items(): viols.setdefault(k, v)
            samples += R.samples[:12]; fns |= R.fns; notes += R.notes
            if not R.rules: raise build.Broken('no rule instances')
    except build.Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); sys.exit(2)
    except Exception:
        traceback.print_exc(); print('ANALYSIS-ERROR property=%s' % pid); sys.exit(3)
    new = []; old = []
    for k, v in sorted(viols.items()):
        (old if (pid, k) in kn else new).append(v)
    for v in old: print('KNOWN-FINDING: property=%s %s [%s]' % (pid, kn[(pid, v['key'])], v['key']))
    EV = os.path.join(V, 'evidence') if not os.environ.get('VP_NOEVIDENCE') else os.environ['VP_CACHE']
    os.makedirs(EV, exist_ok=True)
    rp = ''
    total = sum(e['instances'] for e in rules.values())
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
          'coverage': {'explanation': mod.EXPLAIN, 'configurations': list(cfgs), 'rules': rules, 'functions_analysed': len(fns),
                       'obligations': total, 'discharged': total - sum(e['violations'] for e in rules.values()),
                       'functions': sorted(fns)[:400], 'samples': samples[:30], 'known_findings': [v['key'] for v in old], 'notes': notes[:50]},
          'assumptions': getattr(mod, 'ASSUME', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open(os.path.join(EV, pid + '.json'), 'w'), indent=1)
    if new:
        rp = os.path.join(EV, pid + '.violations.json')
        json.dump(new, open(rp, 'w'), indent=1)
        for v in new: print('  %s: [%s] %s (%s)' % (v['loc'], v['rule'], v['message'], v['key']))
        print('VIOLATION property=%s replay=%s' % (pid, rp)); sys.exit(1)
    print('OK property=%s rules=%s functions=%d %.1fs' % (pid, {r: e['instances'] for r, e in rules.items()}, len(fns), time.time() - t0))
    build.prune()
    sys.exit(0)
main()
