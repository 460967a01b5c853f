"""regenerates MANIFEST.json from the properties and the checks present"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import gen.info as info
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')) and i in info.CHECKS:
        t, note = info.CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': t, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': info.NA.get(i, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': 'sh tool/build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check compiles /repo\'s current sources to LLVM IR (three build configurations) and analyses that; nothing of /repo is executed. No hooks are added to /repo.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
