"""C05 shared tables: every access from a JNI call happens under the lock that guards the table."""
from .lib import *
from . import c04
EXPLAIN = ('Guarded-access analysis: every read or change of VM.classes/typecheck/globals/jnienvs and the namespace tree must happen with the VM lock in the lock set, and of Class.methods/fields/natives with the lock of that very class. '
           'A function that touches a table without the lock passes the obligation to its callers (with the class argument substituted); an obligation that reaches a JNI table entry, an invocation-interface entry, a class-metadata callback or any function whose address escapes is a violation.')
ASSUME = ['host set-up calls (VM constructors, hook installation, VM::GetEnv, code generation) are not JNI calls and are not concurrent with them', 'at most one VM is involved in a call']
VMF = {'VM.classes', 'VM.typecheck', 'VM.globals', 'VM.jnienvs', 'VM.np', 'Class.classes', 'Namespace.classes', 'Namespace.namespaces'}
CLF = {'Class.methods', 'Class.fields', 'Class.natives'}
SELF = ('fld', 'off', 'idx', 'node', 'elem', 'slot', 'front', 'back', 'begin', 'end', 'find', 'before_begin', 'alias')
def guarded(I, st, t, d=0):
    """set of (kind, class term or None) an address lies in"""
    out = set(); stk = [t]; seen = set()
    while stk:
        x = stk.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'fld':
            if x.a[1] in CLF: out.add(('Class', x.a[0], x.a[1])); continue
            if x.a[1] in VMF: out.add(('VM', None, x.a[1])); continue
            if x.a[1].startswith('VM.') or x.a[1].startswith('Class.'): continue
        if x.op in ('phi', 'mphi', 'sel', 'any'): stk += [r for r in I.roots(x) if r is not x]
        elif x.op in SELF and x.a and isinstance(x.a[0], Term): stk.append(x.a[0])
    return out
def subst(t, args):
    if not isinstance(t, Term): return t
    if t.op == 'arg': return args[t.a[0]] if t.a[0] < len(args) else UNK
    if not any(isinstance(x, Term) for x in t.a): return t
    a = [subst(x, args) for x in t.a]
    if t.op == 'fld': return fld(*a)
    if t.op == 'ld': return absint.mkld(a[0])
    return T(t.op, *a)
class K(absint.Client):
    def __init__(s): s.un = {}; s.n = 0; s.calls = {}
    def touch(s, st, a, i, I):
        for k, o, f in guarded(I, st, a):
            s.n += 1
            if k == 'VM': ok = any(c04.kind(l) == 'VM' for l in st.locks)
            else: ok = any(l.op == 'fld' and l.a[1] == 'Class.mtx' and l.a[0] is o for l in st.locks) or strip(o).op in ('new', 'al')
            if not ok: s.un.setdefault((k, o, f), s.fn.m.loc(i))
    def load(s, st, a, v, i): s.touch(st, a, i, s.interp)
    def store(s, st, a, v, i): s.touch(st, a, i, s.interp)
    def call(s, st, ev):
        t = c04.targets(s.m, ev) - {'USER'}
        if t:
            for x in t: s.calls.setdefault((x, ev.i['id']), []).append((list(ev.args), st.locks, ev.loc))
            return
        if ev.name.startswith('pthread_mutex') or ev.name in models.NOTHROW and 'mutex' in ev.name: return
        for a in ev.args: s.touch(st, a, ev.i, ev.fn_interp)
def roots(m):
    d = {}
    for rn in (True, False):
        for s, f in slots(m, rn).items():
            if f: d.setdefault(f.name, s)
    for s, f in invoke_slots(m).items():
        if f: d.setdefault(f.name, s)
    for f in m.fns.values():
        if f.base.endswith('::GetBaseClasses'): d.setdefault(f.name, pretty(f))
    return d
def host(m, f):
    """members of the VM classes themselves (constructors before the VM is shared, host look-ups): not JNI calls; checked when a JNI call reaches them"""
    return 'VM' in ancestors(m, f.base.rpartition('::')[0])
def run(R):
    m = R.mod('api'); rt = roots(m)
    class S(absint.Client): pass
    # functions stored into a function table by other VM flavours
    for f in m.fns.values():
        for _, i in f.instrs():
            if i['op'] == 'store' and i['o'][0][0] == 'g' and i['o'][0][1] in m.fns and re.search(r'JNI(Native|Invoke)Interface', str(i.get('tb', ''))): rt.setdefault(i['o'][0][1], pretty(m.fns[i['o'][0][1]]))
    for n in m.addr:
        if n in m.fns and not host(m, m.fns[n]): rt.setdefault(n, pretty(m.fns[n]))
    done = {}
    def summ(n):
        if n not in done:
            k = K(); k.m = m; done[n] = k
            absint.Interp(m.fns[n], k).run(); k.fn = m.fns[n]
        return done[n]
    seen = set(); stk = list(rt)
    while stk:
        x = stk.pop()
        if x in seen: continue
        seen.add(x); k = summ(x); stk += [c for c, _ in k.calls]
    # obligations passed to callers
    need = {n: {(k, o, f): (loc, ()) for (k, o, f), loc in done[n].un.items()} for n in seen}
    ch = True
    while ch:
        ch = False
        for n in seen:
            for (c, _), sites in done[n].calls.items():
                for (k, o, f), (loc, path) in list(need[c].items()):
                    if len(path) > 6: continue
                    for args, locks, l2 in sites:
                        o2 = subst(o, args) if o is not None else None
                        ok = any(c04.kind(l) == 'VM' for l in locks) if k == 'VM' else any(l.op == 'fld' and l.a[1] == 'Class.mtx' and l.a[0] is o2 for l in locks)
                        if not ok and (k, o2, f) not in need[n]: need[n][(k, o2, f)] = (loc, (pretty(m.fns[c]).split('(')[0],) + path); ch = True
    for n in sorted(seen):
        f = m.fns[n]; R.fns.add(pretty(f)); k = done[n]
        if k.n: R.ok('access-under-its-lock', pretty(f), k.n)
        if n not in rt: continue
        for (kd, o, fl), (loc, path) in sorted(need[n].items(), key=str):
            R.bad('access-under-its-lock', '%s:%s' % (rt[n].split('(')[0], fl), '%s reaches an access to %s without the %s lock%s' % (rt[n], fl, kd if kd == 'VM' else 'class\'s', ' through ' + ' -> '.join(path) if path else ''), loc)
    R.floor('access-under-its-lock', 150)
