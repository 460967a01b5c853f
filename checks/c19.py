"""C19 monitors: acquire/release events on the per-object recursive mutex."""
from .lib import *
EXPLAIN = ('All paths of every function: events acquiring/releasing a mutex that is the monitor member of an object. MonitorEnter must acquire exactly once '
           'the monitor of the object the handle resolves to (weak/global wrappers unwrapped) and MonitorExit release exactly once; a success code is only returned after that. '
           'No other function may touch a monitor; the member is a recursive mutex stored by value and object copies never read the source\'s monitor.')
ASSUME = ['std::recursive_mutex is re-entrant', 'JNICast/UnpackJObject resolution is decided by C09']
MON = 'Object.lock'
W = ('w_invoke.cpp',)
def monitor_base(t):
    """object whose monitor the mutex address belongs to, else None"""
    while t.op == 'fld' and not (t.a[1] == MON): t = t.a[0]
    return t.a[0] if t.op == 'fld' else None
def want(cl, st, ev, ph):
    if ph != 'call': return None
    if ev.name in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock'):
        b = monitor_base(ev.args[0])
        if b is not None: return ('acq' if ev.name.endswith('_lock') and 'try' not in ev.name else 'try' if 'try' in ev.name else 'rel', b)
    elif ev.name.startswith('std::recursive_mutex::'):
        b = monitor_base(ev.args[0])
        if b is not None: return ('acq' if ev.name.endswith('::lock') else 'rel' if ev.name.endswith('unlock') else 'try', b)
    return None
def run(R):
    m = R.mod('api', W); sl = slots(m)
    R.need(sl.get('MonitorEnter') and sl.get('MonitorExit'), 'monitor slots missing')
    mem = {x['n']: x for x in m.classes['jnivm::Object']['members']}
    R.need('lock' in mem, 'Object::lock not found')
    ty = mem['lock']['ty']
    inner = m.classes.get(ty)
    tys = [ty] + ([x['ty'] for x in inner['members']] if inner else [])
    R.check('std::recursive_mutex' in tys and not any(t.endswith(('*', '&')) for t in tys), 'monitor-is-a-reentrant-member', 'Object::lock', 'the object monitor is %s, not a recursive mutex stored in the object' % tys, 'object.h', str(tys))
    for s, kind in (('MonitorEnter', 'acq'), ('MonitorExit', 'rel')):
        f = sl[s]; R.fns.add(pretty(f)); c = logfn(f, want)
        o = T('unpack', 'Object', T('arg', 1))
        for st, v, i in c.rets:
            if st.nullness(o) == 'null' or st.nullness(T('arg', 1)) == 'null': continue
            ok = [(e[0], e[1], e[-1]) for e in st.cs] == [(kind, o, False)]
            if v is C(0) or ok:
                R.check(ok and v is C(0), 'acts-once-on-the-denoted-object', s, '%s returns %s after %s instead of exactly one %s on the object the handle denotes' % (s, show(v), [(e[0], show(e[1])) for e in st.cs], kind), m.loc(i), '%s: %s' % (s, [(e[0], show(e[1])) for e in st.cs]))
            else:
                R.check(not st.cs, 'failure-leaves-the-monitor', s, '%s fails after acting on a monitor' % s, m.loc(i))
        R.need(c.rets, s + ' has no return')
    skip = {sl['MonitorEnter'].name, sl['MonitorExit'].name}
    n = 0
    for f in m.fns.values():
        if m.only_from(f, skip) or not any(i['callee'][0] == 'g' and ('pthread_mutex' in i['callee'][1] or 'recursive_mutex' in i['callee'][1]) for _, i in f.calls()): continue
        n += 1; R.fns.add(pretty(f)); hits = []
        class K(absint.Client):
            def call(self, st, ev):
                e = want(self, st, ev, 'call')
                if e and not (f.base.startswith('ObjectMutexWrapper')): hits.append((e, ev.loc))
        absint.Interp(f, K()).run()
        R.check(not hits, 'nobody-else-touches-monitors', pretty(f).split('(')[0], '%s acts on the monitor of %s' % (pretty(f), show(hits[0][0][1]) if hits else ''), hits and hits[0][1], pretty(f))
    # copies never read the source's monitor
    w = m.find('witness::copies'); R.need(len(w) == 1, 'copy witness missing')
    bad = []
    class Cp(absint.Client):
        def load(self, st, a, v, i):
            if monitor_base(a) is not None: bad.append(m.loc(i))
        def call(self, st, ev):
            srcs = ev.args[1:2] if ev.name.startswith(('llvm.memcpy', 'memcpy', 'llvm.memmove', 'memmove')) else [a for a in ev.args if 'mutex' in ev.name.lower()][1:]
            for a in srcs:
                if a.op != 'c' and (monitor_base(a) is not None or a.op in ('arg', 'al')): bad.append(ev.loc)
    absint.Interp(w[0], Cp()).run()
    R.check(not bad, 'copies-have-their-own-monitor', 'Object copy', 'copying an object reads the monitor of the source', bad and bad[0], 'Object copy/move constructor and assignment')
    R.floor('acts-once-on-the-denoted-object', 2); R.floor('nobody-else-touches-monitors', 5)
