"""C04 internal locks: released on every way out, never re-requested, one nesting order."""
from .lib import *
EXPLAIN = ('Lock-set analysis over every path of every function that acquires or releases a mutex: at each return, exceptional exit and potentially throwing call without cleanup the set of held VM/class locks is empty; '
           'a release needs a held lock; an acquisition while a lock is held is an edge of the lock-order graph. Calls made while holding a lock (recursion, table slots, virtual calls, callbacks) contribute everything the callee may '
           'transitively acquire. The order graph must have no VM->VM edge, no Class->Class edge (except from a class to one of its own declared base classes) and no two-way VM/Class nesting; user code must not run under a lock.')
ASSUME = ['declared base classes form no cycle (they are C++ base classes)', 'table hooks registered with VM::AddHook only edit the table they are given', 'at most one VM is involved in a call']
def kind(t):
    """'VM' | 'Class' | 'monitor' | None for a mutex address"""
    fs = fields_of(t)
    if t.op == 'fld' and t.a[1] == 'VM.mtx': return 'VM'
    if t.op == 'fld' and t.a[1] == 'Class.mtx': return 'Class'
    for f in fs:
        if f == 'VM.mtx': return 'VM'
        if f == 'Class.mtx': return 'Class'
        if f == 'Object.lock': return 'monitor'
    return None
def lkind(t): return kind(t) or 'other'
LOCK = ('pthread_mutex_lock',); REL = ('pthread_mutex_unlock',)
MX = re.compile(r'^(pthread_mutex_|pthread_rwlock_|std::(recursive_|timed_|shared_)?mutex::|std::unique_lock|std::lock_guard|std::scoped_lock|std::shared_lock)')
def quiet(ev):
    """reads of containers, iterators and smart pointers do not throw"""
    o = cont_op(ev)
    if o: return o[0] == 'read' and o[1] != 'at' or o[1] in ('clear', 'erase', 'pop_back', 'swap')
    return ev.name.startswith(('std::__detail::', 'std::_Fwd_list', 'std::__shared_ptr', 'std::operator==', 'std::operator!=', 'std::unique_ptr::', 'std::weak_ptr::'))
class Scan(absint.Client):
    """events of one function"""
    effects_on_unwind = True
    def __init__(s, R, m): s.acq = []; s.held_out = []; s.calls = []; s.targets = set(); s.bad = []; s.n = 0; s.user = []; s.m = m; s.unk = []; s.destroy = []
    def call(s, st, ev):
        n = ev.name
        if n in LOCK:
            s.n += 1; s.acq.append((ev.args[0], st.locks, ev)); return
        if n in REL:
            if kind(ev.args[0]) in ('VM', 'Class') and not any(l is ev.args[0] for l in st.locks): s.bad.append(('release', ev.args[0], ev))
            return
        if MX.match(n) and kind(ev.args[0] if ev.args else NULL) in ('VM', 'Class'): s.unk.append(ev)
        t = targets(s.m, ev)
        s.targets |= t
        mine = [l for l in st.locks if kind(l) in ('VM', 'Class')]
        if mine:
            if t: s.calls.append((t, st.locks, ev, [h for h in st.locks if kind(h) == 'Class' and base_of(st, ev, h)]))
            if ev.i['op'] == 'call' and not ev.i.get('nt') and not quiet(ev) and n not in models.NOTHROW and not n.startswith(('llvm.', '__clang_call_terminate', 'std::terminate', '__cxa_')) and n not in ('abort', 'printf', 'strlen', 'puts', 'pthread_self', 'free'):
                s.bad.append(('throwing-call', mine[0], ev))
    def out(s, st, i, how):
        for l in st.locks:
            if kind(l) in ('VM', 'Class', None): s.held_out.append((l, how, i))
    def ret(s, st, v, i): s.out(st, i, 'returns')
    def unwind(s, st, i): s.out(st, i, 'leaves by an exception')
_vt = {}
def vm_virtuals(m, k):
    """implementations of virtual function k of the VM class and its subclasses"""
    if id(m) not in _vt:
        d = {}
        for n, g in m.globals.items():
            if not n.startswith('_ZTV') or not g[1:]: continue
            if 'VM' in ancestors(m, models.demangle_ti('_ZTI' + n[4:])):
                for j, x in enumerate(g[1][3:]): d.setdefault(j, set()).update([x[1]] if x[0] == 'g' and x[1] in m.fns else [])
        _vt[id(m)] = d
    return _vt[id(m)].get(k, set())
def is_vm(t, fn):
    return t.op in ('VM', 'VMof') or (t.op == 'arg' and t.a[0] == 0 and 'VM' in ancestors(fn.m, fn.base.rpartition('::')[0])) or (t.op == 'this' and is_vm(t.a[0], fn))
def targets(m, ev):
    """names of analysed functions the call may reach; 'USER' for code of the host"""
    n = ev.name
    if n.startswith('jni:'): return {f.name for rn in (True, False) for f in [slots(m, rn).get(n[4:])] if f}
    if n.startswith('jvm:'): return {f.name for f in [invoke_slots(m).get(n[4:])] if f}
    if n.startswith('virt:'):
        r = ev.args[1 if ev.i.get('sret') else 0]
        if is_vm(r, ev.fn) and vm_virtuals(m, int(n[5:])): return set(vm_virtuals(m, int(n[5:])))
        return {'USER'}
    if n.startswith(('ptr:', 'ind')): return {'USER'}
    if n == 'std::function::operatorCALL':
        a = ev.args[1] if ev.i.get('sret') else ev.args[0]
        src = [x for r in ev.fn_interp.roots(a) for x in subterms(r) if x.op == 'fld']
        if any(x.a[1] == 'Class.baseclasses' for x in src): return {f.name for f in m.fns.values() if f.base.endswith('::GetBaseClasses')}
        if any(x.a[1] == 'VM.jnienvhooks' for x in src): return set()
        return {'USER'}
    c = ev.i['callee']
    if c[0] == 'g' and c[1] in m.fns: return {c[1]}
    return set()
def run(R):
    m = R.mod('api')
    mem = {c: {x['n']: x['ty'] for x in m.classes[c]['members'] if 'n' in x} for c in ('jnivm::VM', 'jnivm::Class')}
    R.need('mtx' in mem['jnivm::VM'] and 'mtx' in mem['jnivm::Class'], 'lock members not found')
    rec = {'VM': 'recursive' in mem['jnivm::VM']['mtx'], 'Class': 'recursive' in mem['jnivm::Class']['mtx']}
    scans = {}
    def scan(name):
        if name not in scans:
            c = Scan(R, m); scans[name] = c
            absint.Interp(m.fns[name], c).run()
        return scans[name]
    may_ = {}
    def may(name):
        """kinds of locks a function may acquire: kind -> example"""
        if name not in may_:
            out = {}; seen = set(); stk = [name]
            while stk:
                x = stk.pop()
                if x in seen: continue
                seen.add(x)
                if x == 'USER': out.setdefault('USER', 'code supplied by the host'); continue
                s = scan(x)
                for l, _, ev in s.acq: out.setdefault(lkind(l), pretty(m.fns[x]).split('(')[0])
                stk += list(s.targets)
            may_[name] = out
        return may_[name]
    lockers = [f for f in m.fns.values() if any(i['callee'][0] == 'g' and (i['callee'][1].startswith('pthread_mutex') or 'mutex' in i['callee'][1]) for _, i in f.calls()) and not f.base.startswith('ObjectMutexWrapper')]
    R.need(len(lockers) >= 20, 'only %d functions use a mutex' % len(lockers))
    edges = {}
    for f in lockers:
        s = scan(f.name); P = pretty(f).split('(')[0]; R.fns.add(pretty(f))
        for l, how, i in s.held_out: R.bad('released-on-every-exit', '%s:%s' % (P, lkind(l)), '%s %s while holding %s' % (P, how, show(l)), m.loc(i))
        for k, l, ev in s.bad:
            if k == 'release': R.bad('releases-what-it-holds', P, '%s releases %s which is not held' % (P, show(l)), ev.loc)
            else: R.bad('released-on-every-exit', '%s:%s:unwind' % (P, lkind(l)), '%s holds %s across a call of %s that may throw, with nothing releasing it then' % (P, show(l), ev.name), ev.loc)
        for ev in s.unk: R.bad('recognised-lock-operation', P, '%s uses %s on an internal lock' % (P, ev.name), ev.loc)
        R.ok('released-on-every-exit', P, max(1, s.n)); R.ok('releases-what-it-holds', None, max(1, s.n))
        for l, held, ev in s.acq:
            k2 = kind(l)
            for h in held:
                k1 = kind(h)
                if k1 in ('VM', 'Class') and k2 in ('VM', 'Class'): edges.setdefault((k1, k2), []).append((P, ev.loc, h, l))
                elif k2 == 'monitor' and k1 in ('VM', 'Class') and not R.pid == '': R.bad('no-object-monitor-under-a-lock', P, '%s waits for an object monitor while holding %s' % (P, show(h)), ev.loc)
        for ts, held, ev, own in s.calls:
            for t in sorted(ts):
                for k2, ex in may(t).items():
                    for h in held:
                        k1 = kind(h)
                        if k1 not in ('VM', 'Class'): continue
                        if k2 == 'USER': R.bad('no-host-code-under-a-lock', '%s:%s' % (P, ev.name), '%s runs host code (%s) while holding %s; it may call back into the library' % (P, ev.name, show(h)), ev.loc)
                        elif k2 == 'Class' and k1 == 'Class' and h in own: R.ok('class-locks-follow-the-hierarchy', '%s -> %s' % (P, ev.name))
                        elif k2 in ('VM', 'Class'): edges.setdefault((k1, k2), []).append((P, ev.loc, h, T('lit', 'a lock taken in ' + ex)))
            R.ok('calls-under-a-lock', '%s calls %s' % (P, ev.name))
    # objects whose destructor is host code must not lose their last owner under a lock
    nd = 0
    for f in lockers:
        P = pretty(f).split('(')[0]; bad = {}; cnt = [0]
        class D(absint.Client):
            init_cs = ()
            def call(s, st, ev):
                held = [l for l in st.locks if kind(l) in ('VM', 'Class')]
                if not held: return
                op = cont_op(ev)
                if op and op[0] == 'del' and any(x.op == 'fld' and x.a[1] in ('VM.globals', 'VM.jnienvs') for x in subterms(ev.args[1 if ev.i.get('sret') else 0])):
                    cnt[0] += 1
                    if op[1] != 'erase': bad.setdefault('drops the whole table', ev.loc); return
                    it = st.get(ev.args[-1]) if ev.args[-1].op == 'al' else ev.args[-1]; cont = ev.args[1 if ev.i.get('sret') else 0]
                    e = absint.mkld(it)
                    vs = {e} | {k.a[1 - j] for k, v in st.facts.items() if k.op == 'eq' and v for j in (0, 1) if k.a[j] is e}
                    vs |= {v for k, v in st.mem.items() if v.op == 'ld' and any(x is cont for x in subterms(v))}
                    if not any(k.op in ('al', 'arg') and v in vs or (k.op == 'arg' and absint.mkld(k) in vs) for k, v in st.mem.items()) and not any(v.op == 'ld' and v.a[0].op == 'arg' for v in vs):
                        bad.setdefault('drops what may be the last owner of an object', ev.loc)
                    else: st.cs = st.cs + tuple(sorted(vs - set(st.cs), key=absint.order))
                elif ev.name.endswith(('::~__shared_ptr', '::~shared_ptr', 'shared_ptr::reset')) and st.cs:
                    v = st.mem.get(ev.args[0])
                    if v in st.cs and not any(k is not ev.args[0] and w is v and k.op in ('al', 'arg') for k, w in st.mem.items()): bad.setdefault('releases what may be the last owner of an object', ev.loc)
        absint.Interp(f, D()).run()
        nd += cnt[0]
        for w, loc in bad.items(): R.bad('no-object-destroyed-under-a-lock', '%s' % P, '%s %s while holding a lock; the destructor may call back into the library' % (P, w), loc)
        if cnt[0]: R.ok('no-object-destroyed-under-a-lock', P, cnt[0])
    for (a, b), ex in sorted(edges.items()):
        for P, loc, h, l in ex:
            if a == b and not rec[a]: R.bad('never-requested-twice', '%s:%s' % (P, a), '%s requests a %s lock (%s) while holding %s' % (P, b, show(l), show(h)), loc)
            elif a != b and (b, a) in edges: R.bad('one-nesting-order', '%s:%s->%s' % (P, a, b), '%s takes the %s lock while holding the %s lock; %s does the opposite' % (P, b, a, edges[(b, a)][0][0]), loc)
            else: R.ok('one-nesting-order', '%s: %s before %s' % (P, a, b))
    R.ok('never-requested-twice', None, sum(s.n for s in scans.values()))
    for r, n in (('released-on-every-exit', 25), ('calls-under-a-lock', 12), ('no-object-destroyed-under-a-lock', 2)): R.floor(r, n)
def base_of(st, ev, held):
    """some argument is (an element of) the result of asking the class whose lock is held for its base classes"""
    b = held.a[0] if held.op == 'fld' else held
    I = ev.fn_interp
    def from_bases(t, d=0):
        t = strip(t)
        if d > 6: return False
        if t.op == 'site' and 'std::function::operatorCALL' in str(t.a[1]): return any(x.op == 'fld' and x.a[1] == 'Class.baseclasses' and x.a[0] is b for a in t.a[2:] for x in subterms(a))
        if t.op in ('ld', 'begin', 'end', 'elem', 'front', 'back', 'off', 'idx', 'local'):
            x = t.a[0]
            v = st.mem.get(x)
            if v is not None and v is not x and from_bases(v, d + 1): return True
            return from_bases(x, d + 1)
        if t.op in ('phi', 'mphi', 'sel', 'any'):
            rs = [r for r in I.roots(t) if r is not NULL]
            return bool(rs) and all(r is t or from_bases(r, d + 1) for r in rs) and rs != [t]
        if t.op == 'unpack': return from_bases(t.a[1], d + 1)
        return False
    return any(from_bases(a) for a in ev.args)
