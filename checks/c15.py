"""C15 each attached thread has exactly one environment of its own."""
from .lib import *
from .c04 import vm_virtuals, is_vm
EXPLAIN = ('every access to the thread table is keyed by the calling thread; the attach entries of the invocation table create an environment only where the entry of this thread was found empty, exactly one, and store it there, '
           'report that very entry and leave an existing one alone; detach removes exactly the entry of the calling thread, only when it exists. The environment factories of the fake-jni layers refuse a thread that has one '
           'and record the new one in the thread-local context. Scoped contexts attach (and remember to detach) exactly when the thread had no environment, detach exactly then, once, on the VM they attached to; scoped frames push one frame on completion and pop one '
           'frame on the environment they hold; the thread-local context detaches its thread at its end.')
ASSUME = ['pthread_self and thread_local storage identify the calling thread', 'scoped contexts are not copied']
A = lambda k: T('arg', k)
TT = 'VM.jnienvs'
SELF = T('self')
def core(v):
    while v.op in ('copyof', 'cast', 'alias'): v = v.a[-1] if v.op == 'cast' else v.a[0]
    return v
def own(t): return t.op in ('slot', 'find') and is_field(t.a[0], TT)
def run(R):
    m = R.mod('api', ('w_env.cpp',)); I_ = invoke_slots(m); R.need(len(I_) >= 5, 'invocation table')
    creators = {'virt:%d' % k for k in range(4) if any(m.fns[n].base.endswith('::CreateEnv') for n in vm_virtuals(m, k))}; R.need(len(creators) == 1, 'virtual environment factory')
    def creates(ev):
        if ev.name in creators and (is_vm(ev.args[1] if ev.i.get('sret') else ev.args[0], ev.fn)): return True
        c = ev.i['callee']; return c[0] == 'g' and c[1] in m.fns and m.fns[c[1]].base.endswith('::CreateEnv')
    selfs = set()
    # ---- every use of the thread table is keyed by the calling thread
    users = [f for f in m.fns.values() if any('jnienvs' in json.dumps(i) for b in f.blocks for i in b)]
    R.need(len(users) >= 8, 'users of the thread table')
    ctl = {I_['AttachCurrentThread'].name: 'attach', I_['DetachCurrentThread'].name: 'detach'}
    for f in users:
        nm = pretty(f).split('(')[0] if '__invoke' not in f.dem else ctl.get(f.name, f.dem); R.fns.add(pretty(f))
        class U(absint.Client):
            def call(s, st, ev):
                op = cont_op(ev)
                if op and is_field(ev.args[0], TT):
                    if op[1] in ('operator[]', 'find', 'at', 'count', 'try_emplace', 'emplace', 'insert', 'insert_or_assign'):
                        k = ev.args[1]; k = st.get(k) if k.op in ('al', 'fld', 'off') else k
                        z = core(k)
                        R.check(z.op == 'self' or 'pthread_self' in show(z), 'keyed-by-the-calling-thread', '%s:%s' % (nm, op[1]), '%s accesses the thread table under %s' % (nm, show(k)), ev.loc, 'keyed by pthread_self()')
                        if op[0] == 'ins' and op[1] != 'operator[]': R.check(f.name in ctl and ctl[f.name] == 'attach' or nm.endswith('initialize'), 'only-attach-adds', nm + ':' + op[1], '%s performs %s on the thread table' % (nm, op[1]), ev.loc)
                    elif op[1] == 'erase':
                        k = ev.args[1]; kk = core(st.get(k) if k.op == 'al' else k)
                        R.check(ctl.get(f.name) == 'detach' or m.only_from(f, {n for n, x in ctl.items() if x == 'detach'}), 'only-detach-removes', nm, '%s removes an entry of the thread table' % nm, ev.loc, 'erase in DetachCurrentThread')
                        good = kk.op == 'find' and core(kk.a[1]).op == 'self' or kk.op == 'self'
                        R.check(good and len(ev.args) < 3 + bool(ev.i.get('sret')), 'keyed-by-the-calling-thread', nm + ':erase', '%s removes %s' % (nm, show(kk)), ev.loc, 'erases the entry of the calling thread')
                        if kk.op == 'find':
                            e = st.truth(mkeq(kk, T('end', kk.a[0]))); R.check(e is False, 'only-detach-removes', nm + ':missing', '%s removes an entry that may not exist' % nm, ev.loc, 'only when found')
                    elif op[0] == 'del': R.bad('only-detach-removes', '%s:%s' % (nm, op[1]), '%s performs %s on the thread table' % (nm, op[1]), ev.loc)
                    else: R.check(op[1] in ('begin', 'end', 'size', 'empty', 'cend', 'cbegin'), 'keyed-by-the-calling-thread', '%s:%s' % (nm, op[1]), '%s performs %s on the thread table' % (nm, op[1]), ev.loc, op[1])
                if re.match(r'std::(__)?shared_ptr::(operator=|reset|swap)$', ev.name) and ev.args and (own(ev.args[0]) or ev.args[0].op in ('fld', 'node') and any(own(x) for x in subterms(ev.args[0]))):
                    v = st.get(ev.args[1]) if len(ev.args) > 1 else NULL; v = core(v)
                    fresh = v.op == 'site' and v.a[1] in creators or v.op == 'new' or 'CreateEnv' in show(v)
                    init = nm.endswith('initialize') or re.search(r'::(VM|Jvm)$', f.base) is not None
                    R.check(fresh and (init or ctl.get(f.name) == 'attach'), 'entry-is-a-new-environment', nm, '%s sets the entry of the thread to %s' % (nm, show(v)), ev.loc, 'entry := the environment just created')
            def store(s, st, a, v, i):
                if own(a): R.bad('entry-is-a-new-environment', nm + ':store', '%s writes %s' % (nm, show(a)), m.loc(i))
        absint.Interp(f, U(), splitsel=True).run()
    # ---- attach
    vmt = T('VM', A(0)); ent = None
    f = I_['AttachCurrentThread']; R.fns.add(pretty(f))
    class At(absint.Client):
        effects_on_unwind = True
        def add(s, st, e): st.cs = st.cs + (e,)
        def entry(s, st):
            return [k for k in st.facts if k.op == 'eq' and NULL in k.a and any(own(x) for y in k.a for x in subterms(y)) or k.op == 'eq' and any(x.op == 'find' and is_field(x.a[0], TT) for x in k.a) and any(x.op == 'end' for x in k.a)]
        def call(s, st, ev):
            if creates(ev):
                r = ev.args[1] if ev.i.get('sret') else ev.args[0]
                R.check(r is vmt, 'attach-creates-one', 'AttachCurrentThread:vm', 'attaches to %s' % show(r), ev.loc, 'environment of the VM given')
                k = s.entry(st); R.check(bool(k) and all(st.facts[x] for x in k), 'attach-creates-one', 'AttachCurrentThread', 'an environment is created although the thread was not seen to have none', ev.loc, 'only where the entry is empty')
                s.add(st, 'new')
            elif ev.name.startswith('std::shared_ptr::operator=') and own(ev.args[0]): s.add(st, 'set')
            elif cont_op(ev) and cont_op(ev)[1] in ('emplace', 'insert', 'insert_or_assign', 'try_emplace') and is_field(ev.args[0], TT): s.add(st, 'set')
        def store(s, st, a, v, i):
            if a is A(1):
                b = v.a[0] if v.op == 'fld' and v.a[1] == 'ENV.env' else None
                ok = b is not None and (b.op == 'ld' and own(b.a[0]) or b.op == 'ld' and any(own(x) for x in subterms(b)) or b.op == 'site' and b.a[1] in creators and 'new' in st.cs)
                R.check(bool(ok), 'attach-reports-the-entry', 'AttachCurrentThread', 'reports %s' % show(v), m.loc(i), 'reports the environment of the thread'); st.cs = st.cs + ('out',)
        def ret(s, st, v, i):
            k = s.entry(st); missing = bool(k) and all(st.facts[x] for x in k)
            R.check(st.cs.count('new') == (1 if missing else 0) and st.cs.count('set') == st.cs.count('new'), 'attach-creates-one', 'AttachCurrentThread:%s' % ('missing' if missing else 'present'), 'creates %d environments and records %d where the thread has %s' % (st.cs.count('new'), st.cs.count('set'), 'none' if missing else 'one'), m.loc(i), 'creates and records exactly one where missing, none where present')
            if st.nullness(A(1)) == 'nonnull': R.check('out' in st.cs, 'attach-reports-the-entry', 'AttachCurrentThread:path', 'a path does not report the environment', m.loc(i))
            R.check(v.op == 'c' and v.a[0] == 0 or v is NULL, 'attach-reports-the-entry', 'AttachCurrentThread:result', 'returns %s' % show(v), m.loc(i))
    absint.Interp(f, At(), splitsel=True).run()
    # ---- detach removes an existing entry
    f = I_['DetachCurrentThread']
    class De(absint.Client):
        def call(s, st, ev):
            if ev.name == 'std::unordered_map::erase' and is_field(ev.args[0], TT):
                R.check(ev.args[0].a[0] is vmt, 'detach-removes-one', 'DetachCurrentThread:vm', 'detaches from %s' % show(ev.args[0].a[0]), ev.loc); st.cs = st.cs + (core(st.get(ev.args[1]) if ev.args[1].op == 'al' else ev.args[1]).op,)
        def ret(s, st, v, i):
            k = [x for k, x in st.facts.items() if k.op == 'eq' and any(y.op == 'find' and is_field(y.a[0], TT) for y in k.a) and any(y.op == 'end' for y in k.a)]
            n = 0 if k and all(k) else 1
            R.check(len(st.cs) == n or st.cs == ('self',), 'detach-removes-one', 'DetachCurrentThread:%d' % n, 'removes %d entries where the thread has %s' % (len(st.cs), 'one' if n else 'none'), m.loc(i), 'removes the entry where there is one')
    absint.Interp(f, De(), splitsel=True).run()
    for s in ('GetEnv', 'AttachCurrentThreadAsDaemon'):
        f = I_[s]; R.fns.add(pretty(f))
        class G(absint.Client):
            def call(c, st, ev):
                if ev.name == 'jvm:AttachCurrentThread': R.check(ev.args[0] is A(0) and ev.args[1] is A(1), 'attach-reports-the-entry', s, '%s attaches with %s' % (s, [show(a) for a in ev.args]), ev.loc, '%s = attach' % s); st.cs = st.cs + ('a',)
                elif ev.name.startswith('jvm:') or creates(ev) and f.name != I_['AttachCurrentThread'].name: R.bad('attach-reports-the-entry', s + ':' + ev.name, '%s performs %s' % (s, ev.name), ev.loc)
            def store(c, st, a, v, i):
                if a is A(1): st.cs = st.cs + ('a',); R.check(v.op == 'fld' and v.a[1] == 'ENV.env', 'attach-reports-the-entry', s + ':out', '%s reports %s' % (s, show(v)), m.loc(i))
            def ret(c, st, v, i):
                if st.nullness(A(1)) != 'null': R.check(len(st.cs) >= 1, 'attach-reports-the-entry', s + ':path', '%s does not report an environment' % s, m.loc(i))
        absint.Interp(f, G(), splitsel=True).run()
    # ---- thread-local context
    TL = lambda t: t is not None and t.op == 'site' and t.a[1] == 'FakeJni::JniEnvContext::env'
    cur = lambda t: t.op == 'lock' and any(TL(x) for x in subterms(t)) or t.op == 'ld' and any(TL(x) for x in subterms(t))
    def has(st):
        """does the path know whether the thread has an environment: True/False/None, last answer"""
        r = None
        for k, v in st.facts.items():
            if k.op == 'eq' and NULL in k.a and any(cur(x) for x in k.a): r = not v if r is None else r
        return r
    for f in m.fns.values():
        for _, i in f.instrs():
            if i['op'] in ('load', 'store', 'call', 'invoke') and '_ZN7FakeJni13JniEnvContext3envE"' in json.dumps(i) and not f.base.startswith(('__cxx', '_GLOBAL', '__tls')) and 'thread-local' not in f.dem and 'TLS' not in f.dem and '__cxx_global' not in f.name:
                g = m.globals.get('_ZN7FakeJni13JniEnvContext3envE')
                R.bad('context-is-thread-local', pretty(f).split('(')[0], '%s uses the current environment without thread-local access' % pretty(f), m.loc(i))
    facts = [f for f in m.find(r'::CreateEnv\(\)$') if not f.base.startswith('jnivm::')]; R.need(len(facts) >= 2, 'fake-jni factories')
    for f in facts:
        nm = f.base; R.fns.add(pretty(f))
        class Fa(absint.Client):
            def call(s, st, ev):
                if ev.name == 'std::make_shared' and 'FakeJni::Env' in ev.dem:
                    R.check(has(st) is False, 'one-environment-per-thread', nm, '%s makes an environment although the thread may have one' % nm, ev.loc, 'refuses a thread that has an environment'); st.cs = st.cs + (('new', ev.i['id']),)
                if re.match(r'std::(__)?weak_ptr::(operator=|swap|reset)$', ev.name) and any(TL(x) for x in subterms(ev.args[0])):
                    v = core(st.get(ev.args[1])) if len(ev.args) > 1 else NULL
                    R.check(v.op == 'new' and ('new', v.a[1]) in st.cs, 'context-knows-the-environment', nm, '%s records %s' % (nm, show(v)), ev.loc, 'records the new environment'); st.cs = st.cs + ('ctx',)
            def ret(s, st, v, i): R.check('ctx' in st.cs, 'context-knows-the-environment', nm + ':path', '%s returns without recording the environment for the thread' % nm, m.loc(i))
        absint.Interp(f, Fa(), splitsel=True).run()
    R.floor('context-knows-the-environment', 2); R.floor('one-environment-per-thread', 2)
    # ---- scoped contexts
    vmf = [x for x in m.classes['FakeJni::JniEnvContext']['members'] if x['ty'].replace(' ', '') in ('FakeJni::Jvm*', 'Jvm*')]; R.need(len(vmf) == 1, 'VM member of the scoped context'); VMF = fld(A(0), 'FakeJni::JniEnvContext.' + vmf[0]['n'])
    b = [x for x in m.classes['FakeJni::Jvm']['members'] if x['k'] == 'base' and 'JavaVM' in x['ty']][0]['off']
    vmof = lambda t: t.a[0] if t.op == 'off' and t.a[1] == b else t
    class Sc(absint.Client):
        """tracks remembered VM, attach/detach/push/pop per path"""
        effects_on_unwind = True
        def __init__(s): s.rets = []; s.unw = []
        def store(s, st, a, v, i):
            if a is VMF: st.cs = tuple(e for e in st.cs if e[0] != 'vm') + (('vm', v),)
        def call(s, st, ev):
            if ev.name.startswith('jvm:'): st.cs = st.cs + ((ev.name[4:], vmof(ev.args[0]), has(st), ev.loc),)
            if ev.name.startswith('jni:'): st.cs = st.cs + ((ev.name[4:], ev.args[0], tuple(ev.args[1:]), ev.loc),)
            c = ev.i['callee']
            if c[0] == 'g' and c[1] in m.fns and ('Attach' in ev.name or 'Detach' in ev.name): st.cs = st.cs + ((ev.name, ev.args[0], has(st), ev.loc),)
        def ret(s, st, v, i): s.rets.append((st, i))
        def unwind(s, st, i): s.unw.append((st, i))
    def go(f): R.fns.add(pretty(f)); c = Sc(); absint.Interp(f, c, splitsel=True).run(); R.need(c.rets, 'returning path of ' + f.dem); return c
    def entered(f, nm, vmarg, loc_of=m.loc):
        c = go(f)
        for st, i in c.rets:
            loc = loc_of(i); at = [e for e in st.cs if e[0] == 'AttachCurrentThread']; de = [e for e in st.cs if e[0] == 'DetachCurrentThread']; rem = next((e[1] for e in st.cs if e[0] == 'vm'), None)
            h = at[0][2] if at else has(st)
            if vmarg is None:
                R.check(not at and not de and rem is NULL, 'detaches-only-what-it-attached', nm, '%s remembers %s to detach' % (nm, rem and show(rem)), loc, 'does not attach, will not detach'); continue
            if h is False:
                R.check(len(at) == 1 and at[0][1] is vmarg, 'attaches-a-thread-without-environment', nm, '%s attaches %d times (%s)' % (nm, len(at), [show(e[1]) for e in at]), loc, 'attaches the thread once')
                R.check(rem is vmarg, 'detaches-only-what-it-attached', nm + ':new', '%s attached the thread and remembers %s' % (nm, rem and show(rem)), loc, 'remembers the VM it attached to')
            else:
                R.check(h is True and not at, 'attaches-a-thread-without-environment', nm + ':known', '%s %s' % (nm, 'attaches a thread that has an environment' if at else 'does not look whether the thread has an environment'), loc, 'leaves an attached thread alone')
                R.check(rem is NULL, 'detaches-only-what-it-attached', nm + ':old', '%s did not attach the thread but remembers %s' % (nm, rem and show(rem)), loc, 'remembers nothing to detach')
            R.check(not de, 'detaches-only-what-it-attached', nm + ':early', '%s detaches the thread' % nm, loc)
        return c
    def left(f, nm):
        c = go(f)
        for st, i in c.rets:
            loc = m.loc(i); de = [e for e in st.cs if e[0] == 'DetachCurrentThread']; x = st.truth(mkeq(T('ld', VMF), NULL))
            R.check(len(de) == (0 if x is True else 1) and x is not None and all(e[1] is T('ld', VMF) for e in de), 'detaches-only-what-it-attached', nm + (':keep' if x else ':detach'), '%s detaches %d times where it %s' % (nm, len(de), {True: 'attached nothing', False: 'attached the thread', None: 'does not look'}[x]), loc, 'detaches exactly when it attached')
        return c
    C_ = [f for f in m.fns.values() if f.base == 'FakeJni::JniEnvContext::JniEnvContext' and re.search(r'C[12]E', f.name)]; R.need(len(C_) >= 2, 'constructors of the scoped context')
    for f in C_: entered(f, 'JniEnvContext/%d' % len(f.params), A(1) if f.nargs > 1 else None)
    D_ = m.by_base('FakeJni::JniEnvContext::~JniEnvContext'); R.need(D_, 'destructor of the scoped context')
    for f in D_: left(f, '~JniEnvContext')
    for b_, n_ in (('witness::frame_enter_vm', 'LocalFrame(vm)'), ('witness::frame_enter', 'LocalFrame()')):
        f = m.by_base(b_)[0]; c = entered(f, n_, A(1) if 'vm' in b_ else None)
        for st, i in c.rets:
            p = [e for e in st.cs if e[0] == 'PushLocalFrame']; o = [e for e in st.cs if e[0] == 'PopLocalFrame']
            R.check(len(p) == 1 and not o and cur(p[0][1]), 'frame-is-pushed-and-popped', n_, '%s pushes %d frames (%s)' % (n_, len(p), [show(e[1]) for e in p]), m.loc(i), 'pushes one frame')
        for st, i in c.unw:
            p = [e for e in st.cs if e[0] == 'PushLocalFrame' ]
    f = m.by_base('witness::frame_leave')[0]; c = left(f, '~LocalFrame')
    held = [x for x in m.classes['FakeJni::JniEnvContext']['members'] if 'shared_ptr' in x['ty']]; R.need(len(held) == 1, 'environment member of the scoped context'); HE = T('ld', fld(A(0), 'FakeJni::JniEnvContext.' + held[0]['n']))
    for st, i in c.rets:
        o = [(k, e) for k, e in enumerate(st.cs) if e[0] == 'PopLocalFrame']; d = [k for k, e in enumerate(st.cs) if e[0] == 'DetachCurrentThread']
        R.check(len(o) == 1 and o[0][1][1] is HE and (not d or o[0][0] < d[0]) and not any(e[0] == 'PushLocalFrame' for e in st.cs), 'frame-is-pushed-and-popped', '~LocalFrame', '~LocalFrame pops %d frames (%s)%s' % (len(o), [show(e[1]) for _, e in o], ' after detaching' if o and d and o[0][0] > d[0] else ''), m.loc(i), 'pops one frame of the environment it holds')
    g = m.by_base('FakeJni::JniEnvContext::getJniEnv'); R.need(len(g) == 1, 'getJniEnv'); R.fns.add(pretty(g[0]))
    class GE(absint.Client):
        def ret(s, st, v, i): R.check(v is HE and st.nullness(HE) == 'nonnull', 'frame-is-pushed-and-popped', 'getJniEnv', 'getJniEnv returns %s' % show(v), m.loc(i), 'the environment held')
    absint.Interp(g[0], GE(), splitsel=True).run()
    # ---- a thread that ends is detached
    T_ = m.by_base('FakeJni::ThreadContext::~ThreadContext'); R.need(T_, 'destructor of the thread context')
    for f in T_:
        R.fns.add(pretty(f))
        class Th(absint.Client):
            def call(s, st, ev):
                if ev.name == 'jvm:DetachCurrentThread':
                    v = vmof(ev.args[0]); st.cs = st.cs + ('d',)
                    R.check(v.op == 'ld' and any(x.op == 'lock' for x in subterms(v)) and any(x is A(0) for x in subterms(v)), 'ending-thread-is-detached', '~ThreadContext:vm', 'detaches from %s' % show(v), ev.loc, 'detached from the VM of its environment')
            def one(s, st, i):
                k = [v for k, v in st.facts.items() if k.op == 'eq' and NULL in k.a and any(x.op == 'lock' and any(y is A(0) for y in subterms(x)) for x in k.a)]
                has_ = k and not k[0]
                R.check(bool(k) and (len(st.cs) == (1 if has_ else 0)), 'ending-thread-is-detached', '~ThreadContext:%s' % ('attached' if has_ else 'free'), 'an ending thread %s' % ('with an environment is detached %d times' % len(st.cs) if has_ else 'without environment is detached'), m.loc(i), 'detached exactly when it has an environment')
            def ret(s, st, v, i): s.one(st, i)
        absint.Interp(f, Th(), splitsel=True).run()
    R.floor('ending-thread-is-detached', 2); R.floor('frame-is-pushed-and-popped', 4); R.floor('attach-creates-one', 3)
