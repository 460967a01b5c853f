"""C17 native libraries are opened, initialised, finalised and closed in pairs."""
from .lib import *
EXPLAIN = ('the constructor and destructor of a library instance are interpreted on all paths: a library is only opened again where the previous open failed, the load hook is looked up in and run on the library just opened, once, only where open and lookup succeeded, under the plain name for '
           'a loaded and the name-suffixed one for a statically linked library, which is remembered by its name; the destructor runs the unload hook of the same kind before it closes the remembered handle exactly once, and does nothing without a handle. Only the loader functions supplied are called, '
           'each in its own role, by every function of the library. Instances are made in attachLibrary for the name, VM and options given, owned by the library table alone, dropped by removeLibrary under that name.')
ASSUME = ['the hooks of a library do not throw C++ exceptions through their C interface', 'std::unique_ptr and the library table destroy each instance exactly once']
LO = 'FakeJni::LibraryOptions.'
LI = 'FakeJni::Jvm::libinst'
A = lambda k: T('arg', k)
def cstr(t):
    """std::string value a C string was taken from, or the literal"""
    return t.a[0] if t.op == 'cstr' else t
def run(R):
    m = R.mod('api')
    cls = m.classes.get(LI); R.need(cls, 'library instance class')
    mem = {x['ty'].replace(' ', ''): x['n'] for x in cls['members'] if x['k'] == 'm'}
    def fm(*tys):
        c = [n for t, n in mem.items() if t in tys]; R.need(len(c) == 1, 'member of type %s in the library instance' % (tys,)); return fld(A(0), LI + '.' + c[0])
    H, P, V = fm('void*'), fm('std::string', 'std::__cxx11::string', 'std::basic_string<char>'), fm('JavaVM*', '_JavaVM*')
    O = fm('FakeJni::LibraryOptions', 'LibraryOptions')
    R.need(all(x.a[1].startswith(LI) for x in (H, P, V)), 'members')
    ctor = [f for f in m.fns.values() if f.base == LI + '::libinst' and re.search(r'C[12]E', f.name)]; dtor = m.by_base(LI + '::~libinst'); R.need(ctor and dtor, 'constructor and destructor of the library instance')
    def role(st, ev):
        """(role, table) of an indirect call through the loader functions"""
        if not ev.name.startswith(('ptr:', 'ind')): return None
        t = ev.interp.val(st, ev.i['callee']) if hasattr(ev, 'interp') else None
        return t
    class Base(absint.Client):
        nm = ''
        def put(s, st, *e): st.cs = st.cs + (e,)
        def call(s, st, ev):
            if ev.name.startswith(('ptr:', 'ind')):
                t = s.interp.val(st, ev.i['callee']); loc = ev.loc
                if t.op == 'ld' and t.a[0].op == 'fld' and t.a[0].a[1].startswith(LO):
                    k = t.a[0].a[1][len(LO):]; own = t.a[0].a[0]
                    R.check(own in s.tables, 'only-supplied-functions', s.nm + ':' + k, '%s uses %s' % (s.nm, show(t)), loc, '%s of the supplied options' % k); s.loader(st, ev, k, [ev.args[j] for j in range(len(ev.args))]); return
                if t.op == 'copyof' and A(3) in s.tables and core(t) in (T('ld', A(3)), A(3)):   # first member of the copied options
                    s.loader(st, ev, 'dlopen', [a for a in ev.args if a is not t]); return
                s.hook(st, ev, t)
            elif ev.name in ('dlopen', 'dlsym', 'dlclose'): R.bad('only-supplied-functions', '%s:%s' % (s.nm, ev.name), '%s calls %s directly' % (s.nm, ev.name), ev.loc)
            elif ev.name.startswith('std::basic_string') and ev.args and ev.args[0] is P and cont_string(ev): s.path(st, ev)
    def cont_string(ev): return ev.name.split('::')[-1] in ('operator=', 'assign', 'append', 'operator+=', 'clear', 'swap', 'basic_string')
    def sym(st, t):
        """(handle, name) of a symbol"""
        if t.op == 'site' and t.a[1] == 'ptr:' + LO + 'dlsym': return t.a[2], cstr(t.a[3])
        return None
    S1 = T('ld', A(1))
    for f in ctor:
        R.fns.add(pretty(f))
        class Co(Base):
            nm = 'libinst'; tables = (A(3), O)
            def loader(s, st, ev, k, a):
                loc = ev.loc; op = [e for e in st.cs if e[0] == 'open']
                if k == 'dlopen':
                    R.check(all(st.nullness(e[1]) == 'null' for e in op), 'opened-only-after-failure', 'libinst:%d' % len(op), 'a library is opened while another open may have succeeded', loc, 'opens again only after the first open failed')
                    n = cstr(a[0]); stc = n is NULL
                    R.check(stc or n is S1 or n is A(1), 'opens-the-named-library', 'libinst', 'opens %s' % show(n), loc, 'opens the name given')
                    if stc:
                        e = [v for kk, v in st.facts.items() if kk.op == 'eq' and NULL in kk.a and any(x.op == 'pure' and x.a[0] == 'size' and x.a[1] in (S1, A(1)) for x in kk.a)] + [v for kk, v in st.facts.items() if kk.op == 'pure1' and kk.a[0] == 'empty' and kk.a[1] is A(1)]
                        R.check(bool(e) and not e[0], 'opens-the-named-library', 'libinst:static', 'falls back to statically linked hooks for a nameless library', loc, 'static fallback only for a named library')
                    s.put(st, 'open', T('site', ev.i['id'], ev.name, *ev.args), stc)
                elif k == 'dlsym': pass
                elif k == 'dlclose':
                    R.bad('closed-only-at-the-end', 'libinst', 'the constructor closes a library', loc)
            def hook(s, st, ev, t):
                loc = ev.loc; d = sym(st, t); op = [e for e in st.cs if e[0] == 'open']
                if not d: R.bad('only-supplied-functions', 'libinst:hook', 'the constructor calls %s' % show(t), loc); return
                good = op and d[0] is op[-1][1] and st.nullness(d[0]) == 'nonnull'
                R.check(bool(good), 'hook-only-after-open', 'libinst', 'runs a hook of %s, which is not known open' % show(d[0]), loc, 'hook of the library just opened, known open')
                R.check(st.nullness(t) == 'nonnull', 'hook-only-after-open', 'libinst:missing', 'runs a hook that may not exist', loc, 'hook known to exist')
                if op:
                    w = T('cat', T('str', 'JNI_OnLoad_'), S1) if op[-1][2] else None; nme = d[1]
                    R.check(name_is(nme, 'JNI_OnLoad', op[-1][2], (S1, A(1), T('ld', P))), 'hook-name-matches-kind', 'libinst:%s' % ('static' if op[-1][2] else 'loaded'), 'runs %s for a %s library' % (show(nme), 'statically linked' if op[-1][2] else 'loaded'), loc, 'load hook name of its kind')
                R.check(list(ev.args)[-2:] in ([A(2), NULL], [T('ld', V), NULL]), 'hook-gets-the-vm', 'libinst', 'the load hook gets %s' % [show(a) for a in ev.args], loc, 'load hook gets the VM')
                R.check(not any(e[0] == 'hook' for e in st.cs), 'hook-runs-once', 'libinst', 'the load hook runs again', loc, 'load hook runs once'); s.put(st, 'hook', t)
            def path(s, st, ev):
                if ev.name.split('::')[-1] == 'basic_string' and len(ev.args) < 2: return
                s.put(st, 'path', core(st.get(ev.args[1])) if len(ev.args) > 1 else None)
            def ret(s, st, v, i):
                loc = m.loc(i); op = [e for e in st.cs if e[0] == 'open']
                R.check(bool(op), 'opens-the-named-library', 'libinst:path', 'a path opens nothing', loc, 'opens a library')
                if not op: return
                last = op[-1]; h = st.get(H); R.check(h is last[1] or st.truth(mkeq(h, last[1])) is True or (h is NULL and st.nullness(last[1]) == 'null'), 'handle-is-remembered', 'libinst', 'remembers %s after opening %s' % (show(h), show(last[1])), loc, 'remembers the handle of the last open')
                ok = st.nullness(last[1]); pa = [e for e in st.cs if e[0] == 'path']
                if ok == 'nonnull':
                    if last[2]: R.check(len(pa) >= 1 and pa[-1][1] in (S1, A(1)), 'static-name-is-remembered', 'libinst', 'a statically linked library is remembered as %s' % [e[1] and show(e[1]) for e in pa], loc, 'remembers the name')
                    else: R.check(not pa, 'static-name-is-remembered', 'libinst:loaded', 'a loaded library is remembered as statically linked', loc, 'no name for a loaded library')
                    if not any(e[0] == 'hook' for e in st.cs):
                        d = [k for k, v in st.facts.items() if v and k.op == 'eq' and NULL in k.a and any(sym(st, x) and sym(st, x)[0] is last[1] for x in k.a)]
                        R.check(bool(d), 'hook-runs-once', 'libinst:skipped', 'an opened library gets no load hook although it may have one', loc, 'load hook runs where it exists')
                else: R.check(ok == 'null', 'handle-is-remembered', 'libinst:unknown', 'a path does not look whether the open succeeded', loc)
                R.check(core(st.get(V)) is A(2), 'instance-keeps-what-it-was-given', 'libinst:vm', 'keeps VM %s' % show(st.get(V)), loc, 'keeps the VM')
                g = st.get(O); g2 = [st.mem.get(fld(O, LO + k)) for k in ('dlopen', 'dlsym', 'dlclose')]
                R.check(core(g) in (T('ld', A(3)), A(3)) or all(x is not None and core(x) is T('ld', fld(A(3), LO + k)) for x, k in zip(g2, ('dlopen', 'dlsym', 'dlclose'))), 'instance-keeps-what-it-was-given', 'libinst:options', 'keeps options %s' % show(g), loc, 'keeps the options')
        absint.Interp(f, Co(), splitsel=True).run()
    HV = T('ld', H); PV = T('ld', P)
    for f in dtor:
        R.fns.add(pretty(f))
        class De(Base):
            nm = '~libinst'; tables = (O,)
            def loader(s, st, ev, k, a):
                if k == 'dlopen': R.bad('closed-only-at-the-end', '~libinst:open', 'the destructor opens a library', ev.loc)
                if k in ('dlsym', 'dlclose'):
                    R.check(a[0] is HV and st.nullness(HV) == 'nonnull', 'closes-what-it-opened', '~libinst:' + k, '%s on %s' % (k, show(a[0])), ev.loc, '%s on the remembered open handle' % k)
                if k == 'dlsym': R.check(not any(e[0] == 'close' for e in st.cs), 'unload-before-close', '~libinst', 'looks up a symbol in a closed library', ev.loc, 'looked up before the close')
                if k == 'dlclose': s.put(st, 'close', a[0])
            def hook(s, st, ev, t):
                loc = ev.loc; d = sym(st, t)
                if not d: R.bad('only-supplied-functions', '~libinst:hook', 'the destructor calls %s' % show(t), loc); return
                R.check(not any(e[0] == 'close' for e in st.cs), 'unload-before-close', '~libinst:hook', 'runs the unload hook of a closed library', loc, 'unload hook before the close')
                R.check(st.nullness(t) == 'nonnull' and d[0] is HV, 'hook-only-after-open', '~libinst', 'runs %s' % show(t), loc, 'unload hook known to exist')
                e = empty(st); R.check(e is not None and name_is(d[1], 'JNI_OnUnload', not e, (PV, P)), 'hook-name-matches-kind', '~libinst:%s' % ('loaded' if e else 'static'), 'runs %s for a %s library' % (show(d[1]), 'loaded' if e else 'statically linked'), loc, 'unload hook name of its kind')
                R.check(list(ev.args)[-2:] == [T('ld', V), NULL], 'hook-gets-the-vm', '~libinst', 'the unload hook gets %s' % [show(a) for a in ev.args], loc, 'unload hook gets the VM')
                R.check(not any(e[0] == 'hook' for e in st.cs), 'hook-runs-once', '~libinst', 'the unload hook runs again', loc); s.put(st, 'hook', t)
            def path(s, st, ev): R.bad('static-name-is-remembered', '~libinst', 'the destructor changes the name', ev.loc)
            def ret(s, st, v, i):
                loc = m.loc(i); n = sum(e[0] == 'close' for e in st.cs); o = st.nullness(HV)
                R.check(o is not None and n == (1 if o == 'nonnull' else 0), 'closed-exactly-once', '~libinst:%s' % o, 'closes %d times where the library is %s' % (n, {'nonnull': 'open', 'null': 'not open'}.get(o, 'of unknown state')), loc, 'closed exactly when open')
                if o == 'nonnull' and not any(e[0] == 'hook' for e in st.cs):
                    d = [k for k, v in st.facts.items() if v and k.op == 'eq' and NULL in k.a and any(sym(st, x) for x in k.a)]
                    R.check(bool(d), 'hook-runs-once', '~libinst:skipped', 'closes a library without its unload hook although it may have one', loc, 'unload hook runs where it exists')
        def empty(st):
            for k, v in st.facts.items():
                if k.op == 'eq' and NULL in k.a and any(x.op == 'pure' and x.a[0] == 'size' and x.a[1] in (PV, P) for x in k.a): return v
                if k.op == 'pure1' and k.a[0] == 'empty' and k.a[1] is P: return v
            return None
        absint.Interp(f, De(), splitsel=True).run()
    R.floor('closed-exactly-once', 2); R.floor('hook-name-matches-kind', 4); R.floor('opened-only-after-failure', 2)
    # ---- the option constructors put each function into its own role
    for f in m.by_base('FakeJni::LibraryOptions::LibraryOptions'):
        if not re.search(r'C[12]E', f.name): continue
        R.fns.add(pretty(f))
        class Op(absint.Client):
            def ret(s, st, v, i):
                for j, k in enumerate(('dlopen', 'dlsym', 'dlclose')):
                    w = A(j + 1) if f.nargs == 4 else T('fn', k); x = st.get(fld(A(0), LO + k))
                    if f.nargs == 4 or x.op == 'fn': R.check(x is w, 'only-supplied-functions', 'LibraryOptions:%s/%d' % (k, f.nargs), '%s := %s' % (k, show(x)), m.loc(i), '%s := the %s function' % (k, k))
        absint.Interp(f, Op(), splitsel=True).run()
    # ---- ownership
    lib = [x for x in m.classes['FakeJni::Jvm']['members'] if x['k'] == 'm' and 'libinst' in x['ty']]; R.need(len(lib) == 1, 'library table'); L = 'FakeJni::Jvm.' + lib[0]['n']
    R.check('unique_ptr' in lib[0]['ty'] and 'map' in lib[0]['ty'], 'table-owns-the-instances', 'type', 'the library table is a %s' % lib[0]['ty'], '', 'table of unique_ptr')
    att = m.by_base('FakeJni::Jvm::attachLibrary'); rem = m.by_base('FakeJni::Jvm::removeLibrary'); R.need(len(att) == 1 and len(rem) == 1, 'attachLibrary and removeLibrary')
    f = att[0]; R.fns.add(pretty(f))
    class At(absint.Client):
        def call(s, st, ev):
            if ev.name == 'std::make_unique' and 'libinst' in ev.dem:
                a = list(ev.args[1:]) if ev.i.get('sret') or len(ev.args) == 4 else list(ev.args); v = st.get(a[1]) if a[1].op == 'al' else a[1]
                R.check(a[0] in (A(1),), 'attaches-what-was-given', 'name', 'attaches %s' % show(a[0]), ev.loc, 'the name given')
                vv = v.a[0] if v.op == 'off' else v
                R.check(vv is A(0), 'attaches-what-was-given', 'vm', 'attaches for %s' % show(v), ev.loc, 'this VM')
                o = a[2]; R.check(o is A(3) or o.op == 'al' and core(st.get(o)) is T('ld', A(3)), 'attaches-what-was-given', 'options', 'attaches with %s' % show(o), ev.loc, 'the options given'); st.cs = st.cs + ('made',)
            op = cont_op(ev)
            if op and is_field(ev.args[0], L):
                if op[0] == 'ins': st.cs = st.cs + ('kept',)
                elif op[0] == 'del': R.bad('table-owns-the-instances', 'attachLibrary:' + op[1], 'attachLibrary performs %s on the library table' % op[1], ev.loc)
        def ret(s, st, v, i):
            k = st.cs.count('made'); found = any(kk.op == 'eq' and any(x.op == 'find' and is_field(x.a[0], L) for x in kk.a) and not vv for kk, vv in st.facts.items())
            R.check((k == 1 and 'kept' in st.cs) or (k == 0 and found), 'attaches-what-was-given', 'path', 'attachLibrary opens %d libraries and %s' % (k, 'keeps it' if 'kept' in st.cs else 'drops it'), m.loc(i), 'opens one library and keeps it')
    absint.Interp(f, At(), splitsel=True).run()
    f = rem[0]; R.fns.add(pretty(f))
    class Re(absint.Client):
        def call(s, st, ev):
            op = cont_op(ev)
            if op and is_field(ev.args[0], L) and op[0] != 'read':
                k = ev.args[1] if len(ev.args) > 1 else NULL; kk = core(st.get(k) if k.op == 'al' else k)
                R.check(op[1] == 'erase' and (k is A(1) or kk is S1 or kk.op == 'find' and core(kk.a[1]) in (A(1), S1)), 'removes-what-was-named', 'removeLibrary', 'removeLibrary performs %s(%s)' % (op[1], show(kk)), ev.loc, 'erases the name given'); st.cs = st.cs + ('del',)
        def ret(s, st, v, i):
            miss = any(kk.op == 'eq' and any(x.op == 'find' and is_field(x.a[0], L) for x in kk.a) and vv for kk, vv in st.facts.items())
            R.check('del' in st.cs or miss, 'removes-what-was-named', 'removeLibrary:path', 'removeLibrary keeps the library', m.loc(i), 'removes the library')
    absint.Interp(f, Re(), splitsel=True).run()
    for g in m.fns.values():
        if g.name in (att[0].name, rem[0].name) or m.only_from(g, {att[0].name, rem[0].name}): continue
        for _, i in g.calls():
            d = m.dem.get(i['callee'][1], '') if i['callee'][0] == 'g' else ''
            if i['callee'][0] == 'g' and i['callee'][1] in ('dlopen', 'dlsym', 'dlclose'): R.bad('only-supplied-functions', pretty(g).split('(')[0], '%s calls %s directly' % (pretty(g), i['callee'][1]), m.loc(i))
            if 'libinst' in d and ('release' in d or re.search(r'libinst::libinst\(', d) and not g.base.startswith('std::') or 'make_unique' in d): R.bad('table-owns-the-instances', pretty(g).split('(')[0], '%s makes or releases a library instance (%s)' % (pretty(g), d[:80]), m.loc(i))
            if 'unordered_map' in d and 'libinst' in d and re.search(r'::(erase|clear|extract|swap|merge)\(', d): R.bad('table-owns-the-instances', pretty(g).split('(')[0] + ':del', '%s drops library instances' % pretty(g), m.loc(i))
    R.check(not any(re.search(r'libinst::libinst\(FakeJni::Jvm::libinst (const)?&', d) for d in m.dem.values()), 'table-owns-the-instances', 'copy', 'library instances are copied', '', 'library instances are never copied')
def core(v):
    while v is not None and v.op in ('copyof', 'cast', 'alias'): v = v.a[-1] if v.op == 'cast' else v.a[0]
    return v
def name_is(n, plain, static, names):
    if not static: return n.op == 'str' and n.a[0] == plain or n.op == 'lit' and n.a[0] == plain or show(n) == "'%s'" % plain
    return n.op == 'cat' and len(n.a) == 2 and n.a[1] in names and show(n.a[0]) == "'%s_'" % plain
