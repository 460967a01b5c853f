"""C16 an environment or VM pointer always leads back to its own owner."""
from .lib import *
EXPLAIN = ('the owner slot of every function table is followed through every constructor, override and factory, path by path: an environment (VM) takes the whole table it is given and its owner slot ends as itself, '
           'its public pointer leads to that very table; an override ends with the owner slot it started with, is only taken when the new table names no owner or the same, and a refused one has written nothing. '
           'The recovering functions and getters return exactly the owner found there. Every factory of every VM flavour builds its environment from a private copy of the VM\'s table to which every registered hook was applied, '
           'owned by that VM, and no other code makes an environment.')
ASSUME = ['a table hook leaves the reserved slots of the table alone or the constructor overwrites them (it does)']
WHOLE = 1864
FILTER = {'FindClass', 'GetMethodID', 'GetStaticMethodID', 'GetFieldID', 'GetStaticFieldID'}
A = lambda k: T('arg', k)
def core(v):
    while v.op == 'copyof' or v.op == 'cast': v = v.a[0] if v.op == 'copyof' else v.a[-1]
    return v
def tbl(a, who):
    return a.op == 'fld' and a.a[1] == who
class Own(absint.Client):
    """remembers, per path, from where the table at `dst` was taken and by how many bytes"""
    effects_on_unwind = True
    def __init__(self, dst): self.dst = dst; self.rets = []; self.unw = []
    def call(self, st, ev):
        if re.match(r'(llvm\.)?mem(cpy|move)', ev.name) and len(ev.args) > 2:
            n = ev.args[2].a[0] if ev.args[2].op == 'c' else 0; src = ev.args[1]; dst = ev.args[0]; do = so = 0
            if src.op == 'off': src, so = src.a
            if dst.op == 'off': dst, do = dst.a
            end = so + n
            for e in st.cs:
                if e[0] is src: src, so, end = e[1], so + e[3], min(e[2], end + e[3])
            if dst.op == 'al': st.cs = tuple(e for e in st.cs if e[0] != dst) + ((dst, src, end, so - do),)
            elif dst is self.dst: st.cs = tuple(e for e in st.cs if e[0] != dst) + ((dst, src, end if do == so and do <= 8 else 0, 0),)
    def store(self, st, a, v, i):
        if self.base is not None and any(x is self.base for x in subterms(a)) and a.op != 'al': st.cs = st.cs + (('w', a, 0, 0),) if ('w', a, 0, 0) not in st.cs else st.cs
    base = None
    def ret(self, st, v, i): self.rets.append((st, v, i))
    def unwind(self, st, i): self.unw.append((st, i))
    def src(self, st): return next(((e[1], e[2]) for e in st.cs if e[0] is self.dst), (None, 0))
def equal(st, x, y):
    return x is y or st.truth(mkeq(x, y)) is True
def run(R):
    m = R.mod('api', ('w_env.cpp',)); n = m.classes.get('JNINativeInterface', {}).get('size'); R.need(n, 'layout of JNINativeInterface'); n2 = m.classes['JNIInvokeInterface']['size']
    # ---- an environment owns its table
    envs = [(f, A(0), 1, 2) for f in m.by_base('jnivm::ENV::ENV')] + [(f, T('off', A(0), 8), 2, 3) for f in m.by_base('witness::make_env')]
    R.need(len(envs) >= 2, 'constructors of the environment')
    for f, this, kv, kt in envs:
        nm = 'FakeJni::Env' if 'witness' in f.base else 'ENV'; R.fns.add(pretty(f)); c = Own(fld(this, 'ENV.ninterface')); run_(f, c)
        R.need(c.rets, 'returning path of %s' % nm)
        for st, v, i in c.rets:
            if nm != 'ENV':
                cand = {a.a[0] for a in st.mem if a.op == 'fld' and a.a[1] == 'ENV.vm'}; R.need(len(cand) == 1, 'environment part of FakeJni::Env'); this = next(iter(cand))
                if c.dst is not fld(this, 'ENV.ninterface'): c.dst = fld(this, 'ENV.ninterface'); c.rets = []; run_(f, c); st = c.rets[0][0]
            T_ = fld(this, 'ENV.ninterface'); loc = m.loc(i)
            R.check(core(st.get(T_)) is this, 'owner-is-stored', nm, 'the owner slot of a new environment is %s' % show(st.get(T_)), loc, 'owner slot := the environment')
            R.check(c.src(st) == (A(kt), n), 'whole-table-is-taken', nm, 'a new environment takes %s bytes of %s' % (c.src(st)[1], c.src(st)[0] and show(c.src(st)[0])), loc, 'takes the whole table given')
            R.check(st.get(fld(this, 'ENV.env')) is T_, 'pointer-leads-to-own-table', nm, 'functions of a new environment := %s' % show(st.get(fld(this, 'ENV.env'))), loc, 'functions -> own table')
            R.check(st.get(fld(this, 'ENV.vm')) is A(kv), 'environment-knows-its-vm', nm, 'vm := %s' % show(st.get(fld(this, 'ENV.vm'))), loc, 'vm := the VM given')
            if nm != 'ENV':
                g = [x for a, x in st.mem.items() if a.op == 'fld' and a.a[1].endswith('.functions') or a is A(0)]
                R.check(any(x is T_ for x in g), 'pointer-leads-to-own-table', nm + ':public', 'functions of a new fake-jni environment := %s' % [show(x) for x in g], loc, 'public functions -> own table')
    # ---- override
    for f in m.find(r'::OverrideJNI\w+Interface\('):
        inv = 'Invoke' in f.base; fl = 'VM.iinterface' if inv else 'ENV.ninterface'; dst = fld(A(0), fl); nm = f.base.split('::')[-1]
        new = T('ld', fld(A(1), ('JNIInvokeInterface' if inv else 'JNINativeInterface') + '.reserved0')); old = T('ld', dst)
        R.fns.add(pretty(f)); c = Own(dst); c.base = A(0); run_(f, c); R.need(c.rets, 'returning path of %s' % nm)
        for st, v, i in c.rets:
            loc = m.loc(i); nn = [x for x in (new, T('ld', A(1))) if st.truth(mkeq(x, NULL)) is True or st.truth(mkeq(x, old)) is True]
            took = c.src(st)[0] is not None
            R.check(took == bool(nn), 'foreign-owner-is-refused', nm, '%s %s a table without the owner having been compared' % (nm, 'takes' if took else 'does not take'), loc, 'taken only without or with the same owner')
            if not took: continue
            R.check(c.src(st) == (A(1), n2 if inv else n), 'whole-table-is-taken', nm, '%s takes %s bytes of %s' % (nm, c.src(st)[1], show(c.src(st)[0])), loc, 'takes the whole table given')
            R.check(core(st.get(dst)) is old, 'owner-survives-override', nm, 'the owner slot ends as %s' % show(st.get(dst)), loc, 'owner slot as before')
        R.need(c.unw, 'refusing path of %s' % nm)
        for st, i in c.unw:
            R.check(not any(e[0] == 'w' for e in st.cs) and c.src(st)[0] is None, 'refused-changes-nothing', nm, '%s has written the table when it refuses' % nm, m.loc(i), 'refusal writes nothing')
    R.floor('owner-survives-override', 2); R.floor('refused-changes-nothing', 2)
    # ---- recovering functions and getters
    want = {'jnivm::ENV::FromJNIEnv': T('ENV', A(0)), 'jnivm::VM::FromJavaVM': T('VM', A(0)), 'jnivm::ENV::GetVM': T('VMof', A(0)), 'jnivm::ENV::GetJNIEnv': fld(A(0), 'ENV.env'), 'jnivm::VM::GetJavaVM': fld(A(0), 'VM.javaVM')}
    for b, w in want.items():
        fs = m.by_base(b); R.need(len(fs) == 1, b); f = fs[0]; R.fns.add(pretty(f)); c = Own(None); run_(f, c); R.need(c.rets, 'returning path of ' + b)
        for st, v, i in c.rets:
            for s2, x in expand(st, v):
                R.check(x is w, 'owner-is-recovered', b, '%s returns %s' % (b, show(x)), m.loc(i), b + ' = ' + show(w))
                if 'From' in b: R.check(s2.nullness(A(0)) == 'nonnull', 'owner-is-recovered', b + ':null', '%s follows a null pointer' % b, m.loc(i))
    # ---- a VM owns its invocation table and has one complete table
    t1 = {k: T('fn', f.name) for k, f in slots(m, True).items() if f}; t0 = {k: T('fn', f.name) for k, f in slots(m, False).items() if f}
    ctors = [f for f in m.fns.values() if f.base in ('jnivm::VM::VM', 'FakeJni::Jvm::Jvm', 'Baron::Jvm::Jvm') and re.search(r'C[12]E', f.name) and '__invoke' not in f.dem and '$_' not in f.dem]; R.need(len(ctors) >= 4, 'constructors of the VM flavours')
    b = [x for x in m.classes['FakeJni::Jvm']['members'] if x['k'] == 'base' and 'JavaVM' in x['ty']]; R.need(len(b) == 1, 'JavaVM part of FakeJni::Jvm')
    pub = T('off', A(0), b[0]['off']) if b[0]['off'] else A(0)
    for f in ctors:
        nm = f.dem.split('(')[0] + '/%d' % len(f.params); R.fns.add(pretty(f))
        class V(absint.Client):
            rets = []
            def put(self, st, k, v): st.cs = tuple(e for e in st.cs if e[0] != k) + ((k, v),)
            def store(self, st, a, v, i):
                if a is fld(A(0), 'VM.iinterface'): self.put(st, 'own', v)
                elif a is fld(A(0), 'VM.javaVM'): self.put(st, 'pub', v)
                elif a.op == 'fld' and 'JNINativeInterface.' in a.a[1] and a.a[0] is fld(A(0), 'VM.ninterface') or a.op == 'fld' and a.a[0].op == 'fld' and a.a[0].a[1] == 'VM.ninterface' and not a.a[1].split('.')[-1].startswith('reserved'):
                    k = a.a[1].split('.')[-1]
                    if not k.startswith('reserved'): self.put(st, 'T' + k, v)
                elif a is pub: self.put(st, 'fun', v)
            def check(self, st, loc, kind):
                d = dict(st.cs); R.check(d.get('own') is A(0), 'owner-is-stored', nm + kind, 'owner slot of a new VM := %s' % (d.get('own') and show(d['own'])), loc, 'owner slot := the VM')
                R.check(d.get('pub') is fld(A(0), 'VM.iinterface'), 'pointer-leads-to-own-table', nm + kind, 'functions of a new VM := %s' % (d.get('pub') and show(d['pub'])), loc, 'functions -> own invocation table')
                g = {k[1:]: v for k, v in d.items() if k[0] == 'T'}
                ok = [t for t in (t1, t0) if g == t]
                R.check(bool(ok), 'vm-has-one-complete-table', nm + kind, 'the table of a new VM has %d entries and mixes sources' % len(g), loc, 'all entries of one table')
                if f.base == 'jnivm::VM::VM' and len(f.params) == 2 and ok:
                    x = st.truth(T('bool', A(2)));
                    if x is None: x = next((val == (k.a[1] is not NULL) for k, val in st.facts.items() if k.op == 'eq' and core(k.a[0]) is A(2)), None)
                    if x is None:
                        x = next((val for k, val in st.facts.items() if any(y is A(2) for y in subterms(k)) and k.op != 'eq'), None)
                    R.check(x is None or (ok[0] is t1) == x, 'vm-has-one-complete-table', nm + ':mode', 'ReturnNull=%s gets the other table' % x, loc, 'table of the requested mode')
            def call(self, st, ev):
                if ev.name.startswith('virt:') and any(a is A(0) for a in ev.args): self.check(st, ev.loc, ':first-environment')
                c = ev.i['callee']
                if c[0] == 'g' and c[1] in vmcreate and any(a is A(0) for a in ev.args): self.check(st, ev.loc, ':first-environment')
            def ret(self, st, v, i):
                self.check(st, m.loc(i), '')
                if f.base != 'jnivm::VM::VM':
                    x = dict(st.cs).get('fun'); R.check(x is fld(A(0), 'VM.iinterface'), 'pointer-leads-to-own-table', nm + ':public', 'public functions of a new VM := %s' % (x and show(x)), m.loc(i), 'public functions -> own invocation table')
        vmcreate = {g.name for g in m.find(r'::CreateEnv\(\)$')}
        V.rets = []; absint.Interp(f, V(), splitsel=True).run()
    R.floor('vm-has-one-complete-table', 6)
    # ---- factories
    facts = m.find(r'::CreateEnv\(\)$'); R.need(len(facts) >= 3, 'environment factories'); ok = {f.name for f in facts}
    for f in facts:
        nm = f.base; R.fns.add(pretty(f)); hooks = fld(A(1), 'VM.jnienvhooks'); own = fld(A(1), 'VM.ninterface')
        class F(Own):
            envs = set()
            def hooked(self, t):
                return any(x.op in ('begin', 'elem', 'end', 'node') and x.a[0] is hooks for r in self.interp.roots(t) for x in subterms(r))
            def add(self, st, *e): st.cs = st.cs + (e,) if e not in st.cs else st.cs
            def call(self, st, ev):
                Own.call(self, st, ev)
                if ev.name == 'std::function::operatorCALL':
                    if self.hooked(ev.args[0]):
                        t = ev.args[1]; R.check(t.op == 'al', 'hooks-get-a-private-copy', nm, '%s applies hooks to %s' % (nm, show(t)), ev.loc, 'hooks applied to a local copy'); src = next((e[1:3] for e in st.cs if e[0] is t), (None, 0))
                        R.check(src == (own, n), 'starts-from-the-vms-table', nm + ':hook', '%s applies hooks to %s' % (nm, src[0] and show(src[0])), ev.loc, 'hooks applied to a copy of the VM\'s table')
                        self.add(st, 'hook', t, ev.args[0]); return
                if ev.name == 'std::for_each': self.need = True
                k = re.search(r'make_shared<(jnivm::ENV|FakeJni::Env)\b', ev.dem) if ev.name == 'std::make_shared' else None
                if k:
                    args = ev.args[1:]; t = args[-1]; src = next((e[1:3] for e in st.cs if e[0] is t), (None, 0))
                    R.check(src == (own, n), 'starts-from-the-vms-table', nm, '%s builds the environment from %s' % (nm, src[0] and show(src[0]) or show(t)), ev.loc, 'built from a copy of the VM\'s table')
                    R.check(('all', t, 0) in st.cs, 'every-hook-is-applied', nm, '%s builds the environment before every registered hook was applied' % nm, ev.loc, 'built after all hooks')
                    v = args[-2]; v = st.get(v) if v.op == 'al' else v
                    R.check(v is A(1), 'environment-knows-its-vm', nm, '%s gives the environment to %s' % (nm, show(v)), ev.loc, 'owned by the creating VM')
                    self.envs.add(ev.i['id'])
            def store(self, st, a, v, i):
                if a.op == 'fld' and 'JNINativeInterface.' in a.a[1]:
                    k = a.a[1].split('.')[-1]
                    R.check(a.a[0].op == 'al', 'hooks-get-a-private-copy', nm + ':store', '%s changes %s' % (nm, show(a)), m.loc(i))
                    R.check(k in FILTER, 'no-hook-is-undone', nm + ':' + k, '%s overwrites %s of the hooked table' % (nm, k), m.loc(i), 'only the lookups of the filtering VM are replaced')
                elif a is own or a.op == 'fld' and a.a[0] is own: R.bad('hooks-get-a-private-copy', nm + ':own', '%s changes the table of the VM' % nm, m.loc(i))
            def edge(self, st, b, s, c, val, i):
                for h, lp in f.loops.items():
                    if b in lp and s not in lp:
                        z, vv = c, val
                        while z.op == 'not': z = z.a[0]; vv = not vv
                        if z.op in ('eq', 'lt', 'ult') and any(self.hooked(y) for x in z.a for y in subterms(x) if y.op in ('phi', 'end', 'begin')) or any(y.op == 'pure' and y.a[0] == 'vsize' and y.a[1] is hooks for x in z.a if isinstance(x, Term) for y in subterms(x)):
                            e = z.op == 'eq' and vv and any(x.op == 'end' and x.a[0] is hooks or x.op == 'pure' and x.a[0] == 'vsize' for x in z.a) or z.op in ('lt', 'ult') and not vv
                            self.seen = True
                            if e:
                                for t in self.tm: self.add(st, 'all', t, 0)
            tm = set(); seen = False
            def backedge(self, st, p, h, vals):
                if any(self.hooked(v) for v in (vals.values() if isinstance(vals, dict) else vals) if isinstance(v, Term)):
                    hs = [e for e in st.cs if e[0] == 'hook']
                    R.check(len(hs) == 1, 'every-hook-is-applied', nm + ':iteration', '%s applies %d hooks per registered hook' % (nm, len(hs)), m.loc(f.blocks[p][-1]), 'each hook applied once')
                    ini = {x for k in vals for x in self.interp.phi_in.get(T('phi', h, k), ()) if T('phi', h, k) not in x.syms and self.hooked(x)}
                    R.check(all(x.op == 'begin' or x.op == 'elem' for x in ini), 'every-hook-is-applied', nm + ':start', '%s starts at %s' % (nm, [show(x) for x in ini]), m.loc(f.blocks[p][-1]))
                    st.cs = tuple(e for e in st.cs if e[0] != 'hook')
            def ret(self, st, v, i):
                x = st.get(A(0)); x0 = x
                while x.op in ('ENV', 'off', 'alias') and isinstance(x.a[0], Term): x = x.a[0]
                R.check(x.op == 'new' and x.a[1] in self.envs, 'factory-returns-its-environment', nm, '%s returns %s' % (nm, show(x0)), m.loc(i), 'returns the environment just made')
        F.envs = set(); F.tm = set()
        # the copies hooks are applied to (learned first)
        class L(absint.Client):
            def call(self, st, ev):
                if ev.name in ('llvm.memcpy.p0.p0.i64', 'memcpy') and ev.args[0].op == 'al' and ev.args[2].op == 'c' and ev.args[2].a[0] == n: F.tm.add(ev.args[0])
        absint.Interp(f, L()).run()
        c = F(None); absint.Interp(f, c, splitsel=True).run()
        R.need(F.envs, 'environment made by %s' % nm)
    R.floor('every-hook-is-applied', 6)
    # ---- nobody else makes environments; hooks are appended
    for f in m.fns.values():
        if f.name in ok or f.base.startswith('witness::') or m.only_from(f, ok): continue
        for _, i in f.calls():
            d = m.dem.get(i['callee'][1], '') if i['callee'][0] == 'g' else ''
            if re.search(r'make_shared<(jnivm::ENV|FakeJni::Env)\b', d) or re.match(r'(jnivm::ENV::ENV|FakeJni::Env::Env)\(', d): R.bad('only-factories-make-environments', pretty(f).split('(')[0], '%s makes an environment' % pretty(f), m.loc(i))
    R.ok('only-factories-make-environments', 'no function besides the CreateEnv factories')
    f = m.by_base('witness::add_hook'); R.need(f, 'witness add_hook')
    class H(absint.Client):
        n = 0
        def call(self, st, ev):
            op = cont_op(ev)
            if op and is_field(ev.args[0], 'VM.jnienvhooks') and op[0] != 'read': R.check(op[1] in ('emplace_back', 'push_back') and ev.args[1] is A(1), 'hooks-are-kept', 'AddHook', 'AddHook performs %s' % op[1], ev.loc, 'appended'); st.cs = st.cs + (1,)
        def ret(self, st, v, i): R.check(len(st.cs) == 1, 'hooks-are-kept', 'AddHook:path', 'AddHook returns without having kept the hook', m.loc(i))
    absint.Interp(f[0], H()).run()
    for g in m.fns.values():
        if g.base.startswith('witness'): continue
        class W(absint.Client):
            def call(self, st, ev):
                op = cont_op(ev)
                if op and op[0] == 'del' and is_field(ev.args[0], 'VM.jnienvhooks'): R.bad('hooks-are-kept', pretty(g).split('(')[0], '%s drops registered hooks' % pretty(g), ev.loc)
        if 'jnienvhooks' in json.dumps([i for b in g.blocks for i in b]): absint.Interp(g, W()).run(); R.ok('hooks-are-kept', pretty(g))
def run_(f, c):
    c.fn = f; c.interp = absint.Interp(f, c, splitsel=True); c.interp.run()
