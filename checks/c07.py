"""C07 every object handle given to native code is held by a live owner."""
from .lib import *
from .c08 import is_glob
from .c06 import frame_at
EXPLAIN = ('for every table entry that returns an object handle, every hook wrapper, default value, host-side conversion and host-side call, the origin of the handle is followed on every path: it must be the product of the registering conversion in the '
           "caller's environment, a reference object entered in the global table, an object pushed on the newest frame on that path, a class of the class table, or null; nothing may drop it again before it is returned. The registering conversion itself "
           'is judged in every instantiation (it returns only what it pushed on the newest frame), pointers and values are converted only through an owner of that very object or a copy, and a handle converted to a raw pointer is registered as well.')
ASSUME = ['classes live as long as the VM (tables only grow: C10)', 'an object pushed on a frame is held until the frame is popped or the reference deleted (C06, C08)']
HANDLE = ['FindClass', 'ToReflectedMethod', 'ToReflectedField', 'GetSuperclass', 'ExceptionOccurred', 'PopLocalFrame', 'NewGlobalRef', 'NewLocalRef', 'NewWeakGlobalRef', 'AllocObject', 'NewObject', 'NewObjectV', 'NewObjectA',
          'GetObjectClass', 'GetObjectField', 'GetStaticObjectField', 'NewString', 'NewStringUTF', 'NewObjectArray', 'GetObjectArrayElement', 'NewDirectByteBuffer', 'DefineClass', 'GetModule'] \
    + ['New%sArray' % t for t in ('Boolean', 'Byte', 'Char', 'Short', 'Int', 'Long', 'Float', 'Double')] + ['Call%sObjectMethod%s' % (k, s) for k in ('', 'Nonvirtual', 'Static') for s in ('', 'V', 'A')]
CONV = ('ToJNIType', 'ToJNIReturnType')
def conv(n): return n.split('::')[-1] in CONV
def alike(t, u):
    """the same object seen through another base"""
    def base(x):
        while x.op in ('idx', 'off', 'dyncast', 'this', 'self') and x.a:
            y = x.a[-1] if x.op == 'dyncast' and isinstance(x.a[-1], Term) else x.a[0]
            if not isinstance(y, Term): break
            x = y
        return x
    return base(t) is base(u)
class Held(absint.Client):
    """collects what is registered and dropped on a path and judges what is returned"""
    def __init__(self, R, m, who, envs=None, body=False, own=()):
        self.R = R; self.m = m; self.who = who; self.envs = envs; self.body = body; self.n = 0; self.own = own
    def mark(self, st, *e): st.cs = st.cs + (e,)
    def frame(self, t):
        f = frame_at(self.interp, t); return f
    def call(self, st, ev):
        op = cont_op(ev)
        if op and ev.args:
            c = ev.args[0]
            if op[0] == 'ins' and len(ev.args) > 1 and (is_glob(c) or self.frame(c) == ('F', 'ENV.localframe')): self.mark(st, 'push', 'globals' if is_glob(c) else 'frame', c, st.get(ev.args[-1] if op[1] in ('insert', 'emplace') else ev.args[1]))
            if op[0] == 'del':
                f = self.frame(c)
                if f: self.mark(st, 'drop', op[1])
        if ev.name in ('jni:PopLocalFrame', 'jni:DeleteLocalRef', 'jni:DeleteGlobalRef', 'jni:DeleteWeakGlobalRef'): self.mark(st, 'drop', ev.name)
        if ev.name == 'ptr:Method.native': self.native(st, ev)
    def after(self, st, ev):
        if conv(ev.name): self.mark(st, 'made', ev.res, ev.args[0], st.get(ev.args[1]) if len(ev.args) > 1 else None, (arglist(ev.dem) + ['', ''])[1].startswith('std::shared_ptr<'))
        if 'operatorCALL' in ev.name and any(is_field(y, 'Class.baseclasses') for a in ev.args for y in subterms(a)):
            for d in (ev.dst, ev.res):
                if d is not None: self.mark(st, 'classes', d)
    def native(self, st, ev): pass
    def ret(self, st, v, i):
        if v is None: return
        for s2, x in expand(st, v):
            for r in self.interp.roots(x): self.judge(s2, r, self.m.loc(i))
    def judge(self, st, r, loc, what='returns'):
        R = self.R; self.n += 1; I = self.interp; who = self.who
        if st.nullness(r) == 'null': R.ok('handle-is-held', '%s: null' % who); return
        if r.op == 'local':
            mk = [(j, e) for j, e in enumerate(st.cs) if e[0] == 'made' and e[1] is r]
            if mk:
                j, e = mk[-1]
                if self.envs is not None: R.check(e[2] in self.envs, 'held-by-own-frame', who, '%s registers the handle it %s in %s' % (who, what, show(e[2])[:80]), loc, 'registered in the frame of the caller')
                R.check(not any(x[0] == 'drop' for x in st.cs[j + 1:]), 'not-dropped-again', who, '%s gives references back after it registered the handle it %s' % (who, what), loc, 'nothing given back after the handle was registered')
            R.ok('handle-is-held', '%s: registered in the frame' % who); return
        if r.op == 'new' and r.a[0] in ('Global', 'Weak'):
            R.check(any(e[0] == 'push' and e[1] == 'globals' and e[3] is r for e in st.cs), 'handle-is-held', who + ':global', '%s %s a reference object that is not entered in the reference table' % (who, what), loc, 'entered in the reference table'); return
        if r.op == 'site' and r.a[1].startswith('jni:') and r.a[1][4:] in HANDLE: R.ok('handle-is-held', '%s: from %s' % (who, r.a[1])); return
        if r.op == 'site' and r.a[1].startswith('virt:') and any(y.op == 'fld' and y.a[1].split('.')[-1] in ('nativehandle', 'getnativehandle') for y in subterms(r.a[2])): R.ok('handle-is-held', who + ': from the hook wrapper'); return
        if r.op == 'site' and r.a[1].split('::')[-1] in ('defaultVal', 'InternalFindClass') + tuple(self.own): R.ok('handle-is-held', '%s: from %s' % (who, r.a[1])); return
        pushed = [(j, e) for j, e in enumerate(st.cs) if e[0] == 'push' and e[1] == 'frame' and (e[3] is r or alike(e[3], r))]
        if pushed:
            R.check(not any(x[0] == 'drop' for x in st.cs[pushed[-1][0] + 1:]), 'not-dropped-again', who, '%s gives references back after it registered the handle it %s' % (who, what), loc)
            if self.envs is not None: R.check(any(y in self.envs for y in subterms(pushed[-1][1][2])), 'held-by-own-frame', who, '%s registers the handle in %s' % (who, show(pushed[-1][1][2])[:80]), loc, 'registered in the frame of the caller')
            R.ok('handle-is-held', who + ': pushed on the newest frame'); return
        if r.op == 'arg' and st.nullness(T('unpack', 'Object', r)) == 'null': R.ok('handle-is-held', who + ': a reference to nothing is handed back'); return
        if self.ofclasses(st, r): R.ok('handle-is-held', who + ': class of the VM'); return
        R.bad('handle-is-held', who, '%s %s a handle nobody holds: %s' % (who, what, show(r)[:140]), loc)
    def ofclasses(self, st, r):
        """an element of what Class.baseclasses answers (classes of the type table)"""
        return any(e[0] == 'classes' and e[1] in set(subterms(r)) for e in st.cs)
def run(R):
    m = R.mod('api', ('w_hooks.cpp', 'w_invoke.cpp', 'w_conv.cpp'))
    A0 = T('arg', 0)
    # 1. entries of both tables
    for rn in (True, False):
        S = slots(m, rn); done = set()
        for s in HANDLE:
            f = S.get(s)
            if f is None or f.name in done: continue
            done.add(f.name); R.fns.add(pretty(f))
            c = Held(R, m, s, {T('ENV', A0)}); absint.Interp(f, c, splitsel=True).run()
            R.need(c.n, s)
    # 2. the registering conversions
    nb = 0
    for f in m.fns.values():
        if not re.search(r'JNITypesObjectBase<.*::ToJNI(Return)?Type<', f.dem): continue
        arg = f.dem.rsplit('(', 1)[-1] if False else re.search(r'\(jnivm::ENV\*, (.*)\)$', f.dem)
        R.need(arg, f.dem); arg = arg.group(1); R.fns.add(pretty(f)); who = 'conversion of %s' % absint.short(arg)
        shared = 'shared_ptr<' in arg.split('<')[0] + '<'
        class B(Held):
            def judge(self, st, r, loc, what='returns'):
                A1 = T('arg', 1)
                if r.op == 'local':
                    x = r.a[0]
                    ok = x in (A1, absint.mkld(A1)) and shared or x.op == 'new'
                    if not ok and (x is A1 or x is absint.mkld(A1)):
                        # the object itself: only through an owner of it
                        ok = any(k.op == 'eq' and not v and NULL in k.a and any(y.op == 'lock' and x in set(subterms(y)) for w in k.a for y in subterms(w)) for k, v in st.facts.items()) or any(e[0] == 'made' and e[1] is r and not e[4] for e in st.cs)   # another of the judged conversions
                    self.R.check(ok, 'converted-through-owner', who, '%s registers %s without an owner of it' % (who, show(x)[:80]), loc, 'registered through an owner or a copy')
                Held.judge(self, st, r, loc, what)
        c = B(R, m, who, {A0, T('ENV', A0)})
        absint.Interp(f, c, splitsel=True).run(); nb += 1
        R.need(c.n, f.dem)
    R.need(nb >= 20, 'conversions')
    # 3. owners: a shared pointer made of a raw one
    for f in m.fns.values():
        if f.dem.startswith(('std::', 'void std::', 'bool std::')): continue
        hits = [i for b in f.blocks for i in b if i['op'] in ('call', 'invoke') and i['callee'][0] == 'g' and sp(m.dem.get(i['callee'][1], ''))]
        if not hits: continue
        class O(absint.Client):
            def call(k, st, ev):
                s = sp(ev.dem)
                if not s: return
                t, kind = s
                if not handled(m, t): R.ok('owner-is-the-object', '%s is not a JNI object' % t); return
                if kind == 'alias':
                    own = st.get(ev.args[1]); p = ev.args[2]
                    for o in k.interp.roots(own):
                        for q in k.interp.roots(p):
                            R.check(q is NULL or alike(o, q) or o.op == 'lock' and any(alike(x, q) for x in subterms(o)) or any(alike(x, q) for x in subterms(o) if x.op in ('ld', 'arg')), 'owner-is-the-object', f.base, '%s makes a shared pointer to %s that is owned by %s' % (pretty(f), show(q)[:80], show(o)[:80]), ev.loc, 'owner is the object')
                else:
                    q = ev.args[1] if len(ev.args) > 1 else UNK
                    R.check(q.op == 'new' or q.op == 'site' and 'operator new' in q.a[1] or q is NULL, 'owner-is-the-object', f.base + ':raw', '%s makes an independent shared pointer of %s' % (pretty(f), show(q)[:80]), ev.loc, 'fresh object')
        absint.Interp(f, O(), splitsel=True).run()
    # 4. handles resolved to raw pointers stay registered
    nj = 0
    for f in m.fns.values():
        g = re.search(r'JNITypesObjectBase<.*::JNICast\(jnivm::ENV\*, (_j\w+\* const&|_jobject\* const&)\)$', f.dem)
        if not g or f.ret != 'ptr' or f.blocks is None: continue
        args = commas(re.search(r'JNITypesObjectBase<(.*)>::JNICast', f.dem).group(1))
        if not args or not args[-1].strip().endswith('*'): continue
        R.fns.add(pretty(f)); nj += 1; who = 'JNICast to ' + absint.short(args[-1])
        class J(Held):
            def ret(self, st, v, i):
                for s2, x in expand(st, v):
                    for r in self.interp.roots(x):
                        if s2.nullness(r) == 'null': continue
                        self.R.check(any(e[0] == 'made' and e[3] is not None and alike(e[3], r) for e in s2.cs), 'raw-pointer-is-held', who, '%s answers %s without registering it' % (who, show(r)[:80]), self.m.loc(i), 'raw pointer registered in the frame')
        absint.Interp(f, J(R, m, who), splitsel=True).run()
    R.floor('raw-pointer-is-held', 3)
    # 5. wrappers, defaults, host calls
    nw = 0
    for f in m.fns.values():
        w = re.match(r'(non-virtual thunk to )?jnivm::Wrap<witness::l_hk_.*::(StaticInvoke|InstanceInvoke|NonVirtualInstanceInvoke|StaticGet|InstanceGet)\(', f.dem)
        if not w or f.ret != 'ptr': continue
        nw += 1; R.fns.add(pretty(f)[:120]); g = re.search(r'l_hk_\w+?_([A-Z])\(\)', f.dem)
        class W(Held):
            def judge(self, st, r, loc, what='returns'):
                if r.op == 'site' and 'witness::hk_' in r.a[1] and r.a[1].endswith('_O'): self.R.ok('handle-is-held', 'hook answers a handle itself'); return
                Held.judge(self, st, r, loc, what)
        c = W(R, m, 'hook wrapper (%s)' % w.group(2), None); absint.Interp(f, c, splitsel=True).run()
    R.need(nw >= 4, 'hook wrappers returning handles: %d' % nw)
    names = set()
    for f in m.fns.values():
        who = None
        if re.match(r'_jobject\* jnivm::defaultVal<_jobject\*>', f.dem): who = 'defaultVal'
        elif f.base in ('FakeJni::JniEnv::createLocalReference', 'FakeJni::Jvm::createGlobalReference', 'FakeJni::Env::createLocalReference'): who = f.base
        elif f.base == 'jnivm::InternalFindClass' and f.ret == 'ptr' and 'JNIEnv' in f.dem: who = 'InternalFindClass'
        elif f.base.startswith('witness::conv_') and f.ret == 'ptr' and 'back' not in f.base: who = f.base
        if not who: continue
        R.fns.add(pretty(f)); c = Held(R, m, who); absint.Interp(f, c, splitsel=True).run(); R.need(c.n, who); names.add(who)
    R.need(names >= {'defaultVal', 'InternalFindClass', 'witness::conv_local', 'witness::conv_global', 'witness::conv_ptr', 'witness::conv_cref'}, 'conversions: %s' % names)
    np = 0
    for f in m.fns.values():
        if not f.base.startswith(('witness::invoke_', 'witness::proxy_')) and not re.search(r'jnivm::Method(Proxy)?::j?2?invoke<', f.dem): continue
        sh = {k for k, t in enumerate(params(f)) if 'shared_ptr<' in t}
        class P(Held):
            def ret(self, st, v, i): pass
            def native(self, st, ev):
                self.judge(st, ev.args[1], ev.loc, 'passes')
                for a in ev.args[2:]: self.passed(st, a, ev.loc)
            def passed(self, st, a, loc):
                for r in self.interp.roots(a):
                    if raw(r, sh): self.R.bad('handle-is-held', self.who + ':argument', '%s passes %s to native code' % (self.who, show(r)[:80]), loc)
                    else: self.R.ok('handle-is-held', self.who + ': argument')
            def call(self, st, ev):
                Held.call(self, st, ev)
                if re.match(r'jni:Call\w+MethodA$', ev.name) and len(ev.args) > 3:
                    self.judge(st, ev.args[1], ev.loc, 'passes')
                    b = ev.args[3]
                    for a, v in st.mem.items():
                        if a is b or a.op in ('idx', 'off', 'fld', 'elem') and b in set(subterms(a)): self.passed(st, v, ev.loc)
        who = pretty(f).split('(')[0]
        c = P(R, m, who, {T('ENV', T('arg', 1)), T('ENV', A0)}); absint.Interp(f, c, splitsel=True).run(); np += c.n; R.fns.add(pretty(f))
    R.need(np >= 8, 'host side calls: %d' % np)
    R.floor('handle-is-held', 150); R.floor('held-by-own-frame', 30); R.floor('owner-is-the-object', 15)
def commas(s):
    d = 0; out = []; cur = ''
    for c in s:
        if c in '<(': d += 1
        if c in '>)': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        cur += c
    return out + [cur.strip()] if cur.strip() else out
def arglist(d):
    """texts of the parameter types of a demangled function"""
    d = re.sub(r'\)( const|&|&&)*$', ')', d)
    if not d.endswith(')'): return []
    k = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ')': k += 1
        if d[i] == '(':
            k -= 1
            if k == 0: return commas(d[i + 1:-1])
    return []
def params(f):
    """declared parameter types (this first)"""
    return ([] if f.base.startswith('witness::') else ['this']) + arglist(f.dem)
def raw(t, sh):
    """reads a shared pointer parameter outside the registering conversion"""
    if t.op == 'local': return False
    if t.op == 'arg' and t.a[0] in sh: return True
    return any(raw(x, sh) for x in t.a if isinstance(x, Term))
def sp(d):
    g = re.match(r'std::shared_ptr<(.*)>::shared_ptr<', d)
    if not g: return None
    a = arglist(d)
    t = re.match(r'std::shared_ptr<(.*?)>::shared_ptr<', d).group(1)
    if len(a) == 2 and a[0].startswith('std::shared_ptr<') and a[1].endswith('*'): return t, 'alias'
    if a and a[0].endswith('*'): return t, 'raw'
    return None
def handled(m, t):
    """a type whose objects are handed out as handles"""
    return t == 'jnivm::Object' or t.startswith('jnivm::impl::Array<') or 'jnivm::Object' in ancestors(m, t) or t.startswith('witness::')
