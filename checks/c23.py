"""C23 hook parameters receive the caller's arguments of their own position."""
from .lib import *
from .search import *
from .c07 import commas
from .c11 import text_is
EXPLAIN = ('every hook wrapper instantiated for 110 callables (lambdas, plain functions, member functions, const members, member and static variables; with and without leading environment, class and object parameters; every parameter type at several '
           'positions): on each path the callable is invoked once, each leading parameter is the caller\'s environment, class or object and the k-th remaining parameter is read from argument slot k alone, with the width of its type; what is returned is what the callable '
           'returned, converted; properties move the given or stored value. At each registration the wrapper that is stored is tied to the text it is registered under: the same types in the same order, its own kind (static or instance) and accessor, the requested name; '
           'an existing member is replaced only if kind, name and signature are all equal, otherwise a new member of the class that was asked is created; a leading object parameter is taken as the receiver only in a class registered for its type.')
ASSUME = ['a hook is registered with one of the Hook functions of jnivm::Class', 'conversion of one value is judged by C02 (types) and C09 (checked casts)']
PRIM = {'unsigned char': 'Z', 'signed char': 'B', 'unsigned short': 'C', 'short': 'S', 'int': 'I', 'long': 'J', 'float': 'F', 'double': 'D', 'void': 'V'}
LT = {'Z': ('i8', 'i1'), 'B': ('i8',), 'C': ('i16',), 'S': ('i16',), 'I': ('i32',), 'J': ('i64',), 'F': ('float',), 'D': ('double',)}
ENVT = ('_JNIEnv*', 'JNIEnv*', 'ENV*', 'jnivm::ENV*')
def nz(t): return t.strip().replace('jnivm::', '')
def objtype(t):
    """class named by an object type of the signature"""
    t = nz(t); t = re.sub(r'( const)?&$', '', t)
    g = re.match(r'std::shared_ptr<(.*)>$', t)
    if g: return nz(g.group(1))
    return {'_jobject*': 'Object', '_jclass*': 'Class', '_jstring*': 'String'}.get(t, t.rstrip('*'))
class W:
    """a wrapper type: callable, leading receivers, kind, expected signature"""
    def __init__(self, s):
        s = s.replace('jnivm::', '')
        i = s.index('Wrap<') + 5; d = 1; j = i
        while d:
            d += {'<': 1, '>': -1}.get(s[j], 0) if not s.startswith('->', j) else 0; j += 1
        a = commas(s[i:j - 1]); self.funk = a[0]; self.recv = a[1:]
        g = re.search(r'WrapperClasses<(.*)>::(Static|Instance)(Function|Getter|Setter)', s[j:]); self.ok = g is not None
        if not g: return
        self.static = g.group(2) == 'Static'; self.what = g.group(3); self.ret = commas(g.group(1))[-1]
        self.stdf = re.match(r'std::function<(.*)>$', self.funk)
        if self.stdf: self.funk = self.stdf.group(1)
        self.prop = not self.funk.endswith(')') and not self.funk.endswith(') const')
        if self.prop:
            f = self.funk; k = re.match(r'(.*?) ?([\w:]*::)?\*$', f)
            if not k: raise Broken('callable ' + f)
            self.type = k.group(1); self.member = k.group(2)
            self.pars = [self.type] if self.what == 'Setter' else []; self.rt = self.type
        else:
            f = re.sub(r' const$', '', self.funk); d = 0
            for k in range(len(f) - 1, -1, -1):
                d += {')': 1, '(': -1}.get(f[k], 0)
                if d == 0: break
            self.all = commas(f[k + 1:-1]); self.pars = self.all[len(self.recv):]
            self.memfn = re.search(r'\(([\w:]+)::\*\)$', f[:k]); self.lam = "'lambda'" in f[:k]
            g = re.search(r'l_hk_\w+?_([A-Z])\(\)', f)
            self.rt = {'L': 'std::shared_ptr<witness::Thing>', 'M': 'std::shared_ptr<String>', 'O': '_jobject*'}.get(g.group(1), None) if g else None
            if self.rt is None: self.rt = f[:k].strip() if self.stdf else re.match(r'(.*?) ?\([\w:]*\*\)$', f[:k]).group(1) if not self.lam else next(t for t, l in PRIM.items() if l == g.group(1))
    def sig(self):
        e = lambda t: PRIM.get(nz(t)) or '<%s>' % objtype(t)
        if self.what == 'Function': return '(' + ''.join(e(t) for t in self.pars) + ')' + e(self.rt)
        return e(self.pars[0]) if self.what == 'Setter' else e(self.rt)
    def name(self): return '%s%s of %s [%s]' % ('static ' if self.static else '', self.what.lower(), re.sub(r"witness::|::'lambda'.*|l_(?=hk)", '', self.funk), ', '.join(self.recv))
def pieces(f, t):
    """signature text as a string, object types as <Class>"""
    if t.op == 'lit': return t.a[0]
    if t.op == 'cat': return ''.join(pieces(f, x) or '?' for x in t.a)
    if t.op in ('str', 'cstr', 'alias') and len(t.a) == 1: return pieces(f, t.a[0])
    if t.op == 'site' and 'GetJNISignature' in t.a[1]:
        i = next((i for b in f.blocks for i in b if i.get('id') == t.a[0]), None)
        g = i and re.match(r'jnivm::JNITypesObjectBase<(.*)>::GetJNISignature', f.m.dem.get(i['callee'][1], ''))
        if g: return '<%s>' % nz(commas(g.group(1))[0])
    return '?'
A = [T('arg', k) for k in range(6)]
def slot(t):
    """byte offset of an address into the argument values"""
    if t is A[3]: return 0
    if t.op == 'off' and t.a[0] is A[3]: return t.a[1].a[0] if isinstance(t.a[1], Term) else t.a[1]
    if t.op == 'idx' and t.a[0] is A[3] and t.a[1].op == 'c': return t.a[1].a[0] * t.a[2]
    if t.op == 'fld' and t.a[1].startswith('jvalue'): return slot(t.a[0])
    return None
def slots_of(t):
    out = set()
    for x in subterms(t):
        if x.op in ('ld', 'jv') and slot(x.a[0]) is not None: out.add(slot(x.a[0]))
        elif x is A[3]: pass
    if any(x is A[3] for x in subterms(t)) and not out: out.add('?')
    return out
class Body(absint.Client):
    def __init__(self, R, f, w, virt):
        self.R = R; self.w = w; self.virt = virt; self.f = f; self.ld = {}; self.ninv = 0; self.who = w.name() + ' ' + virt
        self.sret = None
    def load(self, st, a, v, i):
        if slot(a) is not None: self.ld.setdefault(slot(a), set()).add(i.get('t'))
    def store(self, st, a, v, i):
        if self.w.prop and self.w.what == 'Setter' and a.op != 'al' and not (a.op in ('off', 'fld', 'idx') and any(x.op == 'al' for x in subterms(a))): self.put(st, a, v, self.f.m.loc(i))
    def put(self, st, a, v, loc):
        R, w = self.R, self.w
        R.check(self.handle(a), 'property-of-its-own', self.who, '%s writes %s' % (self.who, show(a)[:80]), loc, 'the bound variable')
        self.arg(st, 0, w.type, v, loc); st.cs = st.cs + ('invoked',)
    def handle(self, a):
        """address of the bound variable"""
        h = [x for x in subterms(a) if x.op == 'ld' and x.a[0].op == 'fld' and x.a[0].a[0] is A[0] and x.a[0].a[1].endswith('.t')]
        if not h: return False
        if not self.w.member: return a is h[0]
        return a.op == 'idx' and a.a[1] is h[0] and a.a[0].op == 'unpack' and a.a[0].a[1] is A[2] and nz(a.a[0].a[0]) == nz(self.w.member[:-2])
    def arg(self, st, k, t, v, loc):
        R = self.R; s = slots_of(v)
        if not s and st.nullness(v) == 'null' and nz(t) not in PRIM: R.ok('own-position', 'null'); return
        R.check(s == {8 * k}, 'own-position', '%s:%d' % (self.who, k), '%s: parameter %d (%s) is made of %s' % (self.who, k + 1, t, show(v)[:100]), loc, '%s from slot %d' % (t, k))
        l = PRIM.get(nz(t))
        if l: 
            R.check(v.op == 'ld' and slot(v.a[0]) is not None, 'own-type', '%s:%d' % (self.who, k), '%s: parameter %d (%s) is %s' % (self.who, k + 1, t, show(v)[:100]), loc, 'unchanged')
            if s == {8 * k}: R.check(self.ld.get(8 * k, set()) <= set(LT[l]), 'own-type', '%s:%d:width' % (self.who, k), '%s: parameter %d (%s) is read as %s' % (self.who, k + 1, t, self.ld.get(8 * k)), loc, 'read as ' + t)
        else:
            u = [x for x in subterms(v) if x.op == 'unpack']; c = objtype(t)
            R.check(v.op == 'ld' and nz(t) == '_jobject*' or len(u) == 1 and v is u[0] and nz(u[0].a[0]) in (c, c.replace('impl::', '')), 'own-type', '%s:%d' % (self.who, k), '%s: parameter %d (%s) is %s' % (self.who, k + 1, t, show(v)[:100]), loc, 'as ' + t)
    def recvarg(self, t, v):
        t = nz(t)
        if t in ('_JNIEnv*', 'JNIEnv*'): return is_field(v, 'ENV.env') and v.a[0] is A[1]
        if t == 'ENV*': return v is A[1]
        if self.w.static:
            if t == 'Class*': return v is A[2]
            return v.op == 'local' and v.a[0] in (T('this', A[2]), A[2])
        if t == '_jobject*': return v is A[2]
        return v.op == 'unpack' and v.a[1] is A[2] and nz(v.a[0]) == t[:-1]
    def call(self, st, ev):
        w = self.w; R = self.R
        n = ev.name
        if w.prop:
            if n == 'std::shared_ptr::operator=' and w.what == 'Setter' and ev.args[0].op != 'al': self.put(st, ev.args[0], st.get(ev.args[1]), ev.loc)
            return
        if not (n.startswith('witness::') if w.lam else n.endswith('function::operatorCALL') if w.stdf else n == 'ind' or n.startswith('ptr:')): return
        self.ninv += 1; a = list(ev.args)
        R.check('invoked' not in st.cs, 'invoked-once', self.who, '%s calls the hook twice on one path' % self.who, ev.loc, 'once'); st.cs = st.cs + ('invoked',)
        if n == 'ind': a.pop(0)
        if len(a) == len(w.all) + 1 + (1 if w.memfn or w.stdf else 0):           # result slot
            self.sret = a[0]; a = a[1:]
        if w.stdf: a.pop(0)
        if w.memfn:
            t = a.pop(0); x = t.a[0] if t.op == 'idx' else t
            R.check(x.op == 'unpack' and x.a[1] is A[2] and nz(x.a[0]) == nz(w.memfn.group(1)), 'leading-parameters', self.who + ':this', '%s is called on %s' % (self.who, show(t)[:80]), ev.loc, 'on the receiver')
        if len(a) != len(w.all): R.bad('own-position', self.who + ':count', '%s passes %d arguments to a hook of %d' % (self.who, len(a), len(w.all)), ev.loc); return
        for k, t in enumerate(w.recv):
            R.check(self.recvarg(t, a[k]), 'leading-parameters', '%s:%d' % (self.who, k), '%s: leading parameter %s is %s' % (self.who, t, show(a[k])[:80]), ev.loc, '%s is the caller\'s' % t)
        for k, t in enumerate(w.pars):
            v = a[len(w.recv) + k]
            if 'shared_ptr<' in t: v = st.get(v)
            self.arg(st, k, t, v, ev.loc)
    def ret(self, st, v, i):
        R, w = self.R, self.w; loc = self.f.m.loc(i)
        if w.prop and w.what == 'Getter':
            for s2, x in expand(st, v):
                y = x.a[0] if x.op == 'local' else x
                R.check(y.op == 'ld' and self.handle(y.a[0]) or y is NULL, 'property-of-its-own', self.who, '%s answers %s' % (self.who, show(x)[:80]), loc, 'the bound variable')
            return
        R.check('invoked' in st.cs, 'invoked-once', self.who + ':not', '%s returns without calling the hook' % self.who, loc, 'once')
        if w.prop or nz(w.rt) == 'void' or w.what == 'Setter': return
        for s2, x in expand(st, v):
            for y in self.interp.roots(x):
                o = nz(w.rt) not in PRIM
                z = y.a[0] if y.op == 'local' and o else y
                good = z.op == 'site' and (z.a[1].startswith(('witness::hk_', 'ptr:', 'std::function')) or z.a[1] == 'ind') or o and s2.nullness(z) == 'null' or o and z.op == 'ld' and z.a[0] is self.sret
                R.check(good, 'result-is-converted', self.who, '%s answers %s' % (self.who, show(y)[:100]), loc, 'what the hook returned')
class Install(Judge):
    effects_on_unwind = True
    TAB = {'Class.methods': 'Method', 'Class.fields': 'Field'}
    def __init__(self, R, f, over, hook):
        self.R = R; self.f = f; self.hook = hook; self.done_ = {}; Judge.__init__(self, over, self.want); self.regs = []
    def want(self, st, I): return {}
    def done(self, st, h, T_, kind, e, verdict, i, vals=None):
        # which registration this loop belongs to is known only when the wrapper is stored: keep the established comparisons
        if T_.a[0] is not A[1]: self.R.bad('registered-in-own-class', self.hook + ':table', '%s searches %s' % (self.hook, show(T_)), self.f.m.loc(i))
        if kind == 'end': st.cs = tuple(x for x in st.cs if x[0] != 'end') + (('end', h),)
        elif kind == 'exit' and e is not None:
            w = starts(self.interp, h, e.syms); self.R.check(w is None, 'registered-in-own-class', self.hook + ':start', '%s: the search starts at %s' % (self.hook, w), self.f.m.loc(i), 'starts at the first member')
        elif kind == 'back':
            dif = []
            for a, l in (attrs(st, e) if e is not None else {}).items():
                if a in ('name', 'signature'): dif += [(a, st.get(y) if y.op == 'al' else y) for y, t in l if not t]
                elif a in ('static', 'native') and zero(l) is not None: dif.append((a, not zero(l)))
            self.done_.setdefault(h, []).append((dif, i))
    def call(self, st, ev):
        op = cont_op(ev); n = ev.name
        if op and op[0] != 'read' and ev.args[0].op == 'fld' and ev.args[0].a[1] in self.TAB:
            self.R.check(op[0] == 'ins' and ev.args[0].a[0] is A[1], 'registered-in-own-class', self.hook + ':' + op[1], '%s performs %s on %s' % (self.hook, op[1], show(ev.args[0])), ev.loc, 'added to the class that was asked')
            if op[0] == 'ins': st.cs = st.cs + (('push', ev.args[0].a[1], st.get(ev.args[1])),)
        if op and op[0] == 'read': pass
        d = self.member(ev.args[0]) if ev.args and n.split('::')[-1] in ('operator=', 'swap', 'reset') else None
        if d is not None and d.a[1] in ('Method.nativehandle', 'Field.getnativehandle', 'Field.setnativehandle'):
            self.reg(st, d, st.get(ev.args[1]) if len(ev.args) > 1 else NULL, ev)
    def member(self, t):
        """field term; an address formed with a member pointer is resolved through the layout"""
        if t.op == 'off' and (t.a[0].op == 'new' and t.a[0].a[0] == 'Field' or t.a[0].op == 'ld'):
            o = t.a[1].a[0] if isinstance(t.a[1], Term) else t.a[1]
            g = [x['n'] for x in self.f.m.classes['jnivm::Field']['members'] if x.get('off') == o and 'n' in x]
            if g: return fld(t.a[0], 'Field.' + g[0])
        return t if t.op == 'fld' else None
    def store(self, st, a, v, i):
        if a.op == 'fld' and a.a[1] in ATTR and a.a[0].op not in ('new', 'al'): self.R.bad('registration-keeps-members', self.hook + ':' + a.a[1], '%s rewrites %s' % (self.hook, show(a)), self.f.m.loc(i))
    def reg(self, st, dst, v, ev):
        R = self.R; I = self.interp
        if v.op != 'new' or 'Wrap<' not in v.a[0]: R.bad('wrapper-is-stored', self.hook, '%s stores %s' % (self.hook, show(v)[:100]), ev.loc); return
        w = W(v.a[0]); who = '%s as %s' % (self.hook, w.name().split(' of ')[0] + ' [%s]' % ', '.join(w.recv))
        self.regs.append(w)
        acc = {'Function': 'Method.nativehandle', 'Getter': 'Field.getnativehandle', 'Setter': 'Field.setnativehandle'}[w.what]
        R.check(dst.a[1] == acc, 'wrapper-is-stored', who + ':slot', '%s is stored in %s' % (who, dst.a[1]), ev.loc, '%s in %s' % (w.what, acc))
        kind = dst.a[1].split('.')[0]; e = dst.a[0]
        want = {'static': w.static, 'name': lambda roots, y: y in (A[2], T('ld', A[2])) or text_is(I, y, 2), 'signature': lambda roots, y: pieces(self.f, st.get(y)) == w.sig() or pieces(self.f, y) == w.sig()}
        if kind == 'Method': want['native'] = False
        if e.op == 'new':
            nm = st.get(fld(e, kind + '.name')); sg = st.get(fld(e, 'Method.signature' if kind == 'Method' else 'Field.type')); sv = st.mem.get(fld(e, kind + '._static'))
            R.check(nm is T('ld', A[2]) or text_is(I, nm, 2), 'registered-as-declared', who + ':name', '%s is created under the name %s' % (who, show(nm)[:60]), ev.loc, 'the requested name')
            R.check(pieces(self.f, sg) == w.sig(), 'registered-as-declared', who + ':signature', '%s is registered as %s, its types read %s' % (who, pieces(self.f, sg), w.sig()), ev.loc, w.sig())
            z = (sv.a[0] != 0) if sv is not None and sv.op == 'c' else False if sv in (None, NULL) else None
            R.check(z == w.static, 'registered-as-declared', who + ':static', '%s is created with _static=%s' % (who, sv and show(sv)), ev.loc, 'static' if w.static else 'instance')
            R.check(any(x[0] == 'push' and x[2] is e and self.TAB[x[1]] == kind for x in st.cs), 'registered-in-own-class', who + ':push', '%s creates a member that is not added to the class' % who, ev.loc, 'added')
            R.check(any(x[0] == 'end' for x in st.cs), 'registered-in-own-class', who + ':searched', '%s creates a member without having searched all members' % who, ev.loc, 'after the whole table')
        else:
            verdict, why = judge(I, st, e, want)
            R.check(verdict == 'match', 'replaces-only-the-same', who, '%s replaces the handle of a member whose %s was not found equal to its own' % (who, why), ev.loc, 'equal kind, name and signature')
        st.cs = st.cs + (('reg', w.static, w.what, tuple(nz(t) for t in w.recv)),)
        rt = [t for t in w.recv if nz(t) not in ENVT + ('Class*', '_jclass*', 'Object*', '_jobject*')]
        if rt:
            c = nz(rt[0])[:-1]
            good = any(k.op == 'eq' and tv and A[1] in k.a and any(x.op == 'typeid' and c.split('::')[-1] in show(x) for y in k.a for x in subterms(y)) and any(is_field(x, 'VM.typecheck') or 'typecheck' in show(x) for y in k.a for x in subterms(y)) for k, tv in st.facts.items())
            R.check(good, 'receiver-only-of-own-class', who, '%s takes its first object as the receiver although the class was not found registered for %s' % (who, c), ev.loc, 'class registered for ' + c)
    def ret(self, st, v, i):
        regs = [x[1:] for x in st.cs if x[0] == 'reg']
        # the class was found not registered for the object type
        other = any(k.op == 'eq' and (not tv and A[1] in k.a or tv and any(x.op == 'end' for x in k.a)) and 'typecheck' in show(k) for k, tv in st.facts.items())
        for (s, wh), rc in self.exp:
            full = (s, wh, tuple(rc)) in regs; lead = any(r[:2] == (s, wh) for r in regs)
            flt = any(t not in ENVT + ('Class*', '_jclass*', 'Object*', '_jobject*') for t in rc)
            self.R.check(full or flt and other and (lead or wh != 'Function'), 'hook-is-registered', self.hook + ':path', '%s: on one path nothing is registered for it' % self.hook, self.f.m.loc(i), 'registered on every path')
KIND = {'sf': (True, 'Function'), 'if': (False, 'Function'), 'sg': (True, 'Getter'), 'ig': (False, 'Getter'), 'ss': (True, 'Setter'), 'is': (False, 'Setter')}
RL = {'n': '_JNIEnv*', 'e': 'ENV*', 'c': 'Class*', 'k': '_jclass*', 't': 'witness::Thing*', 'b': 'Object*'}
def run(R):
    m = R.mod('api', ('w_hooks.cpp',)); nv = nr = 0
    for f in m.fns.values():
        if re.search(r"'lambda|::\$_\d", f.dem) and 'witness::l_hk_' not in f.dem: continue      # hooks of the library itself: their bodies are inlined
        g = re.match(r'jnivm::Wrap<', f.dem) and re.search(r'::(Static|Instance|NonVirtualInstance)(Invoke|Get|Set)\(jnivm::ENV\*, (jnivm::Class|_jobject)\*, jvalue const\*, (.*)\)$', f.dem)
        if not g or 'MethodHandleBase' not in g.group(4): continue
        w = W(f.dem.split('::' + g.group(1) + g.group(2) + '(jnivm::ENV*')[0]); R.need(w.ok, f.dem[:200])
        if not w.prop and w.memfn and g.group(1) == 'NonVirtualInstance': continue     # refused: always throws
        nv += 1; R.fns.add(w.name() + ' ' + g.group(2))
        b = Body(R, f, w, g.group(1) + g.group(2)); absint.Interp(f, b, splitsel=True).run()
        want = {'Invoke': w.rt, 'Get': w.rt, 'Set': w.pars[-1] if w.pars else '?'}[g.group(2)]
        tag = re.search(r'MethodHandleBase<(.*)>$', g.group(4)); tag = tag and nz(tag.group(1)); wt = nz(want) if nz(want) in PRIM else '_jobject*'
        R.check(tag == wt and g.group(2) == {'Function': 'Invoke', 'Getter': 'Get', 'Setter': 'Set'}[w.what] and (g.group(1) == 'Static') == w.static, 'dispatched-by-its-type', w.name(), '%s is reached as %s %s of %s, its type is %s' % (w.name(), g.group(1), g.group(2), tag, wt), where(f), 'reached by its JNI type')
    R.need(nv >= 200, 'wrappers: %d' % nv)
    for f in m.fns.values():
        if not f.base.startswith('witness::reg_'): continue
        nr += 1; hook = f.base[13:]; R.fns.add(f.base)
        g = re.match(r'hk_(..)_(\w*?)_([A-Z]*)_([A-Z])$', hook)
        exp = []
        if g: exp = [(KIND[g.group(1)], [RL[x] for x in g.group(2)])]
        elif hook.startswith('mem_'):
            x = hook[4:]; mf = len(x) == 2 and x[0] == 'm'; st = len(x) == 2 and x[0] == 's'
            # member functions ms/sX clash: Thing::ms is a function, Thing::sX are static variables
            exp = [((False, 'Function'), {'e': ['ENV*'], 'n': ['_JNIEnv*']}.get(x[1], []))] if mf else [((st, k), []) for k in ('Getter', 'Setter')]
        elif hook.startswith('mset_'): exp = [((False, 'Setter'), ['_JNIEnv*'] if hook.endswith('n') else [])]
        elif hook.startswith(('iprop_', 'ihook_')): exp = [((False, k), []) for k in ('Getter', 'Setter')]
        elif hook == 'memv_n': exp = [((False, 'Function'), ['_JNIEnv*'])]
        elif hook == 'il_t': exp = [((False, 'Function'), ['ENV*', 'witness::Thing*'])]
        elif hook == 'il': exp = [((False, 'Function'), [])]
        elif hook == 'fp_ec': exp = [((True, 'Function'), ['ENV*', 'Class*'])]
        elif hook == 'fp_o': exp = [((True, 'Function'), [])]
        elif hook == 'fp_t': exp = [((False, 'Function'), ['witness::Thing*'])]
        R.need(exp, hook)
        over, _ = find_loops(f, {'Class.methods', 'Class.fields'})
        c = Install(R, f, over, hook); c.exp = exp; absint.Interp(f, c, limit=200, splitsel=True).run()
        for h, l in c.done_.items():
            for dif, i in l:
                good = any(a == 'name' and (y in (A[2], T('ld', A[2])) or text_is(c.interp, y, 2)) or a == 'signature' and any(pieces(f, y) == w.sig() for w in c.regs) or a == 'native' and y is True or a == 'static' and all(y != w.static for w in c.regs) for a, y in dif)
                R.check(good, 'same-is-replaced', hook, '%s passes over a member although no difference in kind, name or signature was found' % hook, m.loc(i), 'passes over only what differs')
        for (s, wh), rc in exp:
            R.check(any(w.static == s and w.what == wh and [nz(t) for t in w.recv] == rc for w in c.regs), 'hook-is-registered', hook + ':' + wh, '%s is not registered as %s %s with leading [%s]' % (hook, 'static' if s else 'instance', wh, ', '.join(rc)), where(f), 'registered with its leading parameters')
        for w in c.regs:
            k = [e for e in exp if e[0] == (w.static, w.what)]
            R.check(bool(k) and [nz(t) for t in w.recv] == k[0][1][:len(w.recv)] and (len(w.recv) == len(k[0][1]) or all(nz(t) in ENVT for t in k[0][1][:1] if len(k[0][1]) == 2 and len(w.recv) == 1) ), 'hook-is-registered', hook + ':extra', '%s is also registered as %s' % (hook, w.name()), where(f), 'no foreign registration')
    R.need(nr >= 130, 'registrations: %d' % nr)
    for r, n in (('own-position', 500), ('own-type', 500), ('leading-parameters', 80), ('invoked-once', 200), ('result-is-converted', 60), ('property-of-its-own', 30), ('registered-as-declared', 200), ('replaces-only-the-same', 60), ('same-is-replaced', 100), ('receiver-only-of-own-class', 10)): R.floor(r, n)
