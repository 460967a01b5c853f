"""C22 null and unresolved ids or null handles never crash a call."""
from .lib import *
from .c01 import CALL, FIELD, ARR, default, handle
EXPLAIN = ('partial evaluation with null: every Call/Get/Set entry of both tables is evaluated with a null id, and with an id that has no implementation (accessor), and every function that accepts a null object, class, string, buffer or copy flag is evaluated with null in that place; '
           'a handle whose every resolution yields null (a weak reference to a dead object) is treated the same by the functions that resolve their argument; on no path is anything read, written, locked or called through the null (all functions of the library the null is passed on to included, table calls too), no accessor or hook is run through a missing id, at least one path returns, and the value returned is the neutral one. The handle casts yield null for null without touching it.')
ASSUME = ['functions of the C++ library other than the string, memory and character functions listed do not touch a null pointer they are given']
TOUCH = re.compile(r'^(strlen|strcmp|strncmp|strcpy|memcpy|memmove|memcmp|memset|llvm\.(memcpy|memmove|memset)|std::basic_string::(basic_string|operator=|operator\+=|append|assign|compare|find|insert)|std::operator(==|!=|\+|<<)|std::char_traits::|std::basic_string_view::basic_string_view)')
PRIMS = ('Boolean', 'Byte', 'Char', 'Short', 'Int', 'Long', 'Float', 'Double')
# slot -> {parameter: result demanded}; 0: null/zero/default, None: any
TOL = {'DeleteGlobalRef': {1: 0}, 'DeleteLocalRef': {1: 0}, 'DeleteWeakGlobalRef': {1: 0}, 'FromReflectedMethod': {1: 0}, 'FromReflectedField': {1: 0}, 'GetArrayLength': {1: 0}, 'GetObjectRefType': {1: 0},
       'GetPrimitiveArrayCritical': {1: 0, 2: None}, 'ReleasePrimitiveArrayCritical': {1: 0, 2: 0}, 'GetStringLength': {1: 0}, 'GetStringUTFLength': {1: 0}, 'GetStringRegion': {1: 0}, 'GetStringUTFRegion': {1: 0},
       'GetStringChars': {1: None, 2: None}, 'GetStringCritical': {1: None, 2: None}, 'GetStringUTFChars': {1: None, 2: None}, 'ReleaseStringChars': {1: 0, 2: 0}, 'ReleaseStringCritical': {1: 0, 2: 0}, 'ReleaseStringUTFChars': {1: 0, 2: 0},
       'NewLocalRef': {1: 0}, 'NewGlobalRef': {1: 0}, 'NewWeakGlobalRef': {1: 0}, 'NewStringUTF': {1: None}, 'PopLocalFrame': {1: 0}, 'IsInstanceOf': {1: 0}, 'IsSameObject': {1: None, 2: None}, 'IsAssignableFrom': {2: None},
       'RegisterNatives': {1: None}, 'UnregisterNatives': {1: None}, 'SetObjectArrayElement': {3: 0}, 'NewObjectArray': {3: None}, 'GetObjectClass': {1: None}, 'GetMethodID': {1: None, 2: None, 3: None}, 'GetStaticMethodID': {1: None, 2: None, 3: None}, 'Throw': {1: None}, 'ThrowNew': {1: None},
       'NewDirectByteBuffer': {1: None}}
for t in PRIMS: TOL['Get%sArrayElements' % t] = {1: 0, 2: None}; TOL['Release%sArrayElements' % t] = {1: 0, 2: 0}
for t in PRIMS + ('Object',): TOL['Set%sField' % t] = {1: 0}; TOL['SetStatic%sField' % t] = {1: 0}
TOL['SetObjectField'][3] = None; TOL['SetStaticObjectField'][3] = None
CL = ['Object', 'Class', 'String', 'Throwable', 'Method', 'Field', 'Global', 'Weak', 'ByteBuffer', 'Array<void, void, true>', 'Array<Object, void, false>'] + ['Array<%s, void, true>' % x for x in ('unsigned char', 'signed char', 'unsigned short', 'short', 'int', 'long', 'float', 'double')]
MEMBER = re.compile(r'^std::(basic_string|vector|_?_?unordered_map|forward_list|_Hashtable|function|recursive_mutex|mutex)::')
DEAD = ('GetArrayLength', 'GetPrimitiveArrayCritical', 'GetStringLength', 'GetStringUTFLength', 'GetStringRegion', 'GetStringUTFRegion', 'GetStringChars', 'GetStringCritical', 'GetStringUTFChars', 'NewLocalRef', 'NewGlobalRef', 'NewWeakGlobalRef', 'PopLocalFrame', 'IsInstanceOf', 'IsSameObject', 'GetObjectClass', 'DeleteLocalRef', 'Throw') + tuple('Get%sArrayElements' % t for t in PRIMS)
def base(t):
    while t.op in ('fld', 'off', 'idx', 'gep', 'elem') and t.a: t = t.a[0]
    return t
class Null(absint.Client):
    def __init__(self, A, noid=None): self.A = A; self.touches = []; self.subs = []; self.rets = []; self.hooks = []; self.noid = noid
    def touch(self, a, i, what):
        if base(a) is NULL: self.touches.append((what, self.fn.m.loc(i)))
    def load(self, st, a, v, i): self.touch(a, i, 'reads through it')
    def store(self, st, a, v, i): self.touch(a, i, 'writes through it')
    def call(self, st, ev):
        n = ev.name; m = self.fn.m
        if n.startswith('virt:') and ev.args and any(base(x) is NULL for x in [ev.args[0]] + [y for _, y in expand(st, ev.args[0])]): self.touches.append(('calls a virtual function on it', ev.loc))
        if n.startswith(('virt:', 'ind')) and ev.args and handle(ev.args[0]): self.hooks.append(ev.loc)
        for j, a in enumerate(ev.args):
            if a is not NULL and a.op in ('fld', 'off', 'idx', 'gep', 'elem') and base(a) is NULL: self.touches.append(('uses a member of it in %s' % n, ev.loc))
            if a is NULL and j == 0 and MEMBER.match(n): self.touches.append(('calls %s on it' % n, ev.loc))
            if a is NULL and TOUCH.match(n): self.touches.append(('passes it to %s' % n, ev.loc))
        c = ev.i['callee']; tg = []
        if c[0] == 'g' and c[1] in m.fns and 'JNITypesObjectBase::' not in n and n != 'UnpackJObject': tg = [m.fns[c[1]]]
        elif n.startswith('jni:'): tg = [f for rn in (True, False) for f in [slots(m, rn).get(n[4:])] if f is not None]
        ns = frozenset(j for j, a in enumerate(ev.args) if a is NULL)
        if ns: self.subs += [(t, ns) for t in tg]
    def ret(self, st, v, i): self.rets += [(s2, v2, i) for s2, v2 in expand(st, v)]
class Eval:
    def __init__(self, m, R): self.m = m; self.R = R; self.seen = {}
    def dead(self, f, p):
        """the handle given is a weak reference whose object is gone: every resolution of it yields null"""
        a = T('arg', p); us = {T('unpack', c, a) for c in CL if c != 'Weak'}; out = []; rets = []
        class K(absint.Client):
            def t(s, a, i, w):
                if base(a) in us: out.append((w, self.m.loc(i)))
            def load(s, st, a, v, i): s.t(a, i, 'reads through')
            def store(s, st, a, v, i): s.t(a, i, 'writes through')
            def call(s, st, ev):
                for j, x in enumerate(ev.args):
                    for _, y in expand(st, x) if x.op in ('sel', 'phi') else [(st, x)]:
                        if y not in us: s.t(y, ev.i, 'uses a member in %s of' % ev.name)
                        elif j == 0 and (ev.name.startswith('virt:') or MEMBER.match(ev.name)): out.append(('calls %s on' % ev.name, ev.loc))
                        elif TOUCH.match(ev.name): out.append(('passes %s' % ev.name, ev.loc))
                        elif ev.i['callee'][0] == 'g' and ev.i['callee'][1] in self.m.fns and not ev.name.startswith('std::') and 'JNITypesObjectBase::' not in ev.name:
                            for w, l in self.touches(self.m.fns[ev.i['callee'][1]], frozenset([j])): out.append((w + ' in %s' % ev.name, l))
            def ret(s, st, v, i): rets.append(v)
        absint.Interp(f, K(), splitsel=True, limit=60, facts={mkeq(a, NULL): False, **{mkeq(u, NULL): True for u in us}}).run()
        return out, rets
    def one(self, f, nulls, mem=None):
        c = Null(self); self.R.fns.add(pretty(f))
        absint.Interp(f, c, args=[NULL if j in nulls else T('arg', j) for j in range(f.nargs)], splitsel=True, limit=60, mem=mem).run()
        return c
    def touches(self, f, nulls, trail=()):
        k = (f.name, nulls)
        if k in self.seen: return self.seen[k]
        self.seen[k] = []
        c = self.one(f, nulls); res = list(c.touches)
        for t, ns in c.subs: res += self.touches(t, ns)
        self.seen[k] = res
        return res
def neutral(m, v):
    return default(v) or (v is not None and v.op == 'lit' and v.a[0] == '')
def run(R):
    m = R.mod('api'); E = Eval(m, R)
    for rn in (True, False):
        S = slots(m, rn); tag = '' if rn else '[lookup-only table]'
        for slot, f in sorted(S.items()):
            if f is None: continue
            for p, want in sorted(TOL.get(slot, {}).items()):
                R.need(p < f.nargs, slot)
                ts = E.touches(f, frozenset([p])); c = E.one(f, frozenset([p])); key = '%s:%d' % (slot, p)
                R.check(not ts, 'null-is-never-touched', key, '%s with a null argument %d %s' % (slot, p, ts and ts[0][0]), ts and ts[0][1], '%s(%d)%s' % (slot, p, tag))
                R.check(bool(c.rets), 'null-call-returns', key, '%s with a null argument %d never returns' % (slot, p), where(f), key)
                if want == 0:
                    b = next(((v, i) for s, v, i in c.rets if not neutral(m, v)), None)
                    R.check(b is None, 'neutral-result', key, '%s with a null argument %d returns %s' % (slot, p, b and b[0] is not None and show(b[0])), b and m.loc(b[1]), '%s(%d)%s' % (slot, p, tag))
            if slot in DEAD or (lambda x: x and x.group(1) == '')(CALL.match(slot)):
                for p in (1, 2) if slot == 'IsSameObject' else (1,):
                    ts, rets = E.dead(f, p)
                    R.check(not ts, 'cleared-weak-reference-is-null', '%s:%d' % (slot, p), '%s %s the object of a weak reference whose object is gone' % (slot, ts and ts[0][0]), ts and ts[0][1], '%s(%d)%s' % (slot, p, tag))
                    R.check(bool(rets), 'null-call-returns', '%s:%d:dead' % (slot, p), '%s with a cleared weak reference never returns' % slot, where(f), '%s:%d' % (slot, p))
            mt, mf = CALL.match(slot), FIELD.match(slot)
            nw = slot in ('NewObject', 'NewObjectV', 'NewObjectA')
            if mt or mf or nw:
                k = 3 if mt and mt.group(1) == 'Nonvirtual' else 2
                hf = 'Method.nativehandle' if not mf else 'Field.getnativehandle' if mf.group(1) == 'Get' else 'Field.setnativehandle'
                for what, nulls, mem in (('a null id', frozenset([k]), None), ('an id without implementation', frozenset(), {fld(T('arg', k), hf): NULL})):
                    c = E.one(f, nulls, mem); key = '%s:%s' % (slot, 'null-id' if nulls else 'no-implementation')
                    ts = list(c.touches) + [x for t, ns in c.subs if nulls for x in E.touches(t, ns)]
                    R.check(not ts, 'null-is-never-touched', key, '%s through %s %s' % (slot, what, ts and ts[0][0]), ts and ts[0][1], '%s, %s%s' % (slot, what, tag))
                    R.check(not c.hooks, 'no-hook-through-a-missing-id', key, '%s runs a hook through %s' % (slot, what), c.hooks and c.hooks[0], '%s, %s' % (slot, what))
                    R.check(bool(c.rets), 'null-call-returns', key, '%s through %s never returns' % (slot, what), where(f), key)
                    b = next(((v, i) for s, v, i in c.rets if not neutral(m, v) and not (v.op == 'site' and str(v.a[1]).startswith('jni:' + slot.rstrip('VA')))), None)
                    R.check(b is None, 'neutral-result', key, '%s through %s returns %s' % (slot, what, b and b[0] is not None and show(b[0])), b and m.loc(b[1]), '%s, %s' % (slot, what))
    # the casts themselves
    for f in m.by_base('UnpackJObject'):
        c = Null(None); h = f.nargs - 1
        absint.Interp(f, c, args=[NULL if j == h else T('arg', j) for j in range(f.nargs)], splitsel=True).run(); R.fns.add(pretty(f))
        bad = [x for x in c.touches] + [('returns %s' % show(s.get(T('arg', 0))), m.loc(i)) for s, v, i in c.rets if s.nullness(s.get(T('arg', 0))) != 'null'] + ([] if c.rets else [('never returns', where(f))])
        R.check(not bad, 'null-handle-is-null', 'UnpackJObject<%s>' % absint.short(models.targ(f.dem, 'UnpackJObject')), 'resolving a null handle %s' % (bad and bad[0][0]), bad and bad[0][1], pretty(f))
    for r, n in (('null-is-never-touched', 500), ('no-hook-through-a-missing-id', 400), ('neutral-result', 400), ('null-handle-is-null', 5)): R.floor(r, n)
