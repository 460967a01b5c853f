"""C09 object handles: every handle is resolved through wrappers and type-checked before use."""
from .lib import *
EXPLAIN = ('Handle-type analysis: for every function that receives object handles, every access through a handle must go through the resolving cast (UnpackJObject/JNICast), '
           'with the C++ class the slot needs; raw loads, stores, virtual calls and casts on an unresolved handle are violations, as is reading a member of a class the resolved object was not checked against. '
           'The resolving cast itself (all instantiations) is checked path by path: null gives null, weak is locked, global is unwrapped, anything else passes a dynamic_cast or throws. '
           'GetObjectRefType, IsSameObject and FromReflected* are decided by their return value on every path.')
ASSUME = ['dynamic_cast and static type information of the C++ compiler', 'handles given by native code are null or were produced by the library']
PRIM = {'Boolean': 'unsigned char', 'Byte': 'signed char', 'Char': 'unsigned short', 'Short': 'short', 'Int': 'int', 'Long': 'long', 'Float': 'float', 'Double': 'double'}
HANDLE = re.compile(r'^_j(object|class|string|throwable|array|weak|\w+Array)\*$|^jnivm::JNITypes<.*>::Array$')
def expected(slot, k, pty):
    m = re.match(r'(Get|Release|Set)(%s)Array(Elements|Region)$' % '|'.join(PRIM), slot)
    if m and k == 1: return 'Array<%s, void, true>' % PRIM[m.group(2)]
    if slot in ('GetArrayLength', 'GetPrimitiveArrayCritical', 'ReleasePrimitiveArrayCritical'): return 'Array<void, void, true>'
    if slot in ('GetObjectArrayElement', 'SetObjectArrayElement') and k == 1: return 'Array<Object, void, false>'
    if slot == 'DeleteGlobalRef': return 'Global'
    if slot == 'DeleteWeakGlobalRef': return 'Weak'
    if slot in ('GetDirectBufferAddress', 'GetDirectBufferCapacity'): return 'ByteBuffer'
    if slot == 'FromReflectedMethod': return 'Method'
    if slot == 'FromReflectedField': return 'Field'
    if 'String' in slot and pty == '_jstring*': return 'String'
    return {'_jclass*': 'Class', '_jstring*': 'String', '_jthrowable*': 'Throwable', '_jobject*': 'Object'}.get(pty)
def base(t):
    """(root, dyncast type or None) of an address"""
    dc = None
    while t.op in ('fld', 'off', 'idx', 'vp', 'dyncast', 'alias', 'node', 'elem', 'cast', 'this'):
        if t.op == 'dyncast': dc = dc or t.a[0]; t = t.a[1]
        elif t.op == 'cast': t = t.a[-1]
        elif t.op == 'vp' or t.op in ('fld', 'off', 'idx', 'alias', 'node', 'elem', 'this'): t = t.a[0]
    return t, dc
FLDCLS = re.compile(r'^(.*)\.[^.]*$')
def run(R):
    m = R.mod('api'); sl = slots(m); names = slot_names(m)
    # 1+2: every function with a handle parameter
    for f in m.fns.values():
        hs = [k for k, p in enumerate(f.params) if HANDLE.match(p)]
        if f.args and len(f.params) == f.nargs - 1: off = 1
        else: off = 0
        if f.base == 'UnpackJObject' or 'JNITypesObjectBase::' in f.base: continue
        if not hs: continue
        slot = sorted(names.get(f.name, ())); key = slot[0] if slot else f.base
        if not slot and m.only_from(f, set(names)): continue          # helper, inlined in the slots checked
        R.fns.add(pretty(f))
        H = {T('arg', k + off): (k, f.params[k]) for k in hs}
        bad = {}; uses = {}; narrowed = set()
        def badu(what, loc): bad.setdefault(what, loc)
        def addr(st, a, i):
            if a in H: badu('dereferences the handle', m.loc(i)); return
            r, dc = base(a)
            if r in H and a is not r and dc not in ('Weak', 'Global'): badu('accesses %s through a handle that was not resolved' % show(a), m.loc(i))
            if a.op == 'fld':
                b = a.a[0]; b = strip(b) if b.op in ('alias',) else b
                c = FLDCLS.match(a.a[1])
                ty = b.a[0] if b.op in ('unpack', 'dyncast') else None
                if ty and c and ('<' not in c.group(1)) and c.group(1) in known and c.group(1) not in ancestors(m, ty):
                    badu('reads %s of an object that was only checked to be a %s' % (a.a[1], ty), m.loc(i))
        known = {'Class', 'Object', 'Method', 'Field', 'String', 'Throwable', 'ByteBuffer', 'Weak', 'Global'}
        class K(absint.Client):
            def load(self, st, a, v, i): addr(st, a, i)
            def store(self, st, a, v, i): addr(st, a, i)
            def call(self, st, ev):
                if ev.name.startswith('virt:') and ev.args and base(ev.args[0])[0] in H and base(ev.args[0])[1] not in ('Weak', 'Global'): badu('calls a virtual function on an unresolved handle', ev.loc)
                elif ev.name == '__dynamic_cast':
                    if ev.args[0] in H and ev.res is None:
                        t = models.demangle_ti(ev.args[2].a[0]) if ev.args[2].op == 'g' else '?'
                        if absint.short(t) not in ('Weak', 'Global'): badu('casts an unresolved handle to %s' % t, ev.loc)
                elif not ev.name.startswith(('jni:', 'jvm:', 'virt:', 'ind', 'ptr:', 'jnivm::JNITypesObjectBase::')) and ev.name not in ('UnpackJObject',) and (ev.name.startswith('std::') or not m.fns.get(ev.i['callee'][1] if ev.i['callee'][0] == 'g' else None)):
                    for a in ev.args:
                        for y in ((a,) if a.op != 'al' else ()):
                            r, dc = base(y)
                            if r in H and dc not in ('Weak', 'Global') and not ev.name.startswith(('llvm.', 'printf', 'std::operator<<', 'std::vector', '__')) and y is not UNK: badu('uses an unresolved handle in %s' % ev.name, ev.loc)
            def after(self, st, ev):
                if 'dynamic_cast' in ev.name or 'dynamic_pointer_cast' in ev.name:
                    for a in ev.args:
                        x = strip(st.get(a) if a.op == 'al' else a)
                        if x.op == 'unpack' and x.a[1] in H: narrowed.add((x.a[0], x.a[1]))
                if ev.name.endswith('JNICast') or ev.name == 'UnpackJObject':
                    v = st.get(ev.dst) if ev.dst is not None else ev.res
                    v = v if v is not None else UNK
                    if v.op == 'unpack' and v.a[1] in H: uses.setdefault((v.a[0], v.a[1]), ev.loc)
        absint.Interp(f, K()).run()
        R.check(not bad, 'no-use-of-an-unresolved-handle', key, '%s %s' % (key, '; '.join(sorted(bad))), next(iter(bad.values()), where(f)), '%s(%s)' % (key, ','.join(f.params)))
        for (ty, h), loc in sorted(uses.items(), key=str):
            for s in slot:
                if s not in sl and not s.startswith('J'): pass
                e = expected(s, H[h][0], H[h][1])
                if e is None: continue
                R.check(ty == e or ty in ancestors(m, e) and (ty, h) in narrowed, 'resolved-as-the-class-needed', '%s:%s' % (s, ty), '%s resolves its parameter %d as %s instead of %s' % (s, H[h][0], ty, e), loc, '%s param %d as %s' % (s, H[h][0], ty))
    # 3: the resolving cast
    for f in m.by_base('UnpackJObject'):
        ty = absint.short(models.targ(f.dem, 'UnpackJObject')); R.fns.add(pretty(f)); h = T('arg', 1); rs = []
        class K(absint.Client):
            def ret(self, st, v, i): rs.append((st, st.get(T('arg', 0)), i))
        I = absint.Interp(f, K()); I.run()
        src_ok = lambda x: x is h or (x.op == 'lock' and x.a[0] is absint.mkld(fld(x.a[0].a[0].a[0], 'Weak.wrapped')) and okobj(x.a[0].a[0].a[0], 'Weak')) or (x.op == 'ld' and x.a[0].op == 'fld' and x.a[0].a[1] == 'Global.wrapped' and okobj(x.a[0].a[0], 'Global'))
        def okobj(y, t):
            return y.op == 'dyncast' and y.a[0] == t and all(guard(x) for x in I.roots(y.a[1]))
        def guard(x):
            try: return src_ok(x)
            except Exception: return False
        wrap = ty in ('Weak', 'Global')
        R.need(rs, f.dem)
        hit = set()
        for st, v, i in rs:
            key = 'UnpackJObject<%s>' % ty
            why = None
            n = st.nullness(v)
            if v is NULL or n == 'null':
                hit.add('null')
                isn = any(k.op == 'eq' and k.a[1] is NULL and val and all(guard(x) for x in I.roots(k.a[0])) for k, val in st.facts.items())
                if not isn: why = 'returns null for a reference that is neither null nor dead'
            elif v.op == 'unpack':
                hit.add('wrapped')
                x = v.a[1]
                if v.a[0] != ty: why = 'resolves the wrapped object as %s' % v.a[0]
                elif not (x is not h and guard(x)): why = 'resolves %s' % show(x)
                elif wrap: why = 'looks through the wrapper'
            else:
                hit.add('cast')
                x = v.a[0] if v.op == 'alias' else v
                src = x
                if x.op == 'dyncast':
                    src = x.a[1]
                    if x.a[0] != ty: why = 'returns the object as %s' % x.a[0]
                    elif st.nullness(x) != 'nonnull': why = 'does not test the result of the cast'
                elif ty != 'Object': why = 'returns an object that was not checked to be a %s: %s' % (ty, show(v))
                if not why and not all(guard(z) for z in I.roots(src)): why = 'returns %s' % show(v)
                if not why and not wrap:
                    for w in ('Weak', 'Global'):
                        if st.nullness(T('dyncast', w, src)) != 'null': why = 'may return the %s wrapper itself' % w
            R.check(why is None, 'resolution', key, '%s %s' % (key, why), m.loc(i), '%s -> %s' % (key, show(v)))
        R.check('null' in hit and 'cast' in hit and (wrap or 'wrapped' in hit or 'cast' in hit), 'resolution-complete', 'UnpackJObject<%s>' % ty, 'some kind of reference is never resolved: %s' % hit, where(f), ty)
    for f in m.by_base('jnivm::JNITypesObjectBase::JNICast'):
        ty = models.tlist(f.dem, 'JNITypesObjectBase'); R.fns.add(pretty(f)); sret = f.nargs - len(f.params)
        rs = []
        class K(absint.Client):
            def ret(self, st, v, i): rs.append((st.get(T('arg', 0)) if sret else v, i))
        absint.Interp(f, K()).run()
        hp = T('arg', sret + 1)
        for v, i in rs:
            x = v.a[0] if v is not None and v.op == 'alias' else v
            R.check(x is not None and x.op == 'unpack' and x.a[0] == ty[0] and x.a[1] in (hp, absint.mkld(hp), T('jv', hp)), 'cast-resolves-its-handle', 'JNICast<%s>' % ty[0], 'JNICast<%s> returns %s' % (ty[0], x is not None and show(x)), m.loc(i), show(x) if x is not None else '')
    # 4: GetObjectRefType
    f = sl.get('GetObjectRefType'); R.need(f, 'GetObjectRefType'); h = T('arg', 1); c = logfn(f, lambda *a: None); got = set()
    for st, v, i in [(s2, v2, i) for st, v, i in c.rets for s2, v2 in expand(st, v)]:
        w, g = st.nullness(T('dyncast', 'Weak', h)), st.nullness(T('dyncast', 'Global', h))
        n = st.nullness(h)
        cases = []
        if n != 'nonnull': cases.append(0)
        if n != 'null':
            if w != 'null': cases.append(3)
            if w != 'nonnull' and g != 'null': cases.append(2)
            if w != 'nonnull' and g != 'nonnull': cases.append(1)
        if w == 'nonnull': cases = [3]
        elif g == 'nonnull': cases = [2]
        vs = [v]
        R.check(v.op == 'c' and cases == [v.a[0]], 'reference-kind', 'GetObjectRefType:%s' % cases, 'GetObjectRefType returns %s for a reference that is %s (0 null, 1 local, 2 global, 3 weak)' % (show(v), cases), m.loc(i), '%s -> %s' % (cases, show(v)))
        got |= set(cases)
    R.check(got == {0, 1, 2, 3}, 'reference-kind', 'GetObjectRefType:all', 'kinds distinguished: %s' % got, where(f))
    # 5: IsSameObject
    f = sl['IsSameObject']; c = logfn(f, lambda *a: None); a, b = T('arg', 1), T('arg', 2); ua, ub = T('unpack', 'Object', a), T('unpack', 'Object', b)
    for st, v, i in c.rets:
        x = v
        while x.op in ('b2i', 'cast'): x = x.a[-1]
        e = mkeq(ua, ub)
        same = st.truth(mkeq(a, b)) is True or st.truth(e) is True
        ok = x is e or (x.op == 'c' and x.a[0] == 1 and same) or (x.op == 'c' and x.a[0] == 0 and st.truth(e) is False) or (st.truth(x) is not None and st.truth(x) == st.truth(e))
        R.check(ok, 'same-object-compares-resolved', 'IsSameObject', 'IsSameObject returns %s' % show(v), m.loc(i), show(v))
    # 6: FromReflected*
    for s, ty in (('FromReflectedMethod', 'Method'), ('FromReflectedField', 'Field')):
        c = logfn(sl[s], lambda *a: None); nn = 0
        for st, v, i in c.rets:
            o = strip(v); good = T('unpack', ty, T('arg', 1))
            nn += o is good
            R.check(v is NULL or o is good or st.nullness(v) == 'null', 'reflected-id', s, '%s returns %s' % (s, show(v)), m.loc(i), show(v))
        R.check(nn > 0, 'reflected-id', s + ':never', '%s never returns an id' % s, where(sl[s]))
    for r, n in (('no-use-of-an-unresolved-handle', 190), ('resolved-as-the-class-needed', 100), ('resolution', 60), ('cast-resolves-its-handle', 10), ('reference-kind', 4)): R.floor(r, n)
