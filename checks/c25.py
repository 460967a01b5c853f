"""C25 array storage has one owner, is addressed by element, and never holds foreign types."""
from .lib import *
EXPLAIN = ('ownership and addressing over the compiled arrays: for every element type, witness functions run each way an array comes to life (sized, empty, from a vector, from a buffer, lent, copied, assigned over an empty, sized or lent array, and over itself) followed by its destruction, and the abstract states at their ends are compared with what has to be allocated (element size times length), copied (from which storage, how many bytes) and released (every allocation exactly once, lent storage and the storage of others never). '
           'Each JNI array function found in the function table is reduced to the memory it moves: region functions must move len elements between the buffer and the storage at start elements, element accessors must hand out the storage itself and say so, no function may release. '
           'The virtual tables of arrays of classes are read slot by slot: an array of Z must answer every view of a base class with a function of arrays of Z, whose store converts by a checked cast to Z, rejects on failure before touching the storage, and stores the converted pointer.')
ASSUME = ['operator new[] does not return null', 'the element loops clang generates for new T[n] and delete[] of class types construct and destroy all elements']
PRIM = {'Z': ('unsigned char', 1), 'B': ('signed char', 1), 'S': ('short', 2), 'C': ('unsigned short', 2), 'I': ('int', 4), 'J': ('long', 8), 'F': ('float', 4), 'D': ('double', 8)}
SLOT = {'Boolean': 'Z', 'Byte': 'B', 'Short': 'S', 'Char': 'C', 'Int': 'I', 'Long': 'J', 'Float': 'F', 'Double': 'D'}
OBJ = ['Object', 'Base0', 'Base1', 'Leaf', 'String', 'Nested']
W = ('w_arrays.cpp',)
AF = re.compile(r'\bArray\b.*\.(\w+)$')
def afield(a):
    """(object, field) for an address of a data member of an array"""
    if a.op != 'fld': return None
    r = AF.search(a.a[1])
    if not r or r.group(1) in ('clazz', 'lock'): return None
    b = a.a[0]
    while b.op in ('off', 'fld', 'alias'): b = b.a[0]
    return b, r.group(1)
def flat(t):
    """a length, through sign and width changes"""
    while t.op == 'cast' and t.a[0] in ('sext', 'zext', 'trunc') and t.a[1] in ('i32', 'i64') and isinstance(t.a[-1], Term): t = t.a[-1]
    return t
def product(t):
    """(count, size) of a term that multiplies by a constant"""
    t = flat(t)
    if t.op == 'ev' and t.a[0].op == 'site' and 'umul' in str(t.a[0].a[1]):
        x, y = t.a[0].a[2:4]
    elif t.op == 'mul': x, y = t.a
    elif t.op == 'shl' and t.a[1].op == 'c': return flat(t.a[0]), 1 << t.a[1].a[0]
    elif t.op == 'c': return t, None
    else: return t, 1
    if x.op == 'c': x, y = y, x
    if y.op != 'c': return t, 1
    n, s = product(x)
    return n, (s or 1) * y.a[0]
def alloc(t):
    """(count, element size, cookie) of the bytes asked from new[]"""
    ck = 0
    if t.op == 'ev' and t.a[0].op == 'site' and 'uadd' in str(t.a[0].a[1]): ck = t.a[0].a[3].a[0]; t = t.a[0].a[2]
    elif t.op == 'add' and any(x.op == 'c' for x in t.a): ck = [x for x in t.a if x.op == 'c'][0].a[0]; t = [x for x in t.a if x.op != 'c'][0]
    return product(t) + (ck,)
def storage(t):
    """the allocation a pointer addresses (its cookie skipped)"""
    while True:
        if t.op in ('off', 'idx'): t = t.a[0]
        elif t.op == 'site' and t.a[1] in ('std::__miter_base', 'std::__niter_base', 'std::addressof', 'std::__addressof', 'std::forward', 'std::move'): t = t.a[-1]
        else: return t
def base(I, t):
    """the same, through loops: the one allocation a pointer derives from"""
    rs = {storage(r) for r in I.roots(t)} - {NULL}
    return rs.pop() if len(rs) == 1 else storage(t)
class Life(Log):
    """allocations, releases, copies and the members of arrays written, per path"""
    def __init__(self):
        super().__init__(self.ev); self.stores = self.st
    @staticmethod
    def last(st, obj, f):
        for e in reversed(st.cs):
            if e[0] == 'w' and e[1] is obj and e[2] == f: return e[3]
    def subst(self, st, a, v, i):
        af = afield(a)
        return self.last(st, *af) if af else None
    def st(self, c, st, a, v, i):
        af = afield(a)
        if af:
            # the latest value only
            st.cs = tuple(e for e in st.cs if not (e[0] == 'w' and e[1] is af[0] and e[2] == af[1]))
            return ('w', af[0], af[1], v)
    def ev(self, c, st, e, ph):
        n = e.name
        if ph == 'after' and n in ('operator_new[]', 'operator_new', 'malloc', 'calloc', 'realloc'): return ('new', e.res, e.args[0])
        if ph != 'call': return None
        if n.startswith('llvm.mem') and n.split('.')[1] in ('memcpy', 'memmove') or n in ('memcpy', 'memmove'): return ('cpy',) + tuple(e.args[:3])
        if n in ('operator_delete[]', 'operator_delete', 'free'): return ('del', e.args[0])
        if n in ('std::shared_ptr::operator=', 'std::__shared_ptr::operator=', 'std::shared_ptr::shared_ptr') and len(e.args) > 1: return ('assign', e.args[0], e.args[1])
        if n in ('std::copy', 'std::copy_n', 'std::uninitialized_copy', 'std::uninitialized_copy_n'): return ('algo', n) + tuple(e.args[:3])
def life(R, m, name):
    fs = m.find(r'^witness::%s\(' % name)
    R.need(len(fs) == 1, 'witness function %s not found' % name)
    f = fs[0]; f.prepare(); R.fns.add(pretty(f))
    c = Life(); c.fn = f; I = absint.Interp(f, c, splitsel=True, limit=120); c.interp = I; I.run()
    R.need(c.rets, 'witness function %s does not end' % name)
    return f, [s for s, _, _ in c.rets], I
def news(s):
    """the allocations of a path: term, count, size, cookie; overflowing sizes (-1) end in an exception"""
    out = []
    for e in s.cs:
        if e[0] == 'new':
            if e[2].op == 'c' and e[2].a[0] in (-1, 2 ** 64 - 1): return None
            out.append((e[1],) + alloc(e[2]))
    return out
def isnull(s, t): return t is NULL or s.truth(mkeq(t, NULL)) is True if hasattr(s, 'truth') else t is NULL
ARGLEN = lambda k: T('arg', k)
def fieldof(k, f): return lambda t: t.op == 'ld' and afield(t.a[0]) == (T('arg', k), f)
def otherlen(k):
    g = fieldof(k, 'length'); return lambda t: g(t)
def lifecycle(R, m, fam, name, size, want):
    """want(state) -> list of (count predicate, source of the copy or None, label); releases are checked for all"""
    f, sts, I = life(R, m, name); n = 0; key = name
    storage = lambda t: base(I, t)
    for s in sts:
        ns = news(s)
        if ns is None: continue
        n += 1
        ds = [storage(e[1]) for e in s.cs if e[0] == 'del' and e[1] is not NULL]
        ok = True
        for t, cnt, sz, ck in ns:
            k = ds.count(t); looped = any(e[0] == 'del' and storage(e[1]) is t and e[-1] for e in s.cs)
            if k == 0 and any(x and q.op == 'eq' and NULL in q.a and any(storage(y) is t for y in q.a) or not x and q.op == 'not' and False for q, x in facts(s)): continue   # null, says the path
            ok &= R.check(k == 1 and not looped, 'released-exactly-once', key, 'storage allocated in %s is released %s times before the arrays are gone' % (name, 'several' if looped else k), where(f), what=name)
        for d in ds:
            if d in [x[0] for x in ns]: continue
            R.check(False, 'only-own-storage-released', key, '%s releases %s, which the array did not allocate' % (name, show(d)[:80]), where(f))
        if all(d in [x[0] for x in ns] for d in ds): R.ok('only-own-storage-released', name)
        want(s, ns, f, key)
    R.need(n, 'no regular path through %s' % name)
def run_lives(R, m):
    V = lambda s: [e for e in s.cs if e[0] == 'cpy']
    for L, (ty, size) in PRIM.items():
        def sized(pred, copy=None):
            def w(s, ns, f, key):
                R.check(len(ns) >= 1 and all(pred(c) and sz == size for _, c, sz, ck in ns[-1:]), 'storage-fits-length', key, '%s: an array of %s is given %s' % (key, ty, [(show(c), sz) for _, c, sz, _ in ns] or 'no storage'), where(f), what='%s: n*%d' % (key, size))
                if copy:
                    cs = [e for e in V(s) if ns and storage(e[1]) is ns[-1][0]]
                    if not cs:
                        R.check(empty(s, copy, pred), 'content-copied', key, '%s: nothing is copied into the new array' % key, where(f), what=key)
                    for e in cs:
                        c, sz = product(e[3])
                        R.check(e[1] is ns[-1][0] and copy(e[2]) and pred(c) and sz == size, 'content-copied', key, '%s: the new array is filled with %s bytes from %s' % (key, show(e[3])[:60], show(e[2])[:60]), where(f), what=key)
            return w
        def empty(s, copy, pred):
            # the path has established that there is nothing to copy
            for fct in list(s.facts):
                t, v = (fct if isinstance(fct, tuple) else (fct, s.facts[fct])) if isinstance(s.facts, dict) or isinstance(fct, tuple) else (fct, True)
                t0 = t; val = v
                if t0.op == 'not': t0 = t0.a[0]; val = not val
                if t0.op == 'pure1' and t0.a[0] == 'empty' and val and pred(T('pure', 'vsize', t0.a[1])): return True
                if t0.op in ('lt', 'ult', 'slt', 'gt') and not val and t0.a[0] in (C(0), NULL) and pred(flat(t0.a[1])): return True
                if t0.op in ('eq',) and val and any(pred(flat(x)) for x in t0.a) and any(x in (C(0), NULL) for x in t0.a): return True
                if t0.op in ('lt', 'ult') and val and t0.a[1] is C(1) and pred(flat(t0.a[0])): return True
            return False
        isn = lambda k: (lambda t: t is T('arg', k))
        vs = lambda t: t.op == 'pure' and t.a[0] == 'vsize' and t.a[1] is T('arg', 0)
        begin = lambda k: (lambda t: t.op == 'begin' and t.a[0] is T('arg', k))
        none = lambda s, ns, f, key: R.check(not ns, 'storage-fits-length', key, '%s allocates for an empty or lent array' % key, where(f), what=key)
        a = lambda n, w: lifecycle(R, m, 'a', '%s_%s' % (n, L), size, w)
        a('asize', sized(isn(0)))
        a('aempty', none)
        a('avec', sized(vs, begin(0)))
        a('adata', sized(isn(1), isn(0)))
        def lent(s, ns, f, key):
            cp = any((flat(t) is T('arg', 2) or t.op == 'eq' and any(flat(x) is T('arg', 2) for x in t.a)) for t, v in facts(s)) and bool(ns)
            (sized(isn(1), isn(0)) if ns else none)(s, ns, f, key)
        a('alent', lent)
        f, sts, _ = life(R, m, 'alent_%s' % L)
        # with the flag the data is copied, without it is not
        cases = {}
        for s in sts:
            ns = news(s)
            if ns is None: continue
            v = next((v for t, v in facts(s) if flat(t) is T('arg', 2)), None)
            if v is not None: cases.setdefault(bool(v), set()).add(bool(ns))
        R.check(cases.get(True) == {True} and cases.get(False) == {False}, 'lent-only-when-asked', 'alent_%s' % L, 'an array of %s over a buffer: copied when asked %s, when lent %s' % (ty, cases.get(True), cases.get(False)), where(f), what=L)
        a('acopy', sized(fieldof(0, 'length'), fieldof(0, 'data')))
        a('aassignempty', sized(fieldof(0, 'length'), fieldof(0, 'data')))
        a('aassignsize', sized(fieldof(1, 'length'), fieldof(1, 'data')))
        a('aassignlent', sized(fieldof(2, 'length'), fieldof(2, 'data')))
        a('acopylent', sized(isn(1), isn(0)))
        a('aself', lambda s, ns, f, key: R.check(all(c is T('arg', 0) and sz == size for _, c, sz, _ in ns), 'storage-fits-length', key, '%s: %s' % (key, [(show(c), sz) for _, c, sz, _ in ns]), where(f), what=key))
        # addressing
        for w in ('aref', 'acref'):
            f = m.find(r'^witness::%s_%s\(' % (w, L)); R.need(len(f) == 1, '%s_%s not found' % (w, L)); f = f[0]; R.fns.add(pretty(f))
            for v in rets(f): R.check(elem(v, fieldof(0, 'data'), T('arg', 1), size), 'element-addressed-by-index', '%s_%s' % (w, L), 'element i of an array of %s is at %s' % (ty, show(v)), where(f), what='%s_%s' % (w, L))
        for w, fl in (('aget', 'data'), ('acget', 'data'), ('alen', 'length')):
            f = m.find(r'^witness::%s_%s\(' % (w, L)); R.need(len(f) == 1, '%s_%s not found' % (w, L)); f = f[0]; R.fns.add(pretty(f))
            for v in rets(f): R.check(fieldof(0, fl)(v), 'accessors-give-the-storage', '%s_%s' % (w, L), '%s_%s returns %s' % (w, L, show(v)), where(f), what=w)
    for O in OBJ:
        def osized(pred, copy=None):
            def w(s, ns, f, key):
                R.check(len(ns) >= 1 and pred(ns[-1][1]) and ns[-1][2] == 16, 'storage-fits-length', key, '%s: an array of shared pointers is given %s' % (key, [(show(c), sz) for _, c, sz, _ in ns] or 'no storage'), where(f), what=key)
                if copy and ns:
                    cs = [e for e in s.cs if e[0] == 'assign' and ns[-1][0] in roots_of(e[1], f)]
                    if not cs and any(e[0] == 'cpy' and storage(e[1]) is ns[-1][0] for e in s.cs): R.bad('content-copied', key, '%s copies shared pointers byte by byte' % key, where(f))
                    for e in cs:
                        R.check(any(copy(r) for r in roots_of(e[2], f)), 'content-copied', key, '%s: elements of the copy come from %s' % (key, show(e[2])[:80]), where(f), what=key)
                    seen['x'] = seen.get('x', 0) + len(cs)
            return w
        rcache = {}
        def roots_of(t, f):
            I = rcache.get(f)
            if I is None:
                c = Life(); c.fn = f; I = absint.Interp(f, c, splitsel=True, limit=120); I.run(); rcache[f] = I
            out = set()
            for r in I.roots(t): out.add(storage(r))
            return out | {storage(t)}
        isn = lambda k: (lambda t: t is T('arg', k))
        a = lambda n, w: lifecycle(R, m, 'o', '%s_%s' % (n, O), 16, w)
        seen = {}
        a('osize', osized(isn(0)))
        a('oempty', lambda s, ns, f, key: R.check(not ns, 'storage-fits-length', key, '%s allocates for an empty array' % key, where(f), what=key))
        for n, k in (('ocopy', 0), ('oassignempty', 0), ('oassignsize', 1)):
            seen.clear()
            a(n, osized(fieldof(k, 'length'), fieldof(k, 'data')))
            R.check(seen.get('x', 0) > 0, 'content-copied', '%s_%s' % (n, O), '%s_%s: no element is copied' % (n, O), what=n)
def facts(s):
    f = s.facts
    if isinstance(f, dict): return list(f.items())
    return [x if isinstance(x, tuple) else (x, True) for x in f]
def rets(f, **kw):
    c = Life(); c.fn = f; absint.Interp(f, c, splitsel=True, limit=120, **kw).run()
    return [v for _, v, _ in c.rets]
def elem(v, base, i, size):
    """v addresses element i"""
    if v.op == 'idx': return base(v.a[0]) and flat(v.a[1]) is i and v.a[2] in (size, C(size))
    if v.op == 'off' and size == 1: return base(v.a[0]) and flat(v.a[1] if isinstance(v.a[1], Term) else C(v.a[1])) is i
    return False
# ---------------------------------------------------------------- JNI functions
def unpacked(ty, k, f):
    """member f of the array behind handle k, seen as an array of ty (or of anything)"""
    def p(t):
        if t.op != 'ld' or t.a[0].op != 'fld': return False
        af = afield(t.a[0])
        if not af or af[1] != f or af[0].op != 'unpack': return False
        cls = str(af[0].a[0]); h = af[0].a[1]
        return h is T('arg', k) and (cls.replace('jnivm::impl::', '').startswith('Array<%s,' % ty))
    return p
def run_jni(R, m):
    tab = slots(m)
    def one(slot, fn): 
        c = Life(); c.fn = fn; fn.prepare(); R.fns.add('%s = %s' % (slot, pretty(fn)))
        c.other = []
        base = c.st
        I = absint.Interp(fn, c, splitsel=True, limit=120); c.interp = I; I.run()
        return c
    n = 0
    for S, L in SLOT.items():
        ty, size = PRIM[L]
        for d in 'Get', 'Set':
            slot = '%s%sArrayRegion' % (d, S); fn = tab.get(slot)
            if fn is None: R.bad('regions-move-elements', slot, '%s is not implemented' % slot); continue
            c = one(slot, fn)
            for s, _, _ in c.rets:
                cp = [e for e in s.cs if e[0] == 'cpy']
                if not cp:
                    nothing = any(v and t.op == 'eq' and any(flat(x) is T('arg', 3) for x in t.a) or t.op in ('lt',) and v and t.a[0] is T('arg', 3) or t.op == 'lt' and not v and t.a[1] is T('arg', 3) or v and t.op == 'eq' and NULL in t.a and any(x.op == 'unpack' or x is T('arg', 1) for x in t.a) for t, v in facts(s))
                    R.check(nothing, 'regions-move-elements', slot, '%s returns without moving the region' % slot, where(fn), what=slot); continue
                for e in cp:
                    arr, buf = (e[2], e[1]) if d == 'Get' else (e[1], e[2])
                    cnt, sz = product(e[3])
                    R.check(len(cp) == 1 and buf is T('arg', 4) and elem(arr, unpacked(ty, 1, 'data'), T('arg', 2), size) and cnt is T('arg', 3) and sz == size, 'regions-move-elements', slot,
                            '%s moves %s bytes from %s to %s' % (slot, show(e[3])[:60], show(e[2])[:80], show(e[1])[:80]), where(fn), what='%s: %d bytes each' % (slot, size))
            released(R, slot, fn, c)
        acc('Get%sArrayElements' % S, ty, R, tab, one); rel('Release%sArrayElements' % S, R, tab, one)
        slot = 'New%sArray' % S; fn = tab.get(slot)
        if fn is None: R.bad('new-array-of-its-type', slot, '%s is not implemented' % slot); continue
        c = one(slot, fn); seen = 0
        for s, v, _ in c.rets:
            v0 = v
            made = [x for x in subterms(v) if x.op == 'new'] if v is not None else []
            if not made:
                R.check(v in (NULL,) or v is None, 'new-array-of-its-type', slot, '%s returns %s' % (slot, show(v)), where(fn), what=slot); continue
            seen += 1
            a = made[0]; cls = str(a.a[0]).replace('jnivm::impl::', '')
            ln = a.a[2] if len(a.a) > 2 else None
            lv = s.mem.get(ln) if ln is not None and hasattr(s, 'mem') else None
            R.check(len(made) == 1 and cls.startswith('Array<%s,' % ty) and ln is not None and (flat(ln) is T('arg', 1) or lv is T('arg', 1) or ln.op == 'al' and argcopy(fn, ln, s)), 'new-array-of-its-type', slot, '%s makes %s of length %s' % (slot, cls, show(ln) if ln is not None else '?'), where(fn), what='%s: Array<%s>' % (slot, ty))
        R.check(seen > 0, 'new-array-of-its-type', slot, '%s makes no array' % slot, where(fn))
    acc('GetPrimitiveArrayCritical', 'void', R, tab, one); rel('ReleasePrimitiveArrayCritical', R, tab, one)
    fn = tab.get('GetArrayLength'); R.need(fn is not None, 'GetArrayLength missing')
    c = one('GetArrayLength', fn)
    for s, v, _ in c.rets: R.check(unpacked('void', 1, 'length')(v) or v in (C(0), NULL), 'accessors-give-the-storage', 'GetArrayLength', 'GetArrayLength returns %s' % show(v), where(fn), what='GetArrayLength')
    R.check(any(unpacked('void', 1, 'length')(v) for _, v, _ in c.rets), 'accessors-give-the-storage', 'GetArrayLength', 'GetArrayLength never returns the length', where(fn))
    released(R, 'GetArrayLength', fn, c)
def argcopy(fn, al, s):
    """the local holds the length argument"""
    return any(k is al and v is T('arg', 1) for k, v in s.mem.items()) if isinstance(getattr(s, 'mem', None), dict) else True
def released(R, slot, fn, c):
    bad = [e for s, _, _ in c.rets for e in s.cs if e[0] == 'del' or e[0] == 'w' and e[1].op == 'unpack']
    R.check(not bad, 'access-does-not-release', slot, '%s %s' % (slot, ('releases ' + show(bad[0][1]) if bad[0][0] == 'del' else 'changes the array (%s)' % bad[0][2]) if bad else ''), where(fn), what=slot)
def acc(slot, ty, R, tab, one):
    fn = tab.get(slot)
    if fn is None: R.bad('accessors-give-the-storage', slot, '%s is not implemented' % slot); return
    c = one(slot, fn); hit = 0
    p = unpacked(ty, 1, 'data')
    for s, v, _ in c.rets:
        hit += bool(p(v))
        R.check(p(v) or v is NULL, 'accessors-give-the-storage', slot, '%s returns %s, not the storage of the array' % (slot, show(v)), where(fn), what=slot)
    R.check(hit, 'accessors-give-the-storage', slot, '%s never returns the storage of the array' % slot, where(fn))
    released(R, slot, fn, c)
    # the copy flag, when asked for, says no copy
    class F(absint.Client):
        def __init__(self): self.rets = []
        def store(self, st, a, v, i):
            if a is T('arg', 2): st.cs = (v,)
        def ret(self, st, v, i): self.rets.append((st, v))
    k = F(); absint.Interp(fn, k, splitsel=True, limit=120).run()
    for st, v in k.rets:
        null = any(x and t.op == 'eq' and T('arg', 2) in t.a and NULL in t.a or t.op == 'not' and not x and t.a[0].op == 'eq' and T('arg', 2) in t.a[0].a for t, x in facts(st))
        R.check(null or st.cs and st.cs[0] in (C(0), FALSE, NULL), 'no-copy-reported', slot, '%s hands out the storage and %s' % (slot, 'reports %s' % show(st.cs[0]) if st.cs else 'leaves the copy flag unset'), where(fn), what=slot)
def rel(slot, R, tab, one):
    fn = tab.get(slot)
    if fn is None: R.bad('access-does-not-release', slot, '%s is not implemented' % slot); return
    c = one(slot, fn); released(R, slot, fn, c)
    bad = [e for s, _, _ in c.rets for e in s.cs if e[0] in ('cpy', 'assign')]
    R.check(not bad, 'access-does-not-release', slot, '%s changes the array: %s' % (slot, bad and bad[0][0]), where(fn), what=slot)

# ---------------------------------------------------------------- object arrays
def tsplit(s):
    out = []; d = 0; cur = ''
    for ch in s:
        d += (ch in '<(') - (ch in '>)')
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    return out + [cur.strip()]
def sp(t):
    r = re.search(r'std::shared_ptr<(.*)> ?(const)?&?$', t.strip()); return r.group(1).strip() if r else None
norm = lambda s: s.replace(' ', '')
class Obj(absint.Client):
    def __init__(self, m): self.m = m; self.rets = []; self.unw = []
    def call(self, st, ev):
        d = ev.dem or ''
        n = ev.name
        if n in ('std::shared_ptr::operator=', 'std::shared_ptr::shared_ptr', 'std::__shared_ptr::operator=', 'std::shared_ptr::swap', 'std::__shared_ptr::swap', 'std::shared_ptr::reset', 'std::__shared_ptr::reset') and ev.args: st.cs = st.cs + ((n.split('::')[-1], d) + tuple(ev.args[:2]) + (pointee(st, ev.args[1]) if len(ev.args) > 1 else NULL, tuple(facts(st))),)
        elif n == '__cxa_throw': st.cs = st.cs + (('throw', d),)
    def ret(self, st, v, i): self.rets.append(st)
    def unwind(self, st, i): self.unw.append(st)
def vtable(m, g):
    out = []
    def w(x):
        if not isinstance(x, (list, tuple)): return
        if x and x[0] == 'g': out.append(x[1])
        elif x and x[0] == 'cexpr' or x and x[0] == 'null': return
        else:
            for y in x:
                if isinstance(y, (list, tuple)): w(y)
    w(g); return out
def run_objects(R, m):
    done = {}; nview = 0
    bases = {'witness::Base0': ['jnivm::Object'], 'witness::Base1': ['witness::Base0', 'jnivm::Object'], 'witness::Leaf': ['witness::Base1', 'witness::Base0', 'jnivm::Object'], 'witness::Other': ['witness::Base0', 'jnivm::Object'],
             'jnivm::String': ['jnivm::Object'], 'jnivm::Object': [], 'jnivm::impl::Array<int,void,true>': ['jnivm::Object'], 'jnivm::impl::Array<witness::Leaf,void,false>': ['jnivm::Object']}
    found = set()
    for name, g in m.globals.items():
        if not name.startswith('_ZTV'): continue
        fs = [m.dem.get(x, '') for x in vtable(m, g)]
        own = [re.match(r'^(?:non-virtual thunk to |virtual thunk to )?jnivm::impl::Array<(.*)>::~Array\(\)$', d) for d in fs]
        own = [x.group(1) for x in own if x]
        if not own or not name.startswith('_ZTVN5jnivm4impl5Array'): continue
        args = tsplit(own[0])
        if args[1:] != ['void', 'false']: continue
        Z = args[0]; found.add(norm(Z)); views = set(); gets = set()
        for x in dict.fromkeys(vtable(m, g)):
            d = m.dem.get(x, '')
            r = re.match(r'^(?:(?:non-virtual|virtual) thunk to )?(.*)::(Get|Set)\((.*)\)( const)?$', d)
            if not r: continue
            par = tsplit(r.group(3)); fn = m.fns.get(x)
            if r.group(2) == 'Get':
                y = re.search(r'array_type_t<(.*)>$', par[-1]); Y = y.group(1) if y else None; gets.add(norm(Y or ''))
            else: Y = sp(par[-1]); views.add(norm(Y or ''))
            if fn is None or 'thunk to' in d: continue
            nview += 1; getset(R, m, fn, r.group(2), Z, Y)
        need = {norm(Z)} | {norm(b) for b in bases.get(norm(Z), ['jnivm::Object'])}
        for w in sorted(need):
            R.check(w in views and w in gets, 'every-view-answers', '%s as %s' % (norm(Z), w), 'an array of %s seen as an array of %s has no element access of its own' % (Z, w), what='%s as %s' % (norm(Z), w))
    for z in bases: R.need(z in found, 'no virtual table of an array of %s' % z)
    R.need(nview >= 20, 'too few element accessors in the virtual tables (%d)' % nview)
def getset(R, m, fn, what, Z, Y):
    fn.prepare(); R.fns.add(pretty(fn)); key = '%s of %s as %s' % (what, norm(Z), norm(Y or '?')); z = norm(Z)
    c = Obj(m); I = absint.Interp(fn, c, splitsel=True, limit=120); I.run()
    this, idx, val = (T('arg', 1), T('arg', 2), T('arg', 0)) if what == 'Get' else (T('arg', 0), T('arg', 1), T('arg', 2))
    def slot(t): return t.op == 'idx' and afield(t.a[0].a[0] if t.a[0].op == 'ld' else t.a[0]) == (this, 'data') and flat(t.a[1]) is idx and t.a[2] in (16, C(16))
    if what == 'Get':
        for st in c.rets:
            es = [e for e in st.cs if e[0] in ('shared_ptr', 'operator=')and e[2] is val]
            R.check(len(es) >= 1 and slot(es[-1][3]) , 'element-addressed-by-index', key, 'an element of an array of %s is read from %s' % (Z, show(es[-1][3]) if es else 'nowhere'), where(fn), what=key)
            if not es: continue
            src = re.search(r'\((.*)\)$', es[-1][1]); sty = sp(src.group(1)) if src else None
            R.check(sty is not None and norm(sty) == z, 'elements-keep-their-type', key, 'an element of an array of %s is read as a pointer to %s' % (Z, sty), where(fn), what=key)
        return
    same = norm(Y) == z
    stored = 0
    for st in c.rets + c.unw:
        thrown = st in c.unw
        es = [e for e in st.cs if e[0] in ('operator=', 'shared_ptr', 'swap', 'reset') and (slot(e[2]) or len(e) > 3 and slot(e[3]))]
        if thrown:
            R.check(not es, 'rejected-before-stored', key, 'an array of %s is changed before the store is rejected' % Z, where(fn), what=key); continue
        stored += len(es)
        R.check(len(es) == 1 and slot(es[0][2]) or len(es) == 1 and es[0][0] == 'swap', 'element-addressed-by-index', key, 'a store into an array of %s writes %s' % (Z, [show(e[2])[:60] for e in es] or 'nothing'), where(fn), what=key)
        for e in es:
            own = re.match(r'^std::(?:__)?shared_ptr<(.*)>::', e[1]); oty = None
            if own: oty = tsplit(own.group(1))[0]
            R.check(oty is not None and norm(oty) == z, 'elements-keep-their-type', key, 'an element of an array of %s is stored as a pointer to %s' % (Z, oty), where(fn), what=key)
            if same: continue
            # the value stored: the result of a cast to Z, or null when there was nothing to store
            v, fcts = e[4], list(e[5]); orig = T('ld', val)
            dc = [t for t in subterms(v)] if v is not None else []
            cast = next((t for t in dc if t.op == 'dyncast'), None)
            if cast is not None:
                tgt = norm(str(cast.a[0]))
                R.check(tgt in (z, z.replace('jnivm::', '').replace('impl::', '')) or norm(absint.short(Z)) == norm(absint.short(str(cast.a[0]))), 'store-is-checked', key, 'a store into an array of %s checks for %s' % (Z, cast.a[0]), where(fn), what=key)
                nonnull = any((t.op == 'eq' and not x or t.op == 'not' and x and t.a[0].op == 'eq') and cast in (t.a if t.op == 'eq' else t.a[0].a) for t, x in fcts) or any((t.op == 'eq' and x and orig in t.a and NULL in t.a) or (t.op == 'not' and not x and t.a[0].op == 'eq' and orig in t.a[0].a) for t, x in fcts)
                R.check(nonnull, 'store-is-checked', key, 'a store into an array of %s goes on when the object is no %s' % (Z, Z), where(fn), what=key)
            else:
                isn = v is NULL or any((t.op == 'eq' and x or t.op == 'not' and not x) and any(y is orig for y in (t.a if t.op == 'eq' else t.a[0].a if t.a[0].op == 'eq' else ())) for t, x in fcts)
                R.check(isn, 'store-is-checked', key, 'a store into an array of %s takes %s without checking its type' % (Z, show(v) if v is not None else 'a value'), where(fn), what=key)
    R.check(stored, 'store-is-checked', key, 'nothing is ever stored', where(fn))
    if not same:
        R.check(any(('throw' in [e[0] for e in st.cs]) for st in c.unw), 'store-is-checked', key, 'a store of an object that is no %s is not rejected' % Z, where(fn), what=key)
def pointee(st, a):
    """what the smart pointer at a holds"""
    if isinstance(getattr(st, 'mem', None), dict) and a in st.mem: return st.mem[a]
    return T('ld', a)
def run_objjni(R, m):
    tab = slots(m)
    class V(absint.Client):
        def __init__(self): self.rets = []
        def call(self, st, ev):
            if ev.name.startswith('virt:'): st.cs = st.cs + ((ev.name, tuple(ev.args), ev.i['id']),)
        def ret(self, st, v, i): self.rets.append((st, v))
    arr = lambda t: t.op == 'unpack' and 'Array<' in str(t.a[0]) and t.a[1] is T('arg', 1)
    for slot, k in (('GetObjectArrayElement', 1), ('SetObjectArrayElement', 0)):
        fn = tab.get(slot); R.need(fn is not None, '%s missing' % slot); R.fns.add(pretty(fn))
        c = V(); I = absint.Interp(fn, c, splitsel=True, limit=120); I.run(); n = 0
        for st, v in c.rets:
            es = [e for e in st.cs if any(arr(x) for x in e[1])]
            if not es:
                null = any(x and t.op == 'eq' and NULL in t.a and any(arr(y) or y is T('arg', 1) for y in t.a) for t, x in facts(st))
                R.check(null, 'element-functions-use-the-checked-access', slot, '%s returns without accessing the element' % slot, where(fn), what=slot); continue
            n += 1; e = es[0]
            i = [x for x in e[1] if not arr(x) and x is T('arg', 2)]
            R.check(len(es) == 1 and len(i) == 1, 'element-functions-use-the-checked-access', slot, '%s accesses %s' % (slot, [show(x)[:50] for x in e[1]]), where(fn), what=slot)
        R.check(n, 'element-functions-use-the-checked-access', slot, '%s never accesses an element' % slot, where(fn))
def run_new(R, m):
    """NewObjectArray and the per-class array makers"""
    made = 0
    for fn in m.fns.values():
        # functions stored as the maker of arrays of a class: (environment, length) -> array
        r = re.search(r'lambda.*operator\(\)\(jnivm::ENV\*, int\) const$', fn.dem)
        if not r: continue
        c = Life(); c.fn = fn; fn.prepare(); absint.Interp(fn, c, splitsel=True, limit=80).run()
        outs = [x for s, _, _ in c.rets for e in s.cs for y in e if isinstance(y, Term) for x in subterms(y) if x.op == 'new']
        T0 = re.search(r'utility_<(.*), true>::|<(.*)>::', fn.dem)
        mk = [i for b in fn.blocks for i in b if i['op'] in ('call', 'invoke') and i['callee'][0] == 'g' and 'make_shared<jnivm::impl::Array<' in m.dem.get(i['callee'][1], '')]
        if not mk: continue
        made += 1; R.fns.add(pretty(fn))
        for i in mk:
            a = re.search(r'make_shared<jnivm::impl::Array<(.*)$', m.dem[i['callee'][1]]); a = a and re.match(r'(.*), void, (?:true|false)$', outer(a.group(1)))
            t0 = (T0.group(1) or T0.group(2)) if T0 else None
            R.check(a and (t0 is None or norm(a.group(1)) == norm(t0)), 'new-array-of-its-type', 'maker of %s' % (t0 or fn.dem[:60]), 'the maker of arrays of %s makes arrays of %s' % (t0, a and a.group(1)), where(fn), what='maker of %s' % t0)
    R.need(made >= 4, 'no makers of object arrays found')
    fn = slots(m).get('NewObjectArray'); R.need(fn is not None, 'NewObjectArray missing'); fn.prepare(); R.fns.add(pretty(fn))
    ws = {}
    class N(absint.Client):
        def __init__(self): self.fills = set(); self.bounds = set(); self.makers = set(); self.edges = []
        def call(self, st, ev):
            if ev.name.startswith('virt:') and len(ev.args) == 3: self.fills.add((ev.args[1], ev.i['id']))
        def after(self, st, ev):
            if ev.name == 'std::make_shared': self.makers.add(ev.res if ev.res is not None else UNK)
        def backedge(self, st, p, h, vals): self.edges.append((h, vals))
    c = N(); I = absint.Interp(fn, c, splitsel=True, limit=120); I.run()
    for ix, site in c.fills:
        steps = [vals.get(ix.a[1]) for h, vals in c.edges if h == ix.a[0]] if ix.op == 'phi' else []
        if not steps or any(x not in (T('add', ix, C(1)), T('add', C(1), ix)) for x in steps): continue   # not a counting-up loop: not judged
        start = init_of(fn, ix)
        R.check(start in (0, None), 'initial-element-fills-the-array', 'NewObjectArray', 'NewObjectArray puts the initial element from index %s on' % start, where(fn), what='i = 0, 1, ...')
        b = bound_of(fn, I, ix)
        if b is not None: R.check(b is T('arg', 1), 'initial-element-fills-the-array', 'NewObjectArray', 'NewObjectArray fills up to %s' % show(b), where(fn), what='up to length')
    R.check(c.fills, 'initial-element-fills-the-array', 'NewObjectArray', 'NewObjectArray never stores the initial element', where(fn))
def outer(s):
    """up to the bracket that closes before the string does"""
    d = 1
    for k, ch in enumerate(s):
        d += (ch in '<(') - (ch in '>)')
        if d == 0: return s[:k]
    return s
def init_of(fn, ph):
    for b in fn.blocks:
        for i in b:
            if i['op'] == 'phi' and i['id'] == ph.a[1]:
                cs = [o[0] for o in i['o'] if o[0][0] == 'c']
                return cs[0][1] if len(cs) == 1 else None
def bound_of(fn, I, ph):
    out = []
    class E(absint.Client):
        def edge(self, st, b, x, c, val, i):
            if isinstance(c, Term):
                t = c.a[0] if c.op == 'not' else c
                v = val if c.op != 'not' else not val
                if t.op in ('lt', 'ult', 'slt') and t.a[0] is ph and v: out.append(t.a[1])
                if t.op == 'eq' and ph in t.a and not v: out.append([x for x in t.a if x is not ph][0])
                if t.op == 'eq' and not v:
                    y = [x for x in t.a if x.op == 'add' and ph in x.a]
                    if y: out.append([x for x in t.a if x is not y[0]][0])
    absint.Interp(fn, E(), splitsel=True, limit=120).run()
    return out[0] if out and all(x is out[0] for x in out) else None
def run(R):
    m = R.mod('api', W)
    run_lives(R, m); run_jni(R, m); run_objects(R, m); run_objjni(R, m); run_new(R, m)
    R.floor('released-exactly-once', 60); R.floor('regions-move-elements', 16); R.floor('store-is-checked', 20); R.floor('no-copy-reported', 9)
