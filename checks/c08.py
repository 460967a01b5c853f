"""C08 global / weak references: what is pinned, and exact deletion."""
from .lib import *
EXPLAIN = ('Path-sensitive value analysis of the reference functions of the JNI table: the reference object created, what it holds (strong for global, weak for weak references), '
           'where it is inserted, and for every deletion a proof from the branch facts of the same path that the erased slot equals the given reference; an unsuccessful search must have reached the end of the table. '
           'A who-may-remove rule covers every other function of the tree, and the resolution of weak wrappers is checked in every UnpackJObject instantiation.')
ASSUME = ['std::shared_ptr/std::weak_ptr ownership', 'std::vector::erase removes exactly the addressed element']
def is_glob(t): return t.op == 'fld' and t.a[1] == 'VM.globals'
def frame_of(I, t):
    """t denotes one local frame"""
    return any(y.op == 'fld' and y.a[1] == 'ENV.localframe' for x in I.roots(t) for y in deep(I, x)) and t.op in ('node', 'front')
def deep(I, t, seen=None):
    seen = set() if seen is None else seen; st = [t]
    while st:
        x = st.pop()
        for y in subterms(x):
            if y in seen: continue
            seen.add(y); yield y
            if y.op in ('phi', 'mphi') and y in I.phi_in: st.extend(I.phi_in[y])
def slot_value(st, cont, it):
    """candidate terms for the element an iterator addresses"""
    out = [st.get(it), absint.mkld(it)]
    if it.op == 'idx' and it.a[0] is T('begin', cont): out += [st.get(T('elem', cont, it.a[1])), absint.mkld(T('elem', cont, it.a[1]))]
    return out
def exhausted(I, st, isc):
    """a fact on this path says that a search over the container ended without a hit"""
    for k, v in st.facts.items():
        if k.op == 'eq' and v:
            for e, o in (k.a, k.a[::-1]):
                if e.op == 'end' and isc(e.a[0]) and o.op in ('phi', 'mphi', 'xphi', 'begin'): return True
                if e.op == 'pure' and e.a[0] == 'vsize' and isc(e.a[1]): return True
                if k.a[1] is NULL and e.op == 'pure' and e.a[0] == 'vsize' and isc(e.a[1]): return True
        if k.op in ('ult', 'lt') and not v and k.a[1].op == 'pure' and k.a[1].a[0] == 'vsize' and isc(k.a[1].a[1]): return True
        if k.op == 'pure1' and k.a[0] == 'empty' and v and isc(k.a[1]): return True
    return False
def run(R):
    m = R.mod('api'); sl = slots(m); vmx = T('VMof', T('ENV', T('arg', 0))); G = fld(vmx, 'VM.globals'); arg = T('arg', 1)
    for s in ('NewGlobalRef', 'NewWeakGlobalRef', 'DeleteGlobalRef', 'DeleteWeakGlobalRef', 'DeleteLocalRef'): R.need(sl.get(s), 'slot %s missing' % s); R.fns.add(pretty(sl[s]))
    # member types: a Global owns, a Weak does not
    for cls, own in (('Global', True), ('Weak', False)):
        R.need('jnivm::' + cls in m.classes, 'class %s missing' % cls)
        mem = m.classes['jnivm::' + cls]['members']; w = [x for x in mem if 'shared_ptr' in x['ty'] or 'weak_ptr' in x['ty'] or x['ty'].endswith('*')]
        strong = [x for x in w if 'weak_ptr' not in x['ty']]
        R.check(bool(strong) == own and (not own or any('shared_ptr' in x['ty'] for x in strong)), 'wrapper-ownership', cls, 'members of %s: %s' % (cls, [(x['n'], x['ty']) for x in mem]), 'weak.h', '%s: %s' % (cls, [x['ty'] for x in w]))
    # creation
    for s, cls in (('NewGlobalRef', 'Global'), ('NewWeakGlobalRef', 'Weak')):
        x = T('unpack', 'Object', arg)
        def want(cl, st, ev, ph):
            op = cont_op(ev)
            if op and op[0] == 'ins' and ph == 'call': return ('ins', ev.args[0], st.get(ev.args[1]) if len(ev.args) > 1 else UNK)
            if ph == 'after' and ev.name.split('::')[-1] in ('ToJNIType', 'ToJNIReturnType'): return ('ins', T('lit', 'local frame'), ev.res)
        c = logfn(sl[s], want); R.need(c.rets, s)
        for st, v, i in c.rets:
            if st.nullness(x) == 'null' or st.nullness(arg) == 'null':
                R.check(v is NULL, 'null-gives-null', s, '%s of a null or dead reference returns %s' % (s, show(v)), m.loc(i), s); continue
            ins = [(e[1], e[2]) for e in st.cs if e[0] == 'ins']
            v2 = v
            holds = st.get(fld(v2, cls + '.wrapped')) if v2.op == 'new' else None
            good = x if cls == 'Global' else T('weakof', x)
            R.check(v2.op == 'new' and v2.a[0] == cls and holds is good, 'reference-holds-the-object', s, '%s returns %s holding %s instead of a new %s holding the given object' % (s, show(v2), holds and show(holds), cls), m.loc(i), '%s -> %s holding %s' % (s, show(v2), holds and show(holds)))
            hit = [1 for c_, val in ins if is_glob(c_) and val is v2]
            R.check(len(hit) == 1, 'reference-is-in-the-global-table', s, '%s does not record the new reference exactly once in the global table (%s)' % (s, [(show(a), show(b)) for a, b in ins]), m.loc(i), s)
            extra = [b for a, b in ins if not (is_glob(a) and b is v2)]
            if s == 'NewWeakGlobalRef': R.check(not any(y is x for b in extra for y in subterms(b)), 'weak-does-not-pin', s, 'a weak reference stores the object in %s' % [show(a) for a, b in ins], m.loc(i), s)
    # deletion
    for s, cls, local in (('DeleteGlobalRef', 'Global', 0), ('DeleteWeakGlobalRef', 'Weak', 0), ('DeleteLocalRef', 'Object', 1)):
        x = T('unpack', cls, arg)
        def want(cl, st, ev, ph):
            if ph != 'call': return None
            op = cont_op(ev); I = cl.interp
            a0 = ev.args[1] if ev.i.get('sret') and len(ev.args) > 1 else (ev.args[0] if ev.args else None)
            if op and op[0] == 'del' and a0 is not None:
                isC = frame_of(I, a0) if local else is_glob(a0)
                its = [a for a in ev.args[1:] if a is not a0]
                if not isC: return ('other', ev.name, a0)
                if op[1] == 'pop_back': return ('erase', False, T('lit', 'pop_back'))
                if op[1] != 'erase' or len(its) != 1: return ('erase', False, T('lit', op[1] if len(its) == 1 else 'range'))
                it = st.get(its[0]) if its[0].op == 'al' else its[0]
                return ('erase', any(st.truth(mkeq(z, x)) is True for z in slot_value(st, a0, it)), it)
        c = logfn(sl[s], want); R.need(c.rets, s)
        isc = (lambda t: t.op == 'fld' and t.a[1] == 'ENV.localframe') if local else is_glob
        hit = 0
        for st, v, i in c.rets:
            es = [e for e in st.cs if e[0] == 'erase']; oth = [e for e in st.cs if e[0] == 'other']
            R.check(not oth, 'delete-touches-only-its-table', s, '%s also removes entries from %s' % (s, oth and show(oth[0][2])), m.loc(i), s)
            if st.nullness(x) == 'null' or st.nullness(arg) == 'null':
                R.check(not es, 'delete-null-is-noop', s, '%s of null removes an entry' % s, m.loc(i), s); continue
            if es:
                hit += 1
                R.check(len(es) == 1 and not es[0][-1] and es[0][1], 'delete-removes-exactly-that-reference', s, '%s erases %s, which is not proven to be exactly one entry equal to the given reference resolved as %s' % (s, [show(e[2]) for e in es], cls), m.loc(i), '%s erases %s == %s' % (s, show(es[0][2]), show(x)))
            else:
                R.check(exhausted(c.interp, st, isc), 'delete-searches-the-whole-table', s, '%s returns without removing the reference although the search did not reach the end of the table' % s, m.loc(i), s)
        R.check(hit > 0, 'delete-removes-exactly-that-reference', s + ':never', '%s never removes an entry' % s, where(sl[s]), s)
    # nobody else removes global references
    allowed = {sl[s].name for s in ('DeleteGlobalRef', 'DeleteWeakGlobalRef')}
    for f in m.fns.values():
        if f.name in allowed or f.base.endswith('::~VM') or f.base.endswith('VM::VM'): continue
        if not any('globals' in (i.get('vf') or '') for _, i in f.instrs()): continue
        if m.only_from(f, allowed): continue      # helpers, inlined into the functions checked above
        R.fns.add(pretty(f)); hits = []
        class K(absint.Client):
            def call(self, st, ev):
                op = cont_op(ev)
                if op and op[0] == 'del' and any(is_glob(a) for a in ev.args): hits.append(ev.loc)
                if (ev.name.endswith('operator=') or ev.name == 'std::swap') and ev.args and is_glob(ev.args[0]): hits.append(ev.loc)
        absint.Interp(f, K()).run()
        R.check(not hits, 'nobody-else-removes-global-references', pretty(f).split('(')[0], '%s removes global references' % pretty(f), hits and hits[0], pretty(f))
    # weak wrappers resolve to null once the object is gone
    n = 0
    for f in m.by_base('UnpackJObject'):
        ty = absint.short(models.targ(f.dem, 'UnpackJObject'))
        if ty in ('Weak', 'Global'): continue
        n += 1; R.fns.add(pretty(f)); o = T('arg', 1) if f.nargs > 1 else T('arg', 0)
        rs = []
        class K(absint.Client):
            def ret(self, st, v, i): rs.append((st, st.get(T('arg', 0)), i))
            def call(self, st, ev):
                if ev.name in ('__cxa_throw', 'abort', 'std::terminate'): rs.append((st.copy(), T('thrown'), ev.i))
        absint.Interp(f, K()).run()
        seen = False
        for st, v, i in rs:
            for k, val in list(st.facts.items()):
                if k.op == 'eq' and k.a[1] is NULL and k.a[0].op == 'lock' and val and any(y.op == 'fld' and y.a[1] == 'Weak.wrapped' for y in subterms(k.a[0])):
                    seen = True
                    R.check(v is NULL or st.nullness(v) == 'null' or v.op == 'unpack' and v.a[1] is NULL, 'dead-weak-is-null', 'UnpackJObject', 'a dead weak reference resolves to %s' % show(v), m.loc(i), f.dem[:120])
            for y in subterms(v):
                if y.op == 'weakof' or (y.op == 'fld' and y.a[1] == 'Weak.wrapped'):
                    R.check(any(z.op == 'lock' for z in subterms(v)), 'weak-is-locked', 'UnpackJObject', 'the object behind a weak reference is used without locking it', m.loc(i))
        R.check(seen or any(y.op == 'lock' for st, v, i in rs for y in subterms(v)), 'dead-weak-is-null', 'UnpackJObject:nolock', 'weak references are not resolved by locking them', where(f), f.dem[:120])
    for r, k in (('reference-holds-the-object', 2), ('reference-is-in-the-global-table', 2), ('delete-removes-exactly-that-reference', 6), ('delete-searches-the-whole-table', 3), ('dead-weak-is-null', 10)): R.floor(r, k)
