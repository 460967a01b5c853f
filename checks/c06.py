"""C06 local reference frames: net-effect (stack) analysis of every function touching the frame lists."""
from .lib import *
EXPLAIN = ('Every function of the library whose inlined body touches ENV::localframe/freeframes is interpreted abstractly on all paths; '
           'the sequence of list operations on each path is replayed on a symbolic frame stack. PushLocalFrame must net +1 empty newest frame, '
           'PopLocalFrame -1 newest frame (cleared, and a fresh frame when the list became empty), every other function net 0, '
           'references are only inserted into the newest frame, the popped result is strongly held before the frame is cleared and re-registered after.')
ASSUME = ['std::forward_list/std::vector behave as specified', 'freeframes holds only empty frames (established here as an invariant: frames are cleared before they are moved there)']
LF, FF = 'ENV.localframe', 'ENV.freeframes'

def lists_of(I, t, seen=None):
    """which frame lists a term is derived from"""
    out = set(); seen = seen if seen is not None else set(); st = [t]
    while st:
        x = st.pop()
        for y in subterms(x):
            if y in seen: continue
            seen.add(y)
            if y.op == 'fld' and y.a[1] in (LF, FF): out.add(y.a[1])
            if y.op in ('phi', 'mphi') and y in I.phi_in: st.extend(I.phi_in[y])
    return out
def frame_at(I, t):
    """('L',list) the list itself; ('F',list) its first frame; ('X',list) some other frame; None"""
    if t.op == 'fld' and t.a[1] in (LF, FF): return ('L', t.a[1])
    if t.op == 'front' and t.a[0].op == 'fld' and t.a[0].a[1] in (LF, FF): return ('F', t.a[0].a[1])
    if t.op == 'node' and t.a[0].op == 'begin' and t.a[0].a[0].op == 'fld' and t.a[0].a[0].a[1] in (LF, FF): return ('F', t.a[0].a[0].a[1])
    s = lists_of(I, t)
    if s: return ('X', sorted(s)[0])
    return None
CASTS = ('jnivm::JNITypesObjectBase::JNICast', 'UnpackJObject', 'std::enable_shared_from_this::shared_from_this')
TOJNI = ('jnivm::JNITypesObjectBase::ToJNIType', 'jnivm::JNITypesObjectBase::ToJNIReturnType')

def want(cl, st, ev, ph):
    I = cl.interp
    if ph == 'after':
        if ev.name in CASTS:
            v = st.get(ev.dst) if ev.dst is not None else ev.res
            return ('cast', v)
        if ev.name in TOJNI: return ('ref', ev.res if ev.res is not None else UNK)
        if ev.name in ('jni:NewLocalRef',): return ('ref', T('local', T('unpack', 'Object', ev.args[1])))
        if ev.name == 'std::forward_list::empty' and ev.args[0].op == 'fld' and ev.args[0].a[1] in (LF, FF):
            return ('empty', ev.args[0].a[1])
        return None
    if ev.name in ('jni:PushLocalFrame', 'jni:PopLocalFrame'): return None
    if ev.name == 'std::swap' or ev.name.endswith('::operator='):
        for a in ev.args[:1]:
            f = frame_at(I, a)
            if f: return ('other', f, ev.name)
    op = cont_op(ev)
    if not op or op[0] == 'read':
        return None
    f = frame_at(I, ev.args[0])
    if not f: return None
    if f[0] == 'L':
        if op[1] in ('emplace_front', 'push_front'):
            e = len(ev.args) == 1 or (st.get(ev.args[1]).op == 'emptyc')
            return ('push', f[1], e)
        if op[1] == 'pop_front': return ('pop', f[1])
        if op[1] == 'splice_after':
            g = None
            if len(ev.args) >= 4 and ev.args[2].op == 'fld' and ev.args[2].a[1] in (LF, FF):
                pos = deref(st, ev.args[1]); sp = deref(st, ev.args[3])
                if pos is T('before_begin', ev.args[0]) and sp is T('before_begin', ev.args[2]): g = ev.args[2].a[1]
            return ('move', g, f[1]) if g else ('other', f, op[1])
        if op[1] in ('resize', 'clear', 'assign', 'emplace_after', 'insert_after', 'erase_after', 'remove', 'remove_if', 'swap', 'splice_after'):
            return ('other', f, op[1])
        return ('other', f, op[1])
    if op[0] == 'ins': return ('refins', f, st.get(ev.args[1]) if len(ev.args) > 1 else UNK)
    if op[1] == 'clear': return ('clear', f)
    if op[1] in ('erase', 'pop_back'): return ('drop', f)
    return ('other', f, op[1])
def deref(st, a):
    return st.get(a) if a.op == 'al' else a

def replay(log):
    """returns (localframe stack, freeframes stack, problems, index of first destructive op, refs)"""
    L = ['top', 'rest']; F = ['free0', 'freerest']; clean = set(['free0']); prob = []; refs = []; firstdel = None; n = [0]
    def lst(x): return L if x == LF else F
    def pop(x):
        l = lst(x)
        if not l or l[0] in ('rest', 'freerest'): 
            n[0] += 1; return '%s-deep%d' % ('L' if x == LF else 'F', n[0])
        return l.pop(0)
    for k, e in enumerate(log):
        kind, rep = e[0], e[-1]
        if rep and kind in ('push', 'pop', 'move', 'other'): prob.append('%s repeated in a loop' % kind)
        if kind == 'push':
            n[0] += 1; fr = 'new%d' % n[0]
            lst(e[1]).insert(0, fr)
            if e[2]: clean.add(fr)
        elif kind == 'pop':
            fr = pop(e[1])
            if firstdel is None: firstdel = k
            clean.add(fr)
        elif kind == 'move':
            fr = pop(e[1])
            if e[2] == FF and fr not in clean: prob.append('a frame with references is put on the list of empty spare frames')
            lst(e[2]).insert(0, fr)
        elif kind == 'clear':
            if e[1][0] == 'F':
                l = lst(e[1][1]); clean.add(l[0])
                if firstdel is None: firstdel = k
            else: prob.append('clears a frame that is not the newest one')
        elif kind == 'refins':
            if e[1] != ('F', LF): prob.append('inserts a reference into a frame other than the newest one')
            else:
                refs.append((k, L[0] if L else '?', e[2])); clean.discard(L[0] if L else '?')
        elif kind == 'ref':
            v = e[1]
            refs.append((k, L[0] if L else '?', v.a[0] if v.op == 'local' else v))
        elif kind == 'other':
            prob.append('unsupported change of the frame list: %s' % e[2])
    return L, F, clean, prob, firstdel, refs

def run(R):
    m = R.mod('api')
    sl = slots(m)
    R.need(sl.get('PushLocalFrame') and sl.get('PopLocalFrame') and sl.get('NewLocalRef'), 'frame slots missing')
    push, pop = sl['PushLocalFrame'], sl['PopLocalFrame']
    R.need('localframe' in [x['n'] for x in m.classes['jnivm::ENV']['members']] and 'freeframes' in [x['n'] for x in m.classes['jnivm::ENV']['members']], 'ENV::localframe/freeframes not found')
    touched = [f for f in m.fns.values() if any(('localframe' in (i.get('vf') or '') or 'freeframes' in (i.get('vf') or '') or i['op'] in ('load', 'store') and 'localframe' in str(i.get('tb'))) for _, i in f.instrs())]
    for f in {x.name: x for x in touched + [push, pop]}.values():
        if f not in (push, pop) and m.only_from(f, {push.name, pop.name}): continue
        R.fns.add(pretty(f))
        c = logfn(f, want)
        key = pretty(f).split('(')[0]
        if f.base.endswith('ENV::ENV'):
            continue
        if f.base.endswith('::~ENV'): continue
        for st, v, i in c.rets:
            L, F, clean, prob, fd, refs = replay(st.cs)
            loc = m.loc(i)
            if f is push:
                R.check(not prob and L[1:] == ['top', 'rest'] and len(L) == 3 and L[0] in clean, 'push-adds-one-empty-frame', 'PushLocalFrame',
                        'PushLocalFrame must add exactly one empty frame on top of the existing ones; a path leaves frames %s %s' % (L, prob), loc, 'PushLocalFrame path %s' % (brief(st.cs),))
                if any(e[0] == 'move' and e[1] == FF for e in st.cs):
                    g = any((k.op == 'pure1' and k.a[0] == 'empty' and is_field(k.a[1], FF) and val is False) or
                            (k.op == 'eq' and val is False and {x.op for x in k.a} == {'begin', 'end'} and is_field(k.a[0].a[0], FF)) for k, val in st.facts.items())
                    R.check(g, 'push-reuses-only-existing-frames', 'PushLocalFrame', 'a spare frame is taken although there may be none', loc)
                R.check(v is C(0), 'push-reports-success', 'PushLocalFrame', 'PushLocalFrame returns %s' % show(v) if v else 'nothing', loc)
                R.check(not refs, 'push-adds-no-reference', 'PushLocalFrame', 'PushLocalFrame inserts a reference', loc)
            elif f is pop:
                checkpop(R, f, c, st, v, L, F, clean, prob, fd, refs, loc)
            else:
                R.check(not prob and L == ['top', 'rest'] and F == ['free0', 'freerest'], 'others-keep-the-stack', key,
                        '%s changes the frame stack: frames %s spare %s %s' % (key, L, F, prob), loc, '%s: %s' % (key, brief(st.cs)))
                for k, fr, val in refs:
                    R.check(fr == 'top', 'references-go-to-the-newest-frame', key, '%s registers a reference outside the newest frame' % key, loc, key)
    # the constructor leaves one frame
    ct = [f for f in m.fns.values() if f.base == 'jnivm::ENV::ENV']
    R.need(ct, 'ENV constructor not found')
    for f in ct:
        R.fns.add(pretty(f))
        c = logfn(f, lambda cl, st, ev, ph: ('mk', ev) if ph == 'after' and ev.args and is_field(ev.args[0], LF) and (ev.name == 'std::forward_list::forward_list' or ev.name.endswith('_front')) else None)
        for st, v, i in c.rets:
            ne = any(e[1].name.endswith('_front') or nonempty_ctor(e[1]) for e in st.cs)
            R.check(ne, 'environment-starts-with-a-frame', 'ENV::ENV', 'a new environment has no local frame', m.loc(i), 'ENV::ENV')
    # NewLocalRef itself
    nl = sl['NewLocalRef']; c = logfn(nl, want)
    for st, v, i in c.rets:
        o = T('unpack', 'Object', T('arg', 1))
        n = st.nullness(o)
        refs = replay(st.cs)[5]
        if n == 'null' or (v is NULL): 
            R.check(v is NULL or v is T('arg', 1) and n == 'null', 'new-local-reference', 'NewLocalRef', 'NewLocalRef of null must return null', m.loc(i)); continue
        R.check(len(refs) == 1 and strip(refs[0][2]) is o, 'new-local-reference', 'NewLocalRef', 'NewLocalRef must register exactly the given object in the newest frame', m.loc(i), 'NewLocalRef path')
    for r, n in (('push-adds-one-empty-frame', 2), ('pop-removes-newest', 2), ('others-keep-the-stack', 10), ('references-go-to-the-newest-frame', 8), ('new-local-reference', 2)): R.floor(r, n)

def nonempty_ctor(ev):
    # initializer list with n>0 elements, or a count
    for a in ev.args[1:3]:
        if a.op == 'c' and a.a[0] > 0: return True
    return False
def brief(cs): return [(' '.join(str(show(x) if isinstance(x, Term) else x) for x in e[:-2])) for e in cs]

def checkpop(R, f, c, st, v, L, F, clean, prob, fd, refs, loc):
    key = 'PopLocalFrame'
    arg = T('arg', 1); o = T('unpack', 'Object', arg)
    names = [e[0] for e in st.cs]
    lf = [x for x in subterms_all(st) if x.op == 'fld' and x.a[1] == LF]
    emptyfact = None
    for k, val in st.facts.items():
        if k.op == 'pure1' and k.a[0] == 'empty' and is_field(k.a[1], LF): emptyfact = val
        if k.op == 'eq' and {x.op for x in k.a} == {'begin', 'end'} and is_field(k.a[0].a[0], LF): emptyfact = val
    onlyone = any(k.op == 'eq' and val and any(x.op == 'end' and is_field(x.a[0], LF) for x in k.a) and any(x.op == 'idx' for x in k.a) for k, val in st.facts.items())
    ok = False
    if L == ['rest']: ok = emptyfact is False; why = 'the newest frame is removed without checking that a frame remains'
    elif len(L) == 2 and L[1] == 'rest' and L[0] not in ('top',):
        # a fresh (or recycled, cleared) frame was put back: only right when the list became empty
        ok = (emptyfact is True) and (L[0] in clean or any(r[1] == L[0] for r in refs)); why = 'a new frame is pushed although frames remain, or it is not empty'
    elif L == ['top', 'rest']: ok = onlyone and 'top' in clean; why = 'the newest frame is not removed'
    else: why = 'frames are %s' % L
    if L == ['rest'] and emptyfact is True: why = 'no frame is left after the last one was popped'
    R.check(ok and not prob, 'pop-removes-newest', key, 'PopLocalFrame: %s %s' % (why, '; '.join(prob)), loc, 'PopLocalFrame path %s' % brief(st.cs))
    R.check('top' in clean or 'top' not in L and 'top' not in F, 'pop-drops-references', key, 'references of the popped frame are not dropped', loc)
    n = st.nullness(o)
    if st.nullness(arg) == 'null': n = 'null'
    cast = [k for k, e in enumerate(st.cs) if e[0] == 'cast' and e[1] is o]
    if n == 'null':
        R.check(v is NULL or v is arg, 'pop-result', key, 'a null result must be handed back as null', loc)
        return
    R.check(v is T('local', o) or v is o or v is arg, 'pop-result', key, 'PopLocalFrame hands back %s instead of the given object' % show(v), loc)
    R.check(bool(cast) and (fd is None or cast[0] < fd), 'pop-result-survives', key, 'the result is not strongly held before the references of the frame are dropped', loc, 'cast before clear')
    good = [r for r in refs if strip(r[2]) is o and r[1] in L[:1]]
    R.check(bool(good) and len(refs) == 1, 'pop-result-owned-by-previous-frame', key, 'the result is not registered (once) in the frame that is newest after the pop', loc, 'reference registered in %s' % (refs and refs[0][1]))
def subterms_all(st):
    for k in st.facts:
        yield from subterms(k)
