"""C01 every table entry / convenience wrapper performs the operation of its name, with the caller's arguments in order, and returns its result."""
from .lib import *
from . import c19
EXPLAIN = ('Per-entry conformance over both function tables, the invoke interface and every inline wrapper of jni.h (emitted by a witness unit): each wrapper must call exactly the slot of its own name (variadic ones the V slot with their started list) once on every path, '
           'with its own parameters in order, and return the result; each Call*/Get*Field/Set*Field entry must dispatch only through the method-handle operation of its static/instance/non-virtual form with env, receiver and the entry\'s own argument block or value, and return that result or a default; '
           'same-typed entries are told apart by the state they touch; array entries by the element type they operate on; no two entries share a function unless listed.')
ASSUME = ['the C++ compiler enforces the parameter and return types of each slot', 'virtual order of MethodHandle is read from the type (MethodHandle vtable)']
TY = {'Object': '_jobject*', 'Boolean': 'unsigned char', 'Byte': 'signed char', 'Char': 'unsigned short', 'Short': 'short', 'Int': 'int', 'Long': 'long', 'Float': 'float', 'Double': 'double'}
CALL = re.compile(r'^Call(Static|Nonvirtual|)(Object|Boolean|Byte|Char|Short|Int|Long|Float|Double|Void)Method([AV]?)$')
FIELD = re.compile(r'^(Get|Set)(Static|)(Object|Boolean|Byte|Char|Short|Int|Long|Float|Double)Field$')
ARR = re.compile(r'^(?:(New)(\w+?)Array|(Get|Release)(\w+?)ArrayElements|(Get|Set)(\w+?)ArrayRegion)$')
ALIAS = [{'NewObject', 'CallStaticObjectMethod'}, {'NewObjectV', 'CallStaticObjectMethodV'}, {'NewObjectA', 'CallStaticObjectMethodA'},
         {'GetStringChars', 'GetStringCritical'}, {'ReleaseStringChars', 'ReleaseStringCritical'}, {'AttachCurrentThread', 'AttachCurrentThreadAsDaemon'}]
def mh_slots(m):
    """the method-handle type, from its vtable: operation -> virtual index, sub-object offset -> value type"""
    for n, g in m.globals.items():
        if not n.startswith('_ZTVN5jnivm4impl12MethodHandleI'): continue
        idx = {}; offs = {}
        for sub in g[1:]:
            fs = [m.dem.get(x[1], '') if x[0] == 'g' else '' for x in sub[3:]]
            for k, d in enumerate(fs):
                o = ir.parse_name(d)[0].split('::')[-1] if d else ''
                if idx.setdefault(o, k) != k: return None
            t = models.targ(fs[0], 'MethodHandleBase') if fs else '?'
            offs[0 if sub[1][0] == 'null' else -sub[1][2][1]] = t
        return idx, offs
    return None
def suboff(t):
    """offset of the addressed sub-object of a handle"""
    if t.op == 'sel': return suboff(t.a[2] if t.a[1] is NULL else t.a[1])
    return t.a[1] if t.op == 'off' else 0
def unw(v):
    while v is not None and (v.op in ('cast', 'bool') and v.a or v.op == 'b2i'): v = v.a[-1]
    return v
def default(v):
    v = unw(v)
    return v is None or v is NULL or v.op == 'undef' or (v.op == 'c' and v.a[0] == 0) or (v.op == 'site' and v.a[1] == 'defaultVal') or (v.op == 'f' and float(v.a[0]) == 0) or v.op == 'cst'
def handle(t): return any(x.op == 'fld' and x.a[1] in ('Method.nativehandle', 'Field.getnativehandle', 'Field.setnativehandle') for x in subterms(t))
def obj(t, k):
    """t denotes the object of parameter k (as handle or unpacked)"""
    a = T('arg', k); t = strip(t)
    return t is a or (t.op == 'unpack' and t.a[1] is a)

def wrappers(R, m):
    n = 0
    for f in sorted(m.fns.values(), key=lambda f: f.base):
        mt = re.match(r'^(_JNIEnv|_JavaVM)::(\w+)$', f.base)
        if not mt: continue
        n += 1; R.fns.add(pretty(f))
        kind = 'jni:' if mt.group(1) == '_JNIEnv' else 'jvm:'
        name = mt.group(2); var = f.va
        slot = kind + name + ('V' if var else '')
        cs = []
        class K(absint.Client):
            init_cs = ()
            def call(s, st, ev):
                if ev.name.startswith('llvm.va_start'): st.cs += (('va', ev.args[0]),)
                elif ev.name.startswith('llvm.va_end'): st.cs += (('end', ev.args[0]),)
                elif not ev.name.startswith('llvm.'): st.cs += (('c', ev.name, tuple(ev.args)),)
            def after(s, st, ev):
                if ev.name.startswith(('jni:', 'jvm:')): st.cs += (('r', st.env.get(ev.i['id']) if 't' in ev.i else None),)
            def ret(s, st, v, i): cs.append((st.cs, v, i))
        absint.Interp(f, K()).run()
        R.check(len(cs) > 0, 'wrapper-reaches-its-own-entry', f.base, '%s never returns' % f.base, where(f))
        for c, v, i in cs:
            calls = [x for x in c if x[0] == 'c']; why = None
            exp = [T('arg', k) for k in range(f.nargs)]
            if len(calls) != 1 or calls[0][1] != slot: why = 'calls %s instead of %s' % ([x[1] for x in calls], slot)
            else:
                a = calls[0][2]
                if var:
                    va = [x[1] for x in c if x[0] == 'va']
                    if len(va) != 1 or a[-1] is not va[0]: why = 'does not hand its own argument list on'
                    elif c.index(('va', va[0])) > c.index(calls[0]): why = 'starts its argument list after the call'
                    elif ('end', va[0]) in c and c.index(('end', va[0])) < c.index(calls[0]): why = 'ends its argument list before the call'
                    a = a[:-1]
                if not why and [unw(x) for x in a] != exp: why = 'passes (%s) instead of its own parameters in order' % ', '.join(map(show, a))
                if not why and v is not None:
                    r = [x[1] for x in c if x[0] == 'r']
                    if unw(v) is not unw(r[0]): why = 'returns %s instead of the result of %s' % (show(v), slot)
            R.check(not why, 'wrapper-reaches-its-own-entry', f.base, '%s %s' % (f.base, why), m.loc(i), f.base)
    R.need(n >= 200, 'only %d wrappers of jni.h found' % n)

def dispatch(R, m, rn, slot, f, op, recv, static, params, MH, alt, ty):
    """all method-handle operations of f are `op`, on its receiver and argument block; returns that result or a default
    params: ('a', k) argument array parameter / ('v', k) list parameter / ('...',) own list / ('null',) / ('val', k)"""
    tag = slot if rn else slot + '[lookup-only table]'
    R.fns.add(pretty(f)); n = [0]
    def bad(rule, msg, loc): R.bad(rule, slot, '%s %s' % (slot, msg), loc)
    class K(absint.Client):
        init_cs = (None, frozenset(), None)    # (result of the dispatch, vectors filled from the list, started list)
        def load(s, st, a, v, i):
            # va_arg: reads of the list control fields; the list being read is the base of the field
            if a.op == 'fld' and a.a[1].startswith('__va_list_tag.') and not a.a[1].endswith('reg_save_area'):
                st.cs = (st.cs[0], st.cs[1] | {a.a[0]}, st.cs[2])
        def call(s, st, ev):
            if ev.name.startswith('llvm.va_start'): st.cs = (st.cs[0], st.cs[1], ev.args[0]); return
            if ev.name.startswith('llvm.va_copy'): st.cs = (st.cs[0], st.cs[1] | {ev.args[1]}, st.cs[2]); return
            h = ev.name.startswith(('virt:', 'ind')) and ev.args and handle(ev.args[0])
            other = ev.name in alt
            if not h and not other:
                if ev.name.startswith('jni:') and re.match(r'jni:(Call|NewObject|Set|Get\w+Field$)', ev.name) and (CALL.match(ev.name[4:]) or FIELD.match(ev.name[4:]) or 'NewObject' in ev.name and 'Array' not in ev.name):
                    bad('entry-dispatches-its-own-operation', 'goes through %s' % ev.name, ev.loc)
                return
            n[0] += 1
            a = ev.args
            if h:
                vi, offs = MH
                if ev.name != 'virt:%d' % vi[op]:
                    k = next((o for o, x in vi.items() if ev.name == 'virt:%d' % x), ev.name)
                    return bad('entry-dispatches-its-own-operation', 'runs the %s operation of the id instead of %s' % (k, op), ev.loc)
                R.check(offs.get(suboff(a[0])) == ty, 'entry-dispatches-its-own-operation', slot, '%s runs the %s operation of the id instead of that of %s' % (slot, offs.get(suboff(a[0])), ty), ev.loc, tag)
                a = a[1:]
            e = a[0]
            R.check(e is T('ENV', T('arg', 0)) or (other and e is T('arg', 0)), 'arguments-are-forwarded', slot, '%s passes %s as environment' % (slot, show(e)), ev.loc)
            R.check(obj(a[1], recv), 'arguments-are-forwarded', slot, '%s runs the operation on %s instead of its own object or class' % (slot, show(a[1])), ev.loc)
            p = a[2] if h else a[-1]; why = None
            if params[0] == 'a':
                if unw(p) is not T('arg', params[1]): why = 'passes %s instead of its own argument array' % show(p)
            elif params[0] in ('v', '...'):
                if params[0] == 'v': want = {T('arg', params[1])}
                else: want = {st.cs[2]}
                if other: why = None if p in want else 'passes %s' % show(p)
                else:
                    rd = {x for x in st.cs[1]}
                    if p is NULL and any(v and x.op in ('pure1', 'eq') and any(y.op in ('pure1', 'pure') and y.a[0] in ('empty', 'vsize') for y in subterms(x)) for x, v in st.facts.items()): pass
                    elif p.op not in ('begin', 'elem', 'front', 'site'): why = 'passes %s, which is not filled from its own argument list' % show(p)
                    elif not rd <= want: why = 'reads its arguments from %s' % ', '.join(show(x) for x in rd - want)
                    elif params[0] == '...' and st.cs[2] is None: why = 'never starts its argument list'
            elif params[0] == 'null': pass
            elif params[0] == 'val':
                v = unw(st.get(p))
                if v is not T('arg', params[1]): why = 'hands %s to the setter instead of the value given' % show(v)
            R.check(not why, 'arguments-are-forwarded', slot, '%s %s' % (slot, why), ev.loc, tag)
        def after(s, st, ev):
            if (ev.name.startswith(('virt:', 'ind')) and ev.args and handle(ev.args[0])) or ev.name in alt:
                st.cs = (st.env.get(ev.i['id']) if 't' in ev.i else None,) + st.cs[1:]
        def ret(s, st, v, i):
            if v is None: return
            for s2, v2 in expand(st, v):
                r = unw(st.cs[0])
                ok = unw(v2) is r if r is not None else default(v2)
                R.check(ok, 'the-result-is-returned', slot, '%s returns %s instead of %s' % (slot, show(v2), 'the result of the operation' if r is not None else 'a default value'), m.loc(i), tag)
    absint.Interp(f, K()).run()
    R.check(n[0] > 0, 'entry-dispatches-its-own-operation', slot, '%s never runs the %s operation of an id' % (slot, op), where(f), tag)

def features(f, m):
    """state touched by f (frames, global table, pending exception, monitor, static flags)"""
    out = set()
    class K(absint.Client):
        def call(s, st, ev):
            c = cont_op(ev); a = ev.args
            if c and c[0] in ('ins', 'del') and a:
                t = a[0]
                fs = fields_of(t)
                if t.op == 'fld': out.add((c[0] if c[1] != 'splice_after' else 'splice-into', t.a[1]))
                elif any(x.op in ('front', 'phi', 'mphi', 'back') for x in subterms(t)): out.add((c[0], 'frame'))
                if c[1] == 'splice_after' and len(a) > 2 and a[2].op == 'fld': out.add(('splice-from', a[2].a[1]))
            e = c19.want(None, st, ev, 'call')
            if e: out.add({'acq': 'monitor-lock', 'rel': 'monitor-unlock'}.get(e[0], e[0]))
            if ev.name == 'jnivm::JNITypesObjectBase::ToJNIType': out.add('local-ref')
            if ev.name.startswith(('std::__shared_ptr::reset', 'std::shared_ptr::reset')) and a and a[0].op == 'fld': out.add(('store', a[0].a[1]))
            if ev.name in ('std::shared_ptr::operator=', 'std::__shared_ptr::operator=') and a and a[0].op == 'fld': out.add(('store', a[0].a[1]))
        def store(s, st, a, v, i):
            if a.op == 'fld': out.add(('store', a.a[1]))
            if a.op == 'fld' and a.a[1].endswith('._static'): out.add(('static', unw(v)))
        def ret(s, st, v, i):
            for s2, v2 in expand(st, v):
                if v2 is not None:
                    for x in subterms(v2):
                        if x.op == 'pure' and x.a[0] in ('size',): out.add('ret-bytes')
                        if x.op in ('phi', 'mphi', 'xphi'): out.add('ret-counted')
    absint.Interp(f, K()).run()
    return out
def frames(fs): return {k for k in fs if isinstance(k, tuple) and k[1] == 'ENV.localframe'}
FEAT = {
    'ExceptionClear': ([('store', 'ENV.current_exception')], []),
    'ExceptionDescribe': ([], [('store', 'ENV.current_exception')]),
    'NewGlobalRef': ([('ins', 'VM.globals')], []),
    'NewLocalRef': ([], [('ins', 'VM.globals')]),
    'PopLocalFrame': ([], [('ins', 'VM.globals')]),
    'DeleteGlobalRef': ([('del', 'VM.globals')], [('del', 'frame')]),
    'DeleteLocalRef': ([('del', 'frame')], [('del', 'VM.globals')]),
}
def elemtypes(f):
    """element types of the jnivm arrays a function creates or resolves its handle to"""
    out = set()
    class K(absint.Client):
        def tt(s, x):
            for y in subterms(x):
                n = y.a[0] if y.op == 'new' else y.a[0] if y.op == 'unpack' else None
                if isinstance(n, str) and n.startswith('Array<'): out.add(n[6:].split(',')[0].rstrip('>').strip())
        def call(s, st, ev):
            for a in ev.args: s.tt(a); s.tt(st.get(a))
        def load(s, st, a, v, i): s.tt(a)
        def store(s, st, a, v, i): s.tt(a)
        def ret(s, st, v, i):
            if v is not None: s.tt(v)
    absint.Interp(f, K()).run()
    return out
def run(R):
    m = R.mod('api', ('w_jni.cpp',))
    wrappers(R, m)
    MH = mh_slots(m)
    R.need(MH is not None, 'virtual table of MethodHandle not found')
    owners = {}
    for rn in (True, False):
        S = slots(m, rn)
        for slot, f in sorted(S.items()):
            if f is None: R.bad('every-entry-is-set', slot, 'table entry %s is not a function of the library' % slot); continue
            owners.setdefault((rn, f.name), set()).add(slot)
            mt = CALL.match(slot); nv = {'': 1, 'Static': 1, 'Nonvirtual': 2}
            if mt or slot in ('NewObject', 'NewObjectV', 'NewObjectA'):
                form, ty, av = mt.groups() if mt else ('Static', 'Object', slot[9:])
                op = {'': 'InstanceInvoke', 'Static': 'StaticInvoke', 'Nonvirtual': 'NonVirtualInstanceInvoke'}[form]
                k = 3 + (form == 'Nonvirtual')
                base = slot[:-1] if av else slot
                alt = {'jni:' + base + x for x in ('V', 'A') if x != av} if av != 'A' else set()
                dispatch(R, m, rn, slot, f, op, 1, form == 'Static', ('a', k) if av == 'A' else ('v', k) if av == 'V' else ('...',), MH, alt, 'void' if ty == 'Void' else TY[ty])
                continue
            mt = FIELD.match(slot)
            if mt:
                gs, st, ty = mt.groups()
                dispatch(R, m, rn, slot, f, ('Static' if st else 'Instance') + gs, 1, bool(st), ('null',) if gs == 'Get' else ('val', 3), MH, set(), TY[ty])
                continue
            mt = ARR.match(slot)
            if mt:
                g = [x for x in mt.groups() if x]; ty = g[1]
                if ty in TY and ty != 'Object':
                    et = elemtypes(f); R.fns.add(pretty(f))
                    R.check(et == {TY[ty]} or (g[0] == 'Release' and not et), 'array-entry-uses-its-element-type', slot, '%s operates on arrays of %s' % (slot, sorted(et)), where(f), slot)
            if slot in FEAT:
                fs = features(f, m); req, forb = FEAT[slot]; R.fns.add(pretty(f))
                for x in req: R.check(x in fs, 'entry-touches-the-state-of-its-operation', slot, '%s never does %s of %s' % (slot, *x), where(f), slot)
                for x in forb: R.check(x not in fs, 'entry-touches-the-state-of-its-operation', slot, '%s does %s of %s' % (slot, *x), where(f), slot)
            elif slot in ('PushLocalFrame', 'EnsureLocalCapacity'):
                fs = features(f, m); R.fns.add(pretty(f)); fr = frames(fs)
                if slot == 'PushLocalFrame': R.check(bool(fr), 'entry-touches-the-state-of-its-operation', slot, 'PushLocalFrame never adds a frame', where(f), slot)
                else: R.check(not fr and not [x for x in fs if isinstance(x, tuple) and x[0] in ('ins', 'del') and x[1] != 'ENV.freeframes'], 'entry-touches-the-state-of-its-operation', slot, 'EnsureLocalCapacity changes the frames: %s' % sorted(map(str, fs)), where(f), slot)
            elif slot in ('MonitorEnter', 'MonitorExit'):
                fs = features(f, m); w = slot == 'MonitorEnter'; R.fns.add(pretty(f))
                R.check(('monitor-lock' in fs) == w and ('monitor-unlock' in fs) == (not w), 'entry-touches-the-state-of-its-operation', slot, '%s does %s' % (slot, sorted(map(str, fs))), where(f), slot)
    for (rn, n), ss in owners.items():
        R.check(len(ss) == 1 or any(ss <= a for a in ALIAS), 'entries-have-functions-of-their-own', '/'.join(sorted(ss)), 'entries %s share one function' % ', '.join(sorted(ss)), where(m.fns[n]))
    A, B = slots(m, True), slots(m, False)
    R.check(set(A) == set(B), 'every-entry-is-set', 'tables', 'the two tables set different entries: %s' % (set(A) ^ set(B)))
    inv = invoke_slots(m); io = {}
    for s, f in inv.items():
        R.fns.add(pretty(f)); io.setdefault(f.name, set()).add(s)
    R.need(len(inv) == 5, 'invoke interface has %d entries' % len(inv))
    for ss in io.values(): R.check(len(ss) == 1 or any(ss <= a for a in ALIAS), 'entries-have-functions-of-their-own', '/'.join(sorted(ss)), 'entries %s share one function' % ', '.join(sorted(ss)))
    for r, k in (('wrapper-reaches-its-own-entry', 200), ('entry-dispatches-its-own-operation', 240), ('arguments-are-forwarded', 240), ('the-result-is-returned', 200), ('array-entry-uses-its-element-type', 60), ('entry-touches-the-state-of-its-operation', 20), ('entries-have-functions-of-their-own', 400)): R.floor(r, k)
