"""C18 deny filters: nothing denied is fabricated; filter predicate; registration."""
from .lib import *
EXPLAIN = ('All paths of the table functions a filtering VM installs (and of its host class lookup): an operation that may create a class, method or field is only reached after the lookup-only operation with the same '
           'arguments returned null and the deny query for exactly those arguments answered false; otherwise the result is the lookup result or null. The deny queries are analysed per examined filter: acceptance and rejection '
           'must each follow from the branch facts on name, signature and class part. Registration stores each given part in its own place. Everywhere else, classes named by caller data are only created through the function table.')
ASSUME = ['std::unordered_multimap::equal_range yields exactly the filters of that key', 'the function table of an environment is the one CreateEnv built (C16)']
QUERY = {'FindClass': 'isClassDenied', 'GetMethodID': 'isMethodDenied', 'GetStaticMethodID': 'isMethodDenied', 'GetFieldID': 'isFieldDenied', 'GetStaticFieldID': 'isFieldDenied'}
CONTS = {'isClassDenied': 'denyClasses', 'isMethodDenied': 'denyMethods', 'isFieldDenied': 'denyFields'}
def sym(ev): c = ev.i.get('callee'); return c[1] if c and c[0] == 'g' else None
def empty_fact(st, a):
    """True/False/None: C string argument a is known to be null or empty"""
    if a is NULL or a is T('lit', ''): return True
    res = None
    for k, v in st.facts.items():
        if k.op != 'eq': continue
        x, y = k.a
        e = None
        if y is NULL:
            z = x
            while z.op == 'cast': z = z.a[-1]
            if x is a or z is T('ld', a) or z is absint.mkld(a) or x is T('pure', 'size', T('str', a)): e = v
        if T('str', a) in (x, y) and T('lit', '') in (x, y): e = v
        if e is True: return True
    return res
def facts_on(st, part):
    """[(other, truth)] of equalities involving a term for which part() holds; emptiness as other=lit('')"""
    out = []
    for k, v in st.facts.items():
        if k.op != 'eq': continue
        for x, y in (k.a, k.a[::-1]):
            if part(x): out.append((y, v))
            elif x.op == 'pure' and x.a[0] == 'size' and part(x.a[1]) and y is NULL: out.append((T('lit', ''), v))
    return out
def creates(m, slotsF, slot):
    def f(ev):
        if ev.name == 'jnivm::InternalFindClass': 
            rz = ev.args[-2]; return None if slot != 'FindClass' else (rz.op != 'c' or rz.a[0] == 0, ev.args[-3])
        return None
    return f
def wrapper(R, m, f, slot, name, args, env, creating, lookup, strict=True):
    """f: overriding function; creating/lookup: predicates on events"""
    R.fns.add(pretty(f)); q = QUERY[slot]; cont = CONTS[q]
    def want(cl, st, ev, ph):
        if ph != 'after': return None
        r = lookup(st, ev)
        if r is not None: return ('look', r, ev.res if ev.res is not None else UNK)
        if ev.name.split('::')[-1] in (q, q.replace('Denied', 'Blacklisted')): return ('query', tuple(ev.args[1:]), T('site', ev.i['id'], short(ev.name), *ev.args))
        if creating(st, ev) is not None:
            g = []
            for e in st.cs:
                if e[0] == 'look' and st.truth(mkeq(e[2], NULL)) is True: g.append(('look', e[1]))
                if e[0] == 'query' and any(st.truth(t) is False for t in (e[2], mkeq(e[2], C(1)))): g.append(('deny', e[1]))
            if any(k.op == 'eq' and any(x.op == 'find' and is_field_of(x.a[0], cont) and y.op == 'end' and v and x.a[1] is T('str', args[0]) for x, y in (k.a, k.a[::-1])) for k, v in st.facts.items()): g.append(('deny', tuple(args[:1])))
            return ('create', creating(st, ev), tuple(g), ev.res if ev.res is not None else UNK)
        return None
    def after_name(st, ev): pass
    c = logfn(f, want); R.need(c.rets, name)
    nc = 0
    for st, v, i in c.rets:
        for e in st.cs:
            if e[0] != 'create': continue
            nc += 1
            g = e[2]
            R.check(any(k == 'look' and same(a, args) for k, a in g), 'create-only-unknown', name, '%s may create although the symbol was not looked up first (or was found)' % name, m.loc(i), name)
            R.check(e[1] is True or same(e[1], args), 'create-requested', name, '%s creates with other arguments: %s' % (name, [show(x) for x in e[1]] if e[1] is not True else ''), m.loc(i), name)
            def okq(a):
                if not same(a[:len(args)], args): return False
                if len(a) <= len(args): return slot == 'FindClass'
                k = a[len(args)]           # class part
                cls = T('unpack', 'Class', T('arg', 1))
                if st.nullness(cls) == 'null' or st.nullness(T('arg', 1)) == 'null': return True
                return any(x.op == 'fld' and x.a[1] == 'Class.nativeprefix' and x.a[0] is cls for x in subterms(k))
            R.check(any(k == 'deny' and okq(a) for k, a in g), 'create-only-undenied', name, '%s may create although no negative deny query for exactly these arguments was made on the path (made: %s)' % (name, [[show(x) for x in a] for k, a in g if k == 'deny']), m.loc(i), name)
        # result
        if v is None: v = st.get(T('arg', 0))
        if v is NULL or st.nullness(v) == 'null':
            R.check(not any(e[0] == 'create' and st.nullness(e[3]) != 'null' for e in st.cs) and any(e[0] == 'look' for e in st.cs), 'result', name, '%s returns null although a result was available' % name, m.loc(i)); continue
        if strict:
            R.check(any(e[0] in ('look', 'create') and origin(v, e[-3]) for e in st.cs), 'result', name, '%s returns %s, which is neither the found nor the created symbol' % (name, show(v)), m.loc(i), name)
    R.check(nc > 0, 'create-only-undenied', name + ':never', '%s never creates an unknown symbol that is not denied' % name, where(f), name)
def origin(v, r): return v is r or any(x is r for x in subterms(v))
def same(a, b): return len(a) >= len(b) and all(x is y for x, y in zip(a, b))
def is_field_of(t, name): return t.op == 'fld' and t.a[1].split('.')[-1] == name
def short(n): return absint.short(n)
def run(R):
    m = R.mod('deny'); S0, S1 = slots(m, False), slots(m, True)
    # the filtering VM: classes with the deny containers
    cls = [k for k, v in m.classes.items() if any(x['n'] == 'denyClasses' for x in v['members'])]
    R.need(len(cls) == 1, 'class with deny filters not found'); B = cls[0]
    # ---- overrides installed by its CreateEnv
    over = {}
    class S(absint.Client):
        def store(self, st, a, v, i):
            if a.op == 'fld' and 'JNINativeInterface.' in a.a[1] and v.op == 'fn': over[a.a[1].split('.')[-1]] = v.a[0]
    ce = m.by_base(B + '::CreateEnv'); R.need(ce, 'CreateEnv of the filtering VM not found')
    class S2(S):
        pass
    final = {}
    class S3(absint.Client):
        def store(self, st, a, v, i):
            if a.op == 'fld' and 'JNINativeInterface.' in a.a[1] and v.op == 'fn': final.setdefault(a.a[1].split('.')[-1], set()).add(v.a[0])
        def ret(self, st, v, i): pass
    absint.Interp(ce[0], S3()).run()
    inst = {}
    def wenv(cl, st, ev, ph):
        if ph == 'call' and 'Env' in ev.dem.split('(')[0]:
            for a in ev.args:
                mem = {k.a[1].split('.')[-1]: v for k, v in st.mem.items() if k.op == 'fld' and k.a[0] is a and 'JNINativeInterface.' in k.a[1] and v.op == 'fn'}
                if a.op == 'al' and (mem or any(k is a and v.op == 'site' and 'GetNativeInterfaceTemplate' in str(v.a[1]) for k, v in st.mem.items())):
                    for slot in QUERY: inst.setdefault(slot, []).append((mem.get(slot), ev.loc))
        return None
    logfn(ce[0], wenv, limit=300)
    R.need(inst, 'construction of the environment of a filtering VM')
    for slot in QUERY:
        R.check(all(v is not None and final.get(slot) == {v.a[0]} for v, _ in inst.get(slot, [(None, 0)])), 'filter-installed', slot + ':always', 'the environment of a filtering VM is built on a path where %s is not its own function' % slot, inst[slot][0][1], '%s installed on every path' % slot)
        fs = final.get(slot, set())
        if not R.check(len(fs) == 1 and not fs & {S0[slot].name, S1[slot].name}, 'filter-installed', slot, 'the environment of a filtering VM does not install its own %s' % slot, where(ce[0]), slot): continue
        f = m.fns[fs.pop()]
        n0, n1 = S0[slot].name, S1[slot].name
        if slot == 'FindClass':
            args = (T('arg', 1),)
            def fc(st, ev, want_zero):
                if sym(ev) in (n0, n1):
                    return (ev.args[1],) if (sym(ev) == n0) == want_zero else None
                if ev.name != 'jnivm::InternalFindClass': return None
                z = ev.args[-2]; zero = z.op == 'c' and z.a[0] == 0
                look = z.op == 'c' and z.a[0] != 0
                if want_zero: return None if look else (ev.args[-3],)
                return (ev.args[-3],) if look else None
            creating = lambda st, ev: fc(st, ev, True); lookup = lambda st, ev: fc(st, ev, False)
            # result of InternalFindClass is the class term
            wrapper(R, m, f, slot, slot, args, None, creating, lookup)
        else:
            args = (T('arg', 2), T('arg', 3)); full = (T('arg', 0), T('arg', 1)) + args
            def mk(n):
                return lambda st, ev: (tuple(ev.args[2:4]) if sym(ev) == n and same(ev.args[:2], full[:2]) else None)
            wrapper(R, m, f, slot, slot, args, None, mk(n0), mk(n1))
            # the unfiltered operations of other kinds are never used
            others = {S0[s].name for s in QUERY if s != slot and S0[s].name != n0}
            bad = [i for _, i in f.calls() if i['callee'][0] == 'g' and i['callee'][1] in others]
            R.check(not bad, 'own-kind', slot, '%s creates through the operation of another kind' % slot, bad and m.loc(bad[0]), slot)
    # ---- host lookup
    hf = m.by_base(B + '::findClass'); R.need(hf, 'host class lookup of the filtering VM not found')
    args = (T('arg', 2),)
    def fc2(st, ev, zero):
        if ev.name != 'jnivm::InternalFindClass': return None
        z = ev.args[-2]; look = z.op == 'c' and z.a[0] != 0
        return (ev.args[-3],) if look != zero else None
    wrapper(R, m, hf[0], 'FindClass', 'findClass', args, None, lambda st, ev: fc2(st, ev, True), lambda st, ev: fc2(st, ev, False), strict=False)
    # ---- registration: which argument is stored where
    partmap = {}
    for reg, cont in (('denyClass', 'denyClasses'), ('denyMethod', 'denyMethods'), ('denyField', 'denyFields')):
        fs = m.by_base(B + '::' + reg); R.need(fs, reg); f = fs[0]; R.fns.add(pretty(f))
        def want(cl, st, ev, ph):
            if ph != 'call': return None
            op = cont_op(ev)
            if op and op[0] in ('ins', 'del'): return (op[0], ev.args[0], tuple(ev.args[1:]), tuple((k, v) for k, v in st.mem.items()))
            if ev.name in ('std::pair::pair',): return ('pair', ev.args[0], tuple(ev.args[1:]), tuple((k, v) for k, v in st.mem.items()))
        c = logfn(f, want)
        for st, v, i in c.rets:
            ins = [e for e in st.cs if e[0] in ('ins', 'del')]; prs = [e for e in st.cs if e[0] == 'pair']
            good = len(ins) == 1 and ins[0][0] == 'ins' and is_field_of(ins[0][1], cont) and ins[0][1].a[0] is T('arg', 0)
            R.check(good, 'filter-recorded', reg, '%s does not record exactly one filter in %s' % (reg, cont), m.loc(i), reg)
            if not good: continue
            mem = dict(ins[0][3])
            def strs(pref, mm): return {('' if k is pref else k.a[1].split('.')[-1]): x for k, x in mm.items() if (k is pref or (k.op == 'fld' and k.a[0] is pref)) and x.op in ('str', 'lit')}
            if reg == 'denyClass':
                vals = [mem.get(a) for a in ins[0][2]]
                R.check(any(x is T('str', T('arg', 1)) for x in vals) or T('arg', 1) in ins[0][2], 'filter-parts', reg, 'denyClass records %s' % [x and show(x) for x in vals], m.loc(i), reg); continue
            parts = {}
            src = prs[0] if prs else None
            if src:
                mm = dict(src[3]); key = mm.get(src[2][0]) if src[2] else None
                rest = strs(src[2][1], mm) if len(src[2]) > 1 else {}
                parts = {'name': key, **{k: x for k, x in rest.items()}}
            else:
                a = ins[0][2]
                nm0 = mem.get(a[0]) or a[0]
                parts = {'name': T('str', nm0) if nm0.op == 'arg' else nm0, **(strs(a[1], mem) if len(a) > 1 else {})}
            vs = {k: (x.a[0].a[0] if x is not None and x.op == 'str' and x.a[0].op == 'arg' else None) for k, x in parts.items()}
            R.check(vs.get('name') == 1 and sorted(x for k, x in vs.items() if k != 'name' and x is not None) == [2, 3], 'filter-parts', reg, '%s stores the parts %s' % (reg, {k: x and show(x) for k, x in parts.items()}), m.loc(i), '%s: %s' % (reg, {k: x and show(x) for k, x in parts.items()}))
            pm = {k: x for k, x in vs.items() if k != 'name'}
            partmap['is' + reg[4:] + 'Denied'] = pm
    if set(partmap.get('isMethodDenied', {})) != set(partmap.get('isFieldDenied', {})): pass
    # ---- the queries
    fs = m.by_base(B + '::isClassDenied'); R.need(fs, 'isClassDenied'); f = fs[0]; R.fns.add(pretty(f)); c = logfn(f, lambda *a: None)
    for st, v, i in c.rets:
        want = [neg(mkeq(T('find', k, T('str', T('arg', 1))), T('end', k))) for k in {x for x in subterms(v) if is_field_of(x, 'denyClasses')}] if isinstance(v, Term) else []
        okv = any(v is w or (v.op in ('cast', 'b2i') and w in v.a) for w in want)
        if v.op == 'c':
            r = [x for k, x in st.facts.items() if k.op == 'eq' and any(y.op == 'find' and is_field_of(y.a[0], 'denyClasses') and y.a[1] is T('str', T('arg', 1)) and z.op == 'end' for y, z in (k.a, k.a[::-1]))]
            okv = bool(r) and r[0] == (v.a[0] == 0)
        if v.op == 'pure1' or (v.op == 'find'): okv = is_field_of(v.a[0], 'denyClasses')
        if v.op in ('not',) and v.a[0].op == 'eq' and v.a[0].a[1] is NULL: okv = any(x.op == 'find' and is_field_of(x.a[0], 'denyClasses') and x.a[1] is T('str', T('arg', 1)) for x in subterms(v))
        R.check(okv, 'query-predicate', 'isClassDenied', 'isClassDenied returns %s' % show(v), m.loc(i), 'isClassDenied = %s' % show(v))
    for q in ('isMethodDenied', 'isFieldDenied'):
        fs = m.by_base(B + '::' + q); R.need(fs, q); f = fs[0]; R.fns.add(pretty(f)); cont = CONTS[q]; pm = partmap.get(q, {})
        first = None
        for k, v in m.classes.items():
            if k.startswith(B + '::') and {x['n'] for x in v['members']} >= {k2 for k2 in pm if k2}: first = v['members'][0]['n']
        members = {k or first: a for k, a in pm.items()}
        def part(arg):
            def p(x):
                if x.op == 'ld': x = x.a[0]
                names = []; y = x
                while y.op == 'fld': names.append(y.a[1].split('.')[-1]); y = y.a[0]
                if y.op not in ('node',) and not any(z.op in ('node', 'phi', 'mphi', 'copyof') for z in subterms(y)): return False
                if not (y.op == 'node' or 'second' in names or 'first' in names): return False
                if arg == 1: return 'second' not in names
                nm = names[0] if names else None
                if nm == 'second': nm = first
                return members.get(nm) == arg and 'second' in names
            return p
        ranges = set(); iters = []
        class K(absint.Client):
            def edge(self, st, b, s, c, val, i):
                # leaving a loop over filters for another reason than its end
                if any(b in lp and s not in lp and any(j['op'] in ('call', 'invoke') and j['callee'][0] == 'g' and m.dem.get(j['callee'][1], '').find('_Node_') >= 0 and 'operator++' in m.dem[j['callee'][1]] for x in lp for j in f.blocks[x]) for lp in f.loops.values()):
                    z = c.a[0] if c.op == 'not' else c
                    atend = z.op == 'c' or (z.op == 'eq' and not any(x is NULL or x.op in ('str', 'lit', 'c') for x in z.a) and not any(x.op == 'node' for x in subterms(z)))
                    if not atend and not st.cs: st.cs = (('early', m.loc(i)),)
            def call(self, st, ev):
                if ev.name.endswith('multimap::equal_range'):
                    R.check(is_field_of(ev.args[-2], cont), 'query-container', q, '%s consults %s' % (q, show(ev.args[-2])), ev.loc, q); ranges.add(st.get(ev.args[-1]))
                elif ev.name.endswith('operator++') and 'Node' in ev.name: iters.append(('next', st.copy(), ev.loc))
            def ret(self, st, v, i):
                R.check(not (st.cs and v.op == 'c' and not v.a[0]), 'query-exhaustive', q, '%s stops looking through the filters before all of them were examined' % q, st.cs and st.cs[0][1], '%s answers no only after every filter of both names' % q)
                iters.append((('hit' if v.op == 'c' and v.a[0] else 'end' if v.op == 'c' else 'other'), st, m.loc(i)))
        I = absint.Interp(f, K(), limit=400, splitsel=True); I.run()
        R.check(ranges == {T('lit', ''), T('str', T('arg', 1))}, 'query-names', q, '%s consults the filters named %s' % (q, [show(x) for x in ranges]), where(f), '%s: filters named "" and the requested name' % q)
        def verdict(st, arg):
            fs_ = facts_on(st, part(arg)); s = T('str', T('arg', arg))
            if any((y is s or y is T('lit', '')) and t for y, t in fs_): return True
            if arg != 1 and empty_fact(st, T('arg', arg)): return True
            if any(y is s and not t for y, t in fs_) and any(y is T('lit', '') and not t for y, t in fs_): return False
            return None
        for kind, st, loc in iters:
            R.check(kind != 'other', 'query-predicate', q + ':value', '%s returns a computed value' % q, loc)
            if kind == 'hit':
                for arg, nm in ((2, 'signature'), (3, 'class')):
                    R.check(verdict(st, arg) is True, 'query-predicate', '%s:deny:%s' % (q, nm), '%s denies although the %s part of the filter is not shown empty or equal' % (q, nm), loc, '%s denies: %s part matches' % (q, nm))
            if kind == 'next':
                R.check(any(verdict(st, a) is False for a in (1, 2, 3)), 'query-predicate', q + ':reject', '%s passes over a filter although none of its parts is shown to differ' % q, loc, '%s rejects: some part differs' % q)
        R.check(any(k == 'hit' for k, _, _ in iters) and any(k == 'next' for k, _, _ in iters), 'query-predicate', q + ':both', '%s never denies / never passes over a filter' % q, where(f))
    # ---- classes named by caller data are created only through the function table
    ifc = [f for f in m.fns.values() if f.base == 'jnivm::InternalFindClass']; allowed = {f.name for f in ifc} | {S0['FindClass'].name, S1['FindClass'].name, hf[0].name} | {x for s in final.values() for x in s}
    names_in = {f.name for f in ifc}
    n = 0
    for f in m.fns.values():
        if f.name in allowed or m.only_from(f, allowed): continue
        if not any(i['callee'][0] == 'g' and i['callee'][1] in names_in for _, i in f.calls()): continue
        n += 1; R.fns.add(pretty(f)); hits = []
        class K(absint.Client):
            def call(self, st, ev):
                if ev.name != 'jnivm::InternalFindClass': return
                z = ev.args[-2]
                if z.op == 'c' and z.a[0] != 0: return
                nm = ev.args[-3]
                leaves = [x for x in subterms(nm) if x.op in ('arg', 'ld', 'site', 'phi', 'xphi', 'mphi', 'unk', 'substr', 'strrange')]
                if f.base.startswith('jnivm::ENV::GetClass'): return          # host API: the host names the class
                hits.append((ev.loc, nm, leaves))
        absint.Interp(f, K()).run()
        for loc, nm, leaves in hits:
            arr = any(x.op == 'lit' and str(x.a[0]).startswith('[') for x in subterms(nm))
            R.check(arr or not leaves or all(sig(x) for x in leaves), 'caller-named-classes-go-through-the-table', pretty(f).split('(')[0], '%s creates a class named by %s without asking the function table' % (pretty(f), show(nm)), loc, '%s: %s' % (pretty(f), show(nm)[:80]))
    for f in m.fns.values():
        if f.name in allowed or f.base.startswith('jnivm::ENV::GetClass') or m.only_from(f, allowed): continue
        if f.file and '/fake-jni/' in f.file or f.file and f.file.startswith('include'): continue
        gs = [(b, i) for b, i in f.calls() if i['callee'][0] == 'g' and ir.parse_name(m.dem.get(i['callee'][1], ''))[0] == 'jnivm::ENV::GetClass']
        if not gs: continue
        R.fns.add(pretty(f)); hits = []
        class K2(absint.Client):
            def call(self, st, ev):
                if ev.name == 'jnivm::ENV::GetClass':
                    nm = ev.args[-1]
                    if any(x.op in ('arg', 'ld', 'site', 'phi', 'xphi', 'mphi', 'unk', 'substr', 'strrange') for x in subterms(nm)): hits.append((ev.loc, nm))
        absint.Interp(f, K2()).run()
        R.check(not hits, 'caller-named-classes-go-through-the-table', pretty(f).split('(')[0], '%s creates a class named by %s without asking the function table' % (pretty(f), hits and show(hits[0][1])), hits and hits[0][0], pretty(f))
    R.floor('create-only-undenied', 6); R.floor('query-predicate', 20); R.floor('filter-parts', 3); R.floor('caller-named-classes-go-through-the-table', 3)
def sig(x):
    """name computed from a C++ type's own signature: the host hooked that type"""
    return x.op == 'site' and 'GetJNISignature' in str(x.a[1])
