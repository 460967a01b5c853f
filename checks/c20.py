"""C20 native registration: exact name/signature/function per entry, replacement, exact removal, nothing invoked on failure."""
from .lib import *
from .search import *
from .search import judge as sjudge
EXPLAIN = ('RegisterNatives: on every path every iteration over the given entries has exactly one effect on the class: a new method carrying name, signature and function of that same entry, added only after the whole member table was '
           'searched, or the replacement of the function of an existing native method whose name and signature were both compared equal; the loop visits entry 0..n-1 in steps of one and no other member attribute or table is written. '
           'UnregisterNatives: a member is removed exactly when its native function was seen non-null, the walk covers the whole table, and the legacy table is cleared. Nobody else writes native functions or calls one without a null test.')
ASSUME = ['std::vector::erase(position) removes exactly that element and moves the later ones down']
TABS = {'Class.methods'}
def entry(t):
    """(part, E) of an attribute of a given entry"""
    if t.op == 'str': t = t.a[0]
    if t.op != 'ld': return None
    a = t.a[0]
    if a.op == 'fld' and a.a[1].split('.')[-1] in ('#1', '#2', 'signature', 'fnPtr'): return ({'#1': 'signature', '#2': 'function', 'signature': 'signature', 'fnPtr': 'function'}[a.a[1].split('.')[-1]], a.a[0])
    if a.op == 'fld' and a.a[1].split('.')[-1] == 'name': return ('name', a.a[0])
    if a.op == 'off' and a.a[1] in (8, 16): return ({8: 'signature', 16: 'function'}[a.a[1]], a.a[0])
    return ('name', a)
def isent(I, E, n=2): return E is not None and I.roots(E) == {T('arg', n)}
def unary(m): return 1
def run(R):
    m = R.mod('api'); S = slots(m)
    f = S['RegisterNatives']; R.need(f, 'RegisterNatives'); R.fns.add(pretty(f))
    over, _ = find_loops(f, TABS)
    cl = T('unpack', 'Class', T('arg', 1))
    R.need(over, 'search loop of RegisterNatives over the member table')
    def want(st, I):
        def p(part): return lambda roots, y: (lambda e: e is not None and e[0] == part and isent(I, e[1]))(entry(y))
        return {'native': True, 'name': p('name'), 'signature': p('signature')}
    class J(Judge):
        def done(self, st, h, T_, kind, e, verdict, i, vals=None):
            if T_.a[0] is not cl: R.bad('search', 'RegisterNatives:table', 'searches %s' % show(T_), m.loc(i))
            if e is not None: 
                w = starts(self.interp, h, e.syms); R.check(w is None, 'replaces-only-the-same-native', 'RegisterNatives:start', 'the search starts at %s' % w, m.loc(i), 'starts at the first member')
            if kind == 'exit': R.check(verdict[0] == 'match', 'replaces-only-the-same-native', 'RegisterNatives', 'the search for a registered native stops at a member whose %s was not compared equal' % (verdict[1] or verdict[0]), m.loc(i), 'stops only at a native of equal name and signature')
            if kind == 'back': R.check(verdict[0] == 'differs', 'replaces-only-the-same-native', 'RegisterNatives:next', 'a registered native of the same name and signature is passed over', m.loc(i), 'passes over members that differ')
            if kind == 'end': st.cs = st.cs + (('end', 0),) if ('end', 0) not in st.cs else st.cs
        def mark(self, st, e):
            if e not in st.cs: st.cs = st.cs + (e,)
        def store(self, st, a, v, i):
            if a.op == 'fld' and a.a[1] in ('Method._static', 'Method.nativehandle', 'Method.name', 'Method.signature'):
                if a.a[0].op != 'new': R.bad('only-the-native-function-is-written', 'RegisterNatives:' + a.a[1], 'RegisterNatives writes %s of %s' % (a.a[1], show(a.a[0])), m.loc(i))
            if a.op == 'fld' and a.a[1] == 'Method.native':
                en = entry(v); o = a.a[0]
                R.check(en is not None and en[0] == 'function' and isent(self.interp, en[1]), 'function-of-the-entry', 'RegisterNatives', 'the function stored is %s' % show(v), m.loc(i), 'native := the entry\'s function')
                if o.op != 'new' and en:
                    v2 = sjudge(self.interp, st, o, want(st, self.interp))
                    same = all(entry(y)[1] is en[1] for at, l in attrs(st, o).items() if at in ('name', 'signature') for y, t in l if t and entry(y))
                    R.check(v2[0] == 'match' and same, 'replaces-only-the-same-native', 'RegisterNatives:replace', 'the function of a member is replaced although its %s is not shown equal to the entry' % (v2[1] or 'entry'), m.loc(i), 'replaces the function of the matched native')
                    self.mark(st, ('done', en[1]))
            if a.op == 'fld' and a.a[1].startswith('Class.') or a.op == 'slot' and not is_field(a.a[0], 'Class.natives'):
                R.bad('only-the-native-function-is-written', 'RegisterNatives:' + a.op, 'RegisterNatives writes %s' % show(a), m.loc(i))
            if a.op == 'slot' and is_field(a.a[0], 'Class.natives'):
                k, w = entry(a.a[1]), entry(v)
                R.check(k is not None and w is not None and k[0] == 'name' and w[0] == 'function' and k[1] is w[1] and isent(self.interp, k[1]) and a.a[0].a[0] is cl, 'function-of-the-entry', 'RegisterNatives:natives', 'natives[%s] := %s' % (show(a.a[1]), show(v)), m.loc(i), 'natives[name] := function')
        def call(self, st, ev):
            op = cont_op(ev)
            if not op or op[0] == 'read': return
            c = ev.args[0]
            if op[1] == 'operator[]' and is_field(c, 'Class.natives'): return
            if c.op == 'fld' and c.a[1].startswith('Class.') or c.op == 'fld' and c.a[1].startswith('VM.'):
                if op[0] == 'ins' and is_field(c, 'Class.methods') and c.a[0] is cl and op[1] in ('push_back', 'emplace_back'):
                    o = st.get(ev.args[1])
                    if o.op == 'new' and o.a[0] == 'Method':
                        g = {n: entry(st.get(fld(o, 'Method.' + n))) for n in ('name', 'signature', 'native')}
                        E = {x[1] for x in g.values() if x}
                        okp = all(g.values()) and (g['name'][0], g['signature'][0], g['native'][0]) == ('name', 'signature', 'function') and len(E) == 1 and isent(self.interp, next(iter(E)))
                        R.check(okp, 'new-native-carries-the-entry', 'RegisterNatives', 'a new native carries name %s, signature %s, function %s' % tuple(show(st.get(fld(o, 'Method.' + n))) for n in ('name', 'signature', 'native')), ev.loc, 'new native = name, signature and function of one entry')
                        sv = st.mem.get(fld(o, 'Method._static')); hv = st.mem.get(fld(o, 'Method.nativehandle'))
                        R.check((sv is None or sv is FALSE or sv is NULL) and (hv is None or hv is NULL), 'new-native-carries-the-entry', 'RegisterNatives:kind', 'a new native gets _static=%s handle=%s' % (sv and show(sv), hv and show(hv)), ev.loc)
                        R.check(('end', 0) in st.cs or any(e[0] == 'erased' for e in st.cs), 'new-native-only-if-none-matches', 'RegisterNatives', 'a native is added although the member table was not searched to its end', ev.loc, 'adds only after the whole table was searched')
                        if okp: self.mark(st, ('done', next(iter(E))))
                        return
                R.bad('only-the-native-function-is-written', 'RegisterNatives:%s:%s' % (c.a[1], op[1]), 'RegisterNatives performs %s on %s' % (op[1], show(c)), ev.loc)
        def backedge(self, st, p, h, vals):
            Judge.backedge(self, st, p, h, vals)
            es = [k for k in vals if T('phi', h, k) in [x for e in st.cs if e[0] == 'done' for x in e[1].syms]]
            # the entry loop: the header whose phi addresses the entries
            if h in ent_headers:
                d = [e for e in st.cs if e[0] == 'done' and any(s.op == 'phi' and s.a[0] == h for s in e[1].syms)]
                R.check(len(d) == 1, 'every-entry-once', 'RegisterNatives:%d' % len(d), 'an iteration registers %d entries' % len(d), self.fn.m.loc(self.fn.blocks[p][-1]), 'one registration per iteration')
                st.cs = ()
    # entry loop headers: phi rooted at the entry array, or counter used to index it
    class P(absint.Client):
        hs = set(); exits = []
        def load(self, st, a, v, i):
            e = entry(T('ld', a))
            if e and isent(self.interp, e[1]) or (a.op != 'al' and self.interp.roots(a) == {T('arg', 2)}):
                for s in a.syms:
                    if s.op == 'phi': self.hs.add(s.a[0])
    P.hs = set(); pc = P(); IP = absint.Interp(f, pc); IP.run(); ent_headers = pc.hs & set(f.loops)
    R.need(ent_headers, 'entry loop of RegisterNatives'); R.need(len(ent_headers) == 1, 'one entry loop of RegisterNatives')
    H = next(iter(ent_headers))
    # stepping and bounds
    steps = {}
    for sym, vs in IP.phi_in.items():
        if sym.op == 'phi' and sym.a[0] == H:
            inits = {v for v in vs if sym not in v.syms}; ns = {v for v in vs if sym in v.syms and v is not sym}
            steps[sym] = (inits, ns)
    def step(sym):
        ini, ns = steps.get(sym, (set(), set()))
        if len(ini) != 1 or len(ns) != 1: return None
        n = next(iter(ns)); i0 = next(iter(ini))
        if n.op == 'add' and n.a[0] is sym and n.a[1].op == 'c': return i0, n.a[1].a[0]
        if n.op == 'off' and n.a[0] is sym: return i0, n.a[1] // 24 if n.a[1] % 24 == 0 else None
        return None
    eptr = [s for s in steps if steps[s][0] == {T('arg', 2)}]
    class X(absint.Client):
        out = []
        def edge(self, st, b, s, c, val, i):
            if b in f.loops[H] and s not in f.loops[H]: self.out.append((c, val, i))
    X.out = []; xc = X(); absint.Interp(f, xc).run(); ctrs = set()
    for c, val, i in xc.out:
        z = c
        while z.op == 'not': z = z.a[0]; val = not val
        ok = False
        if z.op == 'eq' and val and z.a[1] is NULL and step(z.a[0]) == (T('arg', 3), -1): ok = True; ctrs.add(z.a[0])
        if z.op in ('lt', 'ult') and not val and z.a[1] is T('arg', 3) and step(z.a[0]) == (C(0), 1): ok = True; ctrs.add(z.a[0])
        if z.op in ('lt', 'ult') and not val and z.a[0] in (C(0), NULL) and step(z.a[1]) == (T('arg', 3), -1): ok = True
        if z.op == 'eq' and val and any(step(x) == (C(0), 1) for x in z.a) and T('arg', 3) in z.a: ok = True
        if z.op == 'eq' and val and any(x in eptr for x in z.a) and any(y.op == 'idx' and y.a[0] is T('arg', 2) and T('arg', 3) in subterms(y) for y in z.a): ok = True
        if any(x.op == 'cast' for x in subterms(z)) and not ok:
            y = [x for x in subterms(z) if x.op == 'phi']; ok = len(y) == 1 and step(y[0]) in ((C(0), 1), (T('arg', 3), -1)) and (T('arg', 3) in subterms(z) or NULL in z.a)
        R.check(ok, 'every-entry-once', 'RegisterNatives:bound', 'the loop over the entries ends on %s (%s)' % (show(c), val), m.loc(i), 'ends after exactly the given number of entries')
    for s in eptr: R.check(step(s) == (T('arg', 2), 1), 'every-entry-once', 'RegisterNatives:step', 'the entry pointer advances by %s' % [show(x) for x in steps[s][1]], where(f), 'advances one entry per iteration')
    J_ = J(over, want); absint.Interp(f, J_, limit=200, splitsel=True).run()
    # ---------------- removal
    f = S['UnregisterNatives']; R.need(f, 'UnregisterNatives'); R.fns.add(pretty(f))
    over, I0 = find_loops(f, TABS); R.need(over, 'loop of UnregisterNatives over the member table')
    def wantu(st, I): return {'native': True}
    class U(Judge):
        def done(self, st, h, T_, kind, e, verdict, i, vals=None):
            if T_.a[0] is not cl: R.bad('removes-exactly-the-natives', 'UnregisterNatives:table', 'walks %s' % show(T_), m.loc(i))
            rng = any(x[0] == 'range' for x in kinds)
            if e is not None:
                w = starts(self.interp, h, e.syms); R.check(w is None, 'walk-covers-the-table', 'UnregisterNatives:start', 'the walk starts at %s' % w, m.loc(i), 'starts at the first member')
            if kind == 'exit' and not rng: R.bad('removes-exactly-the-natives', 'UnregisterNatives:early', 'the removal stops before the end of the member table', m.loc(i)); return
            if kind == 'exit' and rng: R.check(verdict[0] == 'match', 'removes-exactly-the-natives', 'UnregisterNatives:first', 'elements are dropped from a member whose native function was not seen set', m.loc(i)); return
            if kind != 'back': return
            er = [x for x in st.cs if x[0] == 'erase' and any(s.op == 'phi' and s.a[0] == h for s in x[1].syms)]; mv = [x for x in st.cs if x[0] == 'move']
            if rng:
                moves = any(x[0] == 'move' for x in kinds) and h in movers
                if moves: good = (verdict[0] == 'match' and not mv) or (verdict[0] == 'differs' and mv)
                else: good = verdict[0] == 'differs'
                R.check(bool(good), 'removes-exactly-the-natives', 'UnregisterNatives:keep', 'a member is %s although its native function is %s' % ('kept' if mv else 'dropped', {'match': 'set', 'differs': 'not set'}.get(verdict[0], 'not examined')), m.loc(i), 'kept exactly when not native')
                st.cs = tuple(x for x in st.cs if x[0] != 'move'); return
            R.check(verdict[0] == ('match' if er else 'differs'), 'removes-exactly-the-natives', 'UnregisterNatives:%s' % ('erase' if er else 'keep'), 'a member is %s although its native function is %s' % ('removed' if er else 'kept', {'match': 'set', 'differs': 'not set'}.get(verdict[0], 'not examined')), m.loc(i), '%s exactly when %s' % (('removed', 'native') if er else ('kept', 'not native')))
            for k, v in vals.items():
                sym = T('phi', h, k)
                if sym not in [s for s in (er[0][1].syms if er else [s for x in elements(st, h) for s in x.syms])]: continue
                if er: good = v is sym or v.op == 'site' and 'erase' in str(v.a[1]) or (v.op == 'add' and v.a[0] is sym and v.a[1] is C(0))
                else: good = v.op == 'add' and v.a[0] is sym and v.a[1] is C(1) or v.op == 'off' and v.a[0] is sym and v.a[1] == 16
                if v.op == 'add' and v.a[1] is C(-1) and v.a[0] is sym: good = True      # walking down
                R.check(good, 'walk-covers-the-table', 'UnregisterNatives:%s' % ('erase' if er else 'keep'), 'after a member is %s the walk continues at %s' % ('removed' if er else 'kept', show(v)), m.loc(i), 'continues at the %s element' % ('same' if er else 'next'))
            st.cs = tuple(x for x in st.cs if x[0] != 'erase')
        def backedge(self, st, p, h, vals): Judge.backedge(self, st, p, h, vals)
        def call(self, st, ev):
            op = cont_op(ev)
            if ev.name in ('std::__shared_ptr::operator=', 'std::shared_ptr::operator=') and any(t.op == 'fld' and t.a[1] in TABS for t in root_table(self.interp, ev.args[0])):
                kinds.add(('move', 0))
                if not any(x[0] == 'move' for x in st.cs): st.cs = st.cs + (('move', C(0)),)
                for h in over:
                    if any(s.op == 'phi' and s.a[0] == h for s in ev.args[1].syms): movers.add(h)
                return
            if not op or op[0] == 'read': return
            c = ev.args[0]
            if is_field(c, 'Class.natives') and c.a[0] is cl: 
                if op[1] == 'clear': st.cs = st.cs + (('cleared', T('c', 0)),) if not any(x[0] == 'cleared' for x in st.cs) else st.cs
                return
            if is_field(c, 'Class.methods') and c.a[0] is cl and op[1] == 'erase':
                if len(ev.args) >= 3 or (ev.i.get('sret') and len(ev.args) > 3): kinds.add(('range', 0)); return
                pos = ev.args[1]
                if ('erase', pos) not in st.cs: st.cs = st.cs + (('erase', pos),)
                kinds.add(('erase', 0))
                # the erased position is the examined element
                z = pos
                ix = z.a[1] if z.op == 'idx' and z.a[0].op == 'begin' else None
                exam = [e for h in over for e in elements(st, h) if attrs(st, e).get('native')]
                same = any((e.op == 'ld' and ((e.a[0].op == 'elem' and ix is not None and e.a[0].a[1] is ix) or e.a[0] is z)) for e in exam)
                R.check(same, 'removes-exactly-the-natives', 'UnregisterNatives:position', 'the removed position %s is not the member whose native function was examined' % show(pos), ev.loc, 'removes the examined position')
                return
            if c.op == 'fld' and (c.a[1].startswith('Class.') or c.a[1].startswith('VM.')):
                R.bad('removes-exactly-the-natives', 'UnregisterNatives:%s:%s' % (c.a[1], op[1]), 'UnregisterNatives performs %s on %s' % (op[1], show(c)), ev.loc)
        def store(self, st, a, v, i):
            if a.op == 'fld' and (a.a[1].startswith('Method.') or a.a[1].startswith('Class.')) and a.a[0].op != 'al':
                R.bad('removes-exactly-the-natives', 'UnregisterNatives:' + a.a[1], 'UnregisterNatives writes %s' % show(a), m.loc(i))
        def ret(self, st, v, i):
            if st.nullness(cl) == 'nonnull' : R.check(any(x[0] == 'cleared' for x in st.cs), 'legacy-table-cleared', 'UnregisterNatives', 'a path leaves the legacy native table', m.loc(i), 'natives cleared')
    kinds = set(); movers = set()
    real = R; R = Only(real)
    U_ = U(over, wantu); absint.Interp(f, U_, limit=200, splitsel=True).run()       # learns the form (nothing reported)
    R = real
    U_ = U(over, wantu); absint.Interp(f, U_, limit=200, splitsel=True).run()
    R.need(kinds, 'removal of members in UnregisterNatives')
    # ---------------- who may write a native function; a native is never called unless it was seen set
    allowed = {S['RegisterNatives'].name}
    n = 0
    for g in m.fns.values():
        if g.name in allowed: continue
        hit = []; calls = []
        if not any(i['op'] == 'store' and (i.get('tb') or '').endswith('Method.native') or i['op'] in ('call', 'invoke') and i['callee'][0] == 'v' or i.get('vf', '').endswith('Method.native') for b in g.blocks for i in b): continue
        class W(absint.Client):
            def store(self, st, a, v, i):
                if a.op == 'fld' and a.a[1] == 'Method.native' and a.a[0].op != 'al' and not (a.a[0].op in ('arg',) and v is NULL and 'Method::Method' in g.base): hit.append((a, m.loc(i)))
            def call(self, st, ev):
                if ev.name in ('ind', 'ptr:Method.native'):
                    t = ev.args[0] if ev.name == 'ind' else self.interp.val(st, ev.i['callee'])
                    if t.op == 'ld' and is_field(t.a[0], 'Method.native'): calls.append((st.nullness(t), ev.loc))
        absint.Interp(g, W()).run()
        if hit or calls: R.fns.add(pretty(g)); n += 1
        for a, loc in hit:
            if a.a[0].op == 'new': continue
            R.bad('only-registration-sets-natives', pretty(g), '%s writes %s' % (pretty(g), show(a)), loc)
        for nn, loc in calls: R.check(nn == 'nonnull', 'no-call-without-a-native', pretty(g).split('(')[0], '%s calls a native function that may be null' % pretty(g), loc, 'native called only when set')
    R.ok('only-registration-sets-natives', 'functions writing Method.native besides RegisterNatives: none')
    # MethodProxy: a failed lookup throws before anything is invoked
    for g in m.fns.values():
        if not re.match(r'jnivm::MethodProxy::invoke', g.base): continue
        R.fns.add(pretty(g))
    R.floor('replaces-only-the-same-native', 3); R.floor('new-native-carries-the-entry', 1); R.floor('every-entry-once', 3); R.floor('removes-exactly-the-natives', 3)
    R.floor('function-of-the-entry', 2)
