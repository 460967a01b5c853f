"""C11 members match only on name, full signature and static-ness."""
from .lib import *
from .search import *
EXPLAIN = ('every lookup of a method or field (both table flavours, the recursion into base classes and the constructor redirect included): each search loop stops only at a member whose kind, name and signature were all compared equal to the '
           'request, passes over a member only if one of them differs, starts at the first member and runs to the end; the inherited members are consulted before null is returned or a member is created; what is returned is the matched member, '
           'the result of the same lookup on a base class, or a new member carrying exactly the requested name, signature and kind and added to the class that was asked. Hook registration replaces only a hooked member of equal name, signature and kind.')
ASSUME = ['std::string comparison compares the full text']
SPEC = {'GetMethodID': ('Method', False), 'GetStaticMethodID': ('Method', True), 'GetFieldID': ('Field', False), 'GetStaticFieldID': ('Field', True)}
TAB = {'Method': 'Class.methods', 'Field': 'Class.fields'}
SIG = {'Method': 'Method.signature', 'Field': 'Field.type'}
def leaves(I, t, seen=None):
    """texts a string or character-pointer term may stand for"""
    seen = set() if seen is None else seen
    if t in seen: return set()
    seen.add(t); out = set()
    if t.op in ('str', 'cstr', 'alias') and len(t.a) == 1: return leaves(I, t.a[0], seen)
    if t.op == 'ld' and t.a[0].op == 'al' : return {t}
    rs = I.roots(t)
    if rs == {t}: return {t}
    for r in rs: out |= leaves(I, r, seen)
    return out
def text_is(I, t, n):
    l = leaves(I, t); return bool(l) and l <= {T('arg', n), T('lit', ''), NULL}       # a null text reads as the empty one
def init_fact(I, st):
    for k, v in st.facts.items():
        if k.op == 'eq' and T('lit', '<init>') in k.a and any(text_is(I, x, 2) or x is T('str', T('arg', 2)) for x in k.a): return v
    return None
def ctor_sig(I, t, cl):
    L = leaves(I, t) - {T('lit', '')}; req = lambda l: any(x is T('arg', 3) for x in subterms(l))
    return all((req(l) or any(x is T('lit', '') for x in subterms(l))) and any(is_field(x, 'Class.nativeprefix') and x.a[0] is cl for x in subterms(l)) and any(x.op == 'lit' and x.a[0].startswith('L') for x in subterms(l)) for l in L)
class Lookup(Judge):
    effects_on_unwind = True
    def __init__(self, R, over, key, kind, static, native, create, init, who):
        self.R = R; self.nm = key; self.kind = kind; self.static = static; self.native = native; self.create = create; self.init = init; self.who = who
        self.rec = []; self.basel = {}; self.nrets = 0; self.ctor = False
        Judge.__init__(self, over, self.want)
        self.cl = T('unpack', 'Class', T('arg', 1))
    def eff(self, I, st):
        """(static, is constructor redirect) in force on this path"""
        if not self.init and self.kind == 'Method' and not self.static and init_fact(I, st): self.ctor = True; return True, True
        return self.static, False
    def sigp(self, I, st):
        S, ini = self.eff(I, st)
        if ini: return lambda y: ctor_sig(I, y, self.cl)
        return lambda y: text_is(I, y, 3)
    def want(self, st, I):
        S, ini = self.eff(I, st); sp = self.sigp(I, st)
        w = {'static': S, 'name': lambda roots, y: text_is(I, y, 2), 'signature': lambda roots, y: sp(y)}
        if self.kind == 'Method': w['native'] = self.native
        return w
    def mark(self, st, *e):
        if e not in st.cs: st.cs = st.cs + (e,)
    def done(self, st, h, T_, kind, e, verdict, i, vals=None):
        R, m = self.R, self.fn.m
        if T_.a[0] is not self.cl: R.bad('own-table-first', self.nm + ':table', '%s searches %s' % (self.who, show(T_)), m.loc(i)); return
        if kind == 'end': self.mark(st, 'end', NULL); return
        if e is not None:
            w = starts(self.interp, h, e.syms); R.check(w is None, 'whole-table', self.nm + ':start', '%s: the search starts at %s' % (self.who, w), m.loc(i), 'starts at the first member')
        if kind == 'exit':
            R.check(verdict[0] == 'match', 'match-is-exact', self.nm, '%s stops at a member whose %s was not compared equal to the request' % (self.who, verdict[1] or verdict[0]), m.loc(i), 'stops only at equal kind, name and signature')
            if verdict[0] == 'match': self.mark(st, 'hit', e)
        else:
            R.check(verdict[0] == 'differs', 'no-match-is-skipped', self.nm, '%s passes over a member although %s' % (self.who, 'kind, name and signature are equal' if verdict[0] == 'match' else 'no difference was established (%s)' % verdict[1]), m.loc(i), 'passes over only what differs')
    def call(self, st, ev):
        if ev.name == 'std::function::operatorCALL' and len(ev.args) > 1 and is_field(ev.args[1], 'Class.baseclasses') and ev.args[1].a[0] is self.cl: self.basel[ev.args[0]] = True
        op = cont_op(ev)
        if op and op[0] != 'read':
            c = ev.args[0]
            if c.op == 'fld' and c.a[1] in TAB.values():
                if op[0] == 'ins' and c is fld(self.cl, TAB[self.kind]): self.mark(st, 'push', st.get(ev.args[1]) if len(ev.args) > 1 else NULL)
                else: self.R.bad('created-in-own-class', self.nm + ':' + op[1], '%s performs %s on %s' % (self.who, op[1], show(c)), ev.loc)
    def edge(self, st, b, s, c, val, i):
        Judge.edge(self, st, b, s, c, val, i)
        for h, lp in self.fn.loops.items():
            if b in lp and s not in lp and h not in self.over:
                z, v = c, val
                while z.op == 'not': z = z.a[0]; v = not v
                if z.op == 'eq' and v and any(x.op == 'end' and (x.a[0] in self.basel) for x in z.a): self.mark(st, 'bases', NULL)
                if z.op in ('ult', 'eq') and v == (z.op == 'eq') and any(y.op == 'pure' and y.a[0] == 'vsize' and y.a[1] in self.basel for x in z.a for y in subterms(x)): self.mark(st, 'bases', NULL)
    def store(self, st, a, v, i):
        if a.op == 'fld' and a.a[1] in ATTR and a.a[0].op != 'new' and a.a[0].op != 'al':
            self.R.bad('lookup-changes-no-member', self.nm + ':' + a.a[1], '%s writes %s' % (self.who, show(a)), self.fn.m.loc(i))
    def backedge(self, st, p, h, vals):
        Judge.backedge(self, st, p, h, vals)
        for k, v in st.facts.items():
            if k.op == 'eq' and NULL in k.a and not v:
                x = k.a[0] if k.a[1] is NULL else k.a[1]
                if self.lookup_site(x) and any(s.op == 'phi' and s.a[0] == h for s in x.syms):
                    self.R.bad('inherited-members', self.nm + ':dropped', '%s goes on although the lookup in a base class found a member' % self.who, self.fn.m.loc(self.fn.blocks[p][-1]))
    def lookup_site(self, x):
        return x.op == 'site' and len(x.a) == 6 and x.a[2] is T('arg', 0) and any(i.get('id') == x.a[0] and i['callee'][0] == 'g' and i['callee'][1] in self.fn.m.fns for b in self.fn.blocks for i in b if i['op'] in ('call', 'invoke'))
    def ret(self, st, v, i):
        for s2, v2 in expand(st, v):
            # a field read of a resolved element keeps its element; anything joined is looked at one by one
            for r in (self.interp.roots(v2) if v2.op in ('phi', 'mphi', 'any') else {v2}): self.one(s2, r, i)
    def one(self, st, r, i):
        R, m, I, who = self.R, self.fn.m, self.interp, self.who
        loc = m.loc(i); self.nrets += 1
        has = lambda k: any(e[0] == k for e in st.cs)
        clnull = st.nullness(self.cl) == 'null'
        bases = has('bases') or st.nullness(T('ld', fld(self.cl, 'Class.baseclasses'))) == 'null' or st.truth(mkeq(T('ld', fld(self.cl, 'Class.baseclasses')), NULL)) is True
        if r.op == 'cast': r = r.a[-1]
        if st.nullness(r) == 'null':
            if self.create: R.bad('creating-lookup-never-null', self.nm, '%s returns null in creating mode' % who, loc); return
            R.check(clnull or has('end'), 'whole-table', self.nm + ':null', '%s returns null without having searched all members' % who, loc, 'null only after the whole table')
            R.check(clnull or bases, 'inherited-members', self.nm + ':null', '%s returns null without consulting the inherited members' % who, loc, 'null only after the bases'); return
        if r.op == 'new':
            kk = r.a[0]
            if not self.create: R.bad('lookup-creates-nothing', self.nm, '%s creates a member in lookup-only mode' % who, loc); return
            R.check(kk == self.kind, 'created-as-requested', self.nm + ':class', '%s returns a new %s' % (who, kk), loc)
            S, ini = self.eff(I, st)
            nm, sg, sv = st.get(fld(r, kk + '.name')), st.get(fld(r, SIG.get(kk, '?'))), st.mem.get(fld(r, kk + '._static'))
            R.check(text_is(I, nm, 2), 'created-as-requested', self.nm + ':name', '%s creates a member named %s' % (who, show(nm)), loc, 'carries the requested name')
            R.check(self.sigp(I, st)(sg), 'created-as-requested', self.nm + ':signature', '%s creates a member with signature %s' % (who, show(sg)), loc, 'carries the requested signature')
            z = sv is not None and (sv if sv.op == 'c' else None)
            R.check((z is not None and z is not False and (z.a[0] != 0) == S) or (sv in (None, NULL) and not S), 'created-as-requested', self.nm + ':static', '%s creates a %s member with _static=%s' % (who, 'static' if S else 'instance', sv and show(sv)), loc, 'carries the requested kind')
            for a in ('native', 'nativehandle', 'getnativehandle', 'setnativehandle'):
                x = st.mem.get(fld(r, kk + '.' + a))
                R.check(x is None or x is NULL, 'created-as-requested', self.nm + ':' + a, '%s creates a member with a preset %s' % (who, a), loc)
            R.check(clnull or has('push'), 'created-in-own-class', self.nm + ':push', '%s creates a member that is not added to the class' % who, loc, 'added to the class asked')
            R.check(clnull or has('end'), 'whole-table', self.nm + ':create', '%s creates a member without having searched all members' % who, loc, 'creates only after the whole table')
            R.check(clnull or bases, 'inherited-members', self.nm + ':create', '%s creates a member without consulting the inherited members' % who, loc, 'creates only after the bases')
            R.check(sum(1 for e in st.cs if e[0] == 'push') <= 1, 'created-in-own-class', self.nm + ':twice', '%s adds the member twice' % who, loc); return
        if self.lookup_site(r):
            ci = next(i2 for b in self.fn.blocks for i2 in b if i2.get('id') == r.a[0])
            g = m.fns[ci['callee'][1]]; S, ini = self.eff(I, st)
            base = r.a[3]
            own = base is T('arg', 1)
            el = any(x in self.basel for x in root_table(I, base.a[0])) if base.op == 'ld' else False
            R.check(own or el, 'inherited-members', self.nm + ':of', '%s looks further in %s' % (who, show(base)), loc, 'looks further in a declared base')
            R.check(text_is(I, r.a[4], 2), 'match-is-exact', self.nm + ':rname', '%s looks further for the name %s' % (who, show(r.a[4])), loc)
            R.check(self.sigp(I, st)(r.a[5]), 'match-is-exact', self.nm + ':rsig', '%s looks further for the signature %s' % (who, show(r.a[5])), loc)
            if el: R.check(has('end'), 'own-table-first', self.nm, '%s returns an inherited member before searching its own' % who, loc, 'own members first')
            self.rec.append((g, S, ini, self.create if own else False)); return
        hit = [e for e in st.cs if e[0] == 'hit' and e[1] is r]
        R.check(bool(hit), 'match-is-exact', self.nm + ':ret', '%s returns %s, which is not the member the search stopped at' % (who, show(r)), loc, 'returns the matched member')
def analyse(R, m, roots):
    """roots: [(slot, Fn, kind, static, native, create)]"""
    seen = set(); wl = [(f, k, s, n, c, False, slot, False) for slot, f, k, s, n, c in roots]; nctor = 0
    while wl:
        f, kind, static, native, create, init, slot, inh = wl.pop()
        if (f.name, kind, static, native, create, init) in seen: continue
        seen.add((f.name, kind, static, native, create, init)); R.fns.add(pretty(f))
        R.need(len(seen) < 60, 'too many lookup functions')
        over, _ = find_loops(f, {TAB[kind]})
        key = '%s%s' % (slot, ':inherited' if (create is False and slot.endswith('+')) else '')
        c = Lookup(R, over, slot, kind, static, native, create, init, slot)
        absint.Interp(f, c, limit=200, splitsel=True).run()
        if not over and not c.rec: R.bad('whole-table', slot, '%s does not search the member table' % pretty(f), where(f))
        for g, S, ini, cr in c.rec: wl.append((g, kind, S, native, cr, init or ini, slot, True))
        if kind == 'Method' and not static and not init and not inh: R.check(c.ctor, 'constructors-are-static', slot, '%s does not resolve <init> as a static factory of the class' % slot, where(f), '%s resolves <init> as a static factory' % slot)
    return seen
def run(R):
    m = R.mod('api')
    for rn in (False, True):
        S = slots(m, rn); roots = []
        for s, (k, st) in SPEC.items():
            R.need(S.get(s), 'table entry ' + s); roots.append((s, S[s], k, st, False, not rn))
        analyse(R, m, roots)
    R.floor('match-is-exact', 12); R.floor('no-match-is-skipped', 12); R.floor('inherited-members', 8); R.floor('created-as-requested', 12); R.floor('constructors-are-static', 2)
