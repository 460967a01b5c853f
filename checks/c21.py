"""C21 virtual calls run the most derived hook, non-virtual calls the named one."""
from .lib import *
from .search import *
from .c01 import CALL
EXPLAIN = ('every instance and non-virtual Call entry of both tables: whatever member the dispatched handle belongs to must come from a search starting in the class of the very object (virtual form) or in the class passed (non-virtual form), with the id called as pattern; the id itself is run '
           'only when that search found nothing. The search (found through the call sites, its recursion included) stops only at an instance member of equal name and signature that has an implementation, passes over a member only if one of these differs, covers the whole table, looks into a class before its bases, '
           'takes the first base that has a match and reports nothing only after all bases. GetObjectClass yields the class the object itself reports.')
ASSUME = ['baseclasses lists the bases in the declared order', 'std::string comparison compares the full text']
H = 'Method.nativehandle'
class Over(Judge):
    """one search function (or a dispatcher with the search written in place)"""
    effects_on_unwind = True
    def __init__(self, R, over, name, cl, mid, is_cl=None):
        self.R = R; self.nm = name; self.cl = cl; self.mid = mid; self.rec = {}; self.basel = set()
        self.is_cl = is_cl or (lambda t: t is cl)
        tx = lambda f: (lambda roots, y: y is T('ld', fld(mid, f)) or y is fld(mid, f))
        Judge.__init__(self, over, lambda st, I: {'static': False, 'name': tx('Method.name'), 'signature': tx('Method.signature'), 'handle': True})
    def mark(self, st, *e):
        if e not in st.cs: st.cs = st.cs + (e,)
    def has(self, st, k): return any(e[0] == k for e in st.cs)
    def done(self, st, h, T_, kind, e, verdict, i, vals=None):
        R, m = self.R, self.fn.m
        if not self.is_cl(T_.a[0]): R.bad('searches-the-right-class', self.nm + ':table', '%s searches %s' % (self.nm, show(T_)), m.loc(i)); return
        if kind == 'end': self.mark(st, 'end', NULL); return
        if e is not None:
            w = starts(self.interp, h, e.syms); R.check(w is None, 'whole-table', self.nm + ':start', '%s: the search starts at %s' % (self.nm, w), m.loc(i), 'starts at the first member')
        if kind == 'exit':
            R.check(verdict[0] == 'match', 'stops-only-at-an-override', self.nm, '%s stops at a member although its %s was not established' % (self.nm, verdict[1] or verdict[0]), m.loc(i), 'stops only at an implemented instance member of equal name and signature')
            if verdict[0] == 'match': self.mark(st, 'hit', e)
        else:
            R.check(verdict[0] == 'differs', 'passes-over-only-what-differs', self.nm, '%s passes over a member although %s' % (self.nm, 'it is an implemented instance member of equal name and signature' if verdict[0] == 'match' else 'no difference was established (%s)' % verdict[1]), m.loc(i), 'passes over only what differs')
    def call(self, st, ev):
        if ev.name == 'std::function::operatorCALL' and len(ev.args) > 1 and is_field(ev.args[1], 'Class.baseclasses') and self.is_cl(ev.args[1].a[0]): self.basel.add(ev.args[0])
        c = ev.i['callee']
        if c[0] == 'g' and c[1] in self.fn.m.fns and any(st.get(a) is self.mid or a is self.mid for a in ev.args):
            self.rec[ev.i['id']] = (self.fn.m.fns[c[1]], tuple(st.get(a) if a.op == 'al' and st.get(a) is not NULL else a for a in ev.args), tuple(ev.args), self.has(st, 'end') or bool(self.basel), ev.loc)
    def sites(self, t): return [x for x in (t,) if x.op == 'site' and x.a[0] in self.rec]
    def found(self, st, h):
        """a search site of the loop h known non-null / null here"""
        out = None
        for k, v in st.facts.items():
            if k.op == 'eq' and NULL in k.a:
                x = k.a[0] if k.a[1] is NULL else k.a[1]
                if x.op == 'sel': x = next((y.a[0] if y.a[1] is NULL else y.a[1] for y in subterms(x.a[0]) if y.op == 'eq' and NULL in y.a), x)
                if self.sites(x) and any(s.op == 'phi' and s.a[0] == h for s in x.syms): out = (x, v)
        return out
    def edge(self, st, b, s, c, val, i):
        Judge.edge(self, st, b, s, c, val, i)
        for h, lp in self.fn.loops.items():
            if b in lp and s not in lp and h not in self.over:
                z, v = c, val
                while z.op == 'not': z = z.a[0]; v = not v
                e = z.op == 'eq' and v and any(x.op == 'end' and x.a[0] in self.basel for x in z.a)
                e = e or z.op in ('ult', 'eq') and v == (z.op == 'eq') and any(y.op == 'pure' and y.a[0] == 'vsize' and y.a[1] in self.basel for x in z.a for y in subterms(x))
                if e: self.mark(st, 'bases', NULL)
                else:
                    f = self.found(st, h)
                    if f and not f[1]: self.mark(st, 'inh', f[0])
    def backedge(self, st, p, h, vals):
        Judge.backedge(self, st, p, h, vals)
        f = self.found(st, h)
        if f and not f[1]: self.R.bad('first-base-wins', self.nm, '%s goes on although a base class has an implementation' % self.nm, self.fn.m.loc(self.fn.blocks[p][-1]))
    def ret(self, st, v, i):
        for s2, v2 in expand(st, v):
            for r in (self.interp.roots(v2) if v2.op in ('phi', 'mphi', 'any') else {v2}): self.one(s2, r, i, v2)
    def one(self, st, r, i, v):
        R, I = self.R, self.interp; loc = self.fn.m.loc(i)
        clnull = self.cl is not None and st.nullness(self.cl) == 'null'
        if r.op == 'cast': r = r.a[-1]
        bc = T('ld', fld(self.cl, 'Class.baseclasses')) if self.cl is not None else None
        bases = self.has(st, 'bases') or (bc is not None and st.truth(mkeq(bc, NULL)) is True)
        inh = [e[1] for e in st.cs if e[0] == 'inh']
        if inh:
            R.check(r is inh[0], 'first-base-wins', self.nm + ':ret', '%s returns %s instead of the implementation found in the base' % (self.nm, show(r)), loc, 'returns what the base yielded'); return
        if st.nullness(r) == 'null' or r is NULL:
            R.check(clnull or self.has(st, 'end'), 'whole-table', self.nm + ':null', '%s finds nothing without having searched all members' % self.nm, loc, 'nothing only after the whole table')
            R.check(clnull or bases, 'inherited-implementations', self.nm, '%s finds nothing without consulting the base classes' % self.nm, loc, 'nothing only after the bases'); return
        if r is self.mid:
            R.check(clnull, 'falls-back-to-the-id', self.nm, '%s yields the id itself although there is a class to search' % self.nm, loc, 'the id itself only without a class'); return
        if self.sites(r):
            el = [x for x in self.rec[r.a[0]][1] if self.basel & set(root_table(I, x.a[0] if x.op == 'ld' else x))]
            if el: R.check(bases or st.nullness(r) == 'nonnull', 'inherited-implementations', self.nm + ':all', '%s reports the result of one base class without consulting the others' % self.nm, loc, 'a base that has none does not end the walk')
            return
        R.check(any(e[0] == 'hit' and e[1] is r for e in st.cs), 'stops-only-at-an-override', self.nm + ':ret', '%s returns %s, which is not the member the search stopped at' % (self.nm, show(r)), loc, 'returns the matched member')
def handle_bases(t):
    return {x.a[0] for x in subterms(t) if x.op == 'fld' and x.a[1] == H}
class Disp(Over):
    def __init__(self, R, over, slot, virt, idarg):
        self.virt = virt; self.n = 0; self.slot = slot
        Over.__init__(self, R, over, slot, None, T('arg', idarg), self.start_class)
    def start_class(self, t):
        t = strip(t)
        if self.virt:
            s = [x for x in subterms(t) if x.op == 'site' and ('GetObjectClass' in str(x.a[1]) or x.a[1].startswith('virt:') or 'getClass' in str(x.a[1]))]
            return t.op in ('unpack', 'site', 'ld') and bool(s) and all(any(y is T('arg', 1) for a in x.a[2:] if isinstance(a, Term) for y in subterms(a)) for x in s)
        return t is T('unpack', 'Class', T('arg', 2))
    def call(self, st, ev):
        Over.call(self, st, ev)
        if ev.name.startswith(('virt:', 'ind')) and ev.args and handle_bases(ev.args[0]): self.n += 1; self.dispatch(st, ev)
    def ret(self, st, v, i): pass
    def dispatch(self, st, ev):
        R, I = self.R, self.interp
        for s1, a in expand(st, ev.args[0]):
            if s1.nullness(a) == 'null': continue
            for b in handle_bases(a):
                for s2, M in expand(s1, b):
                    for r in (I.roots(M) if M.op in ('phi', 'mphi', 'any') else {M}): self.target(s2, strip(r), ev)
    def target(self, st, r, ev):
        R = self.R; who = self.slot; what = 'the class of its object' if self.virt else 'the class passed'
        if r is self.mid:
            none = [x for x, v in st.facts.items() if x.op == 'eq' and NULL in x.a and v and any(self.sites(y) for y in x.a)]
            R.check(bool(none) or (self.has(st, 'end') and self.has(st, 'bases')), 'searches-before-the-id', who, '%s runs the given id without %s having been searched in vain' % (who, what), ev.loc, '%s runs the id only when nothing was found' % who)
        elif self.sites(r):
            g, vals, raw, _, loc = self.rec[r.a[0]]
            k = [j for j, x in enumerate(vals) if x is not self.mid and self.start_class(x)]
            R.check(bool(k), 'searches-the-right-class', who, '%s looks for the implementation in %s instead of %s' % (who, ', '.join(show(x) for x in vals), what), loc, '%s searches %s' % (who, what))
        else:
            R.check(any(e[0] == 'hit' and e[1] is r for e in st.cs), 'searches-before-the-id', who + ':other', '%s runs %s, which no search of %s yielded' % (who, show(r), what), ev.loc)
def run(R):
    m = R.mod('api'); G = {}
    for rn in (False, True):
        S = slots(m, rn); done = set()
        for slot, f in sorted(S.items()):
            mt = CALL.match(slot)
            if not mt or mt.group(1) == 'Static' or f is None: continue
            virt = mt.group(1) == ''; R.fns.add(pretty(f))
            over, _ = find_loops(f, {'Class.methods'})
            c = Disp(R, over, slot, virt, 2 if virt else 3)
            absint.Interp(f, c, limit=200, splitsel=True).run()
            if not c.n and not any(True for b in f.blocks for i in b if i['op'] in ('call', 'invoke') and i['callee'][0] != 'g'): R.bad('searches-before-the-id', slot + ':none', '%s never runs an implementation' % slot, where(f))
            for g, vals, raw, _, loc in c.rec.values():
                if g.name == f.name: continue
                kc = [j for j, x in enumerate(vals) if x is not c.mid and c.start_class(x)]; km = [j for j, x in enumerate(vals) if x is c.mid]
                if kc and km: G.setdefault((g.name, kc[0], km[0], raw[kc[0]].op == 'al', raw[km[0]].op == 'al'), g)
    wl = list(G.items()); seen = set(); searched = 0
    while wl:
        (gn, kc, km, rc, rm), g = wl.pop()
        if (gn, kc, km) in seen: continue
        seen.add((gn, kc, km)); R.need(len(seen) < 30, 'too many search functions'); R.fns.add(pretty(g))
        cl = T('ld', T('arg', kc)) if rc else T('arg', kc); mid = T('ld', T('arg', km)) if rm else T('arg', km)
        over, _ = find_loops(g, {'Class.methods'})
        nm = re.sub(r'\(.*', '', pretty(g)).split(' ')[-1]
        if not any(True for _ in over) and not any(i['op'] in ('call', 'invoke') and i['callee'][0] == 'g' and i['callee'][1] in m.fns for b in g.blocks for i in b): continue
        c = Over(R, over, nm, cl, mid); absint.Interp(g, c, limit=200, splitsel=True, facts={mkeq(mid, NULL): False}).run()     # the dispatchers call it with an id they have dereferenced
        searched += len(over)
        if over or c.basel:
            for g2, vals, raw, ended, loc in c.rec.values():
                km2 = [j for j, x in enumerate(vals) if x is mid]
                own = [j for j, x in enumerate(vals) if x is cl]
                el = [j for j, x in enumerate(vals) if any(y in c.basel for y in root_table(c.interp, x.a[0] if x.op == 'ld' else x))]
                if not km2 or not (own or el): R.bad('searches-the-right-class', nm, '%s looks further in %s' % (nm, ', '.join(show(x) for x in vals)), loc); continue
                if el and over: R.check(ended, 'own-class-first', nm, '%s looks into a base before its own members' % nm, loc, 'own members first')
                k = (own or el)[0]; wl.append(((g2.name, k, km2[0], raw[k].op == 'al' or k in el and vals[k].op != 'ld', raw[km2[0]].op == 'al'), g2))
        else:
            for g2, vals, raw, ended, loc in c.rec.values():
                km2 = [j for j, x in enumerate(vals) if x is mid]; own = [j for j, x in enumerate(vals) if x is cl]
                if km2 and own: wl.append(((g2.name, own[0], km2[0], raw[own[0]].op == 'al', raw[km2[0]].op == 'al'), g2))
    R.need(searched or any(R.rules.get('stops-only-at-an-override', [0])), 'no search for an implementation found')
    # the class of an object is what the object reports
    for rn in (False, True):
        f = slots(m, rn)['GetObjectClass']; n = [0]
        class K(absint.Client):
            def ret(self, st, v, i):
                for s2, v2 in expand(st, v):
                    if 'null' in (s2.nullness(T('arg', 1)), s2.nullness(T('unpack', 'Object', T('arg', 1)))): continue
                    n[0] += 1
                    x = strip(v2); ok = x.op in ('local', 'handle') or any(y.op == 'site' for y in subterms(x))
                    vs = [y for y in subterms(x) if y.op == 'site' and str(y.a[1]).startswith('virt:')]
                    ok = any(len(y.a) > 2 and y.a[2] is T('unpack', 'Object', T('arg', 1)) for y in vs)
                    R.check(ok, 'objects-report-their-class', 'GetObjectClass', 'GetObjectClass returns %s instead of the class its object reports' % show(v2), m.loc(i), 'GetObjectClass')
        absint.Interp(f, K()).run()
    for r, k in (('searches-the-right-class', 60), ('searches-before-the-id', 60), ('stops-only-at-an-override', 1), ('passes-over-only-what-differs', 1), ('inherited-implementations', 1), ('objects-report-their-class', 2)): R.floor(r, k)
