"""C28 subtype answers follow the declared base classes transitively."""
from .lib import *
from .search import root_table
from .c01 import unw
EXPLAIN = ('the subtype walk is found through IsAssignableFrom and IsInstanceOf of both tables: it is applied to the two classes given (the class the object reports, for IsInstanceOf) and its answer is returned unchanged; on every path of it, true is returned only where the two classes were '
           'compared equal or the same question about a declared base was answered true, false only where they differ and every base was asked in vain; the walk over the bases covers all of them. A null object is an instance of nothing. GetSuperclass returns the first declared base, or null if there is none. '
           'None of these writes to a class. Every declared hierarchy (witness classes with one to three bases) lists exactly its declared bases, in order, and becomes the hierarchy of the registered class.')
ASSUME = ['hierarchies are acyclic, as C++ inheritance is']
def bases_of(ev): return ev.name == 'std::function::operatorCALL' and len(ev.args) > 1 and is_field(ev.args[1], 'Class.baseclasses')
class Walk(absint.Client):
    effects_on_unwind = True
    def __init__(self, R, nm, cl, c2): self.R = R; self.nm = nm; self.cl = cl; self.c2 = c2; self.basel = set(); self.rec = {}; self.nret = 0
    def mark(self, st, *e):
        if e not in st.cs: st.cs = st.cs + (e,)
    def call(self, st, ev):
        if bases_of(ev):
            R = self.R; R.check(ev.args[1].a[0] is self.cl, 'walks-the-declared-bases', self.nm + ':of', '%s walks the bases of %s' % (self.nm, show(ev.args[1].a[0])), ev.loc, 'walks the bases of the class asked')
            if ev.args[1].a[0] is self.cl: self.basel.add(ev.args[0])
        c = ev.i['callee']
        if c[0] == 'g' and c[1] in self.fn.m.fns and not ev.name.startswith('std::'):
            g = self.fn.m.fns[c[1]]
            el = [j for j, a in enumerate(ev.args) if (a.op == 'ld' and any(t in self.basel for t in root_table(self.interp, a.a[0]))) or any(t in self.basel for t in root_table(self.interp, a))]
            k2 = [j for j, a in enumerate(ev.args) if a is self.c2]; k1 = [j for j, a in enumerate(ev.args) if a is self.cl]
            if el or k1 or k2: self.rec[ev.i['id']] = (g, el[0] if el else None, k1[0] if k1 else None, k2[0] if k2 else None, tuple(ev.args), ev.loc)
    def asked(self, st):
        """[(site, answer)] of questions about bases that were answered on this path"""
        out = []
        for k, v in st.facts.items():
            z = unw(k.a[0]) if k.op in ('bool', 'not') else k
            if k.op == 'not': v = not v
            if z is not None and z.op == 'site' and z.a[0] in self.rec: out.append((z, v))
        return out
    def edge(self, st, b, s, c, val, i):
        for h, lp in self.fn.loops.items():
            if b in lp and s not in lp:
                z, v = c, val
                while z.op == 'not': z = z.a[0]; v = not v
                e = z.op == 'eq' and v and any(x.op == 'end' and x.a[0] in self.basel for x in z.a)
                e = e or z.op in ('ult', 'eq') and v == (z.op == 'eq') and any(y.op == 'pure' and y.a[0] == 'vsize' and y.a[1] in self.basel for x in z.a for y in subterms(x))
                if e: self.mark(st, 'all')
    def backedge(self, st, p, h, vals):
        R, m = self.R, self.fn.m; loc = m.loc(self.fn.blocks[p][-1])
        a = [(z, v) for z, v in self.asked(st) if any(s.op == 'phi' and s.a[0] == h for s in z.syms)]
        if any(v for z, v in a): R.bad('walks-the-declared-bases', self.nm + ':found', '%s goes on although a base is a subtype' % self.nm, loc); return
        null = any(k.op == 'eq' and NULL in k.a and v and any(x.op == 'ld' and set(root_table(self.interp, x.a[0])) & self.basel for x in k.a) for k, v in st.facts.items())
        acc = [z for z in self.rec if True] and any(unw(v).op == 'site' and unw(v).a[0] in self.rec for v in (vals.values() if isinstance(vals, dict) else vals) if isinstance(v, Term) and unw(v) is not None)
        if self.basel: R.check(bool(a) or null or acc, 'walks-the-declared-bases', self.nm + ':skip', '%s passes over a base without asking about it' % self.nm, loc, 'every base is asked')
    def ret(self, st, v, i):
        for s2, v2 in expand(st, v): self.one(s2, v2, i)
    def one(self, st, v, i):
        R, loc = self.R, self.fn.m.loc(i); v = unw(v); self.nret += 1
        e = mkeq(self.cl, self.c2); same = st.truth(e)
        nob = st.truth(mkeq(T('ld', fld(self.cl, 'Class.baseclasses')), NULL)) is True
        if v.op == 'c' or v is TRUE or v is FALSE or v is NULL:
            val = bool(v.a[0]) if v.op == 'c' else v is TRUE
            if val: R.check(same is True or any(x for z, x in self.asked(st)), 'answers-follow-the-bases', self.nm + ':true', '%s answers true without the classes being equal or a base being a subtype' % self.nm, loc, 'true only for equal classes or a matching base')
            else:
                R.check(same is False, 'answers-follow-the-bases', self.nm + ':same', '%s answers false without having compared the classes' % self.nm, loc, 'false only for different classes')
                R.check(nob or ('all',) in st.cs, 'answers-follow-the-bases', self.nm + ':false', '%s answers false without having asked all bases' % self.nm, loc, 'false only after all bases')
        elif v.op == 'site' and v.a[0] in self.rec:
            g, el, k1, k2, args, l = self.rec[v.a[0]]
            R.check(k1 is not None and el is None or st.truth(v) is True, 'answers-follow-the-bases', self.nm + ':one', '%s answers what one base answers' % self.nm, loc)
        elif v is e or v.op == 'eq' and set(v.a) == {self.cl, self.c2}:
            R.check(nob or ('all',) in st.cs, 'answers-follow-the-bases', self.nm + ':false', '%s answers without having asked all bases' % self.nm, loc)
        else: R.bad('answers-follow-the-bases', self.nm + ':ret', '%s answers %s' % (self.nm, show(v)), loc)
    def store(self, st, a, v, i):
        if a.op == 'fld' and a.a[1].startswith('Class.'): self.R.bad('asking-changes-nothing', self.nm + ':' + a.a[1], '%s writes %s' % (self.nm, show(a)), self.fn.m.loc(i))
def run(R):
    m = R.mod('api', ('w_bases.cpp',)); G = {}
    for rn in (False, True):
        S = slots(m, rn)
        for slot in ('IsAssignableFrom', 'IsInstanceOf'):
            f = S[slot]; R.fns.add(pretty(f)); n = [0]; c2 = T('unpack', 'Class', T('arg', 2)); first = T('unpack', 'Class', T('arg', 1))
            sites = {}
            class K(absint.Client):
                def call(self, st, ev):
                    c = ev.i['callee']
                    if c[0] == 'g' and c[1] in m.fns or ev.name.startswith('jni:'): sites[ev.i['id']] = (ev, tuple(ev.args))
                def store(self, st, a, v, i):
                    if a.op == 'fld' and a.a[1].startswith('Class.'): R.bad('asking-changes-nothing', slot + ':' + a.a[1], '%s writes %s' % (slot, show(a)), m.loc(i))
                def ret(self, st, v, i):
                    for s2, v2 in expand(st, v): self.one(s2, unw(v2), i)
                def one(self, st, v, i):
                    loc = m.loc(i); inst = slot == 'IsInstanceOf'
                    if inst and st.nullness(T('arg', 1)) == 'null':
                        R.check(v is NULL or v.op == 'c' and v.a[0] == 0, 'null-is-no-instance', slot, 'IsInstanceOf answers %s for a null object' % show(v), loc, 'IsInstanceOf(null)'); return
                    if inst and st.nullness(T('unpack', 'Object', T('arg', 1))) == 'null':
                        R.check(v is NULL or v.op == 'c' and v.a[0] == 0, 'null-is-no-instance', slot + ':dead', 'IsInstanceOf answers %s for a dead object' % show(v), loc); return
                    if v.op == 'c' and not inst and st.truth(mkeq(first, c2)) is not None: R.check((v.a[0] != 0) and st.truth(mkeq(first, c2)), 'answers-are-the-walks', slot, '%s answers %s without asking' % (slot, show(v)), loc); return
                    if v.op == 'c' and v.a[0] == 0 and any(st.nullness(x) == 'null' for x in (c2, first, T('arg', 2), T('arg', 1))): return
                    if not (v.op == 'site' and v.a[0] in sites): R.bad('answers-are-the-walks', slot, '%s answers %s' % (slot, show(v)), loc); return
                    ev, args = sites[v.a[0]]; n[0] += 1
                    if inst and ev.name == 'jni:IsAssignableFrom':
                        oc = args[1]; ok = args[2] is T('arg', 2)
                    else:
                        k2 = [a for a in args if a is c2]; oc = [a for a in args if a is not c2 and a is not T('arg', 0) and a is not T('ENV', T('arg', 0))]
                        ok = len(k2) == 1 and len(oc) == 1; oc = oc[0] if oc else UNK
                        if ok and (not inst and oc is first or inst): G.setdefault((m.fns[ev.i['callee'][1]].name, args.index(oc), args.index(c2)), m.fns[ev.i['callee'][1]])
                    if inst:
                        ss = [y for y in subterms(oc) if y.op == 'site' and ('GetObjectClass' in str(y.a[1]) or str(y.a[1]).startswith('virt:') or 'getClass' in str(y.a[1]))]
                        ok = ok and bool(ss) and all(any(y is T('arg', 1) for a in x.a[2:] if isinstance(a, Term) for y in subterms(a)) for x in ss)
                    else: ok = ok and oc is first
                    R.check(ok, 'answers-are-the-walks', slot, '%s asks about (%s)' % (slot, ', '.join(map(show, args))), loc, '%s asks about its own classes, in order' % slot)
            absint.Interp(f, K(), splitsel=True).run()
            R.check(n[0] > 0, 'answers-are-the-walks', slot + ':never', '%s never asks' % slot, where(f), slot)
        f = S['GetSuperclass']; R.fns.add(pretty(f)); cl = T('unpack', 'Class', T('arg', 1)); ob = set(); nn = [0]
        class Su(absint.Client):
            def call(self, st, ev):
                if bases_of(ev) and ev.args[1].a[0] is cl: ob.add(ev.args[0])
            def store(self, st, a, v, i):
                if a.op == 'fld' and a.a[1].startswith('Class.'): R.bad('asking-changes-nothing', 'GetSuperclass:' + a.a[1], 'GetSuperclass writes %s' % show(a), m.loc(i))
            def ret(self, st, v, i):
                for s2, v2 in expand(st, v):
                    v2 = strip(v2); v2 = v2.a[0] if v2.op == 'local' else v2
                    if v2 is NULL or s2.nullness(v2) == 'null':
                        ok = s2.truth(mkeq(T('ld', fld(cl, 'Class.baseclasses')), NULL)) is True or s2.nullness(cl) == 'null' or s2.nullness(T('arg', 1)) == 'null' or any(k.op == 'eq' and k.a.count(NULL) and v and any(x.op == 'ld' and set(root_table(self.interp, x.a[0])) & ob for x in k.a) for k, v in s2.facts.items()) or any(v and any(y.op == 'pure' and y.a[0] in ('empty', 'vsize') and y.a[1] in ob for y in subterms(k)) for k, v in s2.facts.items()) or any(k.op in ('pure1', 'eq') and any(z in ob for y in subterms(k) if y.op in ('pure', 'pure1') for z in y.a if isinstance(z, Term)) for k in s2.facts)
                        R.check(ok, 'superclass-is-the-first-base', 'null', 'GetSuperclass returns null for a class with bases', m.loc(i), 'null only without a base')
                    else:
                        nn[0] += 1
                        a = v2.a[0] if v2.op == 'ld' else v2
                        ok = a.op in ('begin', 'front') and a.a[0] in ob or a.op == 'elem' and a.a[0] in ob and (a.a[1] is NULL or a.a[1].op == 'c' and a.a[1].a[0] == 0)
                        R.check(ok, 'superclass-is-the-first-base', 'value', 'GetSuperclass returns %s' % show(v2), m.loc(i), 'the first declared base')
        absint.Interp(f, Su(), splitsel=True).run()
        R.check(nn[0] > 0, 'superclass-is-the-first-base', 'never', 'GetSuperclass never returns a base', where(f))
    R.need(G, 'no subtype walk found'); wl = list(G.items()); seen = set(); walked = 0
    while wl:
        (gn, k1, k2), g = wl.pop()
        if (gn, k1, k2) in seen: continue
        seen.add((gn, k1, k2)); R.need(len(seen) < 20, 'too many walk functions'); R.fns.add(pretty(g)); nm = re.sub(r'\(.*', '', pretty(g)).split(' ')[-1]
        c = Walk(R, nm, T('arg', k1), T('arg', k2)); absint.Interp(g, c, splitsel=True, limit=60).run()
        if c.basel: walked += 1
        for g2, el, kk1, kk2, args, loc in c.rec.values():
            if el is None and kk1 is None: continue
            R.check(kk2 is not None, 'walks-the-declared-bases', nm + ':target', '%s asks a base about (%s)' % (nm, ', '.join(map(show, args))), loc, 'asks about the same class')
            if kk2 is not None: wl.append(((g2.name, el if el is not None else kk1, kk2), g2))
    R.check(walked > 0, 'walks-the-declared-bases', 'none', 'the subtype walk never consults the declared bases')
    # the declared bases
    for f in m.fns.values():
        mt = re.search(r'impl::Extends<void, (.*)>::GetBaseClasses$', f.qual)
        if not mt: continue
        R.fns.add(pretty(f)); want = [x.split('::')[-1] for x in models.tlist(f.qual, 'impl::Extends')[1:]]; got = {}; arr = []
        class B(absint.Client):
            def call(self, st, ev):
                op = cont_op(ev)
                if op and op[0] != 'read' and ev.args[0] is T('arg', 0) and op[1] not in ('push_back', 'emplace_back'): arr.append((UNK, op[1]))
                if ev.name in ('std::shared_ptr::shared_ptr', 'std::shared_ptr::operator=') and len(ev.args) > 1 and ev.args[1].op in ('slot', 'ld', 'find', 'second', 'fld'):
                    k = [y for y in subterms(ev.args[1]) if y.op == 'typeid']
                    if k: got.setdefault(ev.args[0], set()).add(re.sub(r'.*?(\w+)$', r'\1', models.demangle_ti(k[0].a[0].a[0]) if k[0].a[0].op == 'g' else show(k[0])))
                if ev.name in ('std::vector::vector', 'std::vector::operator=', 'std::vector::assign') and ev.args[0] is T('arg', 0) and len(ev.args) > 2: arr.append((ev.args[1], ev.args[2]))
                if ev.name in ('std::vector::push_back', 'std::vector::emplace_back') and ev.args[0] is T('arg', 0):
                    k = [y for y in subterms(st.get(ev.args[1]) if ev.args[1].op == 'al' else ev.args[1]) if y.op == 'typeid']
                    if k and ('p', k[0]) not in arr: arr.append(('p', k[0]))
        absint.Interp(f, B()).run()
        ti = lambda t: re.sub(r'.*?(\w+)$', r'\1', models.demangle_ti(t.a[0].a[0])) if t.a[0].op == 'g' else show(t)
        if arr and arr[0][0] == 'p': lst = [ti(t) for p, t in arr]
        else:
            lst = []
            if len({a for a, n in arr}) == 1:
                b, n = arr[0]
                for k in range(n.a[0] if n.op == 'c' else 1):
                    s = got.get(b if k == 0 else T('off', b, 16 * k), set()); lst.append('/'.join(sorted(s)))
        R.check(lst == want, 'all-declared-bases-in-order', ','.join(want) if len(want) > 1 else 'single', 'a class declared to extend %s lists the bases %s' % (', '.join(want), ', '.join(lst) or 'none'), where(f), '%s -> %s' % (', '.join(want), ', '.join(lst)))
    # a registered class gets its declared bases
    DECL = {'HA': ['Object'], 'HC': ['HA'], 'HD': ['HA', 'HB'], 'HE': ['HD', 'HC', 'HB']}; hit = set()
    for f in m.fns.values():
        if not (f.qual.startswith('witness::classes') or 'witness::H' in f.qual and 'GetBaseClasses' not in f.qual): continue
        R.fns.add(pretty(f))
        class C_(absint.Client):
            def call(self, st, ev):
                if ev.name in ('std::function::operator=', 'std::function::function') and len(ev.args) > 1 and is_field(ev.args[0], 'Class.baseclasses'): self.val(st, ev.args[0].a[0], ev.args[1], ev.loc)
            def store(self, st, a, v, i):
                if is_field(a, 'Class.baseclasses'): self.val(st, a.a[0], v, m.loc(i))
            def val(self, st, c, v, loc):
                v = st.get(v) if v.op == 'al' else v
                n = {y.a[0] for y in subterms(c) if y.op == 'lit'}
                fs = [m.fns.get(y.a[0]) for y in subterms(v) if y.op == 'fn']
                for x in n & set(DECL):
                    hit.add(x)
                    l = [[t.split('::')[-1] for t in models.tlist(g.qual, 'impl::Extends')[1:]] for g in fs if g is not None and 'GetBaseClasses' in g.qual]
                    R.check(l == [DECL[x]], 'registered-class-gets-its-hierarchy', x, 'a class extending %s is registered with the bases %s' % (', '.join(DECL[x]), l or show(v)), loc, '%s: %s' % (x, ', '.join(DECL[x])))
        absint.Interp(f, C_()).run()
    for x in DECL: R.check(x in hit, 'registered-class-gets-its-hierarchy', x + ':never', 'registering a class with declared bases does not record its hierarchy')
    for r, k in (('answers-are-the-walks', 4), ('answers-follow-the-bases', 4), ('walks-the-declared-bases', 2), ('superclass-is-the-first-base', 4), ('all-declared-bases-in-order', 3), ('null-is-no-instance', 2)): R.floor(r, k)
