"""C10 one class object per name; class tables stay consistent."""
from .lib import *
from .search import find_loops, starts, at_end, root_table
from .c11 import leaves
EXPLAIN = ('the class search is interpreted on all paths with loops generalised: it walks the name component by component ("/" between namespaces, "$" between nested classes), stops in a table only at an element whose name was compared equal to the '
           'component, passes over only unequal ones, creates only after the whole table, adds the new class to that very table and to the class table of the VM under its full name, gives it exactly that full name and the component as short name, and '
           'goes on from what it found or made. No other function of the tree makes a class, renames one, or inserts into or removes from a class table. FindClass, host lookups, native registration, signatures and array creation pass the requested name; '
           'the type table only ever gets classes found for the given name.')
ASSUME = ['class names do not contain an embedded NUL', 'std::string comparison compares the full text']
TREE = {'Namespace.namespaces', 'Namespace.classes', 'Class.classes'}
KNOWNTABLES = TREE | {'VM.classes'}
NAME = T('arg', 2)
FULL = T('str', NAME)
def named(x):
    """element whose name the term x is"""
    if x.op != 'ld': return None
    a = x.a[0]
    if a.op == 'fld' and a.a[1] in ('Class.name', 'Namespace.name'): return a.a[0]
    return a
def compared(st, h):
    """[(element, text, equal?)] for the elements of the table loop h the facts speak about"""
    out = []
    for k, v in st.facts.items():
        if k.op != 'eq': continue
        x, y = k.a
        if x.op == 'pure' and x.a[0] == 'compare' and y is NULL: x, y = x.a[1], x.a[2]
        elif y.op == 'pure' and y.a[0] == 'compare' and x is NULL: x, y = y.a[1], y.a[2]
        for p, q in ((x, y), (y, x)):
            e = named(p)
            if e is not None and e.op == 'ld' and any(s.op == 'phi' and s.a[0] == h for s in e.a[0].syms): out.append((e, q, v))
    return out
def basename(I, st, t):
    """the term selects the text after the last '/' of the requested name, or all of it when there is none; the cases covered (empty: it does not)"""
    out = set()
    def one(x, facts):
        while x.op in ('str', 'cstr', 'alias') and len(x.a) == 1: x = x.a[0]
        for y in I.phi_in.get(x, (x,)):
            while y.op in ('str', 'cstr', 'alias') and len(y.a) == 1: y = y.a[0]
            if y.op == 'sel':
                z, v = y.a[0], True
                while z.op == 'not': z = z.a[0]; v = not v
                r = [one(y.a[1], dict(facts, **{}) | {z: v}), one(y.a[2], facts | {z: not v})]
                if not all(r): return False
                continue
            none = [v for k, v in facts.items() if k.op == 'eq' and any(w.op == 'pure' and w.a[0] == 'strrchr' and w.a[1] in (NAME, FULL) and w.a[2] in (C(47), 47) for w in k.a) and NULL in k.a]
            if y in (NAME, FULL) and none == [True]: out.add('all')
            elif y.op == 'off' and y.a[1] in (1, C(1)) and y.a[0].op == 'pure' and y.a[0].a[0] == 'strrchr' and y.a[0].a[1] in (NAME, FULL) and y.a[0].a[2] in (C(47), 47) and none == [False]: out.add('last')
            else: return False
        return True
    return out if one(t, dict(st.facts)) else set()
class Search(absint.Client):
    def __init__(self, R, m, over, outer):
        self.R = R; self.m = m; self.over = over; self.outer = outer; self.text = {}; self.nret = 0; self.kinds = set(); self.sep = {}; self.ends = set()
    def key(self, st):
        # keep apart what is known of the class reached so far
        return tuple(sorted((id(k), v) for k, v in st.facts.items() if k.op == 'eq' and NULL in k.a and any(x.op == 'mphi' for x in k.a)))
    # -- tables
    def sepof(self, f): return 47 if f == 'Namespace.namespaces' else 36
    def bases(self, X): return {r for r in self.I0.roots(X) if r is not NULL}
    def container(self, T_, loc):
        """what the searched table belongs to is the namespace of the VM, or what an earlier step found or made"""
        X, f = T_.a; R = self.R
        if f.startswith('Namespace'):
            ok = all((is_field(r, 'VM.np') and r.a[0].op == 'VMof') or r.op == 'new' and r.a[0] == 'Namespace' or r.op == 'ld' and any(t.op == 'fld' and t.a[1] == 'Namespace.namespaces' for t in root_table(self.I0, r.a[0])) for r in self.bases(X))
        else:
            ok = all(r.op == 'new' and r.a[0] == 'Class' or r.op == 'ld' and any(t.op == 'fld' and t.a[1] in ('Namespace.classes', 'Class.classes') for t in root_table(self.I0, r.a[0])) for r in self.bases(X))
        R.check(ok, 'walks-the-name', 'container:' + f, 'the class search looks in %s' % show(T_)[:120], loc, 'table of what the previous component named')
    def mark(self, st, *e):
        if e not in st.cs: st.cs = st.cs + (e,)
    def begins(self, t, seen=()):
        if t in seen: return set()
        if t.op == 'phi' and t in self.I0.phi_in: return {r for v in self.I0.phi_in[t] for r in self.begins(v, seen + (t,))}
        return {t}
    def step(self, st, h, text, loc):
        """facts about the component: bounds and separator"""
        R = self.R; f = self.table(st, h, self.over[h]).a[1]
        if not R.check(text.op == 'strrange', 'walks-the-name', f + ':text', 'a table of the class search is searched for %s' % show(text)[:120], loc, 'searched for the component'): return
        cur, pos = text.a
        rs = self.begins(cur)
        R.check(all(r is NAME or r.op == 'off' and r.a[1] in (1, C(1)) and r.a[0] in self.scans() for r in rs) and (cur is NAME or len(rs) > 1), 'walks-the-name', f + ':start', 'a component of the name starts at %s' % ', '.join(sorted(show(r) for r in rs))[:160], loc, 'components start at the name or after a separator')
        if f != 'Namespace.namespaces':
            ok = any(k.op == 'eq' and v and any(x.op == 'phi' for x in k.a) and any(x.op in ('idx', 'off') and x.a[0] is NAME for x in k.a) for k, v in st.facts.items())
            R.check(ok, 'walks-the-name', f + ':namespaces-first', 'classes are searched before all namespace components were walked', loc, 'after the last namespace component')
        # the table belongs to the current level
        al = [s for s in self.I0.phi_in if s.op == 'mphi' and s.a[1].op == 'al' and any(r.op == 'new' and r.a[0] == 'Class' for r in self.I0.roots(s))]
        nest = [st.get(s.a[1]) for s in al]
        if f == 'Namespace.classes': R.check(all(st.nullness(x) == 'null' for x in nest), 'walks-the-name', 'outer-class', 'a nested class is searched among the classes of the namespace', loc, 'top level class in the namespace')
    def scans(self):
        """end positions of components: symbol -> tables searched for them"""
        out = {}
        for t, ts in self.text.items():
            for x in ts:
                if x.op == 'strrange' and x.a[1].op == 'phi': out.setdefault(x.a[1], set()).update(T_.a[1] for T_ in self.over[t])
        return out
    def at_name_end(self, k, ph): return k.op == 'eq' and ph in k.a and any(x.op in ('idx', 'off') and x.a[0] is NAME for x in k.a)
    def edge(self, st, b, s, c, val, i):
        for ph, use in self.scans().items():
            lp = self.fn.loops.get(ph.a[0], ())
            if b in lp and s not in lp:
                fs = dict(st.facts); z, v = c, val
                while z.op == 'not': z = z.a[0]; v = not v
                fs[z] = v
                sep = {y.a[0] for k, t in fs.items() if k.op == 'eq' and t for x, y in (k.a, k.a[::-1]) if y.op == 'c' and self.at(x) is ph}
                for f in use: self.R.check(sep == {self.sepof(f)} or any(t and self.at_name_end(k, ph) for k, t in fs.items()), 'walks-the-name', f + ':separator', 'a component looked up in %s ends at %s' % (f, sep or 'an unknown place'), self.m.loc(i), '%s ends at its separator or with the name' % f)
        for h, Ts in self.over.items():
            lp = self.fn.loops.get(h, ())
            if b in lp and s not in lp:
                loc = self.m.loc(i)
                for T_ in Ts:
                    self.container(T_, loc)
                T_ = self.table(st, h, Ts, c)
                if at_end(c, val, T_): self.clear(st, h); self.mark(st, 'end', h, T_); continue
                R = self.R; r = compared(st, h); hit = [x for x in r if x[2]]
                if R.check(bool(hit), 'match-is-exact', T_.a[1], 'the class search stops in %s at an element whose name was not compared equal' % T_.a[1], loc, 'stops only at an equal name'):
                    e, text, _ = hit[0]; self.text.setdefault(h, set()).add(text)
                    w = starts(self.I0, h, e.syms); R.check(w is None, 'whole-table', T_.a[1] + ':start', 'the class search starts at %s' % w, loc, 'starts at the first element')
                    self.step(st, h, text, loc); self.clear(st, h); self.mark(st, 'hit', h, e, text)
    def table(self, st, h, Ts, c=None):
        """the table this path walks (the bound it is compared with tells)"""
        for k in ([c] if c is not None else []) + list(st.facts):
            for x in subterms(k):
                if x.op == 'end' and x.a[0] in Ts and any(s.op == 'phi' and s.a[0] == h for s in k.syms): return x.a[0]
        return next(iter(Ts))
    def clear(self, st, h):
        # a new step begins
        st.cs = tuple(e for e in st.cs if e[0] == 'find')
    def backedge(self, st, p, h, vals):
        R = self.R; loc = self.m.loc(self.fn.blocks[p][-1])
        if h in self.over:
            r = compared(st, h); f = self.table(st, h, self.over[h]).a[1]
            ne = [x for x in r if not x[2]]
            R.check(bool(ne) and not any(x[2] for x in r), 'no-match-is-skipped', f, 'the class search passes over an element of %s %s' % (f, 'although its name is equal' if any(x[2] for x in r) else 'whose name was not compared'), loc, 'passes over only unequal names')
            for e, text, _ in ne:
                self.text.setdefault(h, set()).add(text); self.step(st, h, text, loc)
            return
        if any(t in self.fn.loops[h] for t in self.over):
            # one component done: the next one continues behind it, in what it named
            e, text = self.done(st, loc)
            if e is None: return
            self.final(st, loc)
            if text.op == 'strrange':
                R.check(any(v is T('off', text.a[1], 1) or v.op == 'off' and v.a[0] is text.a[1] and v.a[1] in (1, C(1)) for v in vals.values()), 'walks-the-name', 'advance', 'the class search does not continue behind the separator', loc, 'continues behind the separator')
            for s in list(self.I0.phi_in):
                if s.op == 'mphi' and s.a[0] == h and s.a[1].op == 'al' and any(s in T_.a[0].syms or s is T_.a[0] for Ts in self.over.values() for T_ in Ts):
                    v = st.get(s.a[1])
                    R.check(v is e, 'walks-the-name', 'descend:' + (e.a[0] if e.op == 'new' else 'found'), 'the class search continues in %s instead of what the component named' % show(v)[:100], loc, 'continues in what the component named')
            st.cs = ()
            return
        # scanning for a separator
        for id_, v in vals.items():
            if v.op == 'off' and v.a[0].op == 'phi' and v.a[0].a[0] == h and v.a[1] in (1, C(1)):
                ph = v.a[0]
                neq = {y.a[0] for k, t in st.facts.items() if k.op == 'eq' and not t for x, y in (k.a, k.a[::-1]) if y.op == 'c' and self.at(x) is ph}
                for f in self.scans().get(ph, ()): R.check(self.sepof(f) in neq, 'walks-the-name', f + ':scan', 'the scan for the end of a component passes over a separator', loc, 'stops at the first separator')
    def at(self, x):
        while x.op == 'cast': x = x.a[-1]
        return x.a[0] if x.op == 'ld' else None
    def done(self, st, loc):
        """the element the current step found or made"""
        R = self.R
        hit = [e for e in st.cs if e[0] == 'hit']; new = [e for e in st.cs if e[0] == 'push']
        if hit and not new: return hit[-1][2], hit[-1][3]
        if len(new) == 1 and not hit: return new[0][1], new[0][2]
        R.bad('walks-the-name', 'step', 'the class search goes on without having found or made what the component names', loc); return None, None
    # -- effects
    def there(self, st, a):
        # an element whose name was looked at is there
        if a.op == 'fld': a = a.a[0]
        if a.op == 'ld' and any(x.op == 'phi' and x.a[0] in self.over for x in a.a[0].syms) and st.nullness(a) is None: st.facts[mkeq(a, NULL)] = False
    def load(self, st, a, v, i): self.there(st, a)
    def call(self, st, ev):
        if ev.name.startswith(('std::string', 'std::basic_string', 'std::operator')):
            for a in ev.args: self.there(st, a)
        op = cont_op(ev)
        if not op or not ev.args: return
        c = ev.args[0]; R = self.R
        if c.op != 'fld' or c.a[1] not in KNOWNTABLES: return
        if op[0] == 'del': R.bad('tables-only-grow', c.a[1] + ':' + op[1], 'the class search performs %s on %s' % (op[1], c.a[1]), ev.loc); return
        if op[0] != 'ins': return
        if c.a[1] == 'VM.classes': return                 # judged by the entry made
        v = st.get(ev.args[1]) if len(ev.args) > 1 else NULL
        h = [e for e in st.cs if e[0] == 'end' and e[2] is c]
        R.check(bool(h), 'created-where-searched', c.a[1], 'a class or namespace is added to %s, which was not searched to its end' % show(c)[:100], ev.loc, 'added to the table searched')
        R.check(v.op == 'new' and v.a[0] == ('Namespace' if c.a[1] == 'Namespace.namespaces' else 'Class'), 'created-where-searched', c.a[1] + ':kind', '%s is added to %s' % (show(v)[:80], c.a[1]), ev.loc)
        R.check(not any(e[0] == 'push' for e in st.cs), 'created-where-searched', c.a[1] + ':twice', 'a component is created twice', ev.loc)
        ts = set()
        for e in h: ts |= self.text.get(e[1], set())
        self.mark(st, 'push', v, next(iter(ts)) if len(ts) == 1 else T('several', *ts))
        self.news.add((v, c.a[1]))
    news = None; bn = frozenset()
    def final(self, st, loc):
        """what was created on this path is complete"""
        R = self.R; I = self.I0
        for e in st.cs:
            if e[0] != 'push': continue
            n, text = e[1], e[2]
            if n.op != 'new': continue
            nm = st.get(n if n.a[0] == 'Namespace' and st.mem.get(fld(n, 'Namespace.name')) is None else fld(n, n.a[0] + '.name'))
            R.check(nm is text, 'carries-its-name', n.a[0] + ':short', 'a %s looked up as %s is created with the name %s' % (n.a[0], show(text)[:80], show(nm)[:80]), loc, 'named like the component')
            if n.a[0] != 'Class': continue
            key = st.get(fld(n, 'Class.nativeprefix'))
            pos = text.a[1] if text.op == 'strrange' else None
            R.check(key.op == 'strrange' and key.a[0] is NAME and key.a[1] is pos, 'carries-its-name', 'Class:full', 'a created class gets the full name %s' % show(key)[:100], loc, 'full name is the name up to and including the component')
            self.recorded(st, n, key, loc)
    def recorded(self, st, n, key, loc):
        ent = [(a, v) for a, v in st.mem.items() if a.op == 'slot' and is_field(a.a[0], 'VM.classes') and v is n]
        self.R.check(bool(ent) and all(a.a[1] is key and a.a[0].a[0].op == 'VMof' for a, v in ent), 'recorded-under-full-name', 'class', 'a created class is recorded in the class table of the VM under %s' % (', '.join(show(a.a[1])[:80] for a, v in ent) or 'nothing'), loc, 'recorded under its full name')
    def ret(self, st, v, i):
        r = st.get(T('arg', 0)) if v is None else v
        for s2, v2 in expand(st, r): self.one(s2, v2, self.m.loc(i))
    def one(self, st, r, loc):
        R = self.R; I = self.I0; self.nret += 1
        self.final(st, loc)
        if st.nullness(r) == 'null':
            miss = any(e[0] == 'end' for e in st.cs) or any(k.op == 'eq' and v and any(x.op == 'find' for x in k.a) and any(x.op == 'end' for x in k.a) for k, v in st.facts.items())
            R.check(miss and not any(e[0] == 'push' for e in st.cs), 'result-is-the-class', 'null', 'the class search answers null without having missed the class', loc, 'null only after a miss'); return
        if r.op == 'ld' and any(x.op == 'find' for x in subterms(r)):
            f = [x for x in subterms(r) if x.op == 'find'][0]
            R.check(is_field(f.a[0], 'VM.classes') and f.a[1] in (FULL, NAME), 'result-is-the-class', 'table', 'the class search answers with the entry of %s' % show(f)[:100], loc, 'entry under the requested name')
            R.check(any(k.op == 'eq' and not v and f in k.a for k, v in st.facts.items()), 'result-is-the-class', 'hit', 'the class search answers with an entry it did not find', loc); self.kinds.add('table'); return
        if r.op == 'new' and r.a[0] == 'Class' and not any(e[0] == 'push' for e in st.cs):
            # made outside the tree (array classes): after a miss in the class table
            R.check(any(k.op == 'eq' and v and any(x.op == 'find' and is_field(x.a[0], 'VM.classes') and x.a[1] in (FULL, NAME) for x in k.a) for k, v in st.facts.items()), 'created-where-searched', 'VM.classes', 'a class is made without a miss of its name in the class table', loc, 'made after a miss')
            key = st.get(fld(r, 'Class.nativeprefix'))
            R.check(leaves(I, key) <= {NAME}, 'carries-its-name', 'Class:full', 'a created class gets the full name %s' % show(key)[:100], loc, 'full name is the requested name')
            ent = [(a, v) for a, v in st.mem.items() if a.op == 'slot' and is_field(a.a[0], 'VM.classes') and v is r]
            R.check(bool(ent) and all(leaves(I, a.a[1]) <= {NAME} for a, v in ent), 'recorded-under-full-name', 'array', 'a created class is recorded under %s' % (', '.join(show(a.a[1])[:80] for a, v in ent) or 'nothing'), loc, 'recorded under the requested name')
            bn = basename(I, st, st.get(fld(r, 'Class.name'))); self.bn |= bn
            R.check(bool(bn), 'carries-its-name', 'Class:array', 'a class made outside the tree gets the short name %s' % show(st.get(fld(r, 'Class.name')))[:140], loc, 'last path component'); self.kinds.add('made'); return
        st_e = [e for e in st.cs if e[0] in ('hit', 'push')]
        ok = bool(st_e) and (st_e[-1][2] if st_e[-1][0] == 'hit' else st_e[-1][1]) is r
        R.check(ok, 'result-is-the-class', 'tree', 'the class search answers with %s' % show(r)[:120], loc, 'what the last component named')
        if ok:
            text = st_e[-1][3] if st_e[-1][0] == 'hit' else st_e[-1][2]
            pos = text.a[1] if text.op == 'strrange' else None
            R.check(any(k.op == 'eq' and v and pos in k.a and any(x.op in ('idx', 'off') and x.a[0] is NAME for x in k.a) for k, v in st.facts.items()), 'result-is-the-class', 'whole-name', 'the class search answers before the whole name was walked', loc, 'whole name walked')
            R.check(r.op == 'new' and r.a[0] == 'Class' or any(t.op == 'fld' and t.a[1] in ('Namespace.classes', 'Class.classes') for t in root_table(I, r.a[0])), 'result-is-the-class', 'kind', 'the class search answers with %s' % show(r)[:80], loc); self.kinds.add('tree')
SEARCH = 'jnivm::InternalFindClass'
def run(R):
    m = R.mod('full')
    fs = [f for f in m.by_base(SEARCH) if 'ENV' in f.dem.split('(')[1]]
    R.need(len(fs) == 1, 'class search')
    f = fs[0]; R.fns.add(pretty(f))
    over, _ = find_loops(f, TREE)
    R.need(over, 'tables of the class search')
    outer = {h for h, lp in f.loops.items() if any(t in lp and t != h for t in over)}
    for _ in range(2):                      # the component texts of a table are known after the first pass
        q = Only(R) if _ == 0 else R
        c = Search(q, m, over, outer); c.news = set()
        I = absint.Interp(f, c, limit=400, splitsel=True)
        c.I0 = I0 if _ else I
        if _: c.text = text
        I.run(); I0 = I; text = c.text
    R.check(c.bn == {'all', 'last'}, 'carries-its-name', 'Class:array-cases', 'the short name of a class made outside the tree is not its last path component in every case', where(f), 'with and without a path')
    R.need(c.kinds >= {'table', 'made', 'tree'}, 'results of the class search: %s' % c.kinds)
    R.check({t.a[1] for Ts in over.values() for t in Ts} == TREE, 'walks-the-name', 'tables', 'the class search does not search all of %s' % sorted(TREE), where(f), 'namespaces, classes and nested classes')
    others(R)
    users(R)
    R.floor('match-is-exact', 3); R.floor('no-match-is-skipped', 3); R.floor('walks-the-name', 10); R.floor('carries-its-name', 4); R.floor('recorded-under-full-name', 2); R.floor('result-is-the-class', 4)
def others(R):
    """nobody else makes, renames or tables classes"""
    m = R.mod('api'); s = [f for f in m.by_base(SEARCH)]
    names = {f.name for f in s}
    for f in m.fns.values():
        if f.name in names or m.only_from(f, names) or f.base.startswith('jnivm::InternalFindClass'): continue
        if f.dem.startswith('std::') or f.dem.startswith('void std::'): continue
        if not any('classes' in str(i) or 'namespaces' in str(i) or 'name' in str(i.get('vf', '')) or 'make_shared<jnivm::Class' in m.dem.get(i['callee'][1], '') if i['op'] in ('call', 'invoke') and i['callee'][0] == 'g' else 'nativeprefix' in str(i) for b in f.blocks for i in b) and not any('Class' in str(i.get('vf', '')) for b in f.blocks for i in b): pass
        ctor = f.base.split('::')[-1] in ('Class', 'Namespace', '~Class', '~Namespace', 'VM', '~VM', 'operator=')
        class K(absint.Client):
            def call(k, st, ev):
                op = cont_op(ev); n = ev.name
                if op and op[0] != 'read' and ev.args and ev.args[0].op == 'fld' and ev.args[0].a[1] in KNOWNTABLES and not ctor:
                    R.bad('tables-only-grow', '%s:%s' % (f.base, ev.args[0].a[1]), '%s performs %s on %s' % (pretty(f), op[1], ev.args[0].a[1]), ev.loc)
                if n in ('std::make_shared', 'std::allocate_shared') and re.search(r'(make|allocate)_shared<jnivm::(Class|Namespace)\b', ev.dem):
                    R.bad('one-maker', f.base, '%s makes a class of its own' % pretty(f), ev.loc)
                if ev.args and ev.args[0].op == 'fld' and ev.args[0].a[1] in ('Class.nativeprefix', 'Class.name', 'Namespace.name') and re.match(r'std::(basic_)?string::', n) and n.split('::')[-1] in ('operator=', 'assign', 'append', 'operator+=', 'clear', 'erase', 'push_back', 'swap', 'replace', 'insert') and not ctor:
                    R.bad('names-are-final', '%s:%s' % (f.base, ev.args[0].a[1]), '%s changes %s' % (pretty(f), ev.args[0].a[1]), ev.loc)
            def store(k, st, a, v, i):
                if a.op == 'fld' and a.a[1] in ('Class.nativeprefix', 'Class.name', 'Namespace.name') and a.a[0].op not in ('al',) and not ctor and not (is_field(a.a[0], 'VM.np')):
                    R.bad('names-are-final', '%s:%s' % (f.base, a.a[1]), '%s changes %s' % (pretty(f), a.a[1]), m.loc(i))
        hits = False
        for b in f.blocks:
            for i in b:
                d = m.dem.get(i['callee'][1], '') if i['op'] in ('call', 'invoke') and i['callee'][0] == 'g' else ''
                if 'jnivm::Class' in d or 'Namespace' in d or i['op'] in ('call', 'invoke') and 'basic_string' in d or i['op'] == 'store': hits = True
        if not hits: continue
        absint.Interp(f, K()).run(); R.ok('one-maker', pretty(f))
    R.floor('one-maker', 100)
LETTER = {'NewBooleanArray': 'Z', 'NewByteArray': 'B', 'NewCharArray': 'C', 'NewShortArray': 'S', 'NewIntArray': 'I', 'NewLongArray': 'J', 'NewFloatArray': 'F', 'NewDoubleArray': 'D'}
def asks(m, f, **kw):
    """[(state, name term, location)] of the class searches f makes"""
    out = []
    class K(absint.Client):
        def call(k, st, ev):
            if ev.name in (SEARCH, 'jnivm::ENV::GetClass') and len(ev.args) > 1 and '::operator()' not in ev.dem: out.append((st.copy(), models.absint_S(ev.args[2 if ev.i.get('sret') else 1]), ev.loc))
    absint.Interp(f, K(), splitsel=True, **kw).run()
    return out
def has(f, m, rx):
    return any(i['op'] in ('call', 'invoke') and i['callee'][0] == 'g' and re.search(rx, m.dem.get(i['callee'][1], '')) for b in f.blocks for i in b)
def users(R):
    m = R.mod('api', ('w_jni.cpp', 'w_bases.cpp'))
    rx = r'jnivm::InternalFindClass\(|jnivm::ENV::GetClass\('
    own = {f.name for f in m.by_base(SEARCH)}
    # by name: the requested one and no other
    ent = [(S, f, 1) for rn in (False, True) for S, f in slots(m, rn).items() if S == 'FindClass'] + [(f.base, f, 2) for f in m.fns.values() if f.base in ('FakeJni::Jvm::findClass', 'Baron::Jvm::findClass')]
    ent += [(pretty(f).split('(')[0], f, 2) for f in m.fns.values() if f.base == 'jnivm::ENV::GetClass' or re.match(r'std::shared_ptr<jnivm::Class> jnivm::ENV::GetClass<', f.dem)]
    ent += [('InternalFindClass', f, 1) for f in m.by_base(SEARCH) if 'JNIEnv' in f.dem]
    for who, f, k in ent:
        if f is None: continue
        q = asks(m, f); R.fns.add(pretty(f))
        R.check(bool(q), 'passes-the-name', who + ':none', '%s never searches a class' % who, where(f))
        for st, t, loc in q: R.check(leaves(T0, t) <= {T('arg', k)} and bool(leaves(T0, t)), 'passes-the-name', who, '%s searches the class %s' % (who, show(t)[:120]), loc, '%s searches the requested name' % who)
    for rn in (False, True):
        S = slots(m, rn)
        for s, l in LETTER.items():
            R.need(S.get(s), s)
            for st, t, loc in asks(m, S[s]): R.check(t in (T('lit', '[' + l), T('cat', T('lit', '['), T('lit', l))), 'array-class-name', s, '%s makes an array of class %s' % (s, show(t)[:80]), loc, '%s: [%s' % (s, l))
        seen = set()
        for st, t, loc in asks(m, S['NewObjectArray']):
            np = T('ld', fld(T('unpack', 'Class', T('arg', 2)), 'Class.nativeprefix'))
            arr = t is T('cat', T('lit', '['), np); obj = t is T('cat', T('lit', '[L'), np, T('lit', ';'))
            f0 = [v for k, v in st.facts.items() if k.op == 'eq' and C(91) in k.a and any(x is np for y in k.a for x in subterms(y))]
            R.check((arr and f0 == [True]) or (obj and f0 == [False]), 'array-class-name', 'NewObjectArray', 'NewObjectArray makes an array of class %s' % show(t)[:120], loc, 'NewObjectArray: [L<name>; or [<array name>')
    # named in a signature: the text between L and ;
    for f in m.fns.values():
        if f.base != 'jnivm::Declare': continue
        q = []
        class D(absint.Client):
            def call(k, st, ev):
                if ev.name == 'jni:FindClass': q.append((st.copy(), ev.args[1], ev.loc))
        I = absint.Interp(f, D(), splitsel=True); I.run(); R.need(q, 'class names in signatures')
        for st, t, loc in q:
            while t.op in ('cstr', 'str'): t = t.a[0]
            ok = t.op == 'strrange' and t.a[0].op == 'off' and t.a[0].a[1] in (1, C(1)) and t.a[0].a[0].op == 'phi'
            cur = t.a[0].a[0] if ok else None
            def at(p, c): return any(k.op == 'eq' and v and C(c) in k.a and any(y.op == 'ld' and y.a[0] is p for x in k.a for y in subterms(x)) for k, v in st.facts.items())
            end = t.a[1] if ok else None
            stop = ok and (at(end, 59) or any(k.op == 'eq' and v and end in k.a for k, v in st.facts.items()))
            R.check(ok and at(cur, 76) and stop, 'passes-the-name', 'Declare', 'the classes of a signature are looked up as %s' % show(t)[:120], loc, 'text between L and ;')
    # the type table: only classes found for the given name
    n = 0
    for f in m.fns.values():
        if not any('type_index' in m.dem.get(i['callee'][1], '') for b in f.blocks for i in b if i['op'] in ('call', 'invoke') and i['callee'][0] == 'g'): continue
        made = []; g = re.search(r'ENV::GetClass<(.*)>\(', f.dem)
        class K(absint.Client):
            def after(k, st, ev):
                op = cont_op(ev)
                if op and op[0] != 'read' and ev.args[0].op == 'fld' and ev.args[0].a[1] == 'VM.typecheck':
                    made.append(ev.loc)
                    if op[1] != 'operator[]' or ev.res is None: R.bad('type-table', '%s:%s' % (f.base, op[1]), '%s performs %s on the type table' % (pretty(f), op[1]), ev.loc)
                    elif ('open', ev.res, ev.loc) not in st.cs: st.cs = st.cs + (('open', ev.res, ev.loc),)
            def ret(k, st, v, i):
                for e in st.cs:
                    x = st.mem.get(e[1])
                    if not R.check(x is not None and isclass(x), 'type-table', f.base + ':entry', '%s leaves %s in the type table' % (pretty(f), 'an entry without a class' if x is None else show(x)[:80]), e[2], 'entry is the class found'): continue
                    if g: R.check(demtype(e[1].a[1]) == g.group(1), 'type-table', f.base + ':type', '%s enters the class under type %s' % (pretty(f), demtype(e[1].a[1])), e[2], 'under the type registered')
                if g:
                    r = st.get(T('arg', 0)) if v is None else v
                    R.check(isclass(r) and (not st.cs or r is st.mem.get(st.cs[0][1])), 'type-table', f.base + ':ret', '%s returns %s' % (pretty(f), show(r)[:80]), m.loc(i), 'returns the class registered')
        absint.Interp(f, K(), splitsel=True).run()
        if made: n += 1
    R.floor('passes-the-name', 12); R.floor('array-class-name', 16); R.floor('type-table', 9)
def isclass(x): return x.op == 'class' or x.op == 'site' and x.a[1].split('::')[-1] in ('GetClass', 'InternalFindClass') and not x.a[1].startswith('JNITypes')
def demtype(t):
    x = t.a[0]
    x = x.a[0] if isinstance(x, Term) else x
    return absint.short(models.demangle_ti(x)) if str(x).startswith('_ZTI') else str(x)
class _T0:
    def roots(self, t): return {t}
T0 = _T0()
