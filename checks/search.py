"""Searches over member tables: which element a loop stops at, which it passes over.
A loop over a table (Class.methods, Class.fields, ...) is judged on its edges: leaving it other than at the end of the
table requires the wanted match to be established for the current element; going on requires a difference."""
from .lib import *
ATTR = {'Method.name': 'name', 'Field.name': 'name', 'Method.signature': 'signature', 'Field.type': 'signature', 'Method._static': 'static', 'Field._static': 'static',
        'Method.native': 'native', 'Method.nativehandle': 'handle', 'Field.getnativehandle': 'handle', 'Field.setnativehandle': 'handle'}
def attr_of(x):
    """(element, attribute) when x is the value of an attribute of a member"""
    if x.op == 'ld' and x.a[0].op == 'fld' and x.a[0].a[1] in ATTR: return x.a[0].a[0], ATTR[x.a[0].a[1]]
    return None
def attrs(st, e):
    """established comparisons of the attributes of e: {attr: [(other term, truth)]}; static/native/handle compare with NULL (truth True: zero)"""
    out = {}
    for k, v in st.facts.items():
        if k.op == 'eq':
            for x, y in (k.a, k.a[::-1]):
                a = attr_of(x)
                if a and a[0] is e: out.setdefault(a[1], []).append((y, v))
                if x.op == 'bool' or x.op == 'cast':
                    z = x.a[-1]; a = attr_of(z) if isinstance(z, Term) else None
                    if a and a[0] is e: out.setdefault(a[1], []).append((y, v))
                if x.op == 'pure' and x.a[0] == 'compare' and y is NULL and len(x.a) == 3:
                    for z, w in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                        a = attr_of(z)
                        if a and a[0] is e: out.setdefault(a[1], []).append((w, v))
        elif k.op == 'bool':
            a = attr_of(k.a[0])
            if a and a[0] is e: out.setdefault(a[1], []).append((NULL, not v))
    return out
def zero(l):
    """truth of attr == 0 from its comparisons"""
    for y, t in l:
        if y is NULL or (y.op == 'c' and y.a[0] == 0): return t
        if y.op == 'c' and y.a[0] == 1: return not t
    return None
def resolved(I, t, seen=None): return I.roots(t) if I else {t}
def judge(I, st, e, want):
    """'match' / 'differs' / None for element e against want = {attr: set of terms | bool}; bool attr: True = non-zero wanted"""
    A = attrs(st, e); allm = True; why = []
    for a, w in want.items():
        l = A.get(a, [])
        if isinstance(w, bool):
            z = zero(l)
            if z is None: allm = False; why.append(a)
            elif (not z) != w: return 'differs', a
        else:
            ok = False
            for y, t in l:
                if w(resolved(I, y), y):
                    if t: ok = True
                    else: return 'differs', a
            if not ok: allm = False; why.append(a)
    return ('match', None) if allm else (None, ','.join(why))
def root_table(I, p, seen=None):
    """container term(s) an element address was taken from"""
    out = set()
    for r in I.roots(p):
        x = r
        while x.op in ('off', 'idx'): x = x.a[0]
        if x.op in ('begin', 'front', 'before_begin', 'end'): out.add(x.a[0])
        elif x.op == 'elem': out.add(x.a[0])
        elif x.op == 'site' and any(isinstance(y, Term) and (y.op == 'fld' or y.op == 'al') for y in x.a[2:]):
            out |= {y for y in x.a[2:] if isinstance(y, Term) and y.op in ('fld', 'al')}
    return out
class Loops(absint.Client):
    """pass 1: which loop headers iterate over which tables; pass 2: judge the edges"""
    def __init__(self, tables): self.tables = tables; self.over = {}; self.elems = {}
    def load(self, st, a, v, i):
        for x in subterms(a):
            if x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[1] in self.tables: self.note(x)
    def call(self, st, ev):
        for a in ev.args:
            if a.op == 'elem' and a.a[0].op == 'fld' and a.a[0].a[1] in self.tables: self.note(a)
    def note(self, x):
        for s in x.a[1].syms:
            if s.op == 'phi': self.over.setdefault(s.a[0], set()).add(x.a[0])
def find_loops(f, tables, **kw):
    c = Loops(tables); I = absint.Interp(f, c, **kw); I.run()
    over = dict(c.over)
    for sym in I.phi_in:
        if sym.op != 'phi': continue
        for t in root_table(I, sym):
            if t.op == 'fld' and t.a[1] in tables:
                # only the header this symbol steps in
                if any(sym in x.syms for x in I.phi_in[sym] if x is not sym): over.setdefault(sym.a[0], set()).add(t)
    return over, I
def elements(st, h):
    """elements of the loop of header h that the current facts speak about"""
    out = set()
    for k in st.facts:
        for x in subterms(k):
            a = attr_of(x)
            if a and any(s.op == 'phi' and s.a[0] == h for s in a[0].syms): out.add(a[0])
    return out
def starts(I, h, syms):
    """the stepping symbols of header h among syms start at the first (or, walking down, the last) element; None: fine, else what they start at"""
    for sym in syms:
        if sym.op != 'phi' or sym.a[0] != h: continue
        for v in I.phi_in.get(sym, ()):
            if sym in v.syms or v is NULL: continue
            if v.op in ('begin', 'before_begin', 'front', 'end') or v.op == 'c' and v.a[0] == 0: continue
            if v.op == 'ld' and v.a[0].op in ('begin', 'front'): continue
            w = v
            while w.op == 'cast' or w.op == 'add' and w.a[1] is C(-1): w = w.a[-1] if w.op == 'cast' else w.a[0]
            if w.op == 'pure' and w.a[0] == 'vsize': continue
            if v.op == 'phi' or any(x.op == 'phi' for x in v.syms): continue      # continues where an outer or earlier walk stands
            if v.op == 'site' and 'erase' in str(v.a[1]): continue
            return show(v)
    return None
def at_end(c, val, T):
    z = c
    while z.op == 'not': z = z.a[0]; val = not val
    if z.op == 'eq' and val and any(x.op == 'end' for x in z.a): return True
    if z.op in ('ult', 'lt') and not val and z.a[1].op in ('pure', 'cast') and any(x.op == 'pure' and x.a[0] == 'vsize' for x in subterms(z.a[1])): return True
    if z.op == 'eq' and val and any(x.op == 'pure' and x.a[0] == 'vsize' for x in z.a): return True
    return False
class Judge(absint.Client):
    """client base: subclasses get exit(st, h, T, e, verdict, why, i) and back(st, h, T, e, verdict, why, vals)"""
    def __init__(self, over, want): self.over = over; self.want = want; self.events = []
    def load(self, st, a, v, i):
        # a member that was looked into is there
        if a.op == 'fld' and a.a[1] in ATTR and a.a[0].op == 'ld' and st.nullness(a.a[0]) is None: st.facts[mkeq(a.a[0], NULL)] = False
    def edge(self, st, b, s, c, val, i):
        for h, Ts in self.over.items():
            lp = self.fn.loops.get(h, ())
            if b in lp and s not in lp:
                # inside an inner table loop of the same kind: that one is judged by itself
                T_ = next(iter(Ts))
                if at_end(c, val, T_): self.done(st, h, T_, 'end', None, None, i); continue
                es = elements(st, h); r = [(judge(self.interp, st, e, self.want(st, self.interp)), e) for e in es]
                best = [x for x in r if x[0][0] == 'match'] or r or [((None, 'nothing compared'), None)]
                self.done(st, h, T_, 'exit', best[0][1], best[0][0], i)
    def backedge(self, st, p, h, vals):
        if h in self.over:
            es = elements(st, h); r = [(judge(self.interp, st, e, self.want(st, self.interp)), e) for e in es]
            best = [x for x in r if x[0][0] == 'differs'] or [x for x in r if x[0][0] == 'match'] or r or [((None, 'nothing compared'), None)]
            self.done(st, h, next(iter(self.over[h])), 'back', best[0][1], best[0][0], self.fn.blocks[p][-1], vals)
    def done(self, st, h, T_, kind, e, verdict, i, vals=None): pass
def is_str(*terms):
    """predicate: every root is one of the terms"""
    s = set(terms)
    return lambda roots, y: y in s or bool(roots) and roots <= s
