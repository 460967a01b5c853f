"""Shared machinery of the property checks: reporting, rule accounting, table slots,
event logs (path summaries) over the abstract interpreter."""
import json, os, re, sys, time, importlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from engine import ir, absint, build, models
from engine.absint import T, Term, NULL, C, UNK, TRUE, FALSE, show, subterms, mkeq, neg, fld
Broken = build.Broken

class Ctx:
    def __init__(self, pid, tier, config):
        self.pid = pid; self.tier = tier; self.config = config
        self.rules = {}; self.viols = {}; self.notes = []; self.samples = []; self.fns = set()
    def mod(self, variant='api', witnesses=()):
        return ir.load(self.config, variant, tuple(witnesses))
    def rule(self, r): return self.rules.setdefault(r, [0, 0])
    def ok(self, rule, what=None, n=1):
        e = self.rule(rule); e[0] += n
        if what and len(self.samples) < 40 and sum(1 for s in self.samples if s['rule'] == rule) < 3:
            self.samples.append({'rule': rule, 'config': self.config, 'instance': what})
    def bad(self, rule, key, msg, loc=None):
        """one violation; key identifies the construct (no line numbers)"""
        e = self.rule(rule); e[0] += 1
        k = '%s:%s' % (rule, key)
        if k not in self.viols:
            e[1] += 1
            self.viols[k] = {'rule': rule, 'key': k, 'message': msg, 'loc': loc or '', 'config': self.config}
    def check(self, cond, rule, key, msg, loc=None, what=None):
        if cond: self.ok(rule, what)
        else: self.bad(rule, key, msg, loc)
        return cond
    def need(self, cond, msg):
        if not cond: raise Broken('%s [%s]: %s' % (self.pid, self.config, msg))
    def floor(self, rule, n):
        got = self.rules.get(rule, [0, 0])[0]
        self.need(got >= n, 'rule %s matched %d instances, expected at least %d (anchors moved?)' % (rule, got, n))

class Only:
    """view of a Ctx that records only some rules (used where one property includes a rule of another)"""
    def __init__(self, R, *rules): self.R = R; self.keep = rules; self.fns = R.fns; self.tier = R.tier; self.config = R.config
    def mod(self, *a, **k): return self.R.mod(*a, **k)
    def ok(self, rule, *a, **k):
        if rule in self.keep: self.R.ok(rule, *a, **k)
    def bad(self, rule, *a, **k):
        if rule in self.keep: self.R.bad(rule, *a, **k)
    def check(self, cond, rule, *a, **k):
        if rule in self.keep: self.R.check(cond, rule, *a, **k)
        return cond
    def need(self, *a): self.R.need(*a)
    def floor(self, rule, n):
        if rule in self.keep: self.R.floor(rule, n)

# ------------------------------------------------------------------ table slots
_slots = {}
def slots(m, ret_null=True):
    """JNI function table built by VM::GetNativeInterfaceTemplate<ret_null>: slot name -> Fn (or None)"""
    k = (id(m), ret_null)
    if k in _slots: return _slots[k]
    fs = m.find(r'GetNativeInterfaceTemplate<%s>\(\)$' % ('true' if ret_null else 'false'))
    if len(fs) != 1: raise Broken('table builder GetNativeInterfaceTemplate<%s> not found' % ret_null)
    out = {}
    class S(absint.Client):
        def store(self, st, a, v, i):
            if a.op == 'fld' and 'JNINativeInterface.' in a.a[1]:
                out[a.a[1].split('.')[-1]] = v
    absint.Interp(fs[0], S()).run()
    out.pop('reserved0', None); out.pop('reserved1', None); out.pop('reserved2', None); out.pop('reserved3', None)
    res = {s: (m.fns.get(v.a[0]) if v.op == 'fn' else None) for s, v in out.items()}
    if len(res) < 200: raise Broken('JNI table has only %d initialised slots' % len(res))
    _slots[k] = res
    return res
def invoke_slots(m):
    """JNIInvokeInterface slots set by the VM constructor -> Fn"""
    out = {}
    class S(absint.Client):
        def store(self, st, a, v, i):
            if a.op == 'fld' and 'JNIInvokeInterface.' in a.a[1] and v.op == 'fn':
                out[a.a[1].split('.')[-1]] = m.fns.get(v.a[0])
    for f in m.fns.values():
        if f.base == 'jnivm::VM::VM' and len(f.params) == 2:
            absint.Interp(f, S()).run()
    return out

def slot_names(m):
    """Fn.name -> sorted list of slot names it serves (both tables and invoke interface)"""
    d = {}
    for rn in (True, False):
        for s, f in slots(m, rn).items():
            if f is not None: d.setdefault(f.name, set()).add(s)
    for s, f in invoke_slots(m).items():
        if f is not None: d.setdefault(f.name, set()).add(s)
    return d

# ------------------------------------------------------------------ logs
class Log(absint.Client):
    """path summaries: cs = tuple of (kind, terms.., site) entries; a site revisited in a loop is marked"""
    def __init__(self, want, limit_cs=None):
        self.want = want; self.rets = []; self.unwinds = []; self.calls = 0
        self.stores = None
    def add(self, st, e, i):
        site = i['id']
        for k, x in enumerate(st.cs):
            if x[-2] == site and x[0] == e[0]:
                # revisited: keep one marked entry
                st.cs = st.cs[:k] + (tuple(e) + (site, True),) + st.cs[k + 1:]
                return
        st.cs = st.cs + (tuple(e) + (site, False),)
    def call(self, st, ev):
        self.calls += 1
        e = self.want(self, st, ev, 'call')
        if e: self.add(st, e, ev.i)
    def after(self, st, ev):
        e = self.want(self, st, ev, 'after')
        if e: self.add(st, e, ev.i)
    def store(self, st, a, v, i):
        if self.stores:
            e = self.stores(self, st, a, v, i)
            if e: self.add(st, e, i)
    def ret(self, st, v, i): self.rets += [(s2, v2, i) for s2, v2 in expand(st, v)]
    def unwind(self, st, i): self.unwinds.append((st, i))

def run(fn, client, **kw):
    I = absint.Interp(fn, client, **kw)
    I.run()
    client.interp = I
    return I

def logfn(fn, want, stores=None, **kw):
    c = Log(want); c.stores = stores
    run(fn, c, **kw)
    return c

# ------------------------------------------------------------------ term helpers
def is_field(t, cls_field):
    return t.op == 'fld' and t.a[1] == cls_field
def fields_of(t):
    return [x.a[1] for x in subterms(t) if x.op == 'fld']
def strip(t):
    """look through casts that keep the object identity"""
    while t.op in ('alias', 'dyncast', 'cast') and t.a:
        t = t.a[0] if t.op == 'alias' else t.a[1] if t.op == 'dyncast' else t.a[-1]
    return t
def pretty(fn):
    s = fn.dem
    s = s.replace('std::__cxx11::', 'std::').replace('jnivm::', '')
    return s if len(s) < 160 else s[:157] + '...'
def where(fn): return '%s:%s' % (fn.file, fn.line) if fn.file else ''

def expand(st, v, depth=6):
    """[(state, value)] with select/joined values split into their cases"""
    if v is None or depth == 0: return [(st, v)]
    if v.op == 'sel':
        out = []
        for val, x in ((True, v.a[1]), (False, v.a[2])):
            s2 = st.copy()
            if s2.assume(v.a[0], val): out += expand(s2, x, depth - 1)
        return out
    if v.op == 'any': return [y for x in v.a[0] for y in expand(st, x, depth - 1)]
    if v.op == 'cast' and isinstance(v.a[-1], Term) and v.a[-1].op in ('sel', 'any'):
        return [(s2, T('cast', *v.a[:-1], x) if x.op != 'c' else x) for s2, x in expand(st, v.a[-1], depth - 1)]
    return [(st, v)]
_anc = {}
def _nt(s): return absint.short(s.replace('> >', '>>').replace(' *', '*').replace('> >', '>>'))
def ancestors(m, cls):
    """cls and its (transitive) bases, short names"""
    key = id(m)
    if key not in _anc:
        d = {}
        for k, v in m.classes.items():
            d.setdefault(_nt(k), set()).update(_nt(x['ty']) for x in v['members'] if x['k'] == 'base')
        _anc[key] = d
    d = _anc[key]; out = set(); st = [_nt(cls)]
    while st:
        x = st.pop()
        if x in out: continue
        out.add(x); st.extend(d.get(x, ()))
    return out

# std container operations by effect ------------------------------------------
INS = {'emplace_back', 'push_back', 'emplace_front', 'push_front', 'emplace', 'insert', 'emplace_after', 'insert_after', 'operator[]', 'try_emplace', 'insert_or_assign', 'append'}
DEL = {'erase', 'clear', 'pop_front', 'pop_back', 'erase_after', 'remove', 'remove_if', 'splice_after', 'resize', 'swap', 'assign'}
CONT = ('std::vector', 'std::forward_list', 'std::unordered_map', 'std::map', 'std::unordered_set', 'std::list', 'std::unordered_multimap', 'std::deque')
def cont_op(ev):
    """('ins'|'del'|'read', op) for a call on a standard container, else None"""
    n = ev.name
    for c in CONT:
        if n.startswith(c + '::'):
            op = n[len(c) + 2:]
            if op == 'operator[]' and c in ('std::vector', 'std::deque'): return ('read', op)
            if op in INS: return ('ins', op)
            if op in DEL: return ('del', op)
            if op.startswith('~') or op == c.split('::')[1]: return None
            return ('read', op)
    return None
