"""Abstract interpreter over irprep's IR: interned value terms, a store of modelled
locations, branch facts, locks held, and a client (typestate) component.  Forward
data flow with trace partitioning (bounded) and joins/widening at loop headers; no
path enumeration, no solver."""
import re
from . import ir

# ---------------------------------------------------------------- terms
class Term:
    __slots__ = ('op', 'a', 'syms')
    def __repr__(self): return show(self)
_tab = {}
_EMPTY = frozenset()
def T(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = Term(); t.op = op; t.a = a
        if op in ('phi', 'mphi', 'site', 'new', 'exc', 'xphi'):
            s = frozenset([t])
            for x in a:
                if isinstance(x, Term): s |= x.syms
        else:
            s = _EMPTY
            for x in a:
                if isinstance(x, Term):
                    if x.syms: s = s | x.syms
                elif isinstance(x, (tuple, frozenset)):
                    for y in x:
                        if isinstance(y, Term) and y.syms: s = s | y.syms
        t.syms = s
        _tab[k] = t
    return t
NULL = T('null'); TRUE = T('c', 1); FALSE = T('c', 0); UNK = T('unk')
def C(n): return T('c', n)
def show(t, d=0):
    if not isinstance(t, Term): return str(t)
    o, a = t.op, t.a
    if d > 12: return '..'
    s = lambda x: show(x, d + 1)
    if o == 'c': return str(a[0])
    if o == 'null': return 'null'
    if o == 'arg': return '$%d' % a[0]
    if o == 'al': return '&%s' % a[1]
    if o == 'g': return '@' + str(a[0])
    if o == 'fld': return '%s.%s' % (s(a[0]), a[1].split('.')[-1])
    if o == 'ld': return '*(%s)' % s(a[0])
    if o == 'lit': return repr(a[0])
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))
def subterms(t):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); yield x
        for y in x.a:
            if isinstance(y, Term): st.append(y)
            elif isinstance(y, (tuple, frozenset)):
                st.extend(z for z in y if isinstance(z, Term))
def mentions(t, pred):
    return any(pred(x) for x in subterms(t))
def short(name):
    return name.replace('jnivm::impl::', '').replace('jnivm::', '').replace('std::__cxx11::', 'std::')

def fld(base, f): return T('fld', base, f)
def ENVof(e): return T('ENV', e)
def mkld(addr):
    o, a = addr.op, addr.a
    if o == 'fld':
        f = a[1]; b = a[0]
        # env->functions->reserved0 : the owning ENV of a JNIEnv; likewise for JavaVM
        if f.endswith('.reserved0') and b.op == 'ld' and b.a[0].op == 'fld' and b.a[0].a[1].endswith('.functions'):
            return T('ENV' if 'NativeInterface' in f else 'VM', b.a[0].a[0])
        if f == 'ENV.vm' : return T('VMof', b)
    return T('ld', addr)
def neg(c):
    if c.op == 'not': return c.a[0]
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    return T('not', c)
_nonnull_ops = ('al', 'g', 'new', 'fld', 'this', 'str', 'lit', 'begin_elem', 'slot', 'fn', 'ENV', 'VMof', 'exc', 'cur_exc')
def is_nonnull(t):
    return t.op in _nonnull_ops
_ord = {}
def order(t): return _ord.setdefault(t, len(_ord))
def mkeq(a, b):
    if a is b: return TRUE
    if a.op == 'c' and b.op == 'c': return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == 'c' and a.a[0] == 0 and b.op == 'null': return TRUE
    if b.op == 'c' and b.a[0] == 0 and a.op == 'null': return TRUE
    if a is NULL and is_nonnull(b) or b is NULL and is_nonnull(a): return FALSE
    if a.op == 'lit' and b.op == 'lit': return FALSE
    if a.op in ('al', 'new') and b.op in ('al', 'new'): return FALSE
    # boolean == const
    for x, y in ((a, b), (b, a)):
        if y.op == 'c' and x.op in ('eq', 'not', 'and', 'or', 'lt', 'ult', 'bool', 'pure1'):
            if y.a[0] == 0: return neg(x)
            if y.a[0] in (1, -1): return x
    if b.op == 'c' and b.a[0] == 0: b = NULL
    elif a.op == 'c' and a.a[0] == 0: a = NULL
    if a is NULL or (a.op == 'c' and b is not NULL): a, b = b, a
    elif b is not NULL and b.op != 'c' and order(a) > order(b): a, b = b, a
    return T('eq', a, b)

# ---------------------------------------------------------------- state
class State:
    __slots__ = ('env', 'mem', 'facts', 'locks', 'cs', 'gen')
    def __init__(self, env, mem, facts, locks, cs, gen=()):
        self.env = env; self.mem = mem; self.facts = facts; self.locks = locks; self.cs = cs; self.gen = gen
    def copy(self): return State(dict(self.env), dict(self.mem), dict(self.facts), self.locks, self.cs, self.gen)
    # client helpers -----------------------------------------------------
    def get(self, addr):
        v = self.mem.get(addr)
        if v is not None: return v
        return mkld(addr)
    def truth(self, c):
        """True/False/None"""
        if c.op == 'c': return c.a[0] != 0
        if c.op == 'not':
            r = self.truth(c.a[0]); return None if r is None else (not r)
        v = self.facts.get(c)
        if v is not None: return v
        if c.op == 'and':
            rs = [self.truth(x) for x in c.a]
            if False in rs: return False
            if all(rs): return True
            return None
        if c.op == 'or':
            rs = [self.truth(x) for x in c.a]
            if True in rs: return True
            if all(r is False for r in rs): return False
            return None
        if c.op == 'eq':
            a, b = c.a
            if b is NULL:
                n = self.nullness(a)
                if n is not None: return n == 'null'
            if a.op == 'any' :
                rs = {self.truth(mkeq(x, b)) for x in a.a[0]}
                if len(rs) == 1: return rs.pop()
        if c.op == 'any':
            rs = {self.truth(x) for x in c.a[0]}
            if len(rs) == 1: return rs.pop()
        return None
    def nullness(self, t):
        """'null' / 'nonnull' / None"""
        if t is NULL: return 'null'
        if t.op == 'c': return 'null' if t.a[0] == 0 else 'nonnull'
        if is_nonnull(t): return 'nonnull'
        if t.op == 'any':
            rs = {self.nullness(x) for x in t.a[0]}
            return rs.pop() if len(rs) == 1 else None
        if t.op in ('alias',):
            return self.nullness(t.a[0])
        v = self.facts.get(T('eq', t, NULL))
        if v is True: return 'null'
        if v is False: return 'nonnull'
        return None
    def assume(self, c, val):
        """returns False when contradictory"""
        r = self.truth(c)
        if r is not None: return r == val
        while c.op == 'not':
            c = c.a[0]; val = not val
        if c.op == 'and' and val or c.op == 'or' and not val:
            for x in c.a:
                if not self.assume(x, val): return False
            return True
        if c.op == 'and' and not val or c.op == 'or' and val:
            und = [x for x in c.a if self.truth(x) is None]
            if len(und) == 1: return self.assume(und[0], val)
        self.facts[c] = val
        if c.op == 'eq' and val and c.a[1].op == 'c':
            pass
        return True

class Event:
    __slots__ = ('kind', 'name', 'dem', 'args', 'i', 'res', 'fn', 'targs', 'dst', 'fn_interp')
    def __init__(self, name, dem, args, i, fn):
        self.name = name; self.dem = dem; self.args = args; self.i = i; self.fn = fn; self.res = None; self.dst = None
    @property
    def loc(self): return self.fn.m.loc(self.i)

class Client:
    """override what is needed"""
    init_cs = ()
    def call(self, st, ev): pass          # before the effect
    def after(self, st, ev): pass         # after the effect, ev.res = result term
    def store(self, st, addr, val, i): pass
    def load(self, st, addr, val, i): pass
    def subst(self, st, addr, val, i): return None   # a term to assume for a loaded value (partial evaluation)
    def ret(self, st, val, i): pass
    def backedge(self, st, pred, header, vals): pass   # vals: incoming values of the header's phis
    def edge(self, st, b, s, c, val, i): pass   # conditional branch taken
    def unwind(self, st, i): pass
    def join_cs(self, a, b): return a if a == b else None   # None: keep apart
    def key(self, st): return None        # extra partition key
    def may_unwind(self, ev): return True

LIMIT = 24
HARD = 400

class Interp:
    def __init__(self, fn, client, args=None, limit=LIMIT, facts=None, mem=None, resolve=None, splitsel=False):
        self.fn = fn; self.m = fn.m; self.cl = client; self.limit = limit
        fn.prepare()
        self.phi_in = {}; self.splitsel = splitsel; self.inv = None
        self.args = args or [T('arg', i) for i in range(fn.nargs)]
        self.init_facts = facts or {}; self.init_mem = mem or {}
        self.steps = 0
        client.fn = fn; client.interp = self
    # -- operands
    def val(self, st, o):
        k = o[0]
        if k == 'v':
            return st.env.get(o[1], UNK)
        if k == 'c': return C(o[1])
        if k == 'null': return NULL
        if k == 'g':
            return self.glob(o[1])
        if k == 'cgep':
            return T('off', self.val(st, o[1]), o[2]) if o[2] else self.val(st, o[1])
        if k == 'undef': return UNK
        if k == 'f': return T('f', o[1])
        if k == 'zero': return C(0)
        return T('cst', str(o))
    def glob(self, n):
        g = self.m.globals.get(n)
        if g and g[0] == 'data': return T('lit', g[1])
        if g and g[0] == 'zero' and n.startswith('.str'): return T('lit', '')
        if n in self.m.dem: return T('fn', n)
        return T('g', n)
    def gepaddr(self, st, i):
        base = self.val(st, i['o'][0])
        vf = i.get('vf')
        if vf:
            cur = base; k = 1; idxs = i['o'][1:]
            comps = vf.split('|')
            # indices line up: first index is pointer-level ('[]' present only when non-zero)
            p = 0
            first = idxs[0]
            if not (first[0] == 'c' and first[1] == 0):
                cur = self.mkidx(st, cur, self.val(st, first), i['es']); 
                if comps and comps[0] == '[]': comps = comps[1:]
                elif comps and comps[0].startswith('[]'): comps[0] = comps[0][2:].lstrip('|')
            for comp, ix in zip([c for c in comps if c], idxs[1:]):
                if comp == '[]':
                    iv = self.val(st, ix)
                    if not (iv.op == 'c' and iv.a[0] == 0): cur = self.mkidx(st, cur, iv, 0)
                else:
                    f = short(comp)
                    m = f[f.rfind('.') + 1:] if not f.endswith('>') else f[f.index('.<') + 1:]
                    if m.startswith('<'): continue       # base-class sub-object: same object
                    cur = fld(cur, f)
            return cur
        off = i.get('off')
        if off is not None:
            if off == 0: return base
            return self.mkoff(base, off)
        if len(i['o']) == 2:
            return self.mkidx(st, base, self.val(st, i['o'][1]), i['es'])
        return T('gep', base, *[self.val(st, x) for x in i['o'][1:]])
    def mkoff(self, base, off):
        if base.op == 'off': return self.mkoff(base.a[0], base.a[1] + off) if base.a[1] + off else base.a[0]
        return T('off', base, off)
    def mkidx(self, st, base, ix, es):
        # virtual-base adjustment: obj + *(vptr(obj) - k) is the same object
        if ix.op == 'ld' and ix.a[0].op == 'off' and ix.a[0].a[0].op == 'ld' and ix.a[0].a[0].a[0] in (base, T('vp', base)):
            return base
        if ix.op == 'ld' and ix.a[0].op == 'off' and ix.a[0].a[0].op == 'vp' :
            return base
        if ix.op == 'c':
            if ix.a[0] == 0: return base
            return self.mkoff(base, ix.a[0] * es) if es else T('idx', base, ix, es)
        return T('idx', base, ix, es)
    def fixaddr(self, addr, tb):
        if tb and tb != 'vptr':
            tb = short(tb)
            if addr.op == 'fld':
                return addr
            if addr.op == 'al': return addr
            c, _, f = tb.rpartition('.')
            if f.startswith('+') or f.startswith('<') or c.startswith('std::') or not c: return addr
            if addr.op == 'off': return addr
            return fld(addr, tb)
        return addr
    # -- run
    def invariants(self):
        """header phis that every path round the loop leaves alone, found by a silent first run: {(header, id): value}.
        Only phis that might be of this form cost the extra run."""
        fn = self.fn
        if not hasattr(fn, 'phi_inv'):
            cand = set(); defs = {}
            for b in fn.blocks:
                for i in b:
                    if i['op'] in ('phi', 'select') and 'id' in i: defs[i['id']] = i
            for h in fn.headers:
                for i in fn.blocks[h]:
                    if i['op'] != 'phi': break
                    for o, p in i['o']:
                        if p in fn.loops[h] and o[0] == 'v' and o[1] in defs and o[1] != i['id']:
                            st = [o[1]]; seen = set()
                            while st:
                                x = st.pop()
                                if x in seen: continue
                                seen.add(x)
                                if x == i['id']: cand.add((h, x)); break
                                d = defs.get(x)
                                if d: st += [(y[0] if d['op'] == 'phi' else y)[1] for y in d['o'] if (y[0] if d['op'] == 'phi' else y)[0] == 'v']
            inv = {}
            if cand:
                I = Interp(fn, Client(), limit=self.limit, splitsel=self.splitsel); I.inv = {}; I.run()
                for h, pid in cand:
                    sym = T('phi', h, pid); vs = I.phi_in.get(sym, set()) - {sym}
                    if len(vs) == 1:
                        v = next(iter(vs))
                        if v is not UNK and (v.op in ('null', 'c', 'g')): inv[(h, pid)] = v
            fn.phi_inv = inv
        return fn.phi_inv
    def run(self):
        fn = self.fn; n = len(fn.blocks)
        if self.inv is None:
            self.inv = self.invariants(); self.cl.fn = fn; self.cl.interp = self
        order = {b: k for k, b in enumerate(fn.rpo)}
        self.inq = [[] for _ in range(n)]      # pending states
        self.ver = {}; self.acc = [dict() for _ in range(n)]
        self.done = [dict() for _ in range(n)]  # key -> merged state (headers) / seen keys
        st = State({k: a for k, a in enumerate(self.args)}, dict(self.init_mem), dict(self.init_facts), (), self.cl.init_cs)
        self.enter(None, 0, st)
        while True:
            cand = [b for b in range(n) if self.inq[b]]
            if not cand: break
            b = min(cand, key=lambda x: order[x])
            sts = self.inq[b]; self.inq[b] = []
            for s in sts:
                if not self.stale(s): self.block(b, s)
        return self
    def stale(self, st):
        return any(self.ver.get(h, 0) != v for h, v in st.gen)
    def skey(self, b, st):
        live = self.fn.live[b]
        env = tuple(sorted(((k, id(v)) for k, v in st.env.items() if k in live)))
        return (env, tuple(sorted((id(k), id(v)) for k, v in st.mem.items())), tuple(sorted((id(k), v) for k, v in st.facts.items())), st.locks, st.cs, st.gen)
    def enter(self, pred, b, st):
        fn = self.fn
        # phis
        vals = {}
        for i in fn.blocks[b]:
            if i['op'] != 'phi': break
            for o, p in i['o']:
                if p == pred:
                    vals[i['id']] = self.val(st, o); break
        live = fn.live[b]
        st.env = {k: v for k, v in st.env.items() if k in live}
        if b in fn.headers:
            if pred in fn.loops[b]: self.cl.backedge(st, pred, b, vals)
            self.enter_header(b, st, vals, pred); return
        st.env.update(vals)
        k = self.skey(b, st)
        if k in self.done[b]: return
        if len([1 for x in self.done[b].values() if x == st.gen]) >= self.limit:
            # over the bound: accumulate one joined state per (locks, client, partition)
            jk = (st.locks, st.cs, self.cl.key(st), st.gen)
            o = self.acc[b].get(jk)
            m = st if o is None else self.merge(b, o, st)
            self.acc[b][jk] = m
            mk = self.skey(b, m)
            if mk in self.done[b]: return
            self.done[b][mk] = m.gen
            self.inq[b] = [x for x in self.inq[b] if x is not o] + [m.copy()]
            return
        self.done[b][k] = st.gen
        self.inq[b].append(st)
    def merge(self, b, x, y):
        env = {}
        for k in x.env.keys() & y.env.keys():
            env[k] = self.join(x.env[k], y.env[k])
        mem = {}
        for k in x.mem.keys() | y.mem.keys():
            mem[k] = self.join(x.get(k), y.get(k))
        facts = {k: v for k, v in x.facts.items() if y.facts.get(k) == v or y.truth(k) == v}
        for k, v in y.facts.items():
            if k not in facts and x.truth(k) == v: facts[k] = v
        return State(env, mem, facts, x.locks, x.cs, self.mgen(x.gen, y.gen))
    def mgen(self, a, b):
        d = dict(a)
        for h, v in b: d[h] = max(v, d.get(h, 0))
        return tuple(sorted(d.items(), key=repr))
    def join(self, a, b):
        if a is b: return a
        s = (a.a[0] if a.op == 'any' else frozenset([a])) | (b.a[0] if b.op == 'any' else frozenset([b]))
        if len(s) > 12 or UNK in s: return UNK
        return T('any', s)
    def enter_header(self, b, st, vals, pred):
        fn = self.fn
        hs = lambda t: any(x.op in ('phi', 'mphi') and x.a[0] == b for x in t.syms)
        for pid, v in vals.items():
            sym = T('phi', b, pid)
            self.phi_in.setdefault(sym, set()).add(v)
        # facts / memory about a previous iteration's symbols are stale
        st.facts = {k: v for k, v in st.facts.items() if not hs(k)}
        for k in list(st.mem):
            if hs(k): del st.mem[k]
            elif hs(st.mem[k]):
                sym = T('mphi', b, k)
                if st.mem[k] is not sym:
                    self.phi_in.setdefault(sym, set()).add(st.mem[k])
                st.mem[k] = sym
        for k in list(st.env):
            if hs(st.env[k]): pass
        for pid, v in vals.items():
            st.env[pid] = self.inv[(b, pid)] if (b, pid) in self.inv else T('phi', b, pid)
        # carry over nullness facts of the incoming value onto the symbol
        for pid, v in vals.items():
            nn = st.nullness(v)
            if nn is not None: st.facts[T('eq', T('phi', b, pid), NULL)] = (nn == 'null')
        key = (st.locks, st.cs, self.cl.key(st))
        vk = (b, key)
        st.gen = tuple(x for x in st.gen if x[0][0] == b or x[0][0] not in fn.loops[b] or b in fn.loops[x[0][0]])
        old = self.done[b].get(key)
        if old is not None and any(self.ver.get(h, 0) != v for h, v in old.gen if h != vk): old = None
        if old is None:
            self.ver[vk] = self.ver.get(vk, 0) + 1
            st.gen = tuple(sorted([x for x in st.gen if x[0] != vk] + [(vk, self.ver[vk])], key=repr))
            self.done[b][key] = st.copy(); self.inq[b] = [o for o in self.inq[b] if (o.locks, o.cs, self.cl.key(o)) != key] + [st]; return
        # widen
        env = {}
        for k in old.env.keys() & st.env.keys():
            a, c = old.env[k], st.env[k]
            if a is c: env[k] = a
            else:
                sym = T('xphi', b, k)
                for z in (a, c):
                    if z is not sym: self.phi_in.setdefault(sym, set()).add(z)
                env[k] = sym
        mem = {}
        for k in old.mem.keys() | st.mem.keys():
            a, c = old.get(k), st.get(k)
            if a is c: mem[k] = a
            else:
                sym = T('mphi', b, k)
                for z in (a, c):
                    if z is not sym: self.phi_in.setdefault(sym, set()).add(z)
                mem[k] = sym
        facts = {k: v for k, v in old.facts.items() if st.truth(k) == v}
        if env == old.env and facts == old.facts and all(old.get(k) is v for k, v in mem.items()):
            return
        self.ver[vk] = self.ver.get(vk, 0) + 1
        g = dict(self.mgen2(old.gen, st.gen)); g[vk] = self.ver[vk]
        new = State(env, mem, facts, old.locks, old.cs, tuple(sorted(g.items(), key=repr)))
        self.done[b][key] = new.copy()
        # replace a pending one
        self.inq[b] = [o for o in self.inq[b] if (o.locks, o.cs, self.cl.key(o)) != key]
        self.inq[b].append(new)
    def mgen2(self, a, b):
        d = dict(a)
        for h, v in b: d[h] = max(v, d.get(h, 0))
        return d
    def block(self, b, st):
        fn = self.fn
        work = [(st.copy(), 0)]; ins = fn.blocks[b]
        while work:
            st, k = work.pop()
            while k < len(ins):
                i = ins[k]; k += 1
                self.steps += 1
                if self.steps > 6000000: raise RuntimeError('analysis of %s diverges' % fn.dem)
                op = i['op']
                if op == 'phi': continue
                if op == 'select' and self.splitsel:
                    c = self.val(st, i['o'][0])
                    if c.op != 'c' and st.truth(c) is None:
                        for val, j in ((False, 2), (True, 1)):
                            for s2 in self.cases(st.copy(), c, val): s2.env[i['id']] = self.val(s2, i['o'][j]); work.append((s2, k))
                        break
                r = self.instr(b, st, i, op)
                if r == 'stop': break
    def cases(self, st, c, val):
        while c.op == 'not': c = c.a[0]; val = not val
        if c.op == 'or' and val or c.op == 'and' and not val:
            out = []
            for x in c.a:
                out += self.cases(st.copy(), x, val)
                if not st.assume(x, not val): return out
            return out
        if c.op in ('or', 'and'):
            sts = [st]
            for x in c.a: sts = [z for y in sts for z in self.cases(y, x, val)]
            return sts
        return [st] if st.assume(c, val) else []
    def goto(self, b, s, st): self.enter(b, s, st)
    def instr(self, b, st, i, op):
        V = lambda k: self.val(st, i['o'][k])
        if op == 'alloca':
            t = T('al', i['id'], i.get('n', ''))
            st.env[i['id']] = t
        elif op == 'load':
            addr = self.fixaddr(V(0), i.get('tb'))
            if i.get('tb') == 'vptr': v = T('vp', addr)
            else:
                v = st.mem.get(addr)
                if v is None: v = mkld(addr)
                x = self.cl.subst(st, addr, v, i)
                if x is not None: v = x
            self.cl.load(st, addr, v, i)
            st.env[i['id']] = v
        elif op == 'store':
            v = V(0); addr = self.fixaddr(V(1), i.get('tb'))
            if i.get('tb') == 'vptr': return
            self.cl.store(st, addr, v, i)
            self.write(st, addr, v)
        elif op == 'getelementptr':
            st.env[i['id']] = self.gepaddr(st, i)
        elif op in ('bitcast', 'addrspacecast', 'freeze', 'ptrtoint', 'inttoptr'):
            st.env[i['id']] = V(0)
        elif op in ('zext', 'sext', 'trunc'):
            st.env[i['id']] = self.cast(op, V(0), i)
        elif op in ('fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            st.env[i['id']] = T('cast', op, i['t'], V(0))
        elif op == 'icmp':
            st.env[i['id']] = self.icmp(st, i['p'], V(0), V(1))
        elif op == 'select':
            c = V(0); r = st.truth(c)
            if r is True: v = V(1)
            elif r is False: v = V(2)
            else:
                a, d = V(1), V(2)
                if i['t'] == 'i1':
                    if d is FALSE: v = T('and', c, a)
                    elif a is TRUE: v = T('or', c, d)
                    else: v = T('sel', c, a, d)
                elif i['t'] != 'i1':
                    v = T('sel', c, a, d)
            st.env[i['id']] = v
        elif op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            st.env[i['id']] = self.binop(op, V(0), V(1), i)
        elif op in ('call', 'invoke'):
            return self.callinstr(b, st, i, op)
        elif op == 'br':
            if not i['o']:
                self.cl.edge(st, b, i['s'][0], TRUE, True, i)
                self.goto(b, i['s'][0], st); return 'stop'
            c = V(0); r = st.truth(c)
            if c.op == 'sel': r = None
            if r is not None:
                self.cl.edge(st, b, i['s'][0 if r else 1], c, r, i)
                self.goto(b, i['s'][0 if r else 1], st); return 'stop'
            if self.splitsel and c.op in ('or', 'and', 'not'):
                for val, k in ((True, 0), (False, 1)):
                    for s2 in self.cases(st.copy(), c, val): self.cl.edge(s2, b, i['s'][k], c, val, i); self.goto(b, i['s'][k], s2)
                return 'stop'
            s2 = st.copy()
            if st.assume(c, True): self.cl.edge(st, b, i['s'][0], c, True, i); self.goto(b, i['s'][0], st)
            if s2.assume(c, False): self.cl.edge(s2, b, i['s'][1], c, False, i); self.goto(b, i['s'][1], s2)
            return 'stop'
        elif op == 'switch':
            v = V(0)
            if v.op == 'c':
                for k, t in i['cs']:
                    if k == v.a[0]: self.cl.edge(st, b, t, TRUE, True, i); self.goto(b, t, st); return 'stop'
                self.cl.edge(st, b, i['d'], TRUE, True, i); self.goto(b, i['d'], st); return 'stop'
            for k, t in i['cs']:
                s2 = st.copy()
                if s2.assume(mkeq(v, C(k)), True): self.cl.edge(s2, b, t, mkeq(v, C(k)), True, i); self.goto(b, t, s2)
            ok = True
            for k, t in i['cs']:
                ok = ok and st.assume(mkeq(v, C(k)), False)
            if ok: self.cl.edge(st, b, i['d'], TRUE, True, i); self.goto(b, i['d'], st)
            return 'stop'
        elif op == 'ret':
            self.cl.ret(st, V(0) if i['o'] else None, i); return 'stop'
        elif op == 'resume':
            self.cl.unwind(st, i); return 'stop'
        elif op == 'unreachable':
            return 'stop'
        elif op == 'landingpad':
            st.env[i['id']] = T('exc', i['id'])
        elif op == 'extractvalue':
            v = V(0)
            if v.op == 'agg2': st.env[i['id']] = v.a[i['ix']]
            else: st.env[i['id']] = T('ev', v, i['ix'])
        elif op == 'insertvalue':
            v, x = V(0), V(1)
            l = list(v.a) if v.op == 'agg2' else [UNK, UNK]
            while len(l) <= i['ix']: l.append(UNK)
            l[i['ix']] = x
            st.env[i['id']] = T('agg2', *l)
        elif op in ('fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            st.env[i['id']] = T('f' + op, *[self.val(st, o) for o in i['o']])
        elif op == 'va_arg':
            st.env[i['id']] = T('site', i['id'], 'va_arg')
        else:
            st.env[i['id']] = T('site', i['id'], op)
    def cast(self, op, v, i):
        t = i['t']
        if v.op == 'c':
            n = v.a[0]; w = int(t[1:])
            if op == 'zext' and n < 0: return T('cast', op, t, v)
            if op == 'trunc':
                n &= (1 << w) - 1
                if n >= 1 << (w - 1) and w > 1: n -= 1 << w
            if w == 1: n &= 1
            return C(n)
        if op == 'trunc' and t == 'i1':
            if v.op == 'cast' and v.a[1] == 'i8' and v.a[2].op == 'bool?': return v.a[2]
            if v.op == 'b2i': return v.a[0]
            if v.op == 'any': 
                return T('any', frozenset(self.cast(op, x, i) for x in v.a[0]))
            if v.op == 'cast' and v.a[0] == 'zext' and v.a[1] == 'i8': return v.a[2]   # i1 widened for storage
            return T('bool', v)
        if op == 'zext' and i.get('o') and self._isbool(v):
            return T('b2i', v)
        if op == 'zext' and v.op == 'bool': return v.a[0]
        return T('cast', op, t, v)
    def _isbool(self, v): return v.op in ('eq', 'not', 'and', 'or', 'lt', 'ult', 'pure1', 'bool', 'isa')
    def icmp(self, st, p, a, b):
        if p in ('eq', 'ne'):
            if b.op == 'b2i' and a.op == 'c': a, b = b, a
            if a.op == 'b2i' and b.op == 'c': r = a.a[0] if b.a[0] else neg(a.a[0])
            elif b.op == 'b2i' and a.op == 'b2i': r = mkeq(a.a[0], b.a[0])
            else: r = mkeq(a, b)
            return r if p == 'eq' else neg(r)
        if a.op == 'c' and b.op == 'c':
            x, y = a.a[0], b.a[0]
            if p[0] == 'u': x &= (1 << 64) - 1; y &= (1 << 64) - 1
            return TRUE if {'sgt': x > y, 'slt': x < y, 'sge': x >= y, 'sle': x <= y, 'ugt': x > y, 'ult': x < y, 'uge': x >= y, 'ule': x <= y}[p] else FALSE
        u = 'lt' if p[0] == 's' else 'ult'
        k = p[1:]
        if k == 'lt': return T(u, a, b)
        if k == 'gt': return T(u, b, a)
        if k == 'ge': return neg(T(u, a, b))
        return neg(T(u, b, a))
    def binop(self, op, a, b, i):
        if a.op == 'c' and b.op == 'c':
            x, y = a.a[0], b.a[0]
            try:
                r = {'and': x & y, 'or': x | y, 'xor': x ^ y, 'add': x + y, 'sub': x - y, 'mul': x * y}.get(op)
            except Exception: r = None
            if r is not None:
                if i['t'] == 'i1': r &= 1
                return C(r)
        if i['t'] == 'i1':
            if op == 'xor':
                for x, y in ((a, b), (b, a)):
                    if y.op == 'c': return neg(x) if y.a[0] else x
                return neg(mkeq(a, b))
            if op in ('and', 'or'):
                for x, y in ((a, b), (b, a)):
                    if y.op == 'c':
                        if op == 'and': return x if y.a[0] else FALSE
                        return TRUE if y.a[0] else x
                return T(op, a, b)
        if op in ('add',) and b.op == 'c' and a.op == 'add' and a.a[1].op == 'c':
            return self.binop('add', a.a[0], C(a.a[1].a[0] + b.a[0]), i)
        if op == 'sub' and b.op == 'c': return self.binop('add', a, C(-b.a[0]), i)
        if op == 'add' and b.op == 'c' and b.a[0] == 0: return a
        return T(op, a, b)
    def write(self, st, addr, v):
        st.mem[addr] = v
        self.kill_alias(st, addr)
    def kill_alias(self, st, addr):
        if addr.op == 'fld':
            f = addr.a[1]; base = addr.a[0]
            for k in list(st.mem):
                if k is not addr and k.op == 'fld' and k.a[1] == f:
                    b2 = k.a[0]
                    if (b2.op in ('al', 'new')) or (base.op in ('al', 'new')): continue
                    del st.mem[k]
    # -- calls
    def callinstr(self, b, st, i, op):
        callee = i['callee']
        args = [self.val(st, o) for o in i['o']]
        if callee[0] == 'g':
            sym = callee[1]; dem = self.m.dem.get(sym, sym); name, params, qual = ir.parse_name(dem)
        else:
            t = self.val(st, callee)
            sym = None; dem = ''; qual = ''; params = []
            name, args = self.indirect(st, t, args, i)
            if t.op == 'fn':
                sym = t.a[0]; dem = self.m.dem.get(sym, sym); name, params, qual = ir.parse_name(dem)
        # kill stale facts about a re-executed call site (only inside loops)
        ev = Event(name, dem, args, i, self.fn); ev.fn_interp = self
        site = T('site', i['id'], short(name))
        pre = st.copy() if op == 'invoke' else None
        if name == 'pthread_mutex_lock' or name == 'pthread_mutex_unlock':
            self.cl.call(st, ev)
            l = args[0]
            if name == 'pthread_mutex_lock': st.locks = st.locks + (l,)
            else:
                ls = list(st.locks)
                for k in range(len(ls) - 1, -1, -1):
                    if ls[k] is l: del ls[k]; break
                st.locks = tuple(ls)
            st.env[i['id']] = C(0); ev.res = C(0)
            self.cl.after(st, ev)
            if op == 'invoke': self.goto(b, i['nd'], st); return 'stop'
            return
        r = self.cl.call(st, ev)
        if r == 'stop': return 'stop'
        mod = models.lookup(name)
        if mod is not None:
            res = mod(self, st, ev, params, site)
        else:
            res = self.unknown(st, ev, site)
        if ev.res is None: ev.res = res
        if 't' in i: st.env[i['id']] = res if res is not None else site
        if name in ('__cxa_throw', '__cxa_rethrow', 'std::rethrow_exception', 'abort', 'exit', 'std::terminate', '__clang_call_terminate') or name.startswith('std::__throw_'):
            if op == 'invoke' and name not in ('abort', 'exit', 'std::terminate', '__clang_call_terminate'):
                self.goto(b, i['ud'], st); return 'stop'
            if name not in ('abort', 'exit', 'std::terminate', '__clang_call_terminate'):
                self.cl.unwind(st, i)
            return 'stop'
        if op == 'invoke':
            if pre is not None and self.cl.may_unwind(ev) and name not in models.NOTHROW:
                pre.cs = st.cs if getattr(self.cl, 'effects_on_unwind', False) else pre.cs
                for k, v in pre.env.items(): pass
                self.goto(b, i['ud'], pre)
            self.cl.after(st, ev)
            self.goto(b, i['nd'], st)
            return 'stop'
        self.cl.after(st, ev)
    def indirect(self, st, t, args, i):
        # table slot
        if t.op == 'ld' and t.a[0].op == 'fld':
            f = t.a[0].a[1]
            if f.startswith('JNINativeInterface.'): return 'jni:' + f.split('.')[1], args
            if f.startswith('JNIInvokeInterface.'): return 'jvm:' + f.split('.')[1], args
            return 'ptr:' + f, args
        # virtual call: load of vptr(+off)
        if t.op == 'ld':
            a = t.a[0]; off = 0
            if a.op == 'off': off = a.a[1]; a = a.a[0]
            if a.op == 'vp':
                return 'virt:%d' % (off // 8), args
        return 'ind', [t] + args
    def unknown(self, st, ev, site):
        """opaque call: result is this call site; by-reference locals are clobbered"""
        i = ev.i
        if i.get('sret') and ev.args:
            d = ev.args[0]
            ev.dst = d
            r = T('site', i['id'], short(ev.name), *ev.args[1:])
            st.mem[d] = r; ev.res = r
            for a in ev.args[1:]: self.clobber(st, a)
            self.fresh(st, r)
            return site
        r = T('site', i['id'], short(ev.name), *ev.args)
        for a in ev.args: self.clobber(st, a)
        self.fresh(st, r)
        return r
    def fresh(self, st, r):
        """a re-executed site: forget facts about its previous result"""
        if r.op in ('site', 'new'):
            bad = [k for k in st.facts if r in k.syms]
            for k in bad: del st.facts[k]
            for k in [k for k in st.mem if r in k.syms and k.op == 'fld']: del st.mem[k]
    def clobber(self, st, a):
        pass
    def roots(self, t, seen=None):
        """root terms an iterator/pointer symbol is derived from"""
        seen = seen if seen is not None else set()
        out = set(); stk = [t]
        while stk:
            x = stk.pop()
            if x in seen: continue
            seen.add(x)
            if x.op in ('phi', 'mphi', 'xphi') and x in self.phi_in: stk.extend(self.phi_in[x])
            elif x.op == 'any': stk.extend(x.a[0])
            elif x.op in ('off', 'idx'): stk.append(x.a[0])
            elif x.op == 'sel': stk.extend(x.a[1:])
            else: out.add(x)
        return out

from . import models
