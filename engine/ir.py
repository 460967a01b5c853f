"""Loader for irprep's JSON: functions, blocks, classes, constant tables."""
import json, re
from . import build

def strip_templates(s):
    s = (s.replace('operator<<', 'operatorSHL').replace('operator->', 'operatorARROW').replace('operator<=', 'operatorLE')
          .replace('operator>=', 'operatorGE').replace('operator<', 'operatorLT').replace('operator>', 'operatorGT')
          .replace('operator()', 'operatorCALL').replace('(anonymous namespace)', 'ANON').replace('[abi:cxx11]', ''))
    r = []; k = 0
    for c in s:
        if c == '<': k += 1
        elif c == '>': k -= 1
        elif k == 0: r.append(c)
    return ''.join(r)

def split_params(s):
    out = []; k = 0; cur = ''
    for c in s:
        if c in '<(': k += 1
        elif c in '>)': k -= 1
        if c == ',' and k == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
    if cur.strip(): out.append(cur.strip())
    return out

_pn = {}
def parse_name(dem):
    """(qualified base name without template args, [params], qualified name with template args)"""
    if dem in _pn: return _pn[dem]
    s = dem.replace('operator()', 'operatorCALL').replace('(anonymous namespace)', 'ANON').replace('[abi:cxx11]', '')
    s = s.replace('operator->', 'operatorARROW').replace('operator<<', 'operatorSHL')
    s = re.sub(r'operator (new\[\]|delete\[\]|new|delete|[A-Za-z_][\w:]*)(?=[ *&]*\()', lambda m: 'operator_' + m.group(1), s)
    # the parameter list: first '(' at template depth 0 (skips function types in template args)
    k = 0; pos = None
    for i, c in enumerate(s):
        if c == '<': k += 1
        elif c == '>': k -= 1
        elif c == '(' and k == 0:
            pos = i; break
    if pos is None:
        q, ps = s, []
    else:
        d = 0
        for j in range(pos, len(s)):
            if s[j] == '(' : d += 1
            elif s[j] == ')':
                d -= 1
                if d == 0: break
        q, ps = s[:pos], split_params(s[pos + 1:j])
    # drop a leading return type (template functions): last space at depth 0
    k = 0; cut = 0
    for i, c in enumerate(q):
        if c in '<(' : k += 1
        elif c in '>)': k -= 1
        elif c == ' ' and k == 0: cut = i + 1
    q2 = q[cut:]
    base = strip_templates(q2).replace('std::__cxx11::', 'std::')
    r = (base, ps, q2)
    _pn[dem] = r
    return r

class Fn:
    __slots__ = ('m', 'name', 'phi_inv', 'dem', 'base', 'params', 'qual', 'file', 'line', 'nargs', 'args', 'blocks', 'va', 'ret', 'succ', 'pred', 'rpo', 'headers', 'live', 'defs', 'loops')
    def __init__(self, m, j):
        self.m = m; self.name = j['name']; self.dem = j['dem']; self.base, self.params, self.qual = parse_name(j['dem'])
        self.file = j['file']; self.line = j['line']; self.nargs = j['nargs']; self.args = j['args']; self.va = j['va']; self.ret = j['ret']
        self.blocks = [b['i'] for b in j['blocks']]
        self.rpo = None
    def instrs(self):
        for bi, b in enumerate(self.blocks):
            for i in b:
                yield bi, i
    def calls(self):
        for bi, i in self.instrs():
            if i['op'] in ('call', 'invoke'):
                yield bi, i
    def prepare(self):
        if self.rpo is not None: return
        n = len(self.blocks); self.succ = []
        for b in self.blocks:
            t = b[-1]; s = []
            if t['op'] == 'br': s = t['s']
            elif t['op'] == 'switch': s = [t['d']] + [c[1] for c in t['cs']]
            elif t['op'] == 'invoke': s = [t['nd'], t['ud']]
            self.succ.append(list(dict.fromkeys(s)))
        self.pred = [[] for _ in range(n)]
        for a, ss in enumerate(self.succ):
            for s in ss: self.pred[s].append(a)
        def dfs(key=None):
            seen = [0] * n; order = []; backs = []
            sc = [sorted(x, key=lambda t: key(b, t)) if key else x for b, x in enumerate(self.succ)]
            stack = [(0, iter(sc[0]))]; seen[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if seen[s] == 0:
                        seen[s] = 1; stack.append((s, iter(sc[s]))); break
                    elif seen[s] == 1:
                        backs.append((b, s))
                else:
                    seen[b] = 2; order.append(b); stack.pop()
            return order, backs
        order, backs = dfs()
        self.headers = set(h for _, h in backs)
        loops = {}
        for t, h in backs:
            body = loops.setdefault(h, {h})
            st = [t]
            while st:
                x = st.pop()
                if x in body: continue
                body.add(x); st.extend(self.pred[x])
        self.loops = loops
        inl = [frozenset(h for h, body in loops.items() if b in body) for b in range(n)]
        # leave loops as late as possible: visit exit edges first in the DFS
        order, _ = dfs(lambda b, t: len(inl[b] & inl[t]))
        self.rpo = order[::-1]
        # liveness of SSA values
        use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]; phiuse = [set() for _ in range(n)]
        def vs(o):
            if isinstance(o, list) and o:
                if o[0] == 'v': yield o[1]
                elif o[0] in ('cgep', 'cexpr', 'agg'):
                    for x in o[1:]: yield from vs(x)
        for bi, b in enumerate(self.blocks):
            for i in b:
                if i['op'] == 'phi':
                    for o, p in i['o']:
                        for v in vs(o): phiuse[p].add(v)
                else:
                    ops = list(i.get('o', []))
                    if 'callee' in i: ops.append(i['callee'])
                    for o in ops:
                        for v in vs(o):
                            if v not in dfn[bi]: use[bi].add(v)
                dfn[bi].add(i['id'])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in order:
                o = set(phiuse[b])
                for s in self.succ[b]: o |= live[s]
                i = use[b] | (o - dfn[b])
                if i != live[b]:
                    live[b] = i; ch = True
        self.live = live; self.defs = dfn

class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.files = j['files']; self.dem = j['dem']; self.globals = j['globals']; self.classes = j['classes']
        self.fns = {}
        for f in j['functions']:
            if f['blocks']:
                self.fns[f['name']] = Fn(self, f)
        self.cg = j['cg']; self.addr = set(j['addr'])
        self.callers = {}
        for a, bs in self.cg.items():
            for b in bs: self.callers.setdefault(b, set()).add(a)
    def only_from(self, fn, allowed):
        """fn is a helper: never address-taken and called (transitively) only from the functions in `allowed` (names)"""
        seen = set(); st = [fn if isinstance(fn, str) else fn.name]
        while st:
            x = st.pop()
            if x in allowed or x in seen: continue
            seen.add(x)
            if x in self.addr or not self.callers.get(x): return False
            st.extend(self.callers[x])
        return True
    def by_base(self, base):
        return [f for f in self.fns.values() if f.base == base]
    def find(self, rx):
        r = re.compile(rx)
        return [f for f in self.fns.values() if r.search(f.dem)]
    def loc(self, i):
        l = i.get('l')
        if not l: return '?'
        return '%s:%d' % (self.files[l[0]], l[1])

_mods = {}
def load(config='default', variant='api', witnesses=()):
    p = build.irjson(config, variant, tuple(witnesses))
    if p not in _mods: _mods[p] = Module(p)
    return _mods[p]
