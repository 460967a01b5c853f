"""C02 a type descriptor letter denotes the same JNI type everywhere."""
from .lib import *
from . import bits
EXPLAIN = ('partial evaluation per descriptor letter: in every place that dispatches on a letter of a signature (the unpacking of variadic arguments, the skipping of a descriptor, both typed invocations of a method, the invocation of a native, the default return value, the stub generator in both syntaxes) the load of the letter is replaced by each of the eleven letters in turn, and what is left of the function is compared with one table: '
           'which C type is taken from the variable argument list (with its default promotion) and which width is written to the union, exactly one value and one descriptor per argument; which table function or native function type is called, exactly once, and that its result is what is returned, unconverted; which C++ type name the stub gets. '
           'The type traits are read off their instantiations: the literal a trait announces, the union member it reads and the type of array it stands for must agree with the same table.')
ASSUME = ['va_arg is analysed in the form clang gives it for x86-64 System V (register save area and overflow area)', 'a signature holds a single closing parenthesis']
#        letter: (trait C++ type, llvm type of the value, type taken from va_list, JNI type name, fake-jni name)
TYPES = {'Z': ('unsigned char', 'i8', 'i32', 'Boolean', 'jboolean'), 'B': ('signed char', 'i8', 'i32', 'Byte', 'jbyte'), 'S': ('short', 'i16', 'i32', 'Short', 'jshort'), 'C': ('unsigned short', 'i16', 'i32', 'Char', 'jchar'),
         'I': ('int', 'i32', 'i32', 'Int', 'jint'), 'J': ('long', 'i64', 'i64', 'Long', 'jlong'), 'F': ('float', 'float', 'double', 'Float', 'jfloat'), 'D': ('double', 'double', 'double', 'Double', 'jdouble'),
         'L': (None, 'ptr', 'ptr', 'Object', None), '[': (None, 'ptr', 'ptr', 'Object', None)}
VALUES = 'ZBSCIJFDL['
def widths(fn):
    """type of the value each instruction defines"""
    return {i['id']: i['t'] for b in fn.blocks for i in b if 'id' in i and 't' in i}
def optype(fn, ws, o):
    if o[0] == 'v':
        return ws.get(o[1]) or (fn.params[o[1]] if o[1] < len(fn.params) and isinstance(fn.params[o[1]], str) else None)
    return None
class Letter(absint.Client):
    """the function with one letter in place: events per path"""
    def __init__(self, letter, at): self.letter = letter; self.at = at; self.hits = set(); self.rets = []; self.backs = []; self.unw = []
    def subst(self, st, a, v, i):
        if i['t'] == 'i8' and self.at(self, st, a):
            self.hits.add(a); return C(ord(self.letter))
    def log(self, st, *e): st.cs = st.cs + (e,)
    def call(self, st, ev): pass
    def ret(self, st, v, i): self.rets += [(s2, v2) for s2, v2 in expand(st, v)]
    def unwind(self, st, i): self.unw.append(st)
def pe(fn, cl, **kw):
    cl.fn = fn; I = absint.Interp(fn, cl, splitsel=True, limit=kw.pop('limit', 80), **kw); I.run(); return cl
def leaf(v):
    """(the value a chain of width changes starts from, the changes)"""
    ch = []
    while v is not None and v.op == 'cast' and isinstance(v.a[-1], Term): ch.append((v.a[0], v.a[1])); v = v.a[-1]
    return v, ch

# ---------------------------------------------------------------- variadic arguments
GP, FP, OV, SAVE = 'gp', 'fp', 'overflow', 'save'
def area(a):
    """which part of the va_list an address of an argument points into"""
    fs = {x.a[0].a[1] if x.op == 'ld' else x.a[1].a[1] for x in subterms(a) if x.op == 'ld' and x.a[0].op == 'fld' or x.op == 'mphi' and x.a[1].op == 'fld'}
    ends = lambda n: any(x.endswith(n) for x in fs)
    if ends('reg_save_area'): return FP if ends('fp_offset') else GP
    return OV if ends('overflow_arg_area') else None
class VaList(Letter):
    def __init__(self, letter, at, outer): super().__init__(letter, at); self.outer = outer
    def load(self, st, a, v, i):
        ar = area(a) if a.op in ('ld', 'idx', 'off', 'mphi', 'sel', 'phi') else None
        if ar: self.log(st, 'va', ar, i['t'], v)
    def after(self, st, ev):
        n = ev.name
        if n.startswith('std::vector::') and n.split('::')[-1] in ('emplace_back', 'push_back', 'emplace', 'insert', 'resize') and ev.args: self.log(st, 'new', n.split('::')[-1], tuple(ev.args))
    def store(self, st, a, v, i):
        if 'va_list' in show(a) or a.op == 'fld' and a.a[1].endswith(('overflow_arg_area', 'fp_offset', 'gp_offset')): return
        if a.op in ('back', 'elem', 'idx', 'off', 'fld', 'al') : self.log(st, 'put', a, v, optype(self.fn, self.ws, i['o'][0]))
    def backedge(self, st, p, h, vals):
        if h == self.outer: self.backs.append((st.copy(), vals)); st.cs = ()
def run_va(R, m):
    fs = m.find(r'^jnivm::JValuesfromValist\(')
    R.need(len(fs) == 1, 'JValuesfromValist not found')
    f = fs[0]; f.prepare(); R.fns.add(pretty(f))
    R.need(f.headers, 'no loop over the signature in JValuesfromValist')
    outer = max(f.headers, key=lambda h: len(f.loops[h])); ws = widths(f)
    sig = f.nargs - 1
    def at(c, st, a): return bool(a.syms) and all(x.op != 'phi' or x.a[0] == outer for x in a.syms) and any(x.op == 'phi' and x.a[0] == outer for x in a.syms) and (a.op == 'phi' and T('arg', sig) in {r.a[0] if r.op in ('idx', 'off') else r for r in c.interp.roots(a)} or a.op == 'idx' and a.a[0] is T('arg', sig))
    for L in VALUES:
        c = VaList(L, at, outer); c.ws = ws; pe(f, c)
        R.need(c.hits, 'JValuesfromValist never reads a letter of the signature')
        R.need(c.backs, 'JValuesfromValist does not go on to the next argument for %s' % L)
        ty, vt, vat = TYPES[L][:3]; key = 'va:%s' % L
        for st, vals in c.backs:
            va = [e for e in st.cs if e[0] == 'va']; new = [e for e in st.cs if e[0] == 'new']; put = [e for e in st.cs if e[0] == 'put']
            R.check(len(va) == 1 and va[0][2] == vat and va[0][1] in ((FP, OV) if vat == 'double' else (GP, OV)), 'argument-taken-with-its-promoted-type', key, 'letter %s: an argument of promoted type %s is taken from the argument list as %s' % (L, vat, [(e[1], e[2]) for e in va] or 'nothing'), where(f), what='%s taken as %s' % (L, vat))
            R.check(len(new) == 1, 'one-value-per-argument', key, 'letter %s adds %d values for one argument' % (L, len(new)), where(f), what=L)
            vs = [e for e in put if va and leaf(e[2])[0] is va[0][3]] or [('put', None, y, None) for e in new for y in e[2][1:] if va and leaf(y)[0] is va[0][3]]
            okw = bool(vs)
            for e in vs:
                lf, ch = leaf(e[2]); got = e[3] or (ch[0][1] if ch else va[0][2])
                okw = okw and got == vt and all(op in ('trunc', 'fptrunc', 'bitcast') for op, _ in ch)
            R.check(okw, 'argument-written-with-its-width', key, 'letter %s: the value is not written to the union as %s (%s)' % (L, vt, [(show(e[2])[:60], e[3]) for e in put][:2]), where(f), what='%s written as %s' % (L, vt))
            # the position after the descriptor
            ok = False; A = next(iter(c.hits)); p = next(x for x in A.syms if x.op == 'phi'); new_ = vals.get(p.a[1])
            if new_ is not None: ok = advanced(m, c.interp, L, A, p, new_)
            R.check(ok, 'one-descriptor-per-argument', key, 'letter %s: the next argument is read at %s, which is not just behind this descriptor' % (L, show(new_)[:90]), where(f), what=L)
def at_off(v, b):
    """k when v is b + k"""
    if v is b: return 0
    if v.op == 'off' and v.a[0] is b: return v.a[1]
    if v.op == 'add' and v.a[0] is b and v.a[1].op == 'c': return v.a[1].a[0]
    if b.op == 'off' and b.a[0] is v: return -b.a[1]
    if b.op == 'off' and v.op == 'off' and b.a[0] is v.a[0]: return v.a[1] - b.a[1]
    return None
def semicolon(I, v, start):
    """v runs from start (or the character after it) to the next ';' or the end"""
    if v.op == 'site' and v.a[1].split('::')[-1] in ('memchr', 'strchr', 'find', 'find_first_of') : return any(x is start or at_off(x, start) in (0, 1) for x in v.a[2:] if isinstance(x, Term)) and C(ord(';')) in v.a[2:]
    if v.op != 'phi': return False
    ins = I.phi_in.get(v, set()); first = [x for x in ins if not any(y is v for y in subterms(x))]; steps = [x for x in ins if x not in first]
    return bool(first) and all(at_off(x, start) in (0, 1) for x in first) and all(at_off(x, v) == 1 for x in steps) and semi_test(I, v)
def semi_test(I, v):
    """the loop of v compares the character at v with ';'"""
    blks = I.fn.loops.get(v.a[0], ()); 
    cs = set()
    for b in blks:
        for i in I.fn.blocks[b]:
            if i['op'] == 'icmp' and i.get('p') in ('eq', 'ne'):
                for o in i['o']:
                    if o[0] == 'c': cs.add(o[1])
    return cs == {ord(';')}
def advanced(m, I, L, A, p, new):
    if L in VALUES[:8]: return at_off(new, p) == 1
    if L == '[':
        for x in (new,):
            k = 0
            if x.op == 'off': k = x.a[1]; x = x.a[0]
            if x.op == 'site' and 'SkipJNIType' in x.a[1] and x.a[2] is not None:
                d = at_off(x.a[2], p); return (d in (0, 1)) and k == 0
        return False
    x = new; k = 0
    if x.op == 'off': k = x.a[1]; x = x.a[0]
    if x.op == 'site' and 'SkipJNIType' in x.a[1]: return k == 0 and at_off(x.a[2], p) == 0
    return k == 1 and semicolon(I, x, p)
# ---------------------------------------------------------------- skipping one descriptor
def run_skip(R, m):
    fs = m.find(r'^jnivm::SkipJNIType\(')
    R.need(len(fs) == 1, 'SkipJNIType not found')
    f = fs[0]; R.fns.add(pretty(f)); A = T('arg', 0)
    for L in 'V' + VALUES:
        c = Letter(L, lambda c, st, a: a is A); pe(f, c)
        R.need(c.hits and c.rets, 'SkipJNIType does not read the letter')
        for st, v in c.rets:
            x, k = (v.a[0], v.a[1]) if v.op == 'off' else (v, 0)
            if L == 'L': ok = k == 1 and semicolon(c.interp, x, A)
            elif L == '[': ok = k == 0 and x.op == 'site' and 'SkipJNIType' in x.a[1] and at_off(x.a[2], A) == 1
            else: ok = at_off(v, A) == 1
            if L == '[' and not ok and x.op == 'phi':
                ok = True      # a loop over the brackets: judged by the other letters
            R.check(ok, 'descriptor-skipped-whole', 'skip:%s' % L, 'a descriptor beginning with %s is skipped to %s' % (L, show(v)[:90]), where(f), what=L)

# ---------------------------------------------------------------- typed invocation
def sig_letter(c, st, a): return any(x.op == 'fld' and x.a[1] == 'Method.signature' for x in subterms(a))
def letter_index(a):
    """the address is that of the character after the closing parenthesis"""
    for x in subterms(a):
        if x.op == 'add' and x.a[1].op == 'c' and x.a[0].op == 'pure' and str(x.a[0].a[0]) in ('find_last_of', 'rfind', 'find', 'find_first_of') and any(isinstance(y, Term) and (y is C(41) or y.op == 'lit' and y.a[0] == ')') for y in x.a[0].a): return x.a[1].a[0] == 1
    return None
class Invoke(Letter):
    def after(self, st, ev):
        if ev.name.startswith('jni:Call'): self.log(st, 'table', ev.name[4:], ev.res, tuple(ev.args))
        elif ev.name == 'ptr:Method.native': self.log(st, 'native', ev.i.get('t'), ev.res, tuple(ev.args))
def run_invoke(R, m):
    fs = [(f, 'Static' if '_jclass' in f.dem else '') for f in m.find(r'^jnivm::Method::jinvoke\(')]
    R.need(len(fs) == 2, 'the two jinvoke functions not found')
    ws = [(f, 'Static' if 'class' in f.base else '') for f in m.find(r'^witness::invoke_')]
    R.need(len(ws) >= 3, 'invocation witnesses not found')
    for f, stat in fs + ws:
        R.fns.add(pretty(f)); nat = f.base.startswith('witness::')
        for L in 'V' + VALUES:
            c = Invoke(L, sig_letter); pe(f, c); name = f.base.split('::')[-1] + (':' + stat if not nat else '')
            R.need(c.hits and c.rets, '%s does not read the letter of the return type' % name)
            for a in c.hits: R.check(letter_index(a) is True, 'return-letter-read-behind-the-parenthesis', name, 'the letter of the return type is read at %s' % show(a)[:100], where(f), what=name)
            T3 = TYPES.get(L); want = 'Call%s%sMethodA' % (stat, T3[3] if T3 else 'Void')
            for st, v in c.rets:
                es = st.cs; key = '%s:%s' % (name, L)
                R.check(len(es) == 1, 'invoked-once', key, 'letter %s: the method is invoked %d times' % (L, len(es)), where(f))
                for e in es:
                    if e[0] == 'table':
                        R.check(e[1] == want, 'invoked-as-its-return-type', key, 'letter %s: calls %s instead of %s' % (L, e[1], want), where(f), what='%s: %s' % (key, e[1]))
                    else:
                        t = T3[1] if T3 else None
                        R.check(e[1] == t, 'invoked-as-its-return-type', key + ':native', 'letter %s: the native is called as a function returning %s' % (L, e[1]), where(f), what='%s: native returns %s' % (key, e[1]))
                    if T3: R.check(returned(v, e[2], T3[1]), 'result-is-returned-unconverted', key + ':' + e[0], 'letter %s: the value returned (%s) is not the result of the call' % (L, show(v)[:100]), where(f), what=key)
def returned(v, r, t):
    """the low bits of v are those of r"""
    w = bits.width(t); b = bits.bits(v, 64, lambda x: w if x is r else None)
    return b[:w] == [(r, k) for k in range(w)]
# ---------------------------------------------------------------- traits
def text(v):
    """the literal a value of type std::string is"""
    v = strip(v)
    if v.op == 'lit': return v.a[0]
    if v.op == 'cat':
        ts = [text(x) for x in v.a if isinstance(x, Term)]
        return None if None in ts else ''.join(ts)
    return None
def run_traits(R, m):
    n = {}
    for f in m.find(r'^witness::(tsig|tcast|tto|tret|tarr|asig)_[A-Z](\[abi:cxx11\])?\('):
        kind, L = re.match(r'witness::([a-z]+)_([A-Z])', f.dem).groups(); n.setdefault(kind, set()).add(L); R.fns.add(pretty(f)); name = TYPES[L][4] if L in TYPES else 'void'
        if kind in ('tsig', 'asig'):
            rets = []
            class K(absint.Client):
                def ret(s, st, v, i): rets.append(text(st.mem.get(T('arg', 0), NULL)))
            absint.Interp(f, K(), splitsel=True).run()
            want = L if kind == 'tsig' else '[' + L
            R.check(rets and all(x == want for x in rets), 'trait-announces-its-letter', '%s:%s' % (kind, L), 'the trait of %s announces %s instead of %s' % (name or L, rets, want), where(f), what='%s -> %s' % (name, want))
        elif kind == 'tcast':
            rv = []; t = TYPES[L][1]
            class K(absint.Client):
                def ret(s, st, v, i): rv.append((v, optype(f, widths(f), i['o'][0])))
            ld = {}
            class K2(K):
                def load(s, st, a, v, i): ld[v] = i['t']
            absint.Interp(f, K2(), splitsel=True).run(); V = T('arg', 1)
            ok = bool(rv) and all(v.op == 'ld' and ty == t and ld.get(v) == t and (v.a[0] is V or v.a[0].op == 'fld' and v.a[0].a[0] is V) for v, ty in rv)
            R.check(ok, 'trait-reads-its-union-member', 'cast:%s' % L, 'the trait of %s reads %s from the union as %s' % (L, [show(v)[:60] for v, _ in rv], sorted(set(ld.values()))), where(f), what='%s read as %s' % (L, t))
        elif kind in ('tto', 'tret'):
            rv = []
            class K(absint.Client):
                def ret(s, st, v, i): rv.append(v)
            absint.Interp(f, K(), splitsel=True).run()
            R.check(rv and all(v is T('arg', 1) for v in rv), 'trait-passes-the-value-on', '%s:%s' % (kind, L), 'the trait of %s passes on %s' % (L, [show(v)[:60] for v in rv]), where(f), what=L)
        else:
            want = '_%sArray*' % (name or 'jobject')
            R.check('tag<%s>' % want in f.dem, 'trait-names-its-array-type', 'arr:%s' % L, 'the array type of %s is %s' % (name or 'jobject', f.dem), where(f), what='%s: %s' % (L, want))
    R.need(n.get('tsig', set()) >= set('VZBSCIJFD') and n.get('tcast', set()) >= set('ZBSCIJFDL') and n.get('tarr', set()) >= set('ZBSCIJFDL'), 'trait witnesses missing')
# ---------------------------------------------------------------- default values
def run_default(R, m):
    fs = m.find(r'jnivm::defaultVal<_jobject\*>\(')
    R.need(len(fs) == 1, 'defaultVal<jobject> not found')
    f = fs[0]; R.fns.add(pretty(f))
    if not any(True for b in f.blocks for i in b if i['op'] == 'switch' or i['op'] == 'icmp'): return   # returns null for every type in this configuration
    def at(c, st, a):
        k = [x.a[1].a[0] for x in subterms(a) if x.op == 'add' and x.a[1].op == 'c' and x.a[0].op == 'pure']
        if not k: return False
        c.k = k[0]; return k[0] in (1, 2)
    class D(Letter):
        def subst(self, st, a, v, i):
            if i['t'] == 'i8' and at(self, st, a): self.hits.add(self.k); return C(ord('[' if self.k == 1 else self.letter))
        def after(self, st, ev):
            if ev.name.startswith('jni:New') and ev.name != 'jni:NewObjectA': self.log(st, 'new', ev.name[4:], ev.res, tuple(ev.args))
    for L in VALUES:
        c = D(L, at); pe(f, c)
        R.need(c.rets and {1, 2} <= c.hits, 'defaultVal does not read the letters of the return type')
        want = 'New%sArray' % TYPES[L][3]; some = False
        for st, v in c.rets:
            if st.truth(T('eq', T('unk'), NULL)) : pass
            n = [e for e in st.cs if e[0] == 'new']
            if not n and not empty_path(st): 
                if L in 'L[' and v is NULL: continue      # the class was refused
                R.bad('default-array-of-its-element-type', 'default:[%s' % L, 'an array of %s by default is %s, no array is made' % (L, show(v)[:40]), where(f))
            for e in n:
                some = True
                R.check(e[1] == want and leaf(v)[0] is e[2] and e[3][1] in (C(0), NULL), 'default-array-of-its-element-type', 'default:[%s' % L, 'an array of %s by default is made by %s' % (L, e[1]), where(f), what='[%s: %s' % (L, e[1]))
        R.check(some, 'default-array-of-its-element-type', 'default:[%s' % L, 'no array is ever made by default for element type %s' % L, where(f))
def empty_path(st):
    return any(v and c.op == 'eq' and c.a[1] is NULL and 'size' in show(c.a[0]) for c, v in st.facts.items())
# ---------------------------------------------------------------- stub generator
def run_codegen(R, m):
    fs = m.find(r'^jnivm::ParseJNIType\(')
    R.need(len(fs) == 1, 'ParseJNIType not found')
    f = fs[0]; R.fns.add(pretty(f)); A = T('arg', 0)
    for L in 'V' + VALUES[:8]:
        class P(Letter):
            def after(self, st, ev):
                if ev.name in ('std::basic_string::operator=', 'std::basic_string::assign') and ev.args[0] is T('arg', 2): self.log(st, 'is', ev.args[1])
        c = P(L, lambda c, st, a: a is A); pe(f, c)
        R.need(c.hits and c.rets, 'ParseJNIType does not read the letter')
        for st, v in c.rets:
            got = [e[1].a[0] if e[1].op == 'lit' else show(e[1]) for e in st.cs]
            j = TYPES[L][4] if L != 'V' else 'void'
            want = {j, 'FakeJni::J' + TYPES[L][3]} if L != 'V' else {'void'}
            R.check(len(got) == 1 and got[0] in want, 'stub-type-of-the-letter', 'stub:%s' % L, 'the stub type of %s is %s' % (L, got), where(f), what='%s -> %s' % (L, got))
            R.check(at_off(v, A) == 0, 'stub-descriptor-consumed', 'stub:%s' % L, 'the descriptor %s ends at %s for the stub generator' % (L, show(v)[:60]), where(f), what=L)
def run(R):
    m = R.mod('api', ('w_invoke.cpp', 'w_traits.cpp'))
    run_va(R, m); run_skip(R, m); run_invoke(R, m); run_traits(R, m); run_default(R, m); run_codegen(R, m)
    R.floor('argument-taken-with-its-promoted-type', 10); R.floor('one-descriptor-per-argument', 10); R.floor('descriptor-skipped-whole', 11); R.floor('invoked-as-its-return-type', 50); R.floor('trait-announces-its-letter', 17); R.floor('stub-type-of-the-letter', 9)
