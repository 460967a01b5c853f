"""C12 lookup-only queries never create classes or members; creating lookups always yield something."""
from .lib import *
from . import c11
EXPLAIN = ('every function reachable from a lookup-only entry (FindClass and the four id lookups of the symbol-preserving table, host findClass and getMethod) is interpreted with the constant mode flags its callers pass: no path inserts into '
           'or changes a class table, a member table or a namespace, writes a class or member, or makes one. The creating id lookups never return null, and creating FindClass returns a class that was found or has just been recorded.')
ASSUME = ['base class callbacks supplied by the host do not create symbols']
CLS = ('Class', 'Method', 'Field', 'Namespace')
def table(t):
    while t.op in ('ld', 'elem', 'idx', 'off'): t = t.a[0]
    return t.op == 'fld' and (t.a[1] in ('VM.classes', 'VM.np', 'VM.typecheck') or t.a[1].split('.')[0] in CLS)
def lookups(R, m, f, args, flavour, who, seen, depth=0):
    key = (f.name, args, flavour)
    if key in seen: return
    seen.add(key); R.fns.add(pretty(f)); R.need(len(seen) < 400, 'lookup call graph too large')
    todo = []
    class K(absint.Client):
        def call(self, st, ev):
            op = cont_op(ev)
            if op and op[0] != 'read' and table(ev.args[0]): R.bad('lookup-creates-nothing', '%s:%s' % (f.base, op[1]), '%s performs %s on %s in lookup-only mode (from %s)' % (pretty(f), op[1], show(ev.args[0]), who), ev.loc)
            if ev.name in ('std::make_shared', 'operatornew', 'operator new', 'std::allocate_shared'):
                r = ev.i; k = re.search(r'make_shared<jnivm::(\w+)', ev.dem)
                if k and k.group(1) in CLS: R.bad('lookup-creates-nothing', '%s:new %s' % (f.base, k.group(1)), '%s makes a %s in lookup-only mode (from %s)' % (pretty(f), k.group(1), who), ev.loc)
            if ev.name.startswith('jni:'):
                g = slots(m, flavour).get(ev.name[4:])
                if g is not None: todo.append((g, ()))
            else:
                c = ev.i['callee']
                if c[0] == 'g' and c[1] in m.fns:
                    todo.append((m.fns[c[1]], tuple((k, a) for k, a in enumerate(ev.args) if a.op in ('c', 'null'))))
        def store(self, st, a, v, i):
            if a.op == 'fld' and a.a[1].split('.')[0] in CLS and a.a[0].op not in ('new', 'al') and not a.a[1].endswith('mtx') and not (a.a[0].op == 'arg' and f.base.split('::')[-1] == f.base.split('::')[-2]):
                R.bad('lookup-creates-nothing', '%s:%s' % (f.base, a.a[1]), '%s writes %s in lookup-only mode (from %s)' % (pretty(f), show(a), who), m.loc(i))
            if a.op == 'slot' and table(a.a[0]): R.bad('lookup-creates-nothing', '%s:slot' % f.base, '%s records an entry in %s in lookup-only mode (from %s)' % (pretty(f), show(a.a[0]), who), m.loc(i))
    d = dict(args)
    absint.Interp(f, K(), args=[d.get(k, T('arg', k)) for k in range(f.nargs)], splitsel=True).run()
    R.ok('lookup-creates-nothing', '%s, reached from %s' % (pretty(f), who))
    for g, a in todo: lookups(R, m, g, a, flavour, who, seen, depth + 1)
def run(R):
    m = R.mod('api'); seen = set()
    S1, S0 = slots(m, True), slots(m, False)
    for s in ('FindClass',) + tuple(c11.SPEC):
        R.need(S1.get(s), 'table entry ' + s); lookups(R, m, S1[s], (), True, s, seen)
    n = 0
    for f in m.fns.values():
        if f.base in ('jnivm::Class::getMethod', 'FakeJni::Jvm::findClass'): n += 1; lookups(R, m, f, (), False, pretty(f).split('(')[0], seen)
    R.need(n >= 2, 'host lookups')
    # lookup mode answers null rather than creating: the flavours really differ
    c11.analyse(Only(R, 'creating-lookup-never-null', 'lookup-creates-nothing'), m, [(s, S0[s], k, st, False, True) for s, (k, st) in c11.SPEC.items()])
    c11.analyse(Only(R, 'creating-lookup-never-null', 'lookup-creates-nothing'), m, [(s, S1[s], k, st, False, False) for s, (k, st) in c11.SPEC.items()])
    for s in c11.SPEC: R.ok('creating-lookup-never-null', '%s (creating)' % s)
    # creating FindClass: follow the class to where it is found or made
    for s, T_, crea in (('FindClass', S0, True), ('FindClass', S1, False)):
        f = T_[s]; calls = []
        class F(absint.Client):
            def call(self, st, ev):
                c = ev.i['callee']
                if c[0] == 'g' and c[1] in m.fns and any(a.op == 'arg' and a.a[0] == 1 for a in ev.args) and ('Class' in m.fns[c[1]].dem): calls.append((m.fns[c[1]], tuple((k, a) for k, a in enumerate(ev.args) if a.op in ('c', 'null')), ev.i.get('sret')))
            def ret(self, st, v, i): 
                R.check(not (crea and v is NULL), 'creating-lookup-never-null', 'FindClass', 'FindClass returns null in creating mode', m.loc(i))
        absint.Interp(f, F(), splitsel=True).run()
        calls = [(g, a) for g, a, sr in calls if g.ret != 'i1' and any('classes' in str(i.get('vf', '')) for b in g.blocks for i in b)]
        R.need(calls, 'class search called by FindClass')
        for g, a in calls:
            d = dict(a); nulls = []
            class G(absint.Client):
                def ret(self, st, v, i):
                    r = st.get(T('arg', 0)) if v is None else v
                    for x in self.interp.roots(r):
                        if st.nullness(r) == 'null' or x is NULL and st.nullness(r) != 'nonnull' and r.op not in ('phi', 'mphi', 'xphi'): nulls.append(m.loc(i))
            absint.Interp(g, G(), args=[d.get(k, T('arg', k)) for k in range(g.nargs)], splitsel=True).run()
            R.fns.add(pretty(g))
            if crea: R.check(not nulls, 'creating-lookup-never-null', 'FindClass:search', 'the class search can answer null in creating mode', nulls and nulls[0], 'creating FindClass yields a class')
            else: R.check(bool(nulls), 'lookup-answers-null', 'FindClass', 'the class search never answers null in lookup-only mode', where(g), 'unknown class answered with null')
    R.floor('lookup-creates-nothing', 10); R.floor('creating-lookup-never-null', 5); R.floor('lookup-answers-null', 1)
