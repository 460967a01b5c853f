"""C27 field access uses the right accessor and refuses a wrong id kind."""
from .lib import *
from .c01 import FIELD, TY, handle, mh_slots, dispatch
EXPLAIN = ('every Get/Set field entry of both tables, path by path: the accessor run is the getter (setter) of the very id given, in the operation of its static or instance form and value type, on the object or class given, with the value given, and its result is returned; '
           'before it runs the kind of the id was compared with the kind of the access and a mismatch went through FatalError, which never returns; an id of the right kind that has the accessor is never ignored and the accessor runs once.')
ASSUME = ['abort, exit and terminate do not return']
SZ = {'Object': 8, 'Boolean': 1, 'Byte': 1, 'Char': 2, 'Short': 2, 'Int': 4, 'Long': 8, 'Float': 4, 'Double': 8}
GETS, SETS = 'Field.getnativehandle', 'Field.setnativehandle'
def run(R):
    m = R.mod('api'); MH = mh_slots(m); R.need(MH is not None, 'virtual table of MethodHandle not found')
    for rn in (True, False):
        S = slots(m, rn); tag = '' if rn else '[lookup-only table]'
        for slot, f in sorted(S.items()):
            mt = FIELD.match(slot)
            if not mt or f is None: continue
            gs, stc, ty = mt.groups(); static = bool(stc); R.fns.add(pretty(f))
            dispatch(R, m, rn, slot, f, ('Static' if static else 'Instance') + gs, 1, static, ('null',) if gs == 'Get' else ('val', 3), MH, set(), TY[ty])
            idt = T('arg', 2); want = GETS if gs == 'Get' else SETS; kindt = T('ld', fld(idt, 'Field._static'))
            class K(absint.Client):
                effects_on_unwind = True
                def call(s, st, ev):
                    if ev.name.startswith(('llvm.memcpy', 'memcpy', 'llvm.memmove', 'memmove')) and len(ev.args) > 2 and ev.args[1].op == 'al' and any(x is T('arg', 3) for x in subterms(st.get(ev.args[1]))):
                        if not (ev.args[2].op == 'c' and ev.args[2].a[0] >= SZ[ty]): st.cs = st.cs + ('short',)
                        return
                    if ev.name == 'jni:FatalError': st.cs = st.cs + ('fatal',) if 'fatal' not in st.cs else st.cs; return
                    if not (ev.name.startswith(('virt:', 'ind')) and ev.args and handle(ev.args[0])): return
                    if gs == 'Set':
                        for s2, v in expand(st, st.get(ev.args[3]) if len(ev.args) > 3 else UNK):
                            R.check(not any(x.op == 'cast' and x.a[0] in ('trunc', 'fptrunc', 'fptosi', 'sitofp', 'fptoui', 'uitofp', 'fpext') for x in subterms(v)) and st.cs.count('short') == 0, 'value-is-complete', slot, '%s hands only part of the value to the setter' % slot, ev.loc, slot + tag)
                    hs = {x for x in subterms(ev.args[0]) if x.op == 'fld' and x.a[1] in (GETS, SETS)}
                    R.check(hs == {fld(idt, want)}, 'accessor-of-the-id', slot, '%s runs %s' % (slot, ', '.join(map(show, hs))), ev.loc, slot + tag)
                    R.check('ran' not in st.cs, 'accessor-runs-once', slot, '%s runs its accessor again' % slot, ev.loc)
                    st.cs = st.cs + ('ran',) if 'ran' not in st.cs else st.cs
                    t = None
                    for k, v in st.facts.items():
                        if k.op == 'bool' and k.a[0] is kindt: t = v
                        elif k is kindt: t = v
                        elif k.op == 'eq' and kindt in [y for x in k.a for y in subterms(x)] and any(x.op == 'c' for x in k.a):
                            c = next(x for x in k.a if x.op == 'c').a[0]; t = (c != 0) == v
                    R.check('fatal' in st.cs or t is not None and t == static, 'kind-is-checked-first', slot, '%s runs the accessor of %s' % (slot, 'an id whose kind was not compared' if t is None else 'an id of the other kind'), ev.loc, slot + tag)
                    R.check(not ('fatal' in st.cs and t == static), 'kind-is-checked-first', slot + ':right', '%s refuses an id of the right kind' % slot, ev.loc)
                def ret(s, st, v, i):
                    if 'ran' in st.cs or 'fatal' in st.cs: return
                    no = st.nullness(idt) == 'null' or st.truth(mkeq(T('ld', fld(idt, want)), NULL)) is True or gs == 'Set' and st.nullness(T('arg', 1)) == 'null'
                    R.check(no, 'accessor-is-not-ignored', slot, '%s returns without running the accessor of a usable id' % slot, m.loc(i), slot + tag)
            absint.Interp(f, K(), splitsel=True).run()
    f = slots(m)['FatalError']; n = []
    class N(absint.Client):
        def ret(s, st, v, i): n.append(i)
    absint.Interp(f, N()).run(); R.fns.add(pretty(f))
    R.check(not n, 'fatal-errors-do-not-return', 'FatalError', 'FatalError returns to its caller', n and m.loc(n[0]), 'FatalError')
    for r, k in (('accessor-of-the-id', 72), ('kind-is-checked-first', 72), ('accessor-is-not-ignored', 72), ('value-is-complete', 36), ('arguments-are-forwarded', 72), ('entry-dispatches-its-own-operation', 72), ('fatal-errors-do-not-return', 1)): R.floor(r, k)
