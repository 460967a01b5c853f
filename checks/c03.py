"""C03 exceptions of hooks: caught in every Call form, stored as the pending exception, default value returned."""
from .lib import *
EXPLAIN = ('Exceptional-path analysis of every Call*Method entry of both function tables (all return types, argument forms and dispatch kinds): the exceptional edge of every invocation of a method handle must reach a catch-all handler '
           'before leaving the function; on each path through that handler the value stored last in the calling env\'s pending-exception slot is a new Throwable holding the exception being handled, and the value returned is the default value.')
ASSUME = ['std::current_exception inside a handler denotes the exception being handled', 'memory exhaustion inside the handler is out of scope']
CALL = re.compile(r'^Call(Static|Nonvirtual)?(Object|Boolean|Byte|Char|Short|Int|Long|Float|Double|Void)Method[AV]?$')
def handle(t):
    """receiver of a method-handle invocation: the (base part of the) nativehandle of some Method"""
    return any(x.op == 'fld' and x.a[1] == 'Method.nativehandle' for x in subterms(t))
def is_default(v):
    return v is None or v is NULL or (v.op == 'c' and v.a[0] == 0) or (v.op == 'site' and v.a[1] == 'defaultVal') or (v.op == 'cst') or (v.op == 'f' and float(v.a[0]) == 0)
def run(R):
    m = R.mod('api')
    for rn in (True, False):
        for slot, f in sorted(slots(m, rn).items()):
            if not CALL.match(slot) or f is None: continue
            R.fns.add(pretty(f)); n = [0]; caught = [0]
            def bad(rule, msg, loc): R.bad(rule, slot, '%s %s' % (slot, msg), loc)
            class K(absint.Client):
                effects_on_unwind = True
                init_cs = 'quiet'
                def call(s, st, ev):
                    if ev.name.startswith(('virt:', 'ind')) and ev.args and handle(ev.args[0]):
                        n[0] += 1; st.cs = 'flying' if ev.i['op'] == 'invoke' else st.cs
                        if ev.i['op'] == 'call' and not ev.i.get('nt'): bad('hook-exceptions-are-caught', 'lets an exception of the hook leave the call', ev.loc)
                    elif ev.name == '__cxa_begin_catch' and st.cs == 'flying': st.cs = 'caught'
                    elif st.cs == 'caught':
                        if ev.name in ('__cxa_rethrow', 'std::rethrow_exception', '__cxa_throw'): bad('hook-exceptions-are-caught', 'throws again while handling the exception of the hook', ev.loc)
                        elif ev.name in ('jni:ExceptionClear', 'jni:Throw', 'jni:ThrowNew'): bad('the-exception-becomes-pending', 'calls %s while handling the exception of the hook' % ev.name, ev.loc)
                    elif ev.name == 'std::current_exception': bad('the-exception-becomes-pending', 'asks for the current exception outside a handler', ev.loc)
                    if ev.name == '__cxa_end_catch' and st.cs == 'caught': st.cs = 'handled'
                def after(s, st, ev):
                    if st.cs == 'flying' and ev.name.startswith(('virt:', 'ind')) and ev.args and handle(ev.args[0]): st.cs = 'quiet'
                def unwind(s, st, i):
                    if st.cs == 'flying': bad('hook-exceptions-are-caught', 'lets an exception of the hook leave the call', m.loc(i))
                def ret(s, st, v, i):
                    if st.cs not in ('caught', 'handled'): return
                    caught[0] += 1
                    p = st.mem.get(fld(T('ENV', T('arg', 0)), 'ENV.current_exception'))
                    for s2, p2 in expand(st, p):
                        why = None
                        if p2 is None: why = 'does not make the exception of the hook the pending one'
                        else:
                            p2 = strip(p2)
                            e = s2.get(fld(p2, 'Throwable.except'))
                            if p2.op != 'new' or 'Throwable' not in ancestors(m, p2.a[0]): why = 'makes %s the pending exception' % show(p2)
                            elif e.op != 'cur_exc': why = 'stores a throwable that holds %s' % show(e)
                        R.check(not why, 'the-exception-becomes-pending', slot, '%s %s' % (slot, why), m.loc(i), slot)
                    for s2, v2 in expand(st, v):
                        while v2 is not None and v2.op == 'cast': v2 = v2.a[-1]
                        R.check(is_default(v2), 'default-value-after-an-exception', slot, '%s returns %s after an exception of the hook' % (slot, v2 is not None and show(v2)), m.loc(i), slot)
            absint.Interp(f, K()).run()
            R.check(n[0] > 0, 'every-call-form-dispatches', slot, '%s never runs a method handle' % slot, where(f), slot)
            R.check(caught[0] > 0, 'hook-exceptions-are-caught', slot, '%s has no path on which an exception of the hook is handled' % slot, where(f), slot)
    for r, k in (('every-call-form-dispatches', 180), ('hook-exceptions-are-caught', 180), ('the-exception-becomes-pending', 180), ('default-value-after-an-exception', 160)): R.floor(r, k)
