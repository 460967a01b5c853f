"""C24 pending exception: value analysis of ENV::current_exception."""
from .lib import *
from . import c03
from .lib import run as run_fn
EXPLAIN = ('Abstract value of ENV::current_exception at every return of the exception functions of the JNI table, who-may-write rule for every other function, '
           'and, for the C++ invocation templates (instantiated by a witness unit), a must-check on every return path that no exception is pending, a pending one being rethrown from its own exception_ptr.')
ASSUME = ['exceptions raised by hooks are recorded by the Call functions (C03)']
CE = 'ENV.current_exception'; EX = 'Throwable.except'
W = ('w_invoke.cpp',)
def cell(env): return fld(env, CE)
def boolcond(st, v):
    """condition term of a returned jboolean/int"""
    while v.op in ('b2i', 'cast'): v = v.a[-1]
    return v
def final(f, want=lambda *a: None):
    return logfn(f, want)
def strip(v): return v.a[0] if v.op == 'alias' else v
def run(R):
    m = R.mod('api', W); sl = slots(m); env = T('ENV', T('arg', 0)); ce = cell(env); old = absint.mkld(ce)
    for s in ('Throw', 'ThrowNew', 'ExceptionOccurred', 'ExceptionCheck', 'ExceptionClear', 'ExceptionDescribe'):
        R.need(sl.get(s), 'slot %s missing' % s); R.fns.add(pretty(sl[s]))
    def rethrowable(st, v):
        e = st.get(fld(v, EX))
        return e.op in ('cur_exc', 'exc') or st.nullness(e) == 'nonnull'
    # Throw
    c = final(sl['Throw']); R.need(c.rets, 'Throw')
    x = T('unpack', 'Throwable', T('arg', 1))
    for st, v, i in c.rets:
        cur = strip(st.get(ce)); n = st.nullness(x)
        if n == 'null' or st.nullness(T('arg', 1)) == 'null': continue
        R.check(cur is x, 'throw-sets-the-throwable', 'Throw', 'Throw leaves %s pending instead of the given throwable' % show(cur), m.loc(i), 'Throw')
        R.check(v is C(0), 'throw-reports-success', 'Throw', 'Throw returns %s' % show(v), m.loc(i))
        R.check(rethrowable(st, x), 'pending-exception-can-be-rethrown', 'Throw', 'Throw makes a throwable pending that carries no exception: rethrowing it to a C++ caller or describing it terminates the program', m.loc(i), 'Throw')
    # ThrowNew
    def wn(cl, st, ev, ph):
        if ph == 'call' and ev.name == '__cxa_throw': return ('throw',)
        if ph == 'call' and any(a is T('arg', 2) or models.S(T('arg', 2)) in (st.get(a),) for a in ev.args) and ('_error' in ev.name or 'exception' in ev.name): return ('msg', ev.name)
    c = Log(wn); c.effects_on_unwind = True; run_fn(sl['ThrowNew'], c); R.need(c.rets, 'ThrowNew')
    some = any(e[0] == 'msg' for st, v, i in c.rets for e in st.cs)
    for st, v, i in c.rets:
        cur = strip(st.get(ce))
        if st.nullness(T('arg', 2)) == 'null': continue
        ok = cur.op == 'new' and rethrowable(st, cur)
        R.check(ok, 'thrownew-sets-a-fresh-throwable', 'ThrowNew', 'ThrowNew leaves %s pending (exception %s)' % (show(cur), show(st.get(fld(cur, EX)))), m.loc(i), show(cur))
        failed = any(e[0] == 'msg' for e in st.cs)
        thrown = any(e[0] == 'throw' for e in st.cs)
        R.check(failed or not thrown and some, 'thrownew-carries-the-message', 'ThrowNew', 'the message given to ThrowNew does not reach the exception', m.loc(i))
        R.check(v is C(0), 'throw-reports-success', 'ThrowNew', 'ThrowNew returns %s' % show(v), m.loc(i))
    # ExceptionOccurred / ExceptionCheck
    c = final(sl['ExceptionOccurred']); R.need(c.rets, 'ExceptionOccurred')
    for st, v, i in c.rets:
        n = st.nullness(old)
        ok = v is T('local', old) or (n == 'null' and v is NULL)
        R.check(ok and strip(st.get(ce)) is old, 'occurred-returns-the-pending-one', 'ExceptionOccurred', 'ExceptionOccurred returns %s and leaves %s pending' % (show(v), show(st.get(ce))), m.loc(i), show(v))
    c = final(sl['ExceptionCheck']); R.need(c.rets, 'ExceptionCheck')
    for st, v, i in c.rets:
        b = boolcond(st, v); t = neg(mkeq(old, NULL))
        tr = st.truth(t)
        ok = b is t or (tr is not None and st.truth(b) == tr)
        R.check(ok and st.get(ce) is old, 'check-reports-exactly', 'ExceptionCheck', 'ExceptionCheck returns %s' % show(v), m.loc(i), show(v))
    c = final(sl['ExceptionClear']); R.need(c.rets, 'ExceptionClear')
    for st, v, i in c.rets:
        cur = st.get(ce)
        R.check(cur is NULL or st.nullness(cur) == 'null', 'clear-removes-it', 'ExceptionClear', 'ExceptionClear leaves %s pending' % show(cur), m.loc(i), 'ExceptionClear')
    c = final(sl['ExceptionDescribe'])
    for st, v, i in c.rets:
        R.check(strip(st.get(ce)) is old, 'describe-keeps-it', 'ExceptionDescribe', 'ExceptionDescribe changes the pending exception to %s' % show(st.get(ce)), m.loc(i), 'ExceptionDescribe')
    for st, i in c.unwinds:
        pass
    # everybody else only ever sets a fresh throwable holding the exception being handled
    done = {sl[s].name for s in ('Throw', 'ThrowNew', 'ExceptionClear')}
    for f in m.fns.values():
        if m.only_from(f, done) or f.base.endswith('ENV::ENV') or f.base.endswith('::~ENV'): continue
        if not any(CE.split('.')[1] in (i.get('vf') or '') for _, i in f.instrs()): continue
        R.fns.add(pretty(f)); hits = []; seen = []
        class K(absint.Client):
            def after(self, st, ev):
                if ev.args and ev.args[0].op == 'fld' and ev.args[0].a[1] == CE:
                    if ev.name.split('::')[-1] in ('operator=', 'reset', 'swap', 'move', 'exchange', '__shared_ptr', 'shared_ptr', '~__shared_ptr') or ev.name == 'std::swap':
                        cur = strip(st.get(ev.args[0])); seen.append(ev.loc)
                        if not (cur.op == 'new' and rethrowable(st, cur)): hits.append((show(cur), ev.loc))
                elif len(ev.args) > 1 and ev.args[1].op == 'fld' and ev.args[1].a[1] == CE and (ev.name == 'std::swap' or (ev.i.get('callee', [0, ''])[0] == 'g' and ir.parse_name(ev.dem)[1][:1] and ir.parse_name(ev.dem)[1][0].endswith('&&') and 'operator=' in ev.name)):
                    hits.append(('moved-out', ev.loc))
        absint.Interp(f, K()).run()
        R.check(not hits, 'only-clear-removes-a-pending-exception', pretty(f).split('(')[0], '%s sets the pending exception to %s' % (pretty(f), hits and hits[0][0]), hits and hits[0][1], '%s: %d writes' % (pretty(f).split('(')[0], len(seen)))
    # host invocation
    for f in m.find(r'^witness::(invoke|proxy)_'):
        R.fns.add(pretty(f)); env1 = T('ENV', T('arg', 1)); o2 = absint.mkld(cell(env1)); key = f.base
        def wr(cl, st, ev, ph):
            if ph == 'call' and ev.name == 'std::rethrow_exception': return ('rethrow', st.get(ev.args[0]))
            if ph == 'call' and (ev.name.startswith('jni:Call') or ev.name.endswith('Method.native')): return ('invoke',)
            if ph == 'call' and ev.name == 'std::__shared_ptr::operator_bool' and is_field(ev.args[0], CE): return ('test',)
        c = logfn(f, wr)
        for st, v, i in c.rets:
            ks = [e[0] for e in st.cs]
            R.check('invoke' in ks and st.nullness(o2) == 'null' and ('test' not in ks or ks.index('test') > ks.index('invoke')), 'returns-only-without-pending-exception', key, 'a C++ invocation returns without checking for a pending exception after the call', m.loc(i), f.dem)
        seen = 0
        allst = [st for st, i in c.unwinds]
        for st in allst:
            for e in st.cs:
                if e[0] == 'rethrow':
                    seen += 1
                    R.check(e[1] is absint.mkld(fld(o2, EX)), 'rethrows-the-original', key, 'the pending exception is not rethrown from its own exception_ptr but %s' % show(e[1]), where(f), show(e[1]))
        R.check(seen > 0, 'pending-is-rethrown', key, 'no path rethrows a pending exception to the C++ caller', where(f), f.dem)
    c03.run(Only(R, 'the-exception-becomes-pending'))
    for r, n in (('throw-sets-the-throwable', 1), ('only-clear-removes-a-pending-exception', 6), ('returns-only-without-pending-exception', 20), ('check-reports-exactly', 1)): R.floor(r, n)
