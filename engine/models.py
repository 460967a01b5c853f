"""Models of the standard library operations left as calls by irprep."""
from . import absint
T, NULL, C, UNK, TRUE, FALSE, mkeq, neg = absint.T, absint.NULL, absint.C, absint.UNK, absint.TRUE, absint.FALSE, absint.mkeq, absint.neg
M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d
def lookup(n): return M.get(n)
NOTHROW = set()

def targ(dem, key):
    """first template argument of the function `key<...>` in a demangled name"""
    k = dem.find(key + '<')
    if k < 0: return '?'
    k += len(key) + 1; d = 0; out = ''
    for c in dem[k:]:
        if c == '<': d += 1
        if c == '>':
            if d == 0: break
            d -= 1
        if c == ',' and d == 0: break
        out += c
    return out.strip()

# ---- smart pointers: the cell of the pointer object holds the pointee ----
@model('std::shared_ptr::shared_ptr', 'std::__shared_ptr::__shared_ptr', 'std::unique_ptr::unique_ptr', 'std::__weak_ptr::__weak_ptr_')
def sp_ctor(I, st, ev, params, site):
    d = ev.args[0]
    if len(ev.args) == 1: st.mem[d] = NULL; return
    p0 = params[0] if params else ''
    src = ev.args[1]
    if 'nullptr_t' in p0 and len(ev.args) >= 1 and (len(params) == 1): st.mem[d] = NULL; return
    if len(ev.args) == 3 and 'shared_ptr<' in p0:          # aliasing constructor
        st.mem[d] = T('alias', ev.args[2], st.get(src)) if ev.args[2] is not st.get(src) else ev.args[2]
        if p0.endswith('&&'): st.mem[src] = NULL
        return
    if 'shared_ptr<' in p0 or 'unique_ptr<' in p0:
        st.mem[d] = st.get(src)
        if p0.endswith('&&'): st.mem[src] = NULL
        return
    if 'weak_ptr<' in p0:
        st.mem[d] = lockof(st.get(src)); return
    st.mem[d] = src
def lockof(v):
    return T('lock', v)
@model('std::shared_ptr::operator=', 'std::__shared_ptr::operator=', 'std::unique_ptr::operator=')
def sp_assign(I, st, ev, params, site):
    d, s = ev.args[0], ev.args[1]
    p0 = params[0] if params else ''
    if 'nullptr_t' in p0: I.write(st, d, NULL); return d
    v = st.get(s)
    I.write(st, d, v)
    if p0.endswith('&&') and s is not d: st.mem[s] = NULL
    return d
@model('std::__shared_ptr::reset', 'std::shared_ptr::reset', 'std::unique_ptr::reset', 'std::__weak_ptr::reset')
def sp_reset(I, st, ev, params, site):
    I.write(st, ev.args[0], ev.args[1] if len(ev.args) > 1 else NULL)
@model('std::__shared_ptr::swap', 'std::swap', 'std::shared_ptr::swap')
def sp_swap(I, st, ev, params, site):
    if len(ev.args) < 2: return None
    a, b = st.get(ev.args[0]), st.get(ev.args[1])
    I.write(st, ev.args[0], b); I.write(st, ev.args[1], a)
@model('std::__shared_ptr::get', 'std::__shared_ptr_access::operatorARROW', 'std::__shared_ptr_access::operator*', 'std::__shared_ptr_access::_M_get',
       'std::unique_ptr::get', 'std::unique_ptr::operatorARROW', 'std::unique_ptr::operator*')
def sp_get(I, st, ev, params, site):
    v = st.get(ev.args[0])
    return v.a[0] if v.op == 'alias' else v
@model('std::__shared_ptr::operator_bool', 'std::unique_ptr::operator_bool', 'std::function::operator_bool', 'std::__exception_ptr::exception_ptr::operator_bool')
def sp_bool(I, st, ev, params, site):
    v = st.get(ev.args[0])
    if v.op == 'alias': v = v.a[0]
    return neg(mkeq(v, NULL))
@model('std::__shared_ptr::~__shared_ptr', 'std::shared_ptr::~shared_ptr', 'std::__weak_ptr::~__weak_ptr', 'std::weak_ptr::~weak_ptr', 'std::unique_ptr::~unique_ptr',
       'std::basic_string::~basic_string', 'std::__exception_ptr::exception_ptr::~exception_ptr', 'std::_Function_base::~_Function_base', 'std::function::~function',
       'std::vector::~vector', 'std::pair::~pair')
def dtor(I, st, ev, params, site):
    st.mem.pop(ev.args[0], None)
@model('std::weak_ptr::weak_ptr', 'std::__weak_ptr::__weak_ptr')
def wp_ctor(I, st, ev, params, site):
    if len(ev.args) == 1: st.mem[ev.args[0]] = NULL; return
    p0 = params[0] if params else ''
    v = st.get(ev.args[1])
    st.mem[ev.args[0]] = v if 'weak_ptr<' in p0 else T('weakof', v)
@model('std::weak_ptr::operator=', 'std::__weak_ptr::operator=')
def wp_assign(I, st, ev, params, site):
    p0 = params[0] if params else ''
    v = st.get(ev.args[1])
    I.write(st, ev.args[0], v if 'weak_ptr<' in p0 and 'shared_ptr' not in p0 else T('weakof', v))
    return ev.args[0]
@model('std::weak_ptr::lock', 'std::__weak_ptr::lock')
def wp_lock(I, st, ev, params, site):
    ev.dst = ev.args[0]
    st.mem[ev.args[0]] = ev.res = lockof(st.get(ev.args[1]))
@model('std::enable_shared_from_this::shared_from_this', 'std::__enable_shared_from_this::shared_from_this')
def sft(I, st, ev, params, site):
    ev.dst = ev.args[0]
    st.mem[ev.args[0]] = ev.res = T('this', offbase(ev.args[1]))
@model('std::enable_shared_from_this::weak_from_this')
def wft(I, st, ev, params, site):
    ev.dst = ev.args[0]
    st.mem[ev.args[0]] = ev.res = T('weakof', offbase(ev.args[1]))
def offbase(t): return t.a[0] if t.op == 'off' else t
@model('std::make_shared', 'std::make_unique', 'std::allocate_shared')
def mk(I, st, ev, params, site):
    ty = absint.short(targ(ev.dem, 'make_shared') if 'make_shared' in ev.dem else targ(ev.dem, 'make_unique'))
    ev.dst = ev.args[0]
    r = T('new', ty, ev.i['id'], *ev.args[1:])
    I.fresh(st, r)
    st.mem[ev.args[0]] = ev.res = r
# ---- exceptions -----------------------------------------------------------
@model('std::__exception_ptr::exception_ptr::exception_ptr')
def ep_ctor(I, st, ev, params, site):
    st.mem[ev.args[0]] = NULL if len(ev.args) == 1 or 'nullptr_t' in params[0] else st.get(ev.args[1])
@model('std::__exception_ptr::exception_ptr::operator=')
def ep_assign(I, st, ev, params, site):
    I.write(st, ev.args[0], st.get(ev.args[1])); return ev.args[0]
@model('std::current_exception')
def cur_exc(I, st, ev, params, site):
    ev.dst = ev.args[0]
    st.mem[ev.args[0]] = ev.res = T('cur_exc')
@model('std::make_exception_ptr')
def mk_exc(I, st, ev, params, site):
    ev.dst = ev.args[0]
    st.mem[ev.args[0]] = ev.res = T('exc', 'made', *ev.args[1:])
# ---- strings --------------------------------------------------------------
def S(p):
    """string value of a char pointer term"""
    if p.op == 'cstr': return p.a[0]
    if p.op == 'lit': return p
    return T('str', p)
def SV(st, addr):
    return st.get(addr)
@model('std::basic_string::basic_string')
def str_ctor(I, st, ev, params, site):
    d = ev.args[0]; a = ev.args[1:]
    p0 = params[0] if params else ''
    if not a or (len(a) == 1 and 'allocator' in p0): st.mem[d] = T('lit', ''); return
    if 'basic_string<' in p0:
        if len(params) == 1 or (len(params) == 2 and 'allocator' in params[1] and 'basic_string' not in params[1]):
            st.mem[d] = SV(st, a[0])
            if p0.endswith('&&'): st.mem[a[0]] = T('lit', '')
            return
        st.mem[d] = T('substr', SV(st, a[0]), *a[1:]); return
    if p0 == 'char const*' and (len(params) == 1 or (len(params) == 2 and 'allocator' in params[1])):
        st.mem[d] = S(a[0]); return
    st.mem[d] = T('strrange', *[x for x, p in zip(a, params) if 'allocator' not in p])
@model('std::basic_string::operator=', 'std::basic_string::assign')
def str_assign(I, st, ev, params, site):
    d, s = ev.args[0], ev.args[1]; p0 = params[0] if params else ''
    if 'basic_string<' in p0:
        v = SV(st, s)
        if p0.endswith('&&'): st.mem[s] = T('moved', v)
    elif p0 == 'char const*' and len(ev.args) == 2: v = S(s)
    else: v = T('strrange', *ev.args[1:])
    I.write(st, d, v)
    return d
@model('std::basic_string::operator+=', 'std::basic_string::append', 'std::basic_string::push_back')
def str_append(I, st, ev, params, site):
    d = ev.args[0]; p0 = params[0] if params else ''
    if 'basic_string<' in p0: x = SV(st, ev.args[1])
    elif p0 == 'char const*' and len(ev.args) == 2: x = S(ev.args[1])
    elif p0 == 'char': x = T('chr', ev.args[1])
    else: x = T('strrange', *ev.args[1:])
    I.write(st, d, cat(SV(st, d), x))
    return d
def cat(a, b):
    l = (list(a.a) if a.op == 'cat' else [a]) + (list(b.a) if b.op == 'cat' else [b])
    out = []
    for x in l:
        if x.op == 'chr' and x.a[0].op == 'c': x = T('lit', chr(x.a[0].a[0] & 255))
        if x.op == 'lit' and x.a[0] == '': continue
        if out and out[-1].op == 'lit' and x.op == 'lit': out[-1] = T('lit', out[-1].a[0] + x.a[0])
        else: out.append(x)
    if len(out) > 60: return UNK
    if not out: return T('lit', '')
    return out[0] if len(out) == 1 else T('cat', *out)
@model('std::operator+')
def str_plus(I, st, ev, params, site):
    if not ev.i.get('sret'): return I.unknown(st, ev, site)
    ev.dst = ev.args[0]
    vs = []
    for p, a in zip(params, ev.args[1:]):
        if 'basic_string<' in p: vs.append(SV(st, a))
        elif p == 'char': vs.append(T('chr', a))
        else: vs.append(S(a))
    st.mem[ev.args[0]] = ev.res = cat(*vs)
@model('std::basic_string::data', 'std::basic_string::c_str')
def str_data(I, st, ev, params, site):
    v = SV(st, ev.args[0])
    if v.op == 'lit': return v
    if v.op == 'str': return v.a[0]
    return T('cstr', v)
@model('std::basic_string::size', 'std::basic_string::length')
def str_size(I, st, ev, params, site):
    return T('pure', 'size', SV(st, ev.args[0]))
@model('std::basic_string::empty')
def str_empty(I, st, ev, params, site):
    return mkeq(T('pure', 'size', SV(st, ev.args[0])), C(0))
@model('std::basic_string::find', 'std::basic_string::rfind', 'std::basic_string::find_last_of', 'std::basic_string::find_first_of', 'std::basic_string::find_first_not_of', 'std::basic_string::find_last_not_of', 'std::basic_string::compare')
def str_find(I, st, ev, params, site):
    a = [SV(st, ev.args[0])]
    for p, x in zip(params, ev.args[1:]): a.append(SV(st, x) if 'basic_string<' in p else x)
    return T('pure', ev.name.split('::')[-1], *a)
@model('std::basic_string::substr')
def str_substr(I, st, ev, params, site):
    ev.dst = ev.args[0]
    st.mem[ev.args[0]] = ev.res = T('substr', SV(st, ev.args[1]), *ev.args[2:])
@model('std::basic_string::erase', 'std::basic_string::insert', 'std::basic_string::resize', 'std::basic_string::replace', 'std::basic_string::clear', 'std::basic_string::pop_back')
def str_mut(I, st, ev, params, site):
    v = T('strop', ev.name.split('::')[-1], SV(st, ev.args[0]), *ev.args[1:])
    if ev.name.endswith('clear'): v = T('lit', '')
    I.write(st, ev.args[0], v)
    return ev.args[0]
@model('std::basic_string::operator[]', 'std::basic_string::at', 'std::basic_string::back', 'std::basic_string::front')
def str_at(I, st, ev, params, site):
    return T('chaddr', SV(st, ev.args[0]), ev.args[1] if len(ev.args) > 1 else T('lit', ev.name.split('::')[-1]))
@model('std::operator==', 'std::operator!=')
def std_eq(I, st, ev, params, site):
    vs = []
    for p, a in zip(params, ev.args):
        if 'nullptr_t' in p: vs.append(NULL)
        elif p == 'char const*': vs.append(S(a))
        elif '&' in p: vs.append(st.get(a))
        else: vs.append(a)
    if len(vs) == 1: vs.append(NULL)
    vs = [v.a[0] if v.op == 'alias' else v for v in vs]
    r = mkeq(vs[0], vs[1])
    return neg(r) if ev.name.endswith('!=') else r
M['std::__detail::operator!='] = M['std::__detail::operator=='] = std_eq
@model('strcmp', 'strncmp', 'memcmp')
def c_strcmp(I, st, ev, params, site):
    if ev.name == 'strcmp': return T('b2i', neg(mkeq(S(ev.args[0]), S(ev.args[1]))))
    return T('pure', ev.name, *ev.args)
@model('strlen')
def c_strlen(I, st, ev, params, site):
    return T('pure', 'size', S(ev.args[0]))
@model('strchr', 'strrchr', 'strstr')
def c_strchr(I, st, ev, params, site):
    return T('pure', ev.name, *ev.args)
# ---- functions --------------------------------------------------------------
@model('std::function::function')
def fn_ctor(I, st, ev, params, site):
    d = ev.args[0]; p0 = params[0] if params else ''
    if len(ev.args) == 1 or 'nullptr_t' in p0: st.mem[d] = NULL; return
    if 'std::function<' in p0:
        st.mem[d] = st.get(ev.args[1])
        if p0.endswith('&&'): st.mem[ev.args[1]] = NULL
        return
    st.mem[d] = T('fnobj', ev.i['id'], *ev.args[1:])
@model('std::function::operator=')
def fn_assign(I, st, ev, params, site):
    p0 = params[0] if params else ''
    v = NULL if 'nullptr_t' in p0 else st.get(ev.args[1]) if 'std::function<' in p0 and '(&' not in p0 else T('fnobj', ev.i['id'], ev.args[1])
    I.write(st, ev.args[0], v); return ev.args[0]
# ---- containers -------------------------------------------------------------
@model('std::vector::begin', 'std::forward_list::begin', 'std::unordered_map::begin', 'std::unordered_set::begin', 'std::begin', 'std::vector::cbegin',
       'std::forward_list::before_begin', 'std::vector::data', 'std::list::begin', 'std::map::begin', 'std::deque::begin')
def c_begin(I, st, ev, params, site):
    return T('before_begin' if 'before' in ev.name else 'begin', ev.args[0])
@model('std::vector::end', 'std::forward_list::end', 'std::unordered_map::end', 'std::unordered_set::end', 'std::unordered_multimap::end', 'std::end', 'std::vector::cend', 'std::list::end', 'std::map::end')
def c_end(I, st, ev, params, site):
    return T('end', ev.args[0])
@model('std::vector::front', 'std::forward_list::front', 'std::list::front', 'std::vector::back', 'std::list::back')
def c_front(I, st, ev, params, site):
    return T(ev.name.split('::')[-1], ev.args[0])
@model('std::vector::operator[]', 'std::vector::at')
def c_index(I, st, ev, params, site):
    return T('elem', ev.args[0], ev.args[1])
@model('std::vector::size', 'std::unordered_map::size')
def c_size(I, st, ev, params, site):
    return T('pure', 'vsize', ev.args[0])
@model('std::vector::empty', 'std::forward_list::empty', 'std::unordered_map::empty', 'std::list::empty')
def c_empty(I, st, ev, params, site):
    # emptiness changes with the container: tie it to this call site
    r = T('pure1', 'empty', ev.args[0]); I_forget(st, r); return r
def I_forget(st, r):
    for k in [k for k in st.facts if any(x is r for x in absint.subterms(k))]: del st.facts[k]
def keyval(st, a, p):
    if 'basic_string<' in p: return st.get(a)
    return st.get(a) if a.op in ('al',) else a
@model('std::unordered_map::find', 'std::unordered_set::find', 'std::map::find', 'std::unordered_multimap::find')
def c_find(I, st, ev, params, site):
    return T('find', ev.args[0], st.get(ev.args[1]))
@model('std::unordered_map::count', 'std::unordered_set::count', 'std::map::count', 'std::set::count', 'std::unordered_map::contains', 'std::unordered_set::contains')
def c_count(I, st, ev, params, site):
    return T('b2i', neg(mkeq(T('find', ev.args[0], st.get(ev.args[1])), T('end', ev.args[0]))))
@model('std::unordered_map::operator[]', 'std::map::operator[]', 'std::unordered_map::at')
def c_slot(I, st, ev, params, site):
    return T('slot', ev.args[0], st.get(ev.args[1]))
@model('std::__detail::_Node_iterator::operatorARROW', 'std::__detail::_Node_const_iterator::operatorARROW', 'std::__detail::_Node_iterator::operator*', 'std::__detail::_Node_const_iterator::operator*',
       'std::_Fwd_list_iterator::operator*', 'std::_Fwd_list_const_iterator::operator*', 'std::_Fwd_list_iterator::operatorARROW', 'std::_Fwd_list_const_iterator::operatorARROW')
def it_deref(I, st, ev, params, site):
    return T('node', st.get(ev.args[0]))
@model('std::__detail::_Node_iterator::operator++', 'std::__detail::_Node_const_iterator::operator++', 'std::_Fwd_list_iterator::operator++', 'std::_Fwd_list_const_iterator::operator++')
def it_inc(I, st, ev, params, site):
    old = st.get(ev.args[0])
    st.mem[ev.args[0]] = T('idx', old, C(1), 0)
    return ev.args[0]
@model('std::_Fwd_list_const_iterator::_Fwd_list_const_iterator', 'std::__detail::_Node_const_iterator::_Node_const_iterator')
def it_conv(I, st, ev, params, site):
    if len(ev.args) > 1: st.mem[ev.args[0]] = st.get(ev.args[1])
# ---- misc -------------------------------------------------------------------
@model('std::dynamic_pointer_cast')
def dynptr(I, st, ev, params, site):
    v = st.get(ev.args[1]); n = absint.short(targ(ev.dem, 'dynamic_pointer_cast'))
    ev.dst = ev.args[0]
    st.mem[ev.args[0]] = ev.res = NULL if v is NULL else T('dyncast', n, v)
@model('__dynamic_cast')
def dyn(I, st, ev, params, site):
    ty = ev.args[2]
    n = ty.a[0] if ty.op == 'g' else str(ty)
    if n.startswith('_ZTI'): n = absint.short(demangle_ti(n))
    r = T('dyncast', n, ev.args[0])
    return r
_ti = {}
def demangle_ti(n):
    if n not in _ti:
        import subprocess
        o = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
        _ti[n] = o[len('typeinfo for '):] if o.startswith('typeinfo for ') else n
    return _ti[n]
@model('pthread_self')
def pself(I, st, ev, params, site): return T('self')
@model('std::type_index::type_index')
def tyidx(I, st, ev, params, site):
    st.mem[ev.args[0]] = T('typeid', ev.args[1])
@model('llvm.memcpy.p0.p0.i64', 'memcpy', 'memmove', 'llvm.memmove.p0.p0.i64')
def memcpy(I, st, ev, params, site):
    st.mem[ev.args[0]] = T('copyof', st.get(ev.args[1]), ev.args[2])
    return ev.args[0]
@model('llvm.memset.p0.i64')
def memset(I, st, ev, params, site):
    if ev.args[1] is C(0) and ev.args[0].op == 'al': st.mem[ev.args[0]] = NULL
@model('std::allocator::allocator', 'std::__new_allocator::~__new_allocator', 'std::allocator::~allocator', 'printf', '__cxa_end_catch', '__cxa_free_exception')
def nop(I, st, ev, params, site): return None
@model('std::vector::vector', 'std::unordered_map::unordered_map', 'std::forward_list::forward_list', 'std::unordered_set::unordered_set', 'std::unordered_multimap::unordered_multimap')
def cont_ctor(I, st, ev, params, site):
    if len(ev.args) == 1: st.mem[ev.args[0]] = T('emptyc'); return
    if params and ('vector<' in params[0] or 'unordered' in params[0]): st.mem[ev.args[0]] = st.get(ev.args[1]); return
    st.mem[ev.args[0]] = T('contof', *ev.args[1:])
NOTHROW |= {'__cxa_end_catch', 'std::__shared_ptr::operator_bool', 'pthread_mutex_unlock'}
# ---- the library's own conversion API (kept as calls in the 'api' variant) ----
def tlist(qual, key):
    k = qual.find(key + '<')
    if k < 0: return []
    k += len(key) + 1; d = 0; out = []; cur = ''
    for c in qual[k:]:
        if c == '<': d += 1
        if c == '>':
            if d == 0: break
            d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        cur += c
    out.append(cur.strip())
    return [absint.short(x) for x in out]
@model('jnivm::JNITypesObjectBase::JNICast')
def jnicast(I, st, ev, params, site):
    ty = tlist(ev.dem, 'JNITypesObjectBase')
    o = ev.args[:]
    if ev.i.get('sret'): d = o.pop(0)
    else: d = None
    h = o[1]
    v = st.get(h) if not 'jvalue' in (params[1] if len(params) > 1 else '') else T('jv', h)
    r = T('unpack', ty[0], v) if v is not NULL else NULL
    ev.targs = ty
    if d is not None: ev.dst = d; st.mem[d] = r; ev.res = r; return None
    return r
@model('UnpackJObject')
def unpackj(I, st, ev, params, site):
    ty = absint.short(targ(ev.dem, 'UnpackJObject'))
    r = T('unpack', ty, ev.args[1]) if ev.args[1] is not NULL else NULL; ev.dst = ev.args[0]; st.mem[ev.args[0]] = r; ev.res = r
@model('jnivm::JNITypesObjectBase::ToJNIType', 'jnivm::JNITypesObjectBase::ToJNIReturnType')
def tojni(I, st, ev, params, site):
    ty = tlist(ev.dem, 'JNITypesObjectBase'); ev.targs = ty
    p1 = params[1] if len(params) > 1 else ''
    a = ev.args[1]
    v = st.get(a) if ('shared_ptr<' in p1 or '*' in p1) else a
    if v.op == 'alias': v = v.a[0]
    r = T('local', v)
    n = st.nullness(v)
    if n == 'null': return NULL
    return r
@model('jnivm::InternalFindClass')
def ifc(I, st, ev, params, site):
    if ev.i.get('sret'):
        ev.dst = ev.args[0]; a = ev.args[1:]
    else: a = ev.args
    zero = a[2] if len(a) > 2 else FALSE
    r = T('class', absint_S(a[1]), zero)
    if zero is FALSE or (zero.op == 'c' and zero.a[0] == 0): st.facts[T('eq', r, NULL)] = False
    if ev.i.get('sret'): st.mem[ev.args[0]] = r; ev.res = r; return None
    return T('local', r)
def absint_S(p): return S(p)
