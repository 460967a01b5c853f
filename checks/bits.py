"""Where every bit of a value comes from: a term of integer operations is evaluated to a vector of bits, each 0, 1 or
bit k of a leaf (a loaded value, a call result, a parameter). Exact for constants, width changes, masks, shifts by a
constant and or/xor/add of vectors that are never both set; anything else yields None bits."""
from engine.absint import Term, C
W = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'ptr': 64, 'float': 32, 'double': 64}
def width(t): return W.get(t) or (int(t[1:]) if t[:1] == 'i' and t[1:].isdigit() else None)
def const(n, w): return [(n >> k) & 1 for k in range(w)]
def bits(t, w, leaves, memo=None):
    """t as w bits; leaves(term) -> width of a leaf, None when the term is not one"""
    memo = {} if memo is None else memo
    k = (t, w)
    if k not in memo: memo[k] = _bits(t, w, leaves, memo)
    return memo[k]
def fit(v, w): return v[:w] + [0] * (w - len(v))
def natural(t, leaves):
    """width of a term as far as its casts and leaves tell"""
    lw = leaves(t)
    if lw: return lw
    if t.op == 'cast' : return width(t.a[1])
    if t.op == 'b2i': return None
    if t.op in ('and', 'or', 'xor', 'add', 'sub', 'shl', 'lshr', 'ashr', 'mul'):
        for x in t.a:
            if isinstance(x, Term):
                r = natural(x, leaves)
                if r: return r
    return None
def _bits(t, w, leaves, memo):
    lw = leaves(t)
    if lw: return fit([(t, k) for k in range(lw)], w)
    if t.op == 'c': return const(t.a[0], w)
    if t.op == 'null': return [0] * w
    if t.op == 'cast':
        op, ty, x = t.a[0], t.a[1], t.a[-1]; tw = width(ty) or w
        if op == 'trunc':
            return fit(bits(x, natural(x, leaves) or 64, leaves, memo)[:tw], w)
        if op == 'bitcast': return fit(bits(x, tw, leaves, memo), w)
        xw = natural(x, leaves)
        if op == 'zext': return fit(bits(x, xw or tw, leaves, memo), w)
        if op == 'sext' and xw:
            v = bits(x, xw, leaves, memo); return fit(v + [v[-1]] * (tw - xw), w) if tw >= xw else fit(v[:tw], w)
        return [None] * w
    nw = natural(t, leaves) or w
    if t.op in ('and', 'or', 'xor', 'add') and len(t.a) == 2:
        a, b = bits(t.a[0], nw, leaves, memo), bits(t.a[1], nw, leaves, memo)
        if t.op == 'and': return fit([0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y else None for x, y in zip(a, b)], w)
        if t.op == 'or': return fit([1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y else None for x, y in zip(a, b)], w)
        if t.op == 'xor': return fit([y if x == 0 else x if y == 0 else 0 if x == y and x is not None else None for x, y in zip(a, b)], w)
        if all(x == 0 or y == 0 for x, y in zip(a, b)): return fit([y if x == 0 else x for x, y in zip(a, b)], w)
        return [None] * w
    if t.op in ('shl', 'lshr', 'ashr') and t.a[1].op == 'c':
        a = bits(t.a[0], nw, leaves, memo); k = t.a[1].a[0]
        if not 0 <= k < 64: return [None] * w
        if t.op == 'shl': return fit(([0] * k + a)[:nw], w)
        if t.op == 'lshr': return fit(a[k:] + [0] * min(k, nw), w)
        return fit(a[k:] + [a[-1]] * min(k, nw), w)
    if t.op == 'mul' and t.a[1].op == 'c' and t.a[1].a[0] > 0 and t.a[1].a[0] & (t.a[1].a[0] - 1) == 0:
        k = t.a[1].a[0].bit_length() - 1; return fit(([0] * k + bits(t.a[0], nw, leaves, memo))[:nw], w)
    return [None] * w
