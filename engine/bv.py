"""Bit-level normal form of block terms: every bit is a polynomial over GF(2) in the bits of the opaque sub-terms."""
from core import *
ZP = frozenset(); OP = frozenset([frozenset()])
def px(a, b): return a ^ b
def pm(a, b):
    if not a or not b: return ZP
    if a == OP: return b
    if b == OP: return a
    r = set()
    for x in a:
        for y in b: r ^= {x | y}
    return frozenset(r)
def atom(t, j): return frozenset([frozenset([(t, j)])])
def cbits(v, w): return [OP if v >> j & 1 else ZP for j in range(w)]
class NoBits(Unsupported): pass
_memo = {}
def bv(t, w=128):
    k = (t, w)
    if k not in _memo: _memo[k] = _bv(t, w)
    return _memo[k]
def fit(b, w): return (list(b) + [ZP] * w)[:w]
def cst(t):
    if not isc(t): raise NoBits('shift amount')
    return t.a[0]
def boolp(c):
    """a condition as one polynomial"""
    if c is TRUE: return OP
    if c is FALSE: return ZP
    if c.op == 'not': return px(OP, boolp(c.a[0]))
    if c.op == 'and':
        r = OP
        for x in c.a[0]: r = pm(r, boolp(x))
        return r
    return atom(c, 'cond')
def _bv(t, w):
    o, a = t.op, t.a
    if isc(t): return cbits(a[0] & (1 << w) - 1, w)
    if o == 'xor':
        r = [ZP] * w
        for x in a[0]: r = [px(p, q) for p, q in zip(r, bv(x, w))]
        return r
    if o == 'ite':
        c = boolp(a[0]); x, y = bv(a[1], w), bv(a[2], w)
        return [px(q, pm(c, px(p, q))) for p, q in zip(x, y)]
    if o in ('mmand', 'band'): return [pm(p, q) for p, q in zip(bv(a[0], w), bv(a[1], w))]
    if o in ('mmor', 'bor'): return [px(px(p, q), pm(p, q)) for p, q in zip(bv(a[0], w), bv(a[1], w))]
    if o == '_mm_andnot_si128': return [pm(px(OP, p), q) for p, q in zip(bv(a[0], w), bv(a[1], w))]
    if o == '_mm_set_epi64x': return fit(bv(a[1], 64) + bv(a[0], 64), w)
    if o == '_mm_set_epi8': return fit(sum([bv(x, 8) for x in reversed(a)], []), w)
    if o == '_mm_set_epi16': return fit(sum([bv(x, 16) for x in reversed(a)], []), w)
    if o in ('_mm_slli_epi64', '_mm_srli_epi64'):
        b = bv(a[0], 128); n = cst(a[1]); r = []
        for l in (b[:64], b[64:]): r += ([ZP] * n + l)[:64] if o == '_mm_slli_epi64' else (l + [ZP] * n)[n:n + 64]
        return fit(r, w)
    if o in ('__builtin_ia32_pslldqi128_byteshift', '__builtin_ia32_psrldqi128_byteshift'):
        b = bv(a[0], 128); n = cst(a[1]) * 8
        return fit(([ZP] * n + b)[:128] if 'psll' in o else (b + [ZP] * n)[n:n + 128], w)
    if o == '__builtin_ia32_pclmulqdq128':
        i = cst(a[2]); x = bv(a[0], 128)[64 * (i & 1):][:64]; y = bv(a[1], 128)[64 * (i >> 4 & 1):][:64]
        r = [ZP] * 128
        for j, p in enumerate(x):
            if not p: continue
            for k, q in enumerate(y):
                if q: r[j + k] = px(r[j + k], pm(p, q))
        return fit(r, w)
    if o == '_mm_movemask_epi8': return fit([bv(a[0], 128)[8 * j + 7] for j in range(16)], w)
    if o == 'modi' and isc(a[1]) and a[1].a[0] & (a[1].a[0] - 1) == 0 and a[1].a[0] > 0:
        k = a[1].a[0].bit_length() - 1
        return fit(bv(a[0], w)[:k], w)
    if o == 'trunc': return bv(a[1], w)
    if o in ('shr', 'div') and isc(a[1]):
        n = a[1].a[0] if o == 'shr' else a[1].a[0].bit_length() - 1
        if o == 'div' and a[1].a[0] != 1 << n: raise NoBits('division')
        return fit(bv(a[0], w + n)[n:], w)
    if o == 'u16': return fit(bv(a[0], 8) + bv(a[1], 8), w)
    if o == 'lo8': return fit(bv(a[0], 16)[:8], w)
    if o == 'hi8': return fit(bv(a[0], 16)[8:], w)
    if o == 'bytes16': return fit(sum([bv(x, 8) for x in a[0]], []), w)
    if o in ('in', 'sel', 'fld', 'call', 'rand', 'g', 'lv'):
        return fit([atom(t, j) for j in range(width_of(t, w))], w)
    raise NoBits(o)
def width_of(t, w): return 8 if t.op == 'in' and str(t.a[0]).startswith('byte') else w
