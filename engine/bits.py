"""Blocks as vectors of bits: pack(λj. bit) with xor distributing; contracts of the packing and transposition helpers
(their implementations are decided bit by bit in C12)."""
from core import *
import interp, stdmodel, net

def gfbit(v):
    """0/1-valued term as a GF(2) value"""
    return v
def pack(f):
    """block whose bit j is f(j)"""
    v = tm.lv(C(128))
    return T_('pack', tm.close(f(v), v))
def bitof(b, j):
    if b is ZERO: return ZERO
    if b.op == 'pack': return tm.opn(b.a[0], j)
    if b.op == 'xor': return xor(*[bitof(x, j) for x in b.a[0]])
    if b.op == 'ite': return ite(b.a[0], bitof(b.a[1], j), bitof(b.a[2], j))
    return T_('bbit', b, j)
tm.register('bbit', bitof)
def _rebpack(cl): return T_('pack', cl)
def bitform(b):
    return pack(lambda j: bitof(b, j))

def blocks_at(I, p, st, fr):
    root, path = I.deref(p, st, fr)
    if not (path and path[-1][0] == 'i' and path[-1][1] is ZERO): raise Unsupported('bit matrix not at start of array')
    l = (root, path[:-1]); return l, I.load(st, l)

def p_sparse(I, e, a, st, fr):
    p = I.eval(a[0], st, fr); n = I.eval(a[1], st, fr); q = I.eval(a[2], st, fr); m = I.eval(a[3], st, fr)
    src = net.elems(I, p, n, st, fr)
    net.setelems(I, q, m, mkbind('map', m, lambda i: pack(lambda j: sel(src, add(mul(C(128), i), j)))), st, fr)
    return T_('void')
def p_transpose(I, e, a, st, fr):
    _, src = blocks_at(I, I.eval(a[0], st, fr), st, fr)
    rn = I.eval(a[1], st, fr); cn = I.eval(a[2], st, fr)          # source: rn rows of cn bits
    l, dst = blocks_at(I, I.eval(a[3], st, fr), st, fr)
    rb, cb = div(rn, C(128)), div(cn, C(128))
    def el(k):
        i, c = (k, ZERO) if rb is ONE else (div(k, rb), modi(k, rb))
        return pack(lambda j: bitof(sel(src, add(mul(add(mul(C(128), c), j), cb), div(i, C(128)))), modi(i, C(128))))
    I.store(st, l, mkbind('map', size(dst), el)); return T_('void')
BITP = {'Block::FromSparseBytes': p_sparse, 'BitMatrixTranspose': p_transpose}
