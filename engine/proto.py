"""Contracts used when analysing protocol code above the PRG / hash / network layer.
Each contract is itself an obligation of another check (C16: PRG, C09: network)."""
from core import *
import interp, stdmodel

def _val(I, p, st, fr):
    if p.op == 'null': return p
    return I.load(st, I.deref(p, st, fr))

def _ptrval(I, a, st, fr):
    p = I.eval(a, st, fr)
    if p.op == 'null': return p
    if p.op == 's': return p
    if p.op in ('g', 'in', 'fld', 'sel'): return p          # opaque pointer value
    lv_ = I.deref(p, st, fr)
    root, path = lv_
    if path and path[-1] == ('i', ZERO):
        base = I.load(st, (root, path[:-1]))
        if base.op in ('s', 'g') : return base
        if base.op == 'buf' or (base.op in ('cat', 'bytesof', 'slice') ): return stdmodel.frombytes(region_read(base, ZERO, C(16)))
    return I.load(st, lv_)

def key_of(salt, idv): return T_('prgkey', salt, idv)
def seedrec(key): return mkrec(T_('newrec', 'PRG::Seed'), {'counter': ZERO, 'aes_key': key})

def p_setseed(I, e, a, st, fr):
    salt = _ptrval(I, a[0], st, fr); idv = I.eval(a[1], st, fr)
    if salt.op == 'null': return seedrec(T_('prgkey', I.fresh('rand', 'seed'), idv))
    if salt.op == 'ite' and any(x.op == 'null' for x in salt.a[1:]): raise Unsupported('seed merged with null')
    return seedrec(key_of(salt, idv))
def p_reseed(I, e, a, st, fr):
    l = I.lval(a[0], st, fr); salt = _ptrval(I, a[1], st, fr); idv = I.eval(a[2], st, fr)
    I.store(st, l, seedrec(key_of(salt, idv))); return T_('void')
def _advance(I, st, l, n):
    c = (l[0], l[1] + (('f', 'counter'),))
    k = I.load(st, (l[0], l[1] + (('f', 'aes_key'),)))
    ctr = I.load(st, c)
    I.store(st, c, add(ctr, n))
    return k, ctr
def p_blocks(I, e, a, st, fr):
    l = I.lval(a[0], st, fr); n = I.eval(a[1], st, fr)
    k, ctr = _advance(I, st, l, n)
    return mkbind('map', n, lambda i: T_('prgb', k, add(ctr, i)))
def p_matrix(I, e, a, st, fr):
    l = I.lval(a[0], st, fr); r = I.eval(a[1], st, fr); c = I.eval(a[2], st, fr)
    n = mul(div(r, C(128)), c)
    k, ctr = _advance(I, st, l, n)
    return mkbind('map', n, lambda i: T_('prgb', k, add(ctr, i)))
def p_bytes(I, e, a, st, fr):
    l = I.lval(a[0], st, fr)
    n = I.eval(a[-1], st, fr)
    k, ctr = _advance(I, st, l, T_('cdiv', n, C(16)) if not isc(n) else C((n.a[0] + 15) // 16))
    v = T_('prgbytes', k, ctr, n)
    if len(a) == 3:
        p = I.eval(a[1], st, fr)
        I.write_region(p, n, v, st, fr); return T_('void')
    return v
PRGP = {'PRG::SetSeed': p_setseed, 'PRG::ReSeed': p_reseed, 'PRG::GenRandomBlocks': p_blocks,
        'PRG::GenRandomBytes': p_bytes, 'PRG::GenRandomBitMatrix': p_matrix}
