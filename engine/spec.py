"""Vocabulary for writing required values as terms."""
from core import *
import interp

def IN(i): return T_('in', i)
def F(t, *path):
    for p in path: t = fld(t, p)
    return t
def order(P):
    return T_('g', 'order')
def field(lvs): pass

def pmulv(*pairs):
    r = INF
    for b, e in pairs: r = pt_add(r, pt_mul(b, e))
    return r

def has_rand(t):
    """fresh-randomness tokens in t"""
    return {x for x in subterms(t) if x.op == 'rand'}

def dlog(g, h):
    if h is INF: return ZERO
    d = as_pt(h)
    if d is not None and len(d) == 1 and g in d: return d[g]
    return T_('dlog', g, h)
tm.register('dlog', dlog)
def prim_dlog(I, e, args, st, fr):
    """contract of the bounded discrete-log solver: given h = g^m, x becomes m (numerics: not analysed here)"""
    vals = []
    lvs = []
    for a in args:
        try: l = I.lval(a, st, fr)
        except Unsupported: l = None
        lvs.append(l)
        vals.append(I.load(st, l) if l is not None else I.eval(a, st, fr))
    g, h = vals[0], vals[1]
    I.calls.append(('ShanksDLOG', tuple(vals[:4]), e[1], fr.fn.get('q')))
    I.store(st, lvs[4], dlog(g, h))
    return TRUE

import proto
from proto import PRGP
def pow2(n): return T_('pow2', n)
def bytesn(t): return mkbind('map', C(32), lambda i: modi(sel(t, i), C(256)))
