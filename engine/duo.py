"""Two-party obligations: interpret both roles, join their mailboxes, compare what is sent with what the peer expects."""
from core import *
from spec import *
import net, bits, stdmodel

def shape(t):
    """outbox -> sequence of (kind, count)"""
    if t.op == 'vec': return T_('vec', tuple(T_('exp', m.a[0], m.a[1]) if m.op == 'msg' else T_('expof', m) for m in t.a[0]))
    if t.op == 'cat':
        r = T_('vec', ())
        for p in t.a[0]: r = cat(r, shape(p))
        return r
    if t.op in ('map', 'catmap'):
        v = tm.lv(t.a[0]); b = tm.inst(t, v)
        if t.op == 'map':
            return tm.bind('map', t.a[0], v, T_('exp', b.a[0], b.a[1]) if b.op == 'msg' else T_('expof', b))
        return tm.bind('catmap', t.a[0], v, shape(b))
    return T_('shapeof', t)

WIDTH = {'ECPoints': 33, 'ECPoint': 33, 'EC25519Points': 32, 'Blocks': 16, 'Block': 16, 'BigInt': 32, 'Integer': 8}
def kinds(t):
    """totals per kind, to tell a real disagreement from a different batching of the same stream"""
    tot = {}
    def walk(t, mult):
        if t.op == 'vec':
            for m in t.a[0]: one(m, mult)
        elif t.op == 'cat':
            for p in t.a[0]: walk(p, mult)
        elif t.op == 'rep' : one(t.a[0], mul(mult, t.a[1]))
        elif t.op in ('map', 'catmap'):
            v = tm.lv(t.a[0]); b = tm.inst(t, v)
            if t.op == 'map': one(b, mul(mult, t.a[0]), v)
            else: walk(b, mul(mult, t.a[0]))
        else: raise Unsupported('mailbox shape')
    def one(m, mult, v=None):
        if m.op != 'exp': raise Unsupported('mailbox shape')
        if v is not None and v.a[0] in m.a[1].fv: raise Unsupported('mailbox shape varies')
        k = m.a[0]
        if k + 's' in WIDTH: k += 's'
        tot[k] = add(tot.get(k, ZERO), mul(mult, m.a[1]))
    walk(t, ONE)
    return {k: v for k, v in tot.items() if v is not ZERO}

def agree(ck, inst, f, out, exp, who):
    a, b = shape(out), exp
    if a is b: return ck.ob(inst, 'every message %s sends is received, in order, with its length' % who, True, f)
    rule = 'every message %s sends is received, in order, with its length' % who
    import evalterm
    try: ka, kb = kinds(a), kinds(b)
    except Unsupported as e: return ck.ob(inst, rule, None, f, '%s: %s vs %s' % (e, short(a, 800), short(b, 800)))
    if set(ka) == set(kb) and all(evalterm.same(ka[k], kb[k]) for k in ka):
        same = evalterm.same(a, b) if hasattr(evalterm, 'same') else None
        return ck.ob(inst, rule, None if not same else True, f, 'same totals, different batching: %s vs %s' % (short(a, 800), short(b, 800)))
    return ck.ob(inst, rule, False, f, 'sent: %s\n   expected by the peer: %s' % (short(a, 1500), short(b, 1500)))

class Duo: pass
def corun(ck, inst, P, fa, A, fb, B, prims=None, stops=(), extra=None, **kw):
    d = Duo()
    pr = dict(net.PR, **proto.PRGP, **bits.BITP); pr.update(prims or {})
    u0 = tm.uid()
    d.A = run(P, fa, A, prims=pr, stops=stops, cells={**net.cells(), **(extra or {})}, **kw)
    u1 = tm.uid()
    d.B = run(P, fb, B, prims=pr, stops=stops, cells={**net.cells(), **(extra or {})}, **kw)
    d.ra, d.rb, d.outA, d.outB = net.connect(d.A, d.B)
    agree(ck, inst, fa, d.outA, d.rb(d.B.st.cells[net.EXP]), 'the first party')
    agree(ck, inst, fb, d.outB, d.ra(d.A.st.cells[net.EXP]), 'the second party')
    d.fa, d.fb = fa, fb
    d.uids = ((u0, u1), (u1, tm.uid())); d.args = (A, B)
    if hasattr(ck, 'on_duo'): ck.on_duo(inst, d)
    return d

def atoms01(t, out=None):
    """0/1-valued atoms a case split ranges over: residues mod 2"""
    return sorted({x for x in subterms(t) if x.op == 'modi' and isc(x.a[1]) and x.a[1].a[0] == 2 and not _bound(x)}, key=lambda x: x.id)
def _bound(x): return any(y.op == 'bv' for y in subterms(x))

def bitcases(t, extra=()):
    """all values of a bit term as its mod-2 atoms range over {0,1}"""
    ats = atoms01(t)
    if len(ats) > 6: raise Unsupported('too many selection bits')
    return ats

def bit_equal(x, y):
    """blocks x and y agree in every bit, for every value of the selection bits occurring in them"""
    j = tm.lv(C(128))
    a, b = bits.bitof(x, j), bits.bitof(y, j)
    def go(a, b, d=0):
        if a is b: return True
        ats = [t for t in atoms01(T_('vec', (a, b)))]
        if not ats or d > 6: return False
        for v in (ZERO, ONE):
            if not go(tm.subst(a, {ats[0]: v}), tm.subst(b, {ats[0]: v}), d + 1): return False
        return True
    return go(a, b)

def block_equal(x, y):
    """equality of block terms up to bitwise equality inside hash arguments"""
    if x is y: return True
    if x.op == 'call' and y.op == 'call' and x.a[0] == y.a[0] and len(x.a[1]) == len(y.a[1]):
        return all(block_equal(p, q) for p, q in zip(x.a[1], y.a[1]))
    if x.op == 'vec' and y.op == 'vec' and len(x.a[0]) == len(y.a[0]):
        return all(block_equal(p, q) for p, q in zip(x.a[0], y.a[0]))
    if x.op in ('pack', 'xor', 'prgb', 'bbit') or y.op in ('pack', 'xor'):
        return bit_equal(x, y)
    return False
