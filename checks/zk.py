"""Shared vocabulary for the proof-system checks (C01-C03)."""
from spec import *
import stdmodel

def rec(name, **d): return mkrec(T_('newrec', name), d)
def vec(*a): return T_('vec', tuple(a))
def vi(nm, n): return vec(*[IN('%s%d' % (nm, i)) for i in range(n)])

def ischal(x): return x.op == 'bin2bn' and x.a[0].op == 'hash'
def weight(t):
    return sum(1 for _ in subterms(t))
def challenges(*ts):
    """hash-derived scalars occurring in the terms, innermost transcript first"""
    s = set()
    for t in ts:
        for x in subterms(t):
            if ischal(x): s.add(x)
    return sorted(s, key=lambda x: (sum(1 for y in s if y is not x and contains(x, lambda z: z is y)), weight(x)))
def parts(h):
    """flattened hash input: injectively encoded pieces"""
    out = []
    def go(t):
        if t.op == 'cat':
            for p in t.a[0]: go(p)
        elif t.op == 'catmap':
            v = lv(t.a[0]); go2(inst(t, v), t.a[0], v)
        elif ischal(t) : out.append((t, None)); go(t.a[0].a[1])
        elif t.op == 'hash': out.append((t, None)); go(t.a[1])
        elif t.op == 'bnbytes' and t.a[0].op in ('bin2bn',):
            out.append((t.a[0], None)); go(t.a[0].a[0])
        else: out.append((t, None))
    def go2(t, n, v):
        if t.op == 'cat':
            for p in t.a[0]: go2(p, n, v)
        else: out.append((t, (n, v)))
    go(h)
    return out

def full(t):
    """the element a full-width encoding stands for"""
    if t.op == 'ptbytes': return t.a[0]
    if t.op in ('bnbytes', 'hexstr', 'decstr', 'pthex'): return t.a[0]
    return t

def absorbed(h, x):
    """does the hash input h contain a complete encoding of x (element or whole vector)?"""
    for p, rng in parts(h):
        if rng is None:
            if full(p) is x or p is x: return True
            if p.op == 'bnbytes' and any(y is x for y in subterms(p.a[0])) and full(p) is x: return True
        else:
            n, v = rng
            f = full(p)
            if f.op == 'sel' and f.a[0] is x and f.a[1] is v: return True
            if f.op == 'fld' and f.a[0].op == 'sel' and f.a[0].a[0] is x and f.a[0].a[1] is v: pass
    return False

def absorbed_vec(h, x, n=None, path=()):
    """every element x[i] (field path) for i < n absorbed"""
    want_n = size(x) if n is None else n
    for p, rng in parts(h):
        if rng is None: continue
        n_, v = rng
        if full(p) is F(sel(x, v), *path) and n_ is want_n: return True
    if isc(want_n):
        return all(absorbed(h, F(sel(x, C(i)), *path)) for i in range(want_n.a[0]))
    return False

def conj(t): return set(t.a[0]) if t.op == 'and' else {t}

def modeq(a, b): return eq(tm.mod(tm.ORDER, a), tm.mod(tm.ORDER, b))
def weaken(t):
    """integer equalities of scalars replaced by the congruence they imply"""
    if t.op == 'and': return tm.and_(*[weaken(x) for x in conj(t)])
    if t.op == 'all': return mkbind('all', t.a[0], lambda i: weaken(tm.inst(t, i)))
    if t.op == 'eq' and not any(x.op in ('ptr', 'it', 'rit') for x in t.a) and any(x.op == 'fld' and x.a[1] == 'vec_f' for x in subterms(t)): return modeq(*t.a)
    return t
def implied(ck, inst, rule, got, want, f):
    """acceptance predicate must imply each required equation"""
    if got is FALSE: return ck.ob(inst, rule, None, f, 'verifier never accepts')
    g = conj(got)
    if all(w in g for w in conj(want)): return ck.ob(inst, rule, True, f)
    return ck.equal(inst, rule, got, want, f)

# ------------------------------------------------------------------ protocols
# name, statement, witness, equations(e) as terms over IN('pp'), IN('x'), IN('pf')
def sigma_specs():
    pp, x, w, pf = IN('pp'), IN('x'), IN('w'), IN('pf')
    def dk(e):
        return [peq(pt_mul(F(x, 'g'), F(pf, 'z')), pmulv((F(pf, 'A'), ONE), (F(x, 'h'), e)))]
    def de(e):
        return [peq(pt_mul(F(x, 'g1'), F(pf, 'z')), pmulv((F(pf, 'A1'), ONE), (F(x, 'h1'), e))),
                peq(pt_mul(F(x, 'g2'), F(pf, 'z')), pmulv((F(pf, 'A2'), ONE), (F(x, 'h2'), e)))]
    def pk(e):
        return [peq(pt_mul(F(x, 'pk'), F(pf, 'z1')), pmulv((F(pf, 'A'), ONE), (F(x, 'ct', 'X'), e))),
                peq(pmulv((F(pp, 'g'), F(pf, 'z1')), (F(pp, 'h'), F(pf, 'z2'))), pmulv((F(pf, 'B'), ONE), (F(x, 'ct', 'Y'), e)))]
    def pe(e):
        n = size(F(x, 'vec_pk'))
        return [mkbind('all', n, lambda i: peq(pt_mul(sel(F(x, 'vec_pk'), i), F(pf, 'z')), pmulv((sel(F(pf, 'vec_A'), i), ONE), (sel(F(x, 'ct', 'vec_X'), i), e)))),
                peq(pmulv((F(pp, 'g'), F(pf, 'z')), (F(pp, 'h'), F(pf, 't'))), pmulv((F(pf, 'B'), ONE), (F(x, 'ct', 'Y'), e)))]
    W = lambda k: F(w, k)
    g, h = F(pp, 'g'), F(pp, 'h')
    npk = size(F(x, 'vec_pk'))
    return [
        dict(ns='DLOGKnowledge', eqs=dk, bind=[('statement g', F(x, 'g')), ('statement h', F(x, 'h')), ('message A', F(pf, 'A'))], vbind=[],
             x={'h': pt_mul(F(x, 'g'), W('w'))}),
        dict(ns='DLOGEquality', eqs=de, bind=[('statement ' + k, F(x, k)) for k in ('g1', 'g2', 'h1', 'h2')] + [('message A1', F(pf, 'A1')), ('message A2', F(pf, 'A2'))], vbind=[],
             x={'h1': pt_mul(F(x, 'g1'), W('w')), 'h2': pt_mul(F(x, 'g2'), W('w'))}),
        dict(ns='PlaintextKnowledge', eqs=pk, bind=[('statement pk', F(x, 'pk')), ('statement X', F(x, 'ct', 'X')), ('statement Y', F(x, 'ct', 'Y')),
             ('message A', F(pf, 'A')), ('message B', F(pf, 'B'))], vbind=[],
             x={'ct': rec('CT', X=pt_mul(F(x, 'pk'), W('r')), Y=pmulv((g, W('r')), (h, W('v'))))}),
        dict(ns='PlaintextEquality', eqs=pe, bind=[('statement Y', F(x, 'ct', 'Y')), ('message B', F(pf, 'B'))],
             vbind=[('statement pk_i', F(x, 'vec_pk'), npk), ('statement X_i', F(x, 'ct', 'vec_X'), npk), ('message A_i', F(pf, 'vec_A'), npk)],
             x={'ct': rec('MRCT', vec_X=mkbind('map', npk, lambda i: pt_mul(sel(F(x, 'vec_pk'), i), W('r'))), Y=pmulv((g, W('r')), (h, W('v'))))}),
    ]
SIGMA = sigma_specs()
TR = IN('tr')

def run_verify(P, ns, **kw):
    f = fn(P, ns + '::Verify', 4)
    return f, run(P, f, {0: IN('pp'), 1: IN('x'), 2: TR, 3: IN('pf')}, **kw)

# ---- enc relation
def encrel_terms(P, got, vct=None, n=None, m=None):
    """required equations of the one-out-of-many encryption proof; the digit count m is read off the analysed code
    (a candidate for which all equations hold), its value is judged separately on concrete sizes"""
    if m is None:
        cands = []
        for t in subterms(got):
            if t.op in ('all', 'psum', 'prodl') and t.a[0] not in cands and not t.a[0].fv and t.a[0].op not in ('c', 'size', 'poly'): cands.append(t.a[0])
        best = None
        for c in cands:
            try: r = encrel_terms(P, got, vct, n, c)
            except Unsupported: continue
            if r is None: return None
            k = sum(1 for _, q in r[1] if all(w in conj(got) for w in conj(q)))
            if best is None or k > best[0]: best = (k, r)
        return best[1] if best else None
    pp, x, pf = IN('pp'), IN('x'), IN('pf')
    ch = challenges(got)
    if len(ch) != 1: return None
    e = ch[0]
    n = n or F(pp, 'n'); vct = vct or F(x, 'vec_CT'); N = size(vct)
    vf = F(pf, 'vec_f')
    com = F(pp, 'com_part')
    fd = fn(P, 'EncRelation::Decompose')
    def com_(v, cnt, r): return pt_add(mkbind('psum', cnt, lambda i: pt_mul(sel(F(com, 'vec_h'), i), v(i))), pt_mul(F(com, 'g'), r))
    c1 = mkbind('all', m, lambda j: modeq(sel(vf, mul(j, n)), sub(e, mkbind('sum', sub(n, ONE), lambda i: sel(vf, add(add(mul(j, n), ONE), i))))))
    c2 = peq(pmulv((F(pf, 'B'), e), (F(pf, 'A'), ONE)), com_(lambda i: sel(vf, i), size(vf), F(pf, 'zA')))
    c3 = peq(pmulv((F(pf, 'C'), e), (F(pf, 'D'), ONE)), com_(lambda i: mul(sel(vf, i), sub(e, sel(vf, i))), mul(m, n), F(pf, 'zC')))
    def c4(comp):
        def term(i):
            dec = run(P, fd, {0: i, 1: n, 2: m}).ret
            return pt_mul(F(sel(vct, i), comp), mkbind('prodl', m, lambda j: sel(vf, add(mul(j, n), sel(dec, j)))))
        left = mkbind('psum', N, term)
        left = pt_add(left, mkbind('psum', m, lambda k: pt_mul(F(sel(F(pf, 'vec_G'), k), comp), sel(T_('powers', tm.ORDER, e, ZERO), k))), -1)
        base = F(x, 'ek') if comp == 'X' else F(pp, 'enc_part', 'g')
        return peq(left, pt_mul(base, F(pf, 'z')))
    return e, [('digit sums', c1), ('commitment B^x A', c2), ('bit constraint C^x D', c3), ('encryption of zero (X)', c4('X')), ('encryption of zero (Y)', c4('Y'))]

# ---- inner product
def ip_setting(n, nm=''):
    lg = n.bit_length() - 1
    pp = rec('InnerProduct::PP', VECTOR_LEN=C(n), LOG_VECTOR_LEN=C(lg), vec_g=vi('g', n), vec_h=vi('h', n), u=IN('u'))
    return lg, pp
def ip_left(gs, hs, u, a, b, xs):
    n = len(gs); lg = len(xs)
    O = tm.ORDER
    acc = INF
    for i in range(n):
        s = ONE
        for j in range(lg):
            s = mul(s, xs[j] if (i >> (lg - 1 - j)) & 1 else minv(O, xs[j]))
        s = mod(O, s)
        acc = pt_add(acc, pt_mul(gs[i], mul(a, s)))
        acc = pt_add(acc, pt_mul(hs[i], mul(b, minv(O, s))))
    return pt_add(acc, pt_mul(u, mul(a, b)))
def ip_right(Pt, L, R, xs):
    O = tm.ORDER
    acc = Pt
    for j, x in enumerate(xs):
        acc = pt_add(acc, pt_mul(L[j], mul(x, x)))
        acc = pt_add(acc, pt_mul(R[j], mul(minv(O, x), minv(O, x))))
    return acc
def newproof(): return rec('InnerProduct::Proof', vec_L=EMPTY, vec_R=EMPTY)

# ---- bullet proof
def bullet_setting(RL, n):
    L = RL * n
    pp = rec('Bullet::PP', RANGE_LEN=C(RL), LOG_RANGE_LEN=C(RL.bit_length() - 1), MAX_AGG_NUM=C(n), g=IN('G'), h=IN('H'), u=IN('u'), vec_g=vi('g', L), vec_h=vi('h', L))
    return L, pp
def bullet_eqs(RL, n, ch, pf, Cs, L):
    """(Eq 72 as point, inner-product equation as point) that must be the identity"""
    y, z, x, e = ch[:4]; xs = ch[4:]
    O = tm.ORDER
    G, H, u = IN('G'), IN('H'), IN('u')
    zp = [None] + [None] * n
    p = z
    zz = []
    for j in range(n):
        p = mul(p, z); zz.append(p)      # z^{2+j}
    sy = ZERO; yp = ONE; ys = []
    for i in range(L): ys.append(yp); sy = add(sy, yp); yp = mul(yp, y)
    two = C(2 ** RL - 1)
    delta = mul(sub(z, mul(z, z)), sy)
    for j in range(n): delta = sub(delta, mul(mul(zz[j], z), two))
    eq72 = pmulv((G, F(pf, 'taux')), (H, F(pf, 'tx')))
    for j in range(n): eq72 = pt_add(eq72, pt_mul(Cs[j], zz[j]), -1)
    eq72 = pt_add(eq72, pmulv((H, delta), (F(pf, 'T1'), x), (F(pf, 'T2'), mul(x, x))), -1)
    yi = minv(O, y)
    gs = [IN('g%d' % i) for i in range(L)]
    hs = []; q = ONE
    for i in range(L):
        hs.append(pt_mul(IN('h%d' % i), q)); q = mul(q, yi)
    Pt = pmulv((F(pf, 'A'), ONE), (F(pf, 'S'), x), (H, neg(F(pf, 'mu'))), (u, mul(e, F(pf, 'tx'))))
    for i in range(L):
        Pt = pt_add(Pt, pt_mul(gs[i], neg(z)))
        r = add(mul(z, ys[i]), mul(zz[i // RL], C(2 ** (i % RL))))
        Pt = pt_add(Pt, pt_mul(hs[i], r))
    ip = F(pf, 'ip_proof')
    lg = len(xs)
    Ls = [sel(F(ip, 'vec_L'), C(j)) for j in range(lg)]; Rs = [sel(F(ip, 'vec_R'), C(j)) for j in range(lg)]
    ipeq = pt_add(ip_left(gs, hs, pt_mul(u, e), F(ip, 'a'), F(ip, 'b'), xs), ip_right(Pt, Ls, Rs, xs), -1)
    return eq72, ipeq

def bullet_pf(lg):
    pf = IN('pf')
    ip = F(pf, 'ip_proof')
    return mkrec(pf, {'ip_proof': mkrec(ip, {'vec_L': vi('L', lg), 'vec_R': vi('R', lg)})})
