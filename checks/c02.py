"""C02: proofs and signatures produced honestly are accepted, and prover and verifier leave the same transcript."""
from zk import *

def go(ck, tier):
    P = prog('x25519'); jobs = []
    par = lambda i, r, f, b: jobs.append((i, r, f, b))
    ck.assumptions += ['Hash outputs and random scalars are invertible modulo the group order where the protocol inverts them (fails with negligible probability).',
                       'Structure sizes that drive recursion are enumerated at small powers of two; everything else is symbolic.']
    pp, x, w = IN('pp'), IN('x'), IN('w')
    ACC = 'honest proof accepted'; TRS = 'prover and verifier leave the same transcript'
    for s in SIGMA:
        i_ = s['ns']
        def body(s=s, i_=i_):
            fp, fv = fn(P, s['ns'] + '::Prove', 4), fn(P, s['ns'] + '::Verify', 4)
            X = mkrec(x, s['x'])
            A = run(P, fp, {0: pp, 1: X, 2: w, 3: TR})
            B = run(P, fv, {0: pp, 1: X, 2: TR, 3: A.ret})
            ck.note_fn(fp)
            ck.holds(i_, ACC, B.ret, fv)
            ck.equal(i_, TRS, B.arg[2], A.arg[3], fv)
            setup(ck, P, s['ns'])
        ck.guard(i_, ACC, None, body)
    def schn():
        fk, fs, fv = fn(P, 'Schnorr::KeyGen'), fn(P, 'Schnorr::Sign'), fn(P, 'Schnorr::Verify')
        K = run(P, fk, {0: pp}).ret
        if K.op != 'tup': return ck.ob('Schnorr', ACC, None, fk, K)
        pk, sk = K.a[0]
        S = run(P, fs, {0: pp, 1: sk, 2: IN('m')}).ret
        V = run(P, fv, {0: pp, 1: pk, 2: IN('m'), 3: S})
        ck.note_fn(fk); ck.note_fn(fs)
        ck.holds('Schnorr', 'honest signature accepted', V.ret, fv)
    ck.guard('Schnorr', 'honest signature accepted', None, schn)
    sizes = ((2, 2), (2, 4), (2, 8), (3, 3), (3, 9), (4, 4)) if tier == 'quick' else ((2, 2), (2, 4), (2, 8), (2, 16), (3, 3), (3, 9), (3, 27), (4, 4), (4, 16), (5, 5))
    for n, N in sizes:
        i_ = 'EncRelation[n=%d,N=%d]' % (n, N)
        def enc(n=n, N=N, i_=i_):
            fp, fv = fn(P, 'EncRelation::Prove'), fn(P, 'EncRelation::Verify', 4)
            ck.note_fn(fp)
            p = mkrec(pp, {'n': C(n)})
            g, ek, r = F(pp, 'enc_part', 'g'), F(x, 'ek'), F(w, 'r')
            for l in (range(N) if N <= 4 or tier != 'quick' and N <= 9 else sorted({0, 1, N // 2, N - 1})):
                cts = [rec('CT', X=IN('X%d' % i), Y=IN('Y%d' % i)) for i in range(N)]
                cts[l] = rec('CT', X=pt_mul(ek, r), Y=pt_mul(g, r))
                X = mkrec(x, {'vec_CT': vec(*cts)})
                A = run(P, fp, {0: p, 1: X, 2: mkrec(w, {'l': C(l)}), 3: TR}, budget=4_000_000)
                B = run(P, fv, {0: p, 1: X, 2: TR, 3: A.ret}, budget=4_000_000)
                ck.holds(i_, ACC + ' (index %d)' % l, B.ret, fv)
                ck.equal(i_, TRS + ' (index %d)' % l, B.arg[2], A.arg[3], fv)
        par(i_, ACC, None, enc)
    def ip_inst(n):
        PT = pmulv(*[(IN('g%d' % i), IN('a%d' % i)) for i in range(n)], *[(IN('h%d' % i), IN('b%d' % i)) for i in range(n)])
        q = ZERO
        for i in range(n): q = add(q, mul(IN('a%d' % i), IN('b%d' % i)))
        return pt_add(PT, pt_mul(IN('u'), q))
    for n in ((1, 2, 4) if tier == 'quick' else (1, 2, 4, 8)):
        lg, ipp = ip_setting(n)
        i_ = 'InnerProduct[n=%d]' % n
        def ip(n=n, lg=lg, ipp=ipp, i_=i_):
            fp = fn(P, 'InnerProduct::Prove')
            X = mkrec(x, {'P': ip_inst(n)})
            A = run(P, fp, {0: ipp, 1: X, 2: mkrec(w, {'vec_a': vi('a', n), 'vec_b': vi('b', n)}), 3: TR, 4: newproof()}, maxrec=10, budget=4_000_000)
            ck.note_fn(fp)
            ck.equal(i_, 'one message pair per folding round', size(F(A.arg[4], 'vec_L')), C(lg), fp)
            for q in ('Verify', 'FastVerify'):
                fv = fn(P, 'InnerProduct::' + q)
                B = run(P, fv, {0: ipp, 1: X, 2: TR, 3: A.arg[4]}, budget=4_000_000)
                ck.holds(i_ + '/' + q, ACC, B.ret, fv)
                ck.equal(i_ + '/' + q, TRS, B.arg[2], A.arg[3], fv)
        par(i_, ACC, None, ip)
    cases = [(2, 1, (v,)) for v in range(4)] + [(2, 2, (1, 2)), (2, 2, (3, 0)), (1, 2, (0, 1)), (4, 1, (13,)), (4, 1, (6,))]
    if tier != 'quick': cases += [(2, 2, (a, b)) for a in range(4) for b in range(4)] + [(4, 2, (9, 6)), (2, 4, (0, 1, 2, 3)), (8, 1, (201,))]
    for RL, n, vs in cases:
        L, bpp = bullet_setting(RL, n)
        i_ = 'Bullet[bits=%d,values=%s]' % (RL, ','.join(map(str, vs)))
        def bu(RL=RL, n=n, vs=vs, L=L, bpp=bpp, i_=i_):
            fp = fn(P, 'Bullet::Prove')
            rs = [IN('r%d' % j) for j in range(n)]
            X = mkrec(x, {'C': vec(*[pmulv((IN('G'), rs[j]), (IN('H'), C(vs[j]))) for j in range(n)])})
            W = mkrec(w, {'r': vec(*rs), 'v': vec(*[C(v) for v in vs])})
            pf0 = rec('Bullet::Proof', ip_proof=newproof())
            A = run(P, fp, {0: bpp, 1: X, 2: W, 3: TR, 4: pf0}, maxrec=10, budget=8_000_000)
            ck.note_fn(fp)
            for q in ('Verify', 'FastVerify'):
                fv = fn(P, 'Bullet::' + q)
                B = run(P, fv, {0: bpp, 1: X, 2: TR, 3: A.arg[4]}, budget=8_000_000)
                ck.holds(i_ + '/' + q, ACC, B.ret, fv)
                ck.equal(i_ + '/' + q, TRS, B.arg[2], A.arg[3], fv)
        par(i_, ACC, None, bu)
    def ars(N, l):
        i_ = 'AccountableRingSig[ring=%d,signer=%d]' % (N, l)
        fs, fv, fo, fj = (fn(P, 'AccountableRingSig::' + q) for q in ('Sign', 'Verify', 'Open', 'Justify'))
        dk, sk = IN('dk'), IN('sk')
        g = F(pp, 'enc_part', 'g')
        ap = mkrec(pp, {'ek': pt_mul(g, dk)})
        keys = [IN('vk%d' % i) for i in range(N)]
        tm.DISTINCT.clear(); tm.DISTINCT.update(k for i, k in enumerate(keys) if i != l)
        keys[l] = pt_mul(g, sk)
        ring = vec(*keys)
        A = run(P, fs, {0: ap, 1: sk, 2: ring, 3: IN('m')}, budget=8_000_000)
        for f in (fs, fo): ck.note_fn(f)
        B = run(P, fv, {0: ap, 1: ring, 2: IN('m'), 3: A.ret}, budget=8_000_000)
        ck.holds(i_, 'honest signature accepted', B.ret, fv)
        O = run(P, fo, {0: ap, 1: rec('SP', dk=dk), 2: ring, 3: A.ret})
        if O.ret.op != 'tup': return ck.ob(i_, 'opening', None, fo, O.ret)
        vk, prf = O.ret.a[0]
        ck.equal(i_, 'opening reveals the signer', vk, keys[l], fo)
        J = run(P, fj, {0: ap, 1: ring, 2: A.ret, 3: vk, 4: prf})
        ck.holds(i_, 'honest opening accepted', J.ret, fj)
    for N, l in (((2, 0), (2, 1), (4, 2)) if tier == 'quick' else ((2, 0), (2, 1), (4, 0), (4, 1), (4, 2), (4, 3), (8, 5))):
        par('AccountableRingSig[ring=%d,signer=%d]' % (N, l), 'honest signature accepted', None, lambda N=N, l=l: ars(N, l))
    def gadget(typ, RL, m, lo, hi):
        i_ = 'Gadget/type%d[bits=%d,m=%d,range=[%d,%d)]' % (typ, RL, m, lo, hi)
        L, bpp = bullet_setting(RL, 2)
        ep = rec('TwistedExponentialElGamal::PP', g=IN('G'), h=IN('H'), MSG_LEN=IN('ML'), TRADEOFF_NUM=IN('TN'))
        gp = rec('Gadget::PP', enc_part=ep, bullet_part=bpp)
        sk, r = IN('sk'), IN('r')
        pk = pt_mul(IN('G'), sk)
        X = rec('Gadget::Instance', pk=pk, ct=rec('CT', X=pt_mul(pk, r), Y=pmulv((IN('G'), r), (IN('H'), C(m)))))
        fp = [y for y in P.find('Gadget::Prove') if 'Witness_type%d' % typ in y['params'][4]['ty']][0]
        fv = [y for y in P.find('Gadget::Verify') if 'Proof_type%d' % typ in y['params'][5]['ty']][0]
        ck.note_fn(fp)
        kw = dict(budget=8_000_000, maxrec=10, prims={'ShanksDLOG': prim_dlog, 'TwistedExponentialElGamal::Initialize': lambda I, e, a, st, fr: T_('void')})
        a = {0: gp, 1: X, 2: C(lo), 3: C(hi), 5: TR}
        if typ == 1:
            a[4] = rec('Gadget::Witness_type1', r=r, m=C(m))
            A = run(P, fp, a, **kw); pf = A.ret
        else:
            a[4] = rec('Gadget::Witness_type2', sk=sk)
            a[6] = rec('Gadget::Proof_type2', bullet_proof=rec('Bullet::Proof', ip_proof=newproof()))
            A = run(P, fp, a, **kw); pf = A.arg[6]
        B = run(P, fv, {0: gp, 1: X, 2: C(lo), 3: C(hi), 4: TR, 5: pf}, budget=8_000_000)
        ck.holds(i_, ACC, B.ret, fv)
        ck.equal(i_, TRS, B.arg[4], A.arg[5], fv)
    for c in ((2, 1, 0, 3), (2, 2, 1, 3), (2, 0, 0, 4), (4, 9, 3, 12)) if tier == 'quick' else ((2, 1, 0, 3), (2, 2, 1, 3), (2, 0, 0, 4), (2, 3, 3, 4), (4, 9, 3, 12), (4, 15, 0, 16)):
        for typ in (1, 2):
            par('Gadget/type%d%s' % (typ, c), ACC, None, lambda typ=typ, c=c: gadget(typ, *c))
    ck.par(jobs)

def setup(ck, P, ns): pass
