from zk import *

def go(ck, tier):
    P = prog('x25519')
    for s in SIGMA:
        ns = s['ns']
        def b(s=s, ns=ns):
            f, R = run_verify(P, ns)
            ch = challenges(R.ret)
            if len(ch) != 1:
                return ck.ob(ns + '::Verify', 'one challenge governs every equation', False if ch else None, f, 'challenges: %s in %s' % (ch, short(R.ret)))
            for i, q in enumerate(s['eqs'](ch[0])):
                implied(ck, ns + '::Verify', 'acceptance implies equation %d' % (i + 1), R.ret, q, f)
        ck.guard(ns + '::Verify', 'acceptance implies every equation', None, b)
    def schn():
        f = fn(P, 'Schnorr::Verify')
        R = run(P, f, {0: IN('pp'), 1: IN('pk'), 2: IN('m'), 3: IN('sig')})
        ch = challenges(R.ret)
        if len(ch) != 1: return ck.ob('Schnorr::Verify', 'signature equation', False if ch else None, f, short(R.ret))
        e = ch[0]
        q = peq(pt_mul(F(IN('pp'), 'g'), F(IN('sig'), 'z')), pmulv((F(IN('sig'), 'A'), ONE), (IN('pk'), e)))
        implied(ck, 'Schnorr::Verify', 'acceptance implies the signature equation', R.ret, q, f)
    ck.guard('Schnorr::Verify', 'signature equation', None, schn)
    def enc():
        f, R = run_verify(P, 'EncRelation')
        got = weaken(R.ret); r = encrel_terms(P, got)
        if r is None: return ck.ob('EncRelation::Verify', 'one challenge governs every equation', None, f, 'challenges %s' % challenges(R.ret))
        for nm, q in r[1]: implied(ck, 'EncRelation::Verify', 'acceptance implies: ' + nm, got, q, f)
    ck.guard('EncRelation::Verify', 'acceptance implies every equation', None, enc)
    for n, m in ((2, 1), (2, 5), (2, 10), (2, 20), (3, 5), (3, 10), (4, 3), (5, 4), (9, 5), (10, 3)):
        def digits(n=n, m=m):
            f = fn(P, 'EncRelation::Verify', 4); N = n ** m
            vct = mkbind('map', C(N), lambda i: rec('CT', X=F(sel(IN('CT'), i), 'X'), Y=F(sel(IN('CT'), i), 'Y'))) if N > 64 else vec(*[rec('CT', X=IN('X%d' % i), Y=IN('Y%d' % i)) for i in range(N)])
            R = run(P, f, {0: mkrec(IN('pp'), {'n': C(n)}), 1: mkrec(IN('x'), {'vec_CT': vct}), 2: TR, 3: IN('pf')}, budget=4_000_000)
            i_ = 'EncRelation::Verify[base=%d,statements=%d]' % (n, N)
            got = weaken(R.ret); ch = challenges(got)
            if len(ch) != 1: return ck.ob(i_, 'digit sums checked for every digit position', None, f)
            vf = F(IN('pf'), 'vec_f')
            want = mkbind('all', C(m), lambda j: modeq(sel(vf, mul(j, C(n))), sub(ch[0], mkbind('sum', C(n - 1), lambda i: sel(vf, add(add(mul(j, C(n)), ONE), i))))))
            implied(ck, i_, 'digit sums checked for every digit position', got, want, f)
        ck.guard('EncRelation::Verify[base=%d,digits=%d]' % (n, m), 'digit sums checked for every digit position', None, digits)
    def dec():
        f = fn(P, 'EncRelation::Decompose')
        for n, m in ((2, 3), (3, 2), (5, 2)):
            for l in range(n ** m):
                R = run(P, f, {0: C(l), 1: C(n), 2: C(m)})
                want = vec(*[C((l // n ** j) % n) for j in range(m)])
                if R.ret is not want:
                    return ck.equal('EncRelation::Decompose', 'base-n digits', R.ret, want, f)
        ck.ob('EncRelation::Decompose', 'base-n digits', True, f)
    ck.guard('EncRelation::Decompose', 'base-n digits', None, dec)
    def ars():
        f = fn(P, 'AccountableRingSig::Verify')
        pp, Rg, m, sg = IN('pp'), IN('R'), IN('m'), IN('sig')
        R = run(P, f, {0: pp, 1: Rg, 2: m, 3: sg}, stops=['EncRelation::Verify'])
        calls = [c for c in R.I.calls if c[0] == 'EncRelation::Verify']
        g = conj(R.ret)
        inst_ = 'AccountableRingSig::Verify'
        if len(calls) != 1: return ck.ob(inst_, 'membership proof verified', None if calls else False, f, short(R.ret))
        c = calls[0]
        callt = [x for x in subterms(R.ret) if x.op == 'bool' and x.a[0].op == 'call' and x.a[0].a[0] == 'EncRelation::Verify']
        ck.ob(inst_, 'acceptance implies the membership proof', len(callt) == 1 and callt[0] in g or (None if callt else False), f, short(R.ret))
        ni = c[1][1]
        n = size(Rg)
        ek = F(pp, 'ek')
        want = mkbind('map', n, lambda i: mkrec(T_('newrec', 'TwistedExponentialElGamal::CT'), {'X': F(sg, 'ct_vk', 'X'), 'Y': pt_add(F(sg, 'ct_vk', 'Y'), sel(Rg, i), -1)}))
        got = F(ni, 'vec_CT')
        v = lv(n)
        for k in 'XY': ck.equal(inst_, 'membership statement is ciphertext minus each ring key (%s)' % k, F(sel(got, v), k), F(sel(want, v), k), f)
        ck.equal(inst_, 'membership statement covers the whole ring', size(got), n, f)
        ck.equal(inst_, 'membership statement uses the opener key', F(ni, 'ek'), ek, f)
        ck.equal(inst_, 'membership proof is the one in the signature', c[1][3], F(sg, 'correct_encryption_proof'), f)
        ch = [x for x in subterms(R.ret) if x.op == 'bin2bn' and x.a[0].op == 'hash']
        ch = sorted(set(ch), key=lambda t: t.id)
        if len(ch) != 1: return ck.ob(inst_, 'acceptance implies the key-knowledge equations', None if not ch else False, f, short(R.ret))
        x = ch[0]
        q1 = peq(pmulv((F(sg, 'ct_vk', 'X'), x), (F(sg, 'ct_s', 'X'), ONE)), pt_mul(ek, F(sg, 'z_t')))
        q2 = peq(pmulv((F(sg, 'ct_vk', 'Y'), x), (F(sg, 'ct_s', 'Y'), ONE)), pmulv((F(pp, 'enc_part', 'g'), add(F(sg, 'z_t'), F(sg, 'z_s')))))
        implied(ck, inst_, 'acceptance implies the key-knowledge equation (X)', R.ret, q1, f)
        implied(ck, inst_, 'acceptance implies the key-knowledge equation (Y)', R.ret, q2, f)
    ck.guard('AccountableRingSig::Verify', 'acceptance implies every equation', None, ars)
    def just():
        f = fn(P, 'AccountableRingSig::Justify')
        pp, sg, vk = IN('pp'), IN('sig'), IN('vk')
        R = run(P, f, {0: pp, 1: IN('R'), 2: sg, 3: vk, 4: IN('pf')}, stops=['DLOGEquality::Verify'])
        c = [c for c in R.I.calls if c[0] == 'DLOGEquality::Verify']
        i_ = 'AccountableRingSig::Justify'
        callt = [x for x in subterms(R.ret) if x.op == 'bool' and x.a[0].op == 'call']
        if len(c) != 1: return ck.ob(i_, 'acceptance implies the decryption proof', False if not c else None, f, short(R.ret))
        ck.ob(i_, 'acceptance implies the decryption proof', len(callt) == 1 and callt[0] in conj(R.ret), f, short(R.ret))
        x = c[0][1][1]
        for k, w in (('g1', F(pp, 'enc_part', 'g')), ('h1', F(pp, 'ek')), ('g2', pt_add(F(sg, 'ct_vk', 'Y'), vk, -1)), ('h2', F(sg, 'ct_vk', 'X'))):
            ck.equal(i_, 'decryption statement ' + k, F(x, k), w, f)
        ck.equal(i_, 'proof argument', c[0][1][3], IN('pf'), f)
    ck.guard('AccountableRingSig::Justify', 'acceptance implies the decryption proof', None, just)
    for n in ((1, 2, 4) if tier == 'quick' else (1, 2, 4, 8, 16)):
        lg, pp = ip_setting(n)
        for q in ('Verify', 'FastVerify'):
            def ip(n=n, lg=lg, pp=pp, q=q):
                f = fn(P, 'InnerProduct::' + q)
                pf = mkrec(IN('pf'), {'vec_L': vi('L', lg), 'vec_R': vi('R', lg)})
                R = run(P, f, {0: pp, 1: IN('x'), 2: TR, 3: pf})
                xs = challenges(R.ret)
                i_ = 'InnerProduct::%s[n=%d]' % (q, n)
                if len(xs) != lg: return ck.ob(i_, 'one challenge per round', None, f, 'challenges %s' % len(xs))
                L = [IN('L%d' % j) for j in range(lg)]; Rr = [IN('R%d' % j) for j in range(lg)]
                want = peq(ip_left([IN('g%d' % i) for i in range(n)], [IN('h%d' % i) for i in range(n)], IN('u'), F(IN('pf'), 'a'), F(IN('pf'), 'b'), xs),
                           ip_right(F(IN('x'), 'P'), L, Rr, xs))
                implied(ck, i_, 'acceptance implies the folded inner-product equation', R.ret, want, f)
                ck.equal(i_, 'public parameters unchanged', R.arg[0], pp, f)
            ck.guard('InnerProduct::%s[n=%d]' % (q, n), 'acceptance implies the folded inner-product equation', None, ip)
    for RL, n in (((2, 1), (2, 2)) if tier == 'quick' else ((2, 1), (2, 2), (4, 1), (4, 2), (2, 4))):
        L, pp = bullet_setting(RL, n); lg = L.bit_length() - 1
        Cs = [IN('C%d' % j) for j in range(n)]
        for q in ('Verify', 'FastVerify'):
            def bu(RL=RL, n=n, L=L, pp=pp, lg=lg, Cs=Cs, q=q):
                f = fn(P, 'Bullet::' + q)
                pf = bullet_pf(lg)
                R = run(P, f, {0: pp, 1: mkrec(IN('x'), {'C': vec(*Cs)}), 2: TR, 3: pf}, budget=4_000_000)
                ch = challenges(R.ret)
                i_ = 'Bullet::%s[bits=%d,values=%d]' % (q, RL, n)
                if len(ch) != 4 + lg: return ck.ob(i_, 'challenges y,z,x,e and one per folding round', None, f, 'found %d' % len(ch))
                e72, eip = bullet_eqs(RL, n, ch, pf, Cs, L)
                if q == 'Verify':
                    implied(ck, i_, 'acceptance implies the polynomial-commitment equation', R.ret, peq(e72, INF), f)
                    implied(ck, i_, 'acceptance implies the inner-product equation', R.ret, peq(eip, INF), f)
                else:
                    rs = [x for x in has_rand(R.ret)]
                    if len(rs) != 1: return ck.ob(i_, 'batched with one fresh random weight', False, f, 'random weights: %s' % rs)
                    c = rs[0]
                    ok = False
                    for s1 in (1, -1):
                        for s2 in (1, -1):
                            w = peq(pt_add(pt_mul(e72, mul(c, C(s1))), eip, s2), INF)
                            if w in conj(R.ret): ok = True
                    if ok: ck.ob(i_, 'acceptance implies both equations (fresh random combination)', True, f)
                    else: ck.equal(i_, 'acceptance implies both equations (fresh random combination)', R.ret, peq(pt_add(pt_mul(e72, neg(c)), eip), INF), f)
            ck.guard('Bullet::%s[bits=%d,values=%d]' % (q, RL, n), 'acceptance implies every equation', None, bu)
    gadget(ck, P)

def gadget(ck, P):
    pp, x, Lb, Rb, pf = IN('pp'), IN('x'), IN('lo'), IN('hi'), IN('pf')
    st = ['PlaintextKnowledge::Verify', 'Bullet::FastVerify', 'Bullet::Verify', 'DLOGEquality::Verify']
    for typ in (1, 2):
        def b(typ=typ):
            f = [y for y in P.find('Gadget::Verify') if 'Proof_type%d' % typ in y['params'][5]['ty']][0]
            R = run(P, f, {0: pp, 1: x, 2: Lb, 3: Rb, 4: TR, 5: pf}, stops=st)
            i_ = 'Gadget::Verify/type%d' % typ
            need = ['PlaintextKnowledge::Verify', 'Bullet'] + (['DLOGEquality::Verify'] if typ == 2 else [])
            cj = [t for t in conj(R.ret) if t.op == 'bool' and t.a[0].op == 'call']
            got = {}
            for t in cj: got['Bullet' if t.a[0].a[0].startswith('Bullet') else t.a[0].a[0]] = t.a[0]
            for nme in need:
                ck.ob(i_, 'acceptance implies %s accepted' % nme, (nme in got) or (None if residual(R.ret) else False), f, short(R.ret))
            ct = F(x, 'ct') if typ == 1 else F(pf, 'refresh_ct')
            if 'PlaintextKnowledge::Verify' in got:
                a = got['PlaintextKnowledge::Verify'].a[1]
                ck.equal(i_, 'knowledge proof: key', F(a[1], 'pk'), F(x, 'pk'), f)
                for k in 'XY': ck.equal(i_, 'knowledge proof: ciphertext ' + k, F(a[1], 'ct', k), F(ct, k), f)
                for k in 'gh': ck.equal(i_, 'knowledge proof: base ' + k, F(a[0], k), F(pp, 'enc_part', k), f)
                ck.equal(i_, 'knowledge proof object', a[3], F(pf, 'ptke_proof'), f)
            if 'Bullet' in got:
                a = got['Bullet'].a[1]
                bp = F(pp, 'bullet_part')
                ck.equal(i_, 'range proof parameters', a[0], bp, f)
                ck.equal(i_, 'range proof object', a[3], F(pf, 'bullet_proof'), f)
                C0, C1 = sel(F(a[1], 'C'), ZERO), sel(F(a[1], 'C'), ONE)
                ck.equal(i_, 'range proof covers two commitments', size(F(a[1], 'C')), C(2), f)
                h = F(bp, 'h'); Y = F(ct, 'Y')
                ck.equal(i_, 'lower bound: commitment to m - lo', C0, pt_add(Y, pt_mul(h, Lb), -1), f)
                two = T_('bnexp', C(2), F(bp, 'RANGE_LEN'))
                d = as_pt(pt_add(C1, Y, -1))
                if set(d) == {h}:
                    # exponent must be 2^n - hi
                    ex_ = add(d[h], Rb)
                    ok = not contains(ex_, lambda t: t is Rb) and not contains(ex_, lambda t: t is Lb) and contains(ex_, lambda t: t is F(bp, 'RANGE_LEN'))
                    ck.ob(i_, 'upper bound: commitment to m + 2^n - hi', ok, f, '%s' % ex_)
                else: ck.equal(i_, 'upper bound: commitment to m + 2^n - hi', C1, pt_add(Y, pt_mul(h, sub(two, Rb))), f)
            if typ == 2 and 'DLOGEquality::Verify' in got:
                a = got['DLOGEquality::Verify'].a[1]
                for k, w in (('g1', F(pp, 'enc_part', 'g')), ('h1', F(x, 'pk')), ('g2', pt_add(F(ct, 'Y'), F(x, 'ct', 'Y'), -1)), ('h2', pt_add(F(ct, 'X'), F(x, 'ct', 'X'), -1))):
                    ck.equal(i_, 'refresh proof statement ' + k, F(a[1], k), w, f)
                ck.equal(i_, 'refresh proof object', a[3], F(pf, 'dlogeq_proof'), f)
        ck.guard('Gadget::Verify/type%d' % typ, 'acceptance implies every sub-proof', None, b)
