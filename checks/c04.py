from spec import *

def go(ck, tier):
    P = prog('x25519'); P2 = prog('p256')
    dl = {'ShanksDLOG': prim_dlog}
    def schemes():
        for ns, tw in (('ExponentialElGamal', False), ('TwistedExponentialElGamal', True)):
            yield P, ns, tw
    for P_, ns, tw in schemes():
        pp = IN('pp'); g = F(pp, 'g'); mb = F(pp, 'h') if tw else g
        sk, r, m = IN('sk'), IN('r'), IN('m')
        def enc_shape(pk, mm, rr):
            X = pt_mul(pk, rr) if tw else pt_mul(g, rr)
            Y = pmulv((g, rr), (mb, mm)) if tw else pmulv((pk, rr), (g, mm))
            return X, Y
        pk = IN('pk')
        # key generation
        def kg():
            f = fn(P_, ns + '::KeyGen'); R = run(P_, f, {0: pp})
            k = R.ret
            ok = k.op == 'tup' and len(k.a[0]) == 2
            if not ok: return ck.ob(ns + '::KeyGen', 'key-pair', None, f, k)
            p, s = k.a[0]
            ck.equal(ns + '::KeyGen', 'public key = generator^secret', p, pt_mul(g, s), f)
        ck.guard(ns + '::KeyGen', 'public key = generator^secret', None, kg)
        # encryption shapes
        encs = []
        def enc4():
            f = [x for x in P_.find(ns + '::Enc', nparams=4) if 'ECPoint' == x['params'][1]['ty'] and x['params'][2]['ty'] == 'BigInt'][0]
            R = run(P_, f, {0: pp, 1: pk, 2: m, 3: r})
            X, Y = enc_shape(pk, m, r)
            ck.equal(ns + '::Enc/4', 'ciphertext component X', F(R.ret, 'X'), X, f)
            ck.equal(ns + '::Enc/4', 'ciphertext component Y', F(R.ret, 'Y'), Y, f)
        ck.guard(ns + '::Enc/4', 'ciphertext', None, enc4)
        def enc3():
            f = fn(P_, ns + '::Enc', 3)
            R = run(P_, f, {0: pp, 1: pk, 2: m})
            X, Y = F(R.ret, 'X'), F(R.ret, 'Y')
            d = as_pt(X); base = pk if tw else g
            if set(d) != {base}: return ck.equal(ns + '::Enc/3', 'ciphertext component X', X, enc_shape(pk, m, r)[0], f)
            rr = d[base]
            ck.equal(ns + '::Enc/3', 'same coins in both components', Y, enc_shape(pk, m, rr)[1], f)
        ck.guard(ns + '::Enc/3', 'ciphertext', None, enc3)
        # decryption inverts encryption, for every key, message and coins
        mpk = pt_mul(g, sk)
        def dec(ctX, ctY, want, what):
            f = fn(P_, ns + '::Dec')
            ct = mkrec(T_('newrec', 'CT'), {'X': ctX, 'Y': ctY})
            R = run(P_, f, {0: pp, 1: sk, 2: ct}, prims=dl)
            ck.equal(ns + '::Dec', what, R.ret, want, f)
            c = [c for c in R.I.calls if c[0] == 'ShanksDLOG']
            if c:
                ck.equal(ns + '::Dec', 'discrete-log parameters', c[0][1][2], F(pp, 'MSG_LEN'), f)
                ck.equal(ns + '::Dec', 'discrete-log base', c[0][1][0], mb, f)
                ck.equal(ns + '::Dec', 'discrete-log trade-off', c[0][1][3], F(pp, 'TRADEOFF_NUM'), f)
        X, Y = enc_shape(mpk, m, r)
        ck.guard(ns + '::Dec', 'decryption inverts encryption', None, lambda: dec(X, Y, ex(m), 'decryption inverts encryption'))
        # homomorphic operations act on message and coins
        def ct(i): return mkrec(T_('newrec', 'CT'), {'X': IN('X%d' % i), 'Y': IN('Y%d' % i)})
        for q, comb in (('HomoAdd', 1), ('HomoSub', -1)):
            def h(q=q, comb=comb):
                f = fn(P_, ns + '::' + q)
                R = run(P_, f, {0: ct(1), 1: ct(2)})
                for c in 'XY':
                    ck.equal(ns + '::' + q, 'componentwise ' + c, F(R.ret, c), pt_add(IN(c + '1'), IN(c + '2'), comb), f)
                for k in (0, 1): ck.equal(ns + '::' + q, 'operands unchanged', R.arg[k], ct(k + 1), f)
            ck.guard(ns + '::' + q, 'homomorphic', None, h)
        def sm():
            f = fn(P_, ns + '::ScalarMul'); R = run(P_, f, {0: ct(1), 1: IN('k')})
            for c in 'XY': ck.equal(ns + '::ScalarMul', 'componentwise ' + c, F(R.ret, c), pt_mul(IN(c + '1'), IN('k')), f)
            ck.equal(ns + '::ScalarMul', 'operands unchanged', R.arg[0], ct(1), f)
        ck.guard(ns + '::ScalarMul', 'homomorphic', None, sm)
        def rr_():
            f = fn(P_, ns + '::ReRand'); R = run(P_, f, {0: pp, 1: pk, 2: ct(1)})
            dX = pt_add(F(R.ret, 'X'), IN('X1'), -1); d = as_pt(dX); base = pk if tw else g
            if set(d) != {base}:
                return ck.equal(ns + '::ReRand', 'adds an encryption of zero', dX, enc_shape(pk, ZERO, r)[0], f)
            s = d[base]
            ck.equal(ns + '::ReRand', 'adds an encryption of zero', F(R.ret, 'Y'), pt_add(IN('Y1'), enc_shape(pk, ZERO, s)[1]), f)
        ck.guard(ns + '::ReRand', 'adds an encryption of zero', None, rr_)
        def re_():
            f = fn(P_, ns + '::ReEnc'); X, Y = enc_shape(mpk, m, IN('r0'))
            R = run(P_, f, {0: pp, 1: mpk, 2: sk, 3: mkrec(T_('newrec', 'CT'), {'X': X, 'Y': Y}), 4: r})
            wX, wY = enc_shape(mpk, m, r)
            ck.equal(ns + '::ReEnc', 're-encrypts the same message with the given coins (X)', F(R.ret, 'X'), wX, f)
            ck.equal(ns + '::ReEnc', 're-encrypts the same message with the given coins (Y)', F(R.ret, 'Y'), wY, f)
        ck.guard(ns + '::ReEnc', 're-encrypts', None, re_)
        def mr():
            f = [x for x in P_.find(ns + '::Enc', nparams=4) if 'vector' in x['params'][1]['ty']][0]
            vp = IN('vec_pk')
            R = run(P_, f, {0: pp, 1: vp, 2: m, 3: r})
            n = size(vp)
            if tw:
                ck.equal(ns + '::Enc/multi', 'one component per recipient', F(R.ret, 'vec_X'), mkbind('map', n, lambda i: pt_mul(sel(vp, i), r)), f)
                ck.equal(ns + '::Enc/multi', 'shared component', F(R.ret, 'Y'), pmulv((g, r), (mb, m)), f)
            else:
                ck.equal(ns + '::Enc/multi', 'one component per recipient', F(R.ret, 'vec_Y'), mkbind('map', n, lambda i: pmulv((sel(vp, i), r), (g, m))), f)
                ck.equal(ns + '::Enc/multi', 'shared component', F(R.ret, 'X'), pt_mul(g, r), f)
        ck.guard(ns + '::Enc/multi', 'multi-recipient', None, mr)
        def setup():
            f = fn(P_, ns + '::Setup'); R = run(P_, f, {0: IN('ML'), 1: IN('TR')}, stops=['Hash::StringToECPoint'])
            ck.equal(ns + '::Setup', 'message length kept', F(R.ret, 'MSG_LEN'), IN('ML'), f)
            ck.equal(ns + '::Setup', 'trade-off kept', F(R.ret, 'TRADEOFF_NUM'), IN('TR'), f)
            G = T_('g', 'generator')
            ck.equal(ns + '::Setup', 'g is the group generator', F(R.ret, 'g'), G, f)
            want = T_('shl', ONE, IN('ML'))
            ck.equal(ns + '::Setup', 'message space is 2^length', F(R.ret, 'MSG_SIZE'), pow2(IN('ML')), f)
            if tw:
                h = F(R.ret, 'h')
                ck.ob(ns + '::Setup', 'h is hashed from public data', h.op == 'call' and h.a[0] == 'Hash::StringToECPoint' and not contains(h, lambda x: x.op in ('rand', 'weakrand', 'undef')) , f, h)
        ck.guard(ns + '::Setup', 'parameters', None, setup)
        def ceq():
            f = fn(P_, ns + '::operator==', p0='CT'); R = run(P_, f, {0: ct(1), 1: ct(2)})
            ck.equal(ns + '::operator==', 'ciphertext equality', R.ret, and_(peq(IN('X1'), IN('X2')), peq(IN('Y1'), IN('Y2'))), f)
        ck.guard(ns + '::operator==', 'ciphertext equality', None, ceq)
        def initl():
            f = fn(P_, ns + '::Initialize')
            st_ = ['BuildSaveTable', 'LoadTable', 'CheckDlogParameters', 'FileExist']
            R = run(P_, f, {0: pp}, stops=st_)
            for c in R.I.calls:
                if c[0] == 'BuildSaveTable':
                    ck.equal(ns + '::Initialize', c[0] + ' uses the message base', c[1][0], mb, f)
                    ck.equal(ns + '::Initialize', c[0] + ' uses the message length', c[1][1], F(pp, 'MSG_LEN'), f)
                    ck.equal(ns + '::Initialize', c[0] + ' uses the trade-off', c[1][2], F(pp, 'TRADEOFF_NUM'), f)
                if c[0] == 'LoadTable':
                    ck.equal(ns + '::Initialize', 'LoadTable uses the message length', c[1][1], F(pp, 'MSG_LEN'), f)
                    ck.equal(ns + '::Initialize', 'LoadTable uses the trade-off', c[1][2], F(pp, 'TRADEOFF_NUM'), f)
        ck.guard(ns + '::Initialize', 'decryption table for the right base', None, initl)
    # twisted, message in G
    ns = 'TwistedExponentialElGamal'
    def dg():
        pp = IN('pp'); g = F(pp, 'g'); sk, r, M = IN('sk'), IN('r'), IN('M')
        f = [x for x in P.find(ns + '::Enc', nparams=4) if x['params'][2]['ty'] == 'ECPoint'][0]
        R = run(P, f, {0: pp, 1: pt_mul(g, sk), 2: M, 3: r})
        f2 = fn(P, ns + '::DecECPoint')
        R2 = run(P, f2, {0: pp, 1: sk, 2: R.ret})
        ck.note_fn(f)
        ck.equal(ns + '::DecECPoint', 'decryption inverts encryption (group message)', R2.ret, M, f2)
        R = run(P, f, {0: pp, 1: IN('pk'), 2: M, 3: r})
        ck.equal(ns + '::Enc/G', 'ciphertext component X', F(R.ret, 'X'), pt_mul(IN('pk'), r), f)
        ck.equal(ns + '::Enc/G', 'ciphertext component Y', F(R.ret, 'Y'), pt_add(pt_mul(g, r), M), f)
    ck.guard(ns + '::DecECPoint', 'decryption inverts encryption (group message)', None, dg)
    # plain ElGamal, both group back ends
    for P_ in (P, P2):
        tag = 'ElGamal[%s]' % P_.cfg
        def eg():
            pp = IN('pp')
            fk, fd = fn(P_, 'ElGamal::KeyGen'), fn(P_, 'ElGamal::Dec')
            K = run(P_, fk, {0: pp}, prims=PRGP)
            pk, sk = K.ret.a[0]
            for n in (3, 4):
                fe = fn(P_, 'ElGamal::Enc', n)
                M = IN('M') if P_.cfg == 'p256' else T_('in', 'M')
                E_ = run(P_, fe, {0: pp, 1: pk, 2: M, 3: IN('r')}, prims=PRGP)
                D = run(P_, fd, {0: pp, 1: sk, 2: E_.ret}, prims=PRGP)
                ck.note_fn(fe); ck.note_fn(fk)
                ck.equal(tag + '::Enc/%d+Dec' % n, 'decryption inverts encryption', bytesn(D.ret) if P_.cfg == 'x25519' else D.ret, bytesn(M) if P_.cfg == 'x25519' else M, fd)
            if P_.cfg == 'p256':
                fr_ = fn(P_, 'ElGamal::ReRand')
                E2 = run(P_, fr_, {0: pp, 1: pk, 2: E_.ret})
                D = run(P_, fd, {0: pp, 1: sk, 2: E2.ret})
                ck.equal(tag + '::ReRand', 'decrypts to the same message', D.ret, M, fr_)
                f = fn(P_, 'ElGamal::operator==', p0='CT')
                def ct(i): return mkrec(T_('newrec', 'CT'), {'X': IN('X%d' % i), 'Y': IN('Y%d' % i)})
                R = run(P_, f, {0: ct(1), 1: ct(2)})
                ck.equal(tag + '::operator==', 'ciphertext equality', R.ret, and_(peq(IN('X1'), IN('X2')), peq(IN('Y1'), IN('Y2'))), f)
                f1, f2 = fn(P_, 'ElGamal::CTtoByteArray'), fn(P_, 'ElGamal::ByteArraytoCT')
                B = run(P_, f1, {0: ct(1)}); C2 = run(P_, f2, {0: B.ret})
                for c in 'XY': ck.equal(tag + '::ByteArraytoCT', 'decode inverts encode ' + c, F(C2.ret, c), IN(c + '1'), f2)
        ck.guard(tag, 'decryption inverts encryption', None, eg)
