"""C01: every Fiat-Shamir challenge a verifier uses is the hash of an input that contains the incoming transcript,
the whole statement and every prover message that precedes it."""
from zk import *

def binds(ck, inst, what, ok, f, h):
    ck.ob(inst, 'challenge input contains ' + what, bool(ok), f, 'challenge is hash of: %s' % short(h, 3000))

def hin(ch): return ch.a[0].a[1]

def nchal(ck, inst, f, t, n):
    ch = challenges(t)
    if len(ch) == n: return ch
    ok = None
    # an equation whose challenge does not come from the hash at all is a violation
    if not ch and residual(t) is None: ok = False
    ck.ob(inst, 'verifier derives its challenges by hashing the transcript', ok, f, 'found %d challenges, expected %d in %s' % (len(ch), n, short(t)))
    return None

def go(ck, tier):
    P = prog('x25519')
    ck.assumptions += ['The hash function is treated as a random oracle; byte encodings of group elements have fixed length (shown by C08), so concatenation is unambiguous.',
                       'The inner-product argument receives its commitment P from a caller that has already bound it (checked for the range proof).']
    for s in SIGMA:
        i_ = s['ns'] + '::Verify'
        def body(s=s, i_=i_):
            f, R = run_verify(P, s['ns'])
            ch = nchal(ck, i_, f, R.ret, 1)
            if not ch: return
            h = hin(ch[0])
            binds(ck, i_, 'the incoming transcript', absorbed(h, TR), f, h)
            for nm, t in s['bind']: binds(ck, i_, nm, absorbed(h, t), f, h)
            for nm, t, n in s['vbind']: binds(ck, i_, nm, absorbed_vec(h, t, n), f, h)
            o = R.arg[2]
            binds2(ck, i_, o, h, f)
        ck.guard(i_, 'challenge binding', None, body)
    def schn():
        f = fn(P, 'Schnorr::Verify')
        R = run(P, f, {0: IN('pp'), 1: IN('pk'), 2: IN('m'), 3: IN('sig')})
        ch = nchal(ck, 'Schnorr::Verify', f, R.ret, 1)
        if not ch: return
        h = hin(ch[0])
        binds(ck, 'Schnorr::Verify', 'the message', absorbed(h, IN('m')), f, h)
        binds(ck, 'Schnorr::Verify', 'the commitment', absorbed(h, F(IN('sig'), 'A')), f, h)
    ck.guard('Schnorr::Verify', 'challenge binding', None, schn)
    def enc():
        f, R = run_verify(P, 'EncRelation')
        i_ = 'EncRelation::Verify'
        ch = nchal(ck, i_, f, R.ret, 1)
        if not ch: return
        h = hin(ch[0]); x, pf = IN('x'), IN('pf')
        binds(ck, i_, 'the incoming transcript', absorbed(h, TR), f, h)
        binds(ck, i_, 'statement key', absorbed(h, F(x, 'ek')), f, h)
        for c in 'XY': binds(ck, i_, 'every statement ciphertext ' + c, absorbed_vec(h, F(x, 'vec_CT'), None, (c,)), f, h)
        for c in 'ABCD': binds(ck, i_, 'message ' + c, absorbed(h, F(pf, c)), f, h)
        m = None
        for c in 'XY':
            ok = absorbed_vec(h, F(pf, 'vec_G'), None, (c,)) or any(absorbed_vec(h, F(pf, 'vec_G'), r[0], (c,)) and r[0] in used_sizes(R.ret) for p, r in parts(h) if r)
            binds(ck, i_, 'every message G_k ' + c, ok, f, h)
        binds2(ck, i_, R.arg[2], h, f)
    ck.guard('EncRelation::Verify', 'challenge binding', None, enc)
    def ars():
        f = fn(P, 'AccountableRingSig::Verify')
        pp, Rg, m, sg = IN('pp'), IN('R'), IN('m'), IN('sig')
        R = run(P, f, {0: pp, 1: Rg, 2: m, 3: sg}, stops=['EncRelation::Verify'])
        i_ = 'AccountableRingSig::Verify'
        c = [c for c in R.I.calls if c[0] == 'EncRelation::Verify']
        ch = nchal(ck, i_, f, R.ret, 1)
        if not ch or len(c) != 1: return
        tr = c[0][1][2]                    # transcript entering the membership proof
        out = hin(ch[0])
        def ab(t): return absorbed(tr, t) or absorbed(out, t)
        for nm, t in (('the message', m), ('ct_vk.X', F(sg, 'ct_vk', 'X')), ('ct_vk.Y', F(sg, 'ct_vk', 'Y')), ('ct_s.X', F(sg, 'ct_s', 'X')), ('ct_s.Y', F(sg, 'ct_s', 'Y'))):
            binds(ck, i_, nm, ab(t), f, tr)
        binds(ck, i_, 'every ring key', absorbed_vec(tr, Rg) or absorbed_vec(out, Rg), f, tr)
        # the key-knowledge challenge comes from the transcript left by the membership proof (which keeps everything it was given: checked above)
        ok = contains(out, lambda t: t.op == 'out' and t.a[0].op == 'call' and t.a[0].a[0] == 'EncRelation::Verify') or all(absorbed(out, t) for t in (m,))
        binds(ck, i_, 'the membership transcript', ok, f, out)
    ck.guard('AccountableRingSig::Verify', 'challenge binding', None, ars)
    for n in ((2, 4) if tier == 'quick' else (2, 4, 8, 16)):
        lg, pp = ip_setting(n)
        for q in ('Verify', 'FastVerify'):
            i_ = 'InnerProduct::%s[n=%d]' % (q, n)
            def ip(n=n, lg=lg, pp=pp, q=q, i_=i_):
                f = fn(P, 'InnerProduct::' + q)
                pf = mkrec(IN('pf'), {'vec_L': vi('L', lg), 'vec_R': vi('R', lg)})
                R = run(P, f, {0: pp, 1: IN('x'), 2: TR, 3: pf})
                ch = nchal(ck, i_, f, R.ret, lg)
                if not ch: return
                for j, c in enumerate(ch):
                    h = hin(c)
                    binds(ck, i_, 'the incoming transcript (round %d)' % j, absorbed(h, TR), f, h)
                    for k in range(j + 1):
                        binds(ck, i_, 'L_%d (round %d)' % (k, j), absorbed(h, IN('L%d' % k)), f, h)
                        binds(ck, i_, 'R_%d (round %d)' % (k, j), absorbed(h, IN('R%d' % k)), f, h)
            ck.guard(i_, 'challenge binding', None, ip)
    for RL, n in (((2, 1), (2, 2)) if tier == 'quick' else ((2, 1), (2, 2), (4, 2), (2, 4))):
        L, pp = bullet_setting(RL, n); lg = L.bit_length() - 1
        Cs = [IN('C%d' % j) for j in range(n)]
        for q in ('Verify', 'FastVerify'):
            i_ = 'Bullet::%s[bits=%d,values=%d]' % (q, RL, n)
            def bu(RL=RL, n=n, L=L, pp=pp, lg=lg, Cs=Cs, q=q, i_=i_):
                f = fn(P, 'Bullet::' + q); pf = bullet_pf(lg)
                R = run(P, f, {0: pp, 1: mkrec(IN('x'), {'C': vec(*Cs)}), 2: TR, 3: pf}, budget=4_000_000)
                ch = nchal(ck, i_, f, R.ret, 4 + lg)
                if not ch: return
                need = [('the incoming transcript', TR)] + [('commitment %d' % j, c) for j, c in enumerate(Cs)] + [('A', F(pf, 'A'))]
                steps = [('y', []), ('z', [('S', F(pf, 'S'))]), ('x', [('T1', F(pf, 'T1')), ('T2', F(pf, 'T2'))]),
                         ('e', [('tx', F(pf, 'tx')), ('taux', F(pf, 'taux')), ('mu', F(pf, 'mu'))])]
                steps += [('x_%d' % j, [('L_%d' % j, IN('L%d' % j)), ('R_%d' % j, IN('R%d' % j))]) for j in range(lg)]
                for c, (nm, extra) in zip(ch, steps):
                    need += extra; h = hin(c)
                    for w, t in need: binds(ck, i_, '%s (challenge %s)' % (w, nm), absorbed(h, t), f, h)
            ck.guard(i_, 'challenge binding', None, bu)
    gad(ck, P)
    adcp(ck, P)

def binds2(ck, i_, o, h, f):
    """what was absorbed stays in the transcript handed to the next sub-proof"""
    ok = all(any(p is q for q, _ in parts(o)) for p, r in parts(h) if r is None)
    ck.ob(i_, 'absorbed data stays in the outgoing transcript', ok, f, 'outgoing: %s' % short(o, 2000))

def used_sizes(t):
    return {x.a[0] for x in subterms(t) if x.op in ('psum', 'sum', 'all', 'map', 'catmap')}

def gad(ck, P):
    """composed range gadgets: the sub-proofs chain over one transcript"""
    pp, x, Lb, Rb, pf = IN('pp'), IN('x'), IN('lo'), IN('hi'), IN('pf')
    st = ['PlaintextKnowledge::Verify', 'Bullet::FastVerify', 'Bullet::Verify', 'DLOGEquality::Verify']
    for typ in (1, 2):
        i_ = 'Gadget::Verify/type%d' % typ
        def b(typ=typ, i_=i_):
            f = [y for y in P.find('Gadget::Verify') if 'Proof_type%d' % typ in y['params'][5]['ty']][0]
            R = run(P, f, {0: pp, 1: x, 2: Lb, 3: Rb, 4: TR, 5: pf}, stops=st)
            for k, c in enumerate(R.I.calls):
                if c[0] not in st: continue
                tr = c[1][2]
                ck.ob(i_, 'sub-proof %s starts from the caller transcript' % c[0], contains(tr, lambda t: t is TR), f, short(tr))
        ck.guard(i_, 'transcript chaining', None, b)

def adcp(ck, P):
    pass
