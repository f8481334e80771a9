"""Confidential payments: state changes only through verified transactions, and value is conserved."""
from spec import *
from zk import vec, vi, conj

def load_args(I, args, st, fr):
    vals, lvs = [], []
    for a in args:
        try: l = I.lval(a, st, fr)
        except Unsupported: l = None
        lvs.append(l)
        vals.append(I.load(st, l) if l is not None else I.eval(a, st, fr))
    return vals, lvs

INST = {'PlaintextEquality': (('vec_pk',), ('ct', 'vec_X'), ('ct', 'Y')), 'PlaintextKnowledge': (('pk',), ('ct', 'X'), ('ct', 'Y')),
        'DLOGEquality': (('g1',), ('h1',), ('g2',), ('h2',)), 'DLOGKnowledge': (('g',), ('h',)), 'Bullet': (('C',),),
        'Gadget': (('pk',), ('ct', 'X'), ('ct', 'Y'))}
WIT = {'PlaintextEquality': ('r', 'v'), 'PlaintextKnowledge': ('r', 'v'), 'DLOGEquality': ('w',), 'DLOGKnowledge': ('w',), 'Bullet': ('r', 'v'), 'Gadget': ('sk',)}
PPF = {'PlaintextEquality': ('g', 'h'), 'PlaintextKnowledge': ('g', 'h'), 'DLOGEquality': (), 'DLOGKnowledge': (), 'Bullet': ('g', 'h', 'RANGE_LEN'), 'Gadget': ()}
def canon(nm, x): return tuple(F(x, *p) for p in INST[nm])
def canpp(nm, pp): return tuple(F(pp, p) for p in PPF[nm])

def mk_prims(log):
    """proof systems by contract: a proof is a token bound to parameters, statement, witness and transcript;
    the verifier is an uninterpreted predicate over parameters, statement, transcript and proof (C01-C03 decide the proof systems themselves)"""
    pr = {}
    def prove(nm, outp):
        def g(I, e, args, st, fr):
            v, l = load_args(I, args, st, fr)
            if nm == 'Gadget': pp, x, lo, hi, w, tr = v[:6]; ti = 5; x_ = canon(nm, x) + (lo, hi)
            else: pp, x, w, tr = v[:4]; ti = 3; x_ = canon(nm, x)
            tok = T_('proof', nm, canpp(nm, pp), x_, tr, uid(), tuple(F(w, k) for k in WIT[nm]))
            I.store(st, l[ti], T_('trs', nm, tr, x_, tok))
            if outp: I.store(st, l[ti + 1], tok); return T_('void')
            return tok
        return g
    def verify(nm):
        def g(I, e, args, st, fr):
            v, l = load_args(I, args, st, fr)
            if nm == 'Gadget': pp, x, lo, hi, tr, pf = v[:6]; ti = 4; x_ = canon(nm, x) + (lo, hi)
            else: pp, x, tr, pf = v[:4]; ti = 2; x_ = canon(nm, x)
            c = T_('call', nm, (canpp(nm, pp), x_, tr, pf))
            I.store(st, l[ti], T_('trs', nm, tr, x_, pf))
            return T_('bool', c)
        return g
    for nm in INST:
        pr[nm + '::Prove'] = prove(nm, nm in ('Bullet', 'Gadget'))
        pr[nm + '::Verify'] = verify(nm)
    pr['Bullet::FastVerify'] = verify('Bullet')
    def ext(I, e, args, st, fr):
        v, l = load_args(I, args, st, fr); return T_('tosign', v[0])
    pr['ADCP::ExtractToSignMessageFromCTx'] = ext
    pr['ShanksDLOG'] = prim_dlog
    return pr

def calls_in(t):
    return [c.a[0] for c in conj(t) if c.op == 'bool' and c.a[0].op == 'call']

def relation(tok):
    """the witness relation of each proof system, as a list of (rule, lhs, rhs)"""
    nm, pps, x, tr, _, w = tok.a
    if nm == 'PlaintextEquality':
        pk, X, Y = x; n = size(pk)
        out = [('number of keys', n, size(X)), ('Y = g^r h^v', Y, pmulv((pps[0], w[0]), (pps[1], w[1])))]
        for i in range(n.a[0] if isc(n) else 0):
            out.append(('X_%d = pk_%d^r' % (i, i), sel(X, C(i)), pt_mul(sel(pk, C(i)), w[0])))
        return out
    if nm == 'PlaintextKnowledge':
        return [('X = pk^r', x[1], pt_mul(x[0], w[0])), ('Y = g^r h^v', x[2], pmulv((pps[0], w[0]), (pps[1], w[1])))]
    if nm == 'DLOGEquality': return [('h1 = g1^w', x[1], pt_mul(x[0], w[0])), ('h2 = g2^w', x[3], pt_mul(x[2], w[0]))]
    if nm == 'DLOGKnowledge': return [('h = g^w', x[1], pt_mul(x[0], w[0]))]
    if nm == 'Bullet':
        n = size(x[0]); out = [('one value per commitment', size(w[1]), n), ('one blinding per commitment', size(w[0]), n)]
        for i in range(n.a[0] if isc(n) else 0):
            out.append(('C_%d = g^r_%d h^v_%d' % (i, i, i), sel(x[0], C(i)), pmulv((pps[0], sel(w[0], C(i))), (pps[1], sel(w[1], C(i))))))
        return out
    return []
def tokens(t): return sorted({x for x in subterms(t) if x.op == 'proof'}, key=lambda x: x.id)

def setting():
    pp = IN('pp'); g, h = F(pp, 'enc_part', 'g'), F(pp, 'enc_part', 'h')
    ska = IN('ska')
    ppv = mkrec(pp, {'pka': pt_mul(g, ska), 'bullet_part': mkrec(F(pp, 'bullet_part'), {'g': g, 'h': h})})
    return ppv, g, h, ska
def acct(nm, g, h):
    a = IN(nm); sk, m, rho = F(a, 'sk'), F(a, 'm'), IN('rho_' + nm); pk = pt_mul(g, sk)
    return mkrec(a, {'pk': pk, 'balance_ct': mkrec(F(a, 'balance_ct'), {'X': pt_mul(pk, rho), 'Y': pmulv((g, rho), (h, m))})}), pk, sk, m, rho

def byty(P, q, i, part):
    c = [f for f in P.find(q) if len(f['params']) > i and part in f['params'][i]['ty']]
    if not c: raise Missing('%s(%s) not found' % (q, part))
    return c[0]

def assuming(t, conds, val):
    mp = {c: val for c in conds}; nv = not_(val)
    for c in conds:
        if c.op == 'all':           # not(all) is spelled any(not)
            n = c.a[0]; mp[mkbind('any', n, lambda i: not_(tm.inst(c, i)))] = nv
    return tm.subst(t, mp)

def go(ck, tier):
    P = prog('x25519')
    ck.assumptions += ['proof systems by contract (decided by C01-C03)', 'bounded discrete logarithm by contract', 'bullet and encryption parameters share g and h (checked on ADCP::Setup)']
    setup(ck, P)
    for n in (0, 1, 3) if tier == 'quick' else (0, 1, 3, 7):
        verify(ck, P, n); create(ck, P, n)
    for many in (False, True): miner(ck, P, many)
    policies(ck, P)

def setup(ck, P):
    def b():
        f = P.find('ADCP::Setup')[0]
        R = run(P, f, prims={'ShanksDLOG': prim_dlog}, stops=['Hash::ECPointToECPoint', 'Hash::StringToECPoint'])
        t = R.ret
        import stdmodel
        pp, sp = stdmodel.tupget(t, 0), stdmodel.tupget(t, 1)
        e, bl = F(pp, 'enc_part'), F(pp, 'bullet_part')
        ck.equal('ADCP::Setup', 'range proofs and encryption share g', F(bl, 'g'), F(e, 'g'), f)
        ck.equal('ADCP::Setup', 'range proofs and encryption share h', F(bl, 'h'), F(e, 'h'), f)
        ck.equal('ADCP::Setup', 'supervisor key pair matches', F(pp, 'pka'), pt_mul(F(e, 'g'), F(sp, 'ska')), f)
        ck.equal('ADCP::Setup', 'range of coins is the range of the proofs', F(bl, 'RANGE_LEN'), IN(0), f)
        ck.equal('ADCP::Setup', 'aggregation covers all receivers and the remaining balance', F(bl, 'MAX_AGG_NUM'), add(IN(1), ONE), f)
    ck.guard('ADCP::Setup', 'parameters', None, b)
    def ca():
        f = P.find('ADCP::CreateAccount')[0]
        pp = IN('pp')
        R = run(P, f, {0: pp, 1: IN('id'), 2: IN('m'), 3: IN('sn')}, prims={'ShanksDLOG': prim_dlog})
        a = R.ret; i_ = 'ADCP::CreateAccount'
        g, h = F(pp, 'enc_part', 'g'), F(pp, 'enc_part', 'h')
        ck.equal(i_, 'key pair matches', F(a, 'pk'), pt_mul(g, F(a, 'sk')), f)
        ck.ob(i_, 'secret key is fresh randomness', bool(has_rand(F(a, 'sk'))), f, F(a, 'sk'))
        ck.equal(i_, 'balance recorded', F(a, 'm'), IN('m'), f); ck.equal(i_, 'serial number recorded', F(a, 'sn'), IN('sn'), f); ck.equal(i_, 'identity recorded', F(a, 'identity'), IN('id'), f)
        # Y - h^m = g^r, X = pk^r for one r
        d = as_pt(pt_add(F(a, 'balance_ct', 'Y'), pt_mul(h, IN('m')), -1))
        if list(d) == [g]: ck.equal(i_, 'encrypted balance is the recorded balance', F(a, 'balance_ct', 'X'), pt_mul(F(a, 'pk'), d[g]), f)
        else: ck.ob(i_, 'encrypted balance is the recorded balance', False, f, F(a, 'balance_ct'))
    ck.guard('ADCP::CreateAccount', 'account', None, ca)

def tx_in(n):
    tx = IN('tx')
    if not n: return mkrec(tx, {'transfer_ct': mkrec(F(tx, 'transfer_ct'), {'vec_X': vi('TX', 3)})})
    return mkrec(tx, {'vec_pkr': vi('pkr', n), 'vec_receiver_transfer_ct': vec(*[mkrec(IN('rct%d' % i), {'vec_X': vi('RX%d_' % i, 2)}) for i in range(n)]),
                      'vec_plaintext_equality_proof': vi('pe', n)})

def verify(ck, P, n):
    """acceptance implies every required sub-proof on the statement the transaction determines"""
    i_ = 'ADCP::VerifyCTx(%s)' % ('1-to-1' if not n else '1-to-n, n=%d' % n)
    def b():
        f = byty(P, 'ADCP::VerifyCTx', 1, 'ToManyCTx' if n else 'ToOneCTx')
        ppv, g, h, ska = setting(); pp = ppv
        tx = tx_in(n)
        R = run(P, f, {0: pp, 1: tx}, prims=mk_prims([]))
        ck.equal(i_, 'transaction unchanged', R.arg[1], tx, f); ck.equal(i_, 'parameters unchanged', R.arg[0], pp, f)
        got = {}
        for c in calls_in(R.ret): got.setdefault(c.a[0], []).append(c)
        res = residual(R.ret) is not None
        def need(nm, x_, pf, what, auth=False):
            pps = {'PlaintextEquality': (g, h), 'PlaintextKnowledge': (g, h), 'Bullet': (g, h, F(pp, 'bullet_part', 'RANGE_LEN'))}.get(nm, ())
            hit = [c for c in got.get(nm, []) if c.a[1][1] == x_ and c.a[1][3] is pf and c.a[1][0] == pps]
            ok = bool(hit)
            ck.ob(i_, 'acceptance implies ' + what, True if ok else (None if res else False), f, 'required %s over %s with %s\n   accepted condition: %s' % (nm, short(x_, 800), pf, short(R.ret, 3000)))
            if ok and auth:
                sig = [t for c in hit for t in subterms(c.a[1][2]) if t.op == 'tosign' and t.a[0] is tx]
                ck.ob(i_, 'the sender authenticates the whole transaction', bool(sig), f, short(hit[0].a[1][2], 800))
        rf = F(tx, 'refresh_sender_updated_balance_ct')
        if not n:
            tc = F(tx, 'transfer_ct')
            need('PlaintextEquality', (vec(F(tx, 'pks'), F(tx, 'pkr'), F(pp, 'pka')), F(tc, 'vec_X'), F(tc, 'Y')), F(tx, 'plaintext_equality_proof'), 'sender, receiver and supervisor ciphertexts hold the same amount')
            Cs = vec(F(tc, 'Y'), F(rf, 'Y')); out = (sel(F(tc, 'vec_X'), ZERO), F(tc, 'Y'))
        else:
            for i in range(n):
                rc = sel(F(tx, 'vec_receiver_transfer_ct'), C(i))
                need('PlaintextEquality', (vec(IN('pkr%d' % i), F(pp, 'pka')), F(rc, 'vec_X'), F(rc, 'Y')), IN('pe%d' % i), 'receiver %d and supervisor ciphertexts hold the same amount' % i)
            Y = [F(sel(F(tx, 'vec_receiver_transfer_ct'), C(i)), 'Y') for i in range(n)]
            Cs = vec(*(Y + [F(rf, 'Y')]))
            st_ = F(tx, 'sender_transfer_ct'); out = (F(st_, 'X'), F(st_, 'Y'))
            hh = F(st_, 'Y')
            for y in Y: hh = pt_add(hh, y, -1)
            need('DLOGKnowledge', (g, hh), F(tx, 'balance_proof'), 'the amount sent is the sum of the amounts received')
        need('PlaintextKnowledge', (F(tx, 'pks'), F(rf, 'X'), F(rf, 'Y')), F(tx, 'plaintext_knowledge_proof'), 'the refreshed balance is well formed')
        need('Bullet', (Cs,), F(tx, 'bullet_right_solvent_proof'), 'all amounts and the remaining balance are in range')
        bc = F(tx, 'sender_balance_ct')
        need('DLOGEquality', (pt_add(pt_add(F(bc, 'Y'), out[1], -1), F(rf, 'Y'), -1), pt_add(pt_add(F(bc, 'X'), out[0], -1), F(rf, 'X'), -1), g, F(tx, 'pks')),
             F(tx, 'correct_refresh_proof'), 'the refreshed balance is the old balance minus the transfer', auth=True)
    ck.guard(i_, 'acceptance implies every sub-proof', None, b)

def create(ck, P, n):
    """honest transactions: every statement is true for the witness used, verifier and prover agree, balances move by v"""
    tag = '1-to-1' if not n else '1-to-n, n=%d' % n
    i_ = 'ADCP::CreateCTx(%s)' % tag
    def b():
        ppv, g, h, ska = setting(); pp = ppv
        s, pk, sk, m, rho = acct('s', g, h)
        log = []; prims = mk_prims(log)
        if not n:
            f = [x for x in P.find('ADCP::CreateCTx') if x['ret'].endswith('ToOneCTx')][0]
            r, pkr, skr, mr, rr = acct('r', g, h); v = [IN('v')]; tot = v[0]
            R = run(P, f, {0: pp, 1: s, 2: v[0], 3: pkr}, prims=prims)
            rec = [(r, pkr, skr, mr)]
        else:
            f = [x for x in P.find('ADCP::CreateCTx') if x['ret'].endswith('ToManyCTx')][0]
            v = [IN('v%d' % i) for i in range(n)]; tot = ZERO
            for y in v: tot = add(tot, y)
            rec = []
            for i in range(n):
                a_ = acct('r%d' % i, g, h); rec.append(a_[:4])
            R = run(P, f, {0: pp, 1: s, 2: vec(*v), 3: vec(*[x[1] for x in rec])}, prims=prims)
        tx = R.ret
        ck.equal(i_, 'sender account unchanged by creating a transaction', R.arg[1], s, f)
        ck.equal(i_, 'carries the sender serial number', F(tx, 'sn'), F(s, 'sn'), f); ck.equal(i_, 'carries the sender key', F(tx, 'pks'), pk, f)
        for k in 'XY': ck.equal(i_, 'refers to the current balance', F(tx, 'sender_balance_ct', k), F(s, 'balance_ct', k), f)
        for tok in tokens(tx):
            for rule, l, r_ in relation(tok): ck.equal(i_, '%s: statement true for the witness: %s' % (tok.a[0], rule), l, r_, f)
            if tok.a[0] == 'Bullet':
                # range-proved values are the amounts and the remaining balance
                vals = [sel(tok.a[5][1], C(j)) for j in range(len(v) + 1)]
                for j, y in enumerate(v): ck.equal(i_, 'range proof over amount %d' % j, vals[j], y, f)
                ck.equal(i_, 'range proof over the remaining balance', vals[len(v)], sub(m, tot), f)
        # fresh, distinct randomness for the ciphertexts
        Ys = [F(tx, 'transfer_ct', 'Y')] if not n else [F(tx, 'sender_transfer_ct', 'Y')] + [F(sel(F(tx, 'vec_receiver_transfer_ct'), C(i)), 'Y') for i in range(n)]
        Ys.append(F(tx, 'refresh_sender_updated_balance_ct', 'Y'))
        rs = []
        for y in Ys: rs.append(as_pt(y).get(g))
        ck.ob(i_, 'every ciphertext uses its own fresh randomness', all(x is not None and x.op == 'rand' for x in rs) and len(set(rs)) == len(rs), f, rs)
        # verifier on this transaction
        fv = byty(P, 'ADCP::VerifyCTx', 1, 'ToManyCTx' if n else 'ToOneCTx')
        RV = run(P, fv, {0: pp, 1: tx}, prims=mk_prims([]))
        cj = conj(RV.ret)
        for c in cj:
            if c is TRUE: continue
            if c.op == 'bool' and c.a[0].op == 'call':
                cc = c.a[0]; nm = cc.a[0]; pps, x_, tr, pf = cc.a[1]
                ok = pf.op == 'proof' and pf.a[0] == nm and pf.a[1] == pps and pf.a[2] == x_
                ck.ob(i_, 'verifier checks %s on the statement the prover proved' % nm, True if ok else (None if residual(c) is not None else False), fv,
                      'verifier: %s\n   prover: %s' % (short((pps, x_), 1500), short(pf, 1500)))
                if ok: 
                    # the message to sign is extracted before the refresh proof exists (C06: it does not cover that field)
                    t1, t2 = norm_sign(tr), norm_sign(pf.a[3])
                    ck.ob(i_, 'verifier and prover of %s use the same transcript' % nm, True if t1 is t2 else False, fv, '%s\n  vs %s' % (short(t1, 1200), short(t2, 1200)))
            else:
                ck.equal(i_, 'honest transaction accepted', c, TRUE, fv)
        # account update
        fu = byty(P, 'ADCP::UpdateAccount', 1, 'ToManyCTx' if n else 'ToOneCTx')
        RU = run(P, fu, {0: pp, 1: tx, 2: s, 3: (rec[0][0] if not n else vec(*[x[0] for x in rec]))}, prims=prims)
        u_ = 'ADCP::UpdateAccount(%s)' % tag
        s2 = RU.arg[2]
        ck.equal(u_, 'sender balance drops by the amount sent', F(s2, 'm'), sub(m, tot), fu)
        ck.equal(u_, 'serial number advances by one', F(s2, 'sn'), add(F(s, 'sn'), ONE), fu)
        for i, (a_, pk_, sk_, m_) in enumerate(rec):
            r2 = RU.arg[3] if not n else sel(RU.arg[3], C(i))
            ck.equal(u_, 'receiver %d balance grows by the amount received' % i, F(r2, 'm'), add(m_, v[i]), fu)
        # supervision
        fs = byty(P, 'ADCP::SuperviseCTx', 2, 'ToManyCTx' if n else 'ToOneCTx')
        RS = run(P, fs, {0: mkrec(IN('sp'), {'ska': ska}), 1: pp, 2: tx}, prims=prims)
        for i in range(len(v)):
            ck.equal('ADCP::SuperviseCTx(%s)' % tag, 'supervisor opens amount %d' % i, RS.ret if not n else sel(RS.ret, C(i)), v[i], fs)
    ck.guard(i_, 'honest transaction', None, b)

def norm_sign(t):
    """identify messages extracted from transactions that differ only in the refresh proof"""
    mp = {}
    for x in subterms(t):
        if x.op == 'tosign':
            mp[x] = T_('tosign', fldset(x.a[0], 'correct_refresh_proof', T_('undef', 0)))
    return tm.subst(t, mp) if mp else t
def fldset(r, f, v):
    return mkrec(r, {f: v})

def miner(ck, P, many):
    i_ = 'ADCP::Miner(%s)' % ('1-to-n' if many else '1-to-1')
    def b():
        f = byty(P, 'ADCP::Miner', 1, 'ToManyCTx' if many else 'ToOneCTx')
        pp, tx, s, r = IN('pp'), IN('tx'), IN('s'), IN('r')
        def pure(nm, isbool=True):
            def g(I, e, args, st, fr):
                v, l = load_args(I, args, st, fr); c = T_('call', nm, tuple(v)); return T_('bool', c) if isbool else c
            return g
        def effect(nm):
            def g(I, e, args, st, fr):
                v, l = load_args(I, args, st, fr); k = ('EFF', nm); I.store(st, (k, ()), cat(st.cells[k], T_('vec', (T_('eff', nm, v[0]),)))); return T_('void')
            return g
        prims = {'ADCP::VerifyCTx': pure('ADCP::VerifyCTx'), 'TwistedExponentialElGamal::Dec': pure('Dec', False),
                 'ADCP::SaveCTx': effect('SaveCTx'), 'ADCP::SaveAccount': effect('SaveAccount')}
        R = run(P, f, {0: pp, 1: tx, 2: s, 3: r}, prims=prims, cells={('EFF', k): T_('vec', ()) for k in ('SaveCTx', 'SaveAccount')})
        eff = {k: R.st.cells[('EFF', k)] for k in ('SaveCTx', 'SaveAccount')}
        acc = T_('bool', T_('call', 'ADCP::VerifyCTx', (pp, tx)))
        conds = [('the transaction verifies', acc), ('sender matches', peq(F(tx, 'pks'), F(s, 'pk'))), ('serial number is current', eq(F(tx, 'sn'), F(s, 'sn'))),
                 ('balance referred to is current (X)', peq(F(tx, 'sender_balance_ct', 'X'), F(s, 'balance_ct', 'X'))),
                 ('balance referred to is current (Y)', peq(F(tx, 'sender_balance_ct', 'Y'), F(s, 'balance_ct', 'Y')))]
        if many:
            conds += [('every receiver is present', eq(size(F(tx, 'vec_pkr')), size(r)))]
            ra = None
            for c in conj(R.ret):
                if c.op == 'all': ra = c
            want = mkbind('all', size(r), lambda i: peq(sel(F(tx, 'vec_pkr'), i), F(sel(r, i), 'pk')))
            want2 = mkbind('all', size(F(tx, 'vec_pkr')), lambda i: peq(sel(F(tx, 'vec_pkr'), i), F(sel(r, i), 'pk')))
            conds += [('receivers match', want2 if want2 in conj(R.ret) else want)]
        else: conds += [('receiver matches', peq(F(tx, 'pkr'), F(r, 'pk')))]
        cj = conj(R.ret)
        res = residual(R.ret) is not None
        for rule, c in conds:
            ck.ob(i_, 'accepted only if ' + rule, True if c in cj else (None if res else False), f, short(R.ret, 2500))
        # rejection changes nothing: make any one condition false
        for rule, c in conds:
            if c not in cj: continue
            for nm, val, old in (('sender', R.arg[2], s), ('receiver', R.arg[3], r)):
                ck.equal(i_, '%s account unchanged unless %s' % (nm, rule), assuming(val, [c], FALSE), old, f)
            for nm, v in eff.items():
                ck.equal(i_, '%s only if %s' % (nm, rule), assuming(v, [c], FALSE), T_('vec', ()), f)
        # acceptance: exact update
        yes = [c for _, c in conds if c in cj]
        s2, r2 = assuming(R.arg[2], yes, TRUE), assuming(R.arg[3], yes, TRUE)
        ct = F(tx, 'sender_transfer_ct') if many else None
        oX, oY = (F(ct, 'X'), F(ct, 'Y')) if many else (sel(F(tx, 'transfer_ct', 'vec_X'), ZERO), F(tx, 'transfer_ct', 'Y'))
        ck.equal(i_, 'sender ciphertext decreases by the transfer (X)', F(s2, 'balance_ct', 'X'), pt_add(F(s, 'balance_ct', 'X'), oX, -1), f)
        ck.equal(i_, 'sender ciphertext decreases by the transfer (Y)', F(s2, 'balance_ct', 'Y'), pt_add(F(s, 'balance_ct', 'Y'), oY, -1), f)
        ck.equal(i_, 'serial number advances by one', F(s2, 'sn'), add(F(s, 'sn'), ONE), f)
        for k in ('pk', 'sk', 'identity'): ck.equal(i_, 'sender %s unchanged' % k, F(s2, k), F(s, k), f)
        if many:
            v = tm.lv(size(r)); a2, a1 = sel(r2, v), sel(r, v)
            iX, iY = sel(F(sel(F(tx, 'vec_receiver_transfer_ct'), v), 'vec_X'), ZERO), F(sel(F(tx, 'vec_receiver_transfer_ct'), v), 'Y')
            ck.equal(i_, 'same receivers afterwards', size(r2), size(r), f)
        else: a2, a1 = r2, r; iX, iY = sel(F(tx, 'transfer_ct', 'vec_X'), ONE), F(tx, 'transfer_ct', 'Y')
        ck.equal(i_, 'receiver ciphertext increases by the transfer (X)', F(a2, 'balance_ct', 'X'), pt_add(F(a1, 'balance_ct', 'X'), iX), f)
        ck.equal(i_, 'receiver ciphertext increases by the transfer (Y)', F(a2, 'balance_ct', 'Y'), pt_add(F(a1, 'balance_ct', 'Y'), iY), f)
        for k in ('pk', 'sk', 'sn', 'identity'): ck.equal(i_, 'receiver %s unchanged' % k, F(a2, k), F(a1, k), f)
        ck.equal(i_, 'transaction unchanged', R.arg[1], tx, f)
        done = {k: assuming(v, yes, TRUE) for k, v in eff.items()}
        ck.equal(i_, 'accepted transaction is recorded exactly once', done['SaveCTx'], T_('vec', (T_('eff', 'SaveCTx', tx),)), f)
        sav = [x.a[1] for x in subterms(done['SaveAccount']) if x.op == 'eff']
        same = lambda x: all(F(x, *k) is F(s2, *k) for k in (('balance_ct', 'X'), ('balance_ct', 'Y'), ('sn',), ('m',), ('pk',), ('sk',), ('identity',)))
        ck.ob(i_, 'updated sender account is saved', True if any(same(x) for x in sav) else (None if residual(done['SaveAccount']) is not None else False), f, short(done['SaveAccount'], 1500))
    ck.guard(i_, 'ledger update', None, b)

def policies(ck, P):
    ppv, g, h, ska = setting(); pp = ppv
    def ctx(nm, pks, pkr, v):
        r = IN('r_' + nm); c = IN(nm)
        return mkrec(c, {'pks': pks, 'pkr': pkr, 'transfer_ct': mkrec(F(c, 'transfer_ct'), {'vec_X': vec(pt_mul(pks, r), pt_mul(pkr, r), pt_mul(F(pp, 'pka'), r)), 'Y': pmulv((g, r), (h, v))})})
    def both(nm, fj, fa, ja, aa, rel=True, out=None):
        i_ = 'ADCP policy %s' % nm
        log = []; prims = mk_prims(log)
        RJ = run(P, fj, ja, prims=prims)
        pf = RJ.ret if out is None else RJ.arg[out]
        ck.note_fn(fa)
        aa = dict(aa); aa[len(fa['params']) - 1] = pf
        RA = run(P, fa, aa, prims=prims)
        for tok in tokens(pf):
            for rule, l, r_ in relation(tok): ck.equal(i_, 'statement true for the witness: ' + rule, dist(l), dist(r_), fj)
            if tok.a[0] == 'Gadget': ck.equal(i_, 'witness is the sender key', pt_mul(g, tok.a[5][0]), tok.a[2][0], fj)
        for c in conj(dist(RA.ret)):
            if c.op == 'bool' and c.a[0].op == 'call':
                n_, (pps, x_, tr, q) = c.a[0].a[0], c.a[0].a[1]
                ok = q.op == 'proof' and (q.a[0], q.a[1], q.a[2]) == (n_, pps, x_) and q.a[3] is tr
                ck.ob(i_, 'honest justification accepted', True if ok else (None if residual(c) is not None else False), fa, '%s\n  %s' % (short(c, 1500), short(q, 1500)))
            else: ck.equal(i_, 'honest justification accepted', c, TRUE, fa)
    def pick(q, ret_part, nparam): 
        c = [f for f in P.find(q, nparams=nparam) if ret_part in str([p['ty'] for p in f['params']])]
        if not c: raise Missing(q + ' ' + ret_part)
        return c[0]
    u, pk, sk, m, rho = acct('u', g, h); o, pko, sko, mo, _ = acct('o', g, h)
    pol = IN('pol')
    dist = lambda t: tm.subst(t, {peq(pk, pko): FALSE, peq(pko, pk): FALSE})     # two different parties
    def openp():
        for who in (0, 1):
            c = ctx('c1', pk, pko, F(pol, 'v')) if who == 0 else ctx('c1', pko, pk, F(pol, 'v'))
            # distinct parties: pk != pko
            both('open (%s)' % ('sender' if who == 0 else 'receiver'), pick('ADCP::JustifyPolicy', 'OpenPolicy', 4), pick('ADCP::AuditPolicy', 'OpenPolicy', 5), {0: pp, 1: u, 2: c, 3: pol}, {0: pp, 1: u, 2: c, 3: pol})
    ck.guard('ADCP policy open', 'justification', None, openp)
    def rate():
        k = IN('k')
        c1 = ctx('c1', pko, pk, mul(k, F(pol, 't2'))); c2 = ctx('c2', pk, IN('pkt'), mul(k, F(pol, 't1')))
        both('rate', pick('ADCP::JustifyPolicy', 'RatePolicy', 5), pick('ADCP::AuditPolicy', 'RatePolicy', 6), {0: pp, 1: u, 2: c1, 3: c2, 4: pol}, {0: pp, 1: pk, 2: c1, 3: c2, 4: pol})
    ck.guard('ADCP policy rate', 'justification', None, rate)
    def limit():
        cs = vec(*[ctx('c%d' % i, pk, IN('pk%d' % i), IN('v%d' % i)) for i in range(3)])
        both('limit', pick('ADCP::JustifyPolicy', 'LimitPolicy', 5), pick('ADCP::AuditPolicy', 'LimitPolicy', 5), {0: pp, 1: u, 2: cs, 3: pol, 4: IN('pf')}, {0: pp, 1: pk, 2: cs, 3: pol}, out=4)
    ck.guard('ADCP policy limit', 'justification', None, limit)
    # soundness side: acceptance implies the sub-proof on exactly the policy statement
    def sound():
        tx, usr, pf = IN('tx'), IN('usr'), IN('pf'); pp0 = IN('pp'); g0, h0 = F(pp0, 'enc_part', 'g'), F(pp0, 'enc_part', 'h')
        fa = pick('ADCP::AuditPolicy', 'OpenPolicy', 5); R = run(P, fa, {0: pp0, 1: usr, 2: tx, 3: pol, 4: pf}, prims=mk_prims([]))
        pks, pkr, up = F(tx, 'pks'), F(tx, 'pkr'), F(usr, 'pk')
        g1 = pt_add(F(tx, 'transfer_ct', 'Y'), pt_mul(h0, F(pol, 'v')), -1)
        for nm, a, b_, ix, key in (('sender', TRUE, FALSE, 0, pks), ('receiver', FALSE, TRUE, 1, pkr)):
            t = tm.subst(R.ret, {peq(up, pks): a, peq(up, pkr): b_})
            want = (g1, sel(F(tx, 'transfer_ct', 'vec_X'), C(ix)), g0, key)
            cs = calls_in(t)
            ok = any(c.a[0] == 'DLOGEquality' and set_eq(c.a[1][1], want) and c.a[1][3] is pf for c in cs)
            ck.ob('ADCP::AuditPolicy(open)', 'acceptance implies the opening proof for the claimed amount (%s)' % nm, True if ok else (None if residual(t) is not None else False), fa, short(t, 2000))
        t = tm.subst(R.ret, {peq(up, pks): FALSE, peq(up, pkr): FALSE})
        ck.equal('ADCP::AuditPolicy(open)', 'a stranger is rejected', t, FALSE, fa)
        fa = pick('ADCP::AuditPolicy', 'RatePolicy', 6); c1, c2, k = IN('c1'), IN('c2'), IN('pk')
        R = run(P, fa, {0: pp0, 1: k, 2: c1, 3: c2, 4: pol, 5: pf}, prims=mk_prims([]))
        dd = lambda a, b_: pt_add(pt_mul(a, F(pol, 't1')), pt_mul(b_, F(pol, 't2')), -1)
        want = (g0, k, dd(F(c1, 'transfer_ct', 'Y'), F(c2, 'transfer_ct', 'Y')), dd(sel(F(c1, 'transfer_ct', 'vec_X'), ONE), sel(F(c2, 'transfer_ct', 'vec_X'), ZERO)))
        ok = any(c.a[0] == 'DLOGEquality' and set_eq(c.a[1][1], want) and c.a[1][3] is pf for c in calls_in(R.ret))
        ck.ob('ADCP::AuditPolicy(rate)', 'acceptance implies the rate proof', True if ok else (None if residual(R.ret) is not None else False), fa, short(R.ret, 2000))
        for nm, a, b_ in (('incoming', k, F(c1, 'pkr')), ('outgoing', k, F(c2, 'pks'))):
            ck.ob('ADCP::AuditPolicy(rate)', 'claimer is the %s party' % nm, peq(a, b_) in conj(R.ret), fa, short(R.ret, 2000))
        fa = pick('ADCP::AuditPolicy', 'LimitPolicy', 5); cs = IN('cs')
        R = run(P, fa, {0: pp0, 1: k, 2: cs, 3: pol, 4: pf}, prims=mk_prims([]))
        want = (k, mkbind('psum', size(cs), lambda i: sel(F(sel(cs, i), 'transfer_ct', 'vec_X'), ZERO)), mkbind('psum', size(cs), lambda i: F(sel(cs, i), 'transfer_ct', 'Y')), F(pol, 'LEFT_BOUND'), F(pol, 'RIGHT_BOUND'))
        ok = any(c.a[0] == 'Gadget' and c.a[1][1] == want and c.a[1][3] is pf for c in calls_in(R.ret))
        ck.ob('ADCP::AuditPolicy(limit)', 'acceptance implies the range proof over the sum of all amounts', True if ok else (None if residual(R.ret) is not None else False), fa, short(R.ret, 2500))
        ck.ob('ADCP::AuditPolicy(limit)', 'every transaction is by the claimer', mkbind('all', size(cs), lambda i: peq(k, F(sel(cs, i), 'pks'))) in conj(R.ret), fa, short(R.ret, 2500))
    ck.guard('ADCP::AuditPolicy', 'acceptance implies the policy proof', None, sound)

def set_eq(a, b): return tuple(a) == tuple(b)
