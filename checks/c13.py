"""Every secret key, encryption coin, mask and commitment generator is drawn afresh, over its full range, from the cryptographic generator."""
from zk import *
from duo import *
import net, proto, stdmodel
import c07, c08, c10, c11, c12, c14

O = lambda: tm.ORDER
def cfold(t):
    """(bound, shift) of a uniform scalar: rand below bound, plus a constant"""
    if t.op == 'mod' and t.a[0] is O(): t = t.a[1]
    p = as_poly(t); sh = 0; r = None
    for mono, c in p.items():
        if mono == (): sh = c
        elif len(mono) == 1 and mono[0][1] == 1 and c in (1, -1) and mono[0][0].op == 'rand' and r is None: r = mono[0][0]
        else: return None
    if r is None or r.a[1] != 'range': return None
    return r, sh
def full(b): return b is O() or b is sub(O(), ONE) or b is sub(O(), C(2))
def uniform(t):
    """True: uniform exponent; False: provably something else; None: cannot tell"""
    if residual(t) is not None: return None
    x = cfold(t)
    if x: return full(x[0].a[2])
    b = seeded(t)
    return b
def seeded(t):
    """a 32-byte string read from a stream keyed by 128 fresh bits"""
    while t.op in ('slice', 'sel', 'bytesof', 'frombytes'): t = t.a[0]
    if t.op == 'buf' and len(t.a[2]) == 1: t = t.a[2][0][2]
    if t.op == 'buf':
        ps = [w for w in t.a[2]]
        return bool(ps) and all(seeded(w[2]) for w in ps)
    if t.op == 'prgbytes': return t.a[0].op == 'prgkey' and t.a[0].a[0].op == 'rand' and isc(t.a[2]) and t.a[2].a[0] >= 32
    if t.op == 'rand' and t.a[1] == 'bytes': return isc(t.a[2]) and t.a[2].a[0] >= 32
    return False

def census(ck, inst, f, t, allow=lambda b: False):
    """every random value in t comes from the generator over the full exponent range; no constant-seeded stream, no libc rand"""
    rs = sorted({x for x in subterms(t) if x.op == 'rand'}, key=lambda x: x.id)
    small = [x for x in rs if x.a[1] == 'range' and not (full(x.a[2]) or allow(x.a[2]))]
    ck.ob(inst, 'random scalars are drawn over the full exponent range', not small, f, '; '.join(short(x, 200) for x in small[:3]))
    weak = [x for x in subterms(t) if x.op == 'weakrand' and not shuffled_only(t, x)]
    ck.ob(inst, 'no value of a non-cryptographic generator is used', not weak, f, '; '.join(short(x, 100) for x in weak[:3]))
    return rs
def shuffled_only(t, w): return w.a[1] == 'shuffle'

def shared(a, b): return {x for x in subterms(a) if x.op == 'rand'} & {x for x in subterms(b) if x.op == 'rand'}

PKE = {**proto.PRGP}
def keygens(ck, P, cfg):
    pp = IN('pp')
    ks = [('ElGamal::KeyGen', ('g',))]
    if cfg == 'x25519': ks += [('ExponentialElGamal::KeyGen', ('g',)), ('TwistedExponentialElGamal::KeyGen', ('g',)), ('Schnorr::KeyGen', ('g',)), ('AccountableRingSig::KeyGen', ('enc_part', 'g'))]
    for q, g in ks:
        i_ = '%s (%s)' % (q, cfg)
        def b(q=q, g=g, i_=i_):
            f = fn(P, q); R = run(P, f, {0: pp}, prims=PKE); k = R.ret
            if k.op != 'tup' or len(k.a[0]) != 2: return ck.ob(i_, 'secret key', None, f, short(k, 300))
            pk, sk = k.a[0]
            ck.ob(i_, 'the secret key is a fresh uniform exponent', uniform(sk), f, 'secret key: ' + short(sk, 600))
            if cfg == 'x25519' and q.startswith('ElGamal'):
                px = F(pk, 'px')
                hit = [x for x in subterms(px) if x.op == 'xpt']
                ck.ob(i_, 'the public key is the generator raised to that key', True if hit and any(tm.contains(y, lambda z: z.op == 'rand') for x in hit for y in x.a[1]) else None, f, short(px, 500))
            else:
                ck.equal(i_, 'the public key is the generator raised to that key', pk, pt_mul(F(pp, *g), sk), f)
            R2 = run(P, f, {0: pp}, prims=PKE)
            ck.ob(i_, 'two calls draw independent keys', True if not shared(sk, R2.ret.a[0][1]) and sk is not R2.ret.a[0][1] else False, f, short(sk, 300))
        ck.guard(i_, 'secret key', None, b)

def coins(ck, P, cfg):
    pp, pk, m = IN('pp'), IN('pk'), IN('m')
    ct = rec('CT', X=IN('X'), Y=IN('Y'))
    jobs = [('ElGamal::Enc', 3, {0: pp, 1: pk, 2: m}, None)]
    if cfg == 'p256': jobs += [('ElGamal::ReRand', 3, {0: pp, 1: pk, 2: ct}, ct)]
    else:
        for ns in ('ExponentialElGamal', 'TwistedExponentialElGamal'):
            jobs += [(ns + '::Enc', 3, {0: pp, 1: pk, 2: m}, None), (ns + '::ReRand', 3, {0: pp, 1: pk, 2: ct}, ct)]
    for q, n, args, base in jobs:
        i_ = '%s (%s)' % (q, cfg)
        def b(q=q, n=n, args=args, base=base, i_=i_):
            f = fn(P, q, n); R = run(P, f, args, prims=PKE); t = R.ret
            if cfg == 'x25519' and q == 'ElGamal::Enc':
                cs = sorted({k for x in subterms(t) if x.op == 'xpt' for k in x.a[1]}, key=lambda x: x.id)
                ck.ob(i_, 'the coin is a fresh uniform exponent', (None if not cs else all(uniform(c) for c in cs)), f, '; '.join(short(c, 300) for c in cs))
                ck.ob(i_, 'both components use the coin', True if cs and all(tm.contains(F(t, k), lambda z: z in cs) for k in 'XY') else None, f, short(t, 500))
                return
            for k in 'XY':
                d = as_pt(F(t, k))
                if base: d = as_pt(pt_add(F(t, k), F(base, k), -1))
                rest = {b_: e for b_, e in d.items() if uniform(e)}
                other = {b_: e for b_, e in d.items() if b_ not in rest}
                ck.ob(i_, 'component %s is blinded by a fresh uniform coin' % k, True if rest else (None if residual(F(t, k)) is not None else False), f, short(F(t, k), 600))
            census(ck, i_, f, t)
            t2 = run(P, f, args, prims=PKE).ret
            ck.ob(i_, 'two calls draw independent coins', not shared(t, t2), f, short(t, 300))
        ck.guard(i_, 'coins', None, b)

def ledger(ck, P):
    for n in (0, 1, 2, 3):
        i_ = 'ADCP::CreateCTx(%s)' % ('1-to-1' if not n else '1-to-n, n=%d' % n)
        def b(n=n, i_=i_):
            ppv, g, h, ska = c07.setting(); s, pk, sk, m, rho = c07.acct('s', g, h)
            pr = c07.mk_prims([])
            f = [x for x in P.find('ADCP::CreateCTx') if x['ret'].endswith('ToManyCTx' if n else 'ToOneCTx')][0]
            if not n: R = run(P, f, {0: ppv, 1: s, 2: IN('v'), 3: c07.acct('r', g, h)[1]}, prims=pr)
            else: R = run(P, f, {0: ppv, 1: s, 2: vi('v', n), 3: vec(*[c07.acct('r%d' % i, g, h)[1] for i in range(n)])}, prims=pr)
            tx = R.ret
            ct = {'transfer_ct': F(tx, 'transfer_ct')} if not n else {'sender_transfer_ct': F(tx, 'sender_transfer_ct'),
                   **{'receiver_transfer_ct[%d]' % i: sel(F(tx, 'vec_receiver_transfer_ct'), C(i)) for i in range(n)}}
            ct['refresh_ct'] = F(tx, 'refresh_sender_updated_balance_ct')
            seen = {}
            for nm, c in ct.items():
                y = as_pt(F(c, 'Y')).get(g)
                ok = None if y is None else uniform(y)
                ck.ob(i_, '%s has a fresh uniform coin' % nm, ok, f, short(y, 400))
                if y is not None:
                    ck.ob(i_, 'coin of %s is used for no other ciphertext' % nm, y not in seen, f, 'shared with %s' % seen.get(y)); seen[y] = nm
            census(ck, i_, f, T_('vec', tuple(F(c, 'Y') for c in ct.values())))
        ck.guard(i_, 'coins', None, b)
    for q in ('Gadget::Prove',):
        for f in P.find(q):
            def b(f=f):
                pr = c07.mk_prims([]); pr.pop('Gadget::Prove', None); pr.pop('Gadget::Verify', None)
                R = run(P, f, {}, prims=pr, stops=('TwistedExponentialElGamal::Initialize',))
                out = [a for a in R.arg if a.op == 'rec' and 'refresh_ct' in dict(a.a[1])]
                if not out: return                # the prover that knows its own coins refreshes nothing
                rc = F(out[0], 'refresh_ct')
                es = [e for e in as_pt(F(rc, 'Y')).values()]
                us = [e for e in es if uniform(e)]
                ck.ob(q, 'the refreshed ciphertext has a fresh uniform coin', True if us else (None if residual(F(rc, 'Y')) is not None else False), f, short(F(rc, 'Y'), 500))
            ck.guard(q, 'refresh coin', f, b)
    def ars():
        f = fn(P, 'AccountableRingSig::Sign'); N = 2
        R = run(P, f, {2: vi('R', N)}, stops=('EncRelation::Prove', 'PlaintextKnowledge::Prove', 'DLOGKnowledge::Prove', 'DLOGEquality::Prove', 'EncRelation::Setup'), budget=2_000_000)
        t = R.ret; cv, cs = F(t, 'ct_vk'), F(t, 'ct_s')
        seen = {}
        for nm, c in (('ct_vk', cv), ('ct_s', cs)):
            es = [e for b_, e in as_pt(F(c, 'X')).items()]
            ok = None if residual(F(c, 'X')) is not None or not es else all(uniform(e) for e in es)
            ck.ob('AccountableRingSig::Sign', '%s has a fresh uniform coin' % nm, ok, f, short(F(c, 'X'), 400))
            for e in es:
                ck.ob('AccountableRingSig::Sign', 'coin of %s is used for no other ciphertext' % nm, e not in seen, f, ''); seen[e] = nm
        rs = {x for x in subterms(F(cs, 'Y')) if x.op == 'rand'}
        ck.ob('AccountableRingSig::Sign', 'the auxiliary message is itself random', None if residual(F(cs, 'Y')) is not None else len(rs) >= 2, f, short(F(cs, 'Y'), 400))
        census(ck, 'AccountableRingSig::Sign', f, T_('vec', (F(cv, 'X'), F(cv, 'Y'), F(cs, 'X'), F(cs, 'Y'))))
    ck.guard('AccountableRingSig::Sign', 'coins', None, ars)

def gens(ck, P):
    """commitment generators: each is an independent random or hashed point"""
    def elem(v):
        if v.op == 'map':
            i = tm.lv(v.a[0]); return tm.inst(v, i), i
        return v, None
    def one(inst, f, named):
        toks = {}
        for nm, v in named.items():
            if residual(v) is not None: ck.ob(inst, 'generator %s' % nm, None, f, short(v, 300)); continue
            if v.op == 'vec':
                items = [('%s[%d]' % (nm, k), x, None) for k, x in enumerate(v.a[0])]
            elif v.op == 'map': e, i = elem(v); items = [(nm, e, i)]
            elif v.op == 'pt' or v.op in ('g', 'call'): items = [(nm, v, None)]
            else: items = [(nm, v, None)]
            for n_, x, i in items:
                rs = {y for y in subterms(x) if y.op == 'rand'}
                hs = {y for y in subterms(x) if y.op == 'call' and 'ECPoint' in str(y.a[0])}
                d = as_pt(x)
                if x is T_('g', 'generator') or (len(d) == 1 and list(d.values())[0] is ONE and list(d)[0] is T_('g', 'generator')): tok = ('gen',)
                elif i is not None:
                    own = [y for y in rs if i.a[0] in y.fv]
                    ck.ob(inst, 'the entries of %s are drawn one by one' % n_, bool(own) or any(i.a[0] in y.fv for y in hs), f, short(x, 400))
                    tok = tuple(sorted((y.a[0] for y in rs))) if rs else tuple(hs)
                elif rs: tok = tuple(sorted(y.a[0] for y in rs))
                elif hs: tok = tuple(hs)
                else: ck.ob(inst, 'generator %s has no known relation to the others' % n_, None if x.op in ('in', 'fld', 'undef') else False, f, short(x, 300)); continue
                dup = [k for k, t in toks.items() if t == tok]
                ck.ob(inst, 'generator %s has no known relation to the others' % n_, not dup, f, 'same origin as %s: %s' % (dup[:1], short(x, 300)))
                for y in rs:
                    ck.ob(inst, 'generator %s is drawn from the whole group' % n_, y.a[1] == 'range' and full(y.a[2]), f, short(y, 200))
                toks[n_] = tok
    st = ('Hash::StringToECPoint',)
    def b1():
        f = fn(P, 'Bullet::Setup'); R = run(P, f, {0: IN('n'), 1: IN('m')}, stops=st); pp = R.ret
        one('Bullet::Setup', f, {k: F(pp, k) for k in ('g', 'h', 'u', 'vec_g', 'vec_h')})
        for k in ('vec_g', 'vec_h'): ck.equal('Bullet::Setup', '%s has a generator for every bit of every value' % k, size(F(pp, k)), mul(IN('n'), IN('m')), f)
    ck.guard('Bullet::Setup', 'generators', None, b1)
    def b2():
        f = fn(P, 'InnerProduct::Setup'); ps = {k: v for k, v in ((0, IN('n')), (1, TRUE))}
        R = run(P, f, ps, stops=st); pp = R.ret
        one('InnerProduct::Setup', f, {k: F(pp, k) for k in ('u', 'vec_g', 'vec_h')})
    ck.guard('InnerProduct::Setup', 'generators', None, b2)
    def b3():
        f = fn(P, 'Pedersen::Setup'); R = run(P, f, {0: IN('n')}, stops=st); pp = R.ret
        one('Pedersen::Setup', f, {k: F(pp, k) for k in ('g', 'vec_h')})
        ck.equal('Pedersen::Setup', 'one generator per message', size(F(pp, 'vec_h')), IN('n'), f)
    ck.guard('Pedersen::Setup', 'generators', None, b3)
    def b4():
        f = fn(P, 'TwistedExponentialElGamal::Setup'); R = run(P, f, {0: C(32), 1: C(7)}, stops=st); pp = R.ret
        one('TwistedExponentialElGamal::Setup', f, {k: F(pp, k) for k in ('g', 'h')})
    ck.guard('TwistedExponentialElGamal::Setup', 'generators', None, b4)

class Tap:
    """stands in for the checker of another property: only the two-party runs matter"""
    def __init__(s, ck): s.ck, s.assumptions = ck, []
    def __getattr__(s, n): return lambda *a, **k: None
    def guard(s, inst, rule, f, body): s.ck.guard(inst, 'protocol randomness', f, body)
    def par(s, jobs):
        for j in jobs: s.guard(*j)
    def on_duo(s, inst, d):
        for f, out in ((d.fa, d.outA), (d.fb, d.outB)):
            i_ = inst + '/' + f['q']
            # blinding of summed values is modular in the bound of the sum (C14 decides that the two agree)
            mods = {x.a[0] for x in subterms(out) if x.op == 'mod'}
            census(s.ck, i_, f, out, allow=lambda b: b in mods or any(p in mods for p in ()))
            keys = sorted({x for x in subterms(out) if x.op == 'prgkey'}, key=lambda x: x.id)
            if keys: s.ck.counts['streams ' + i_] = len(keys)
            xk = sorted({k for x in subterms(out) if x.op == 'xpt' for k in x.a[1]}, key=lambda x: x.id)
            if xk:
                own = [k for k in xk]
                s.ck.ob(i_, 'curve-25519 keys are 32 bytes of a freshly seeded stream', all(seeded(k) for k in own), f, '; '.join(short(k, 200) for k in own[:3]))

def samplers(ck, P):
    m, n = IN('m'), IN('n')
    def rnd():
        for f in P.find('GenRandomBigIntLessThan', nparams=1):
            R = run(P, f, {0: m}); t = R.ret
            ok = t.op == 'rand' and t.a[1] == 'range' and t.a[2] is m
            ck.ob('GenRandomBigIntLessThan(%s)' % f['params'][0]['ty'][:12], 'uniform in [0,max) from the cryptographic generator', ok if ok or residual(t) is None else None, f, short(t, 300))
        f = fn(P, 'GenRandomBigIntBetween'); a, b = IN('a'), IN('b'); R = run(P, f, {0: a, 1: b}); rs = has_rand(R.ret)
        ok = len(rs) == 1 and all(x.a[1] == 'range' and x.a[2] is sub(b, a) for x in rs) and R.ret is add(next(iter(rs)), a)
        ck.ob('GenRandomBigIntBetween', 'uniform in [start,end)', ok, f, short(R.ret, 300))
        def entries(q, rest, good):
            f = fn(P, q); R = run(P, f, {0: n, **rest}); t = R.ret
            if residual(t) is None:
                ck.equal(q, 'length', size(t), n, f)
                i = tm.lv(n); e = sel(t, i); r = good(e)
                return ck.ob(q, 'entries are drawn one by one, each uniform', r is not None and i.a[0] in r.fv, f, short(e, 300))
            # loop form not summarised: decide for the first lengths
            for k in range(5):
                t = run(P, f, {0: C(k), **rest}).ret
                ck.equal(q, 'length (%d)' % k, size(t), C(k), f)
                es = [good(sel(t, C(j))) for j in range(k)]
                bad = None in es or len(set(es)) != k
                ck.ob(q, 'entries are drawn one by one, each uniform (%d)' % k, not bad if residual(t) is None else None, f, short(t, 300))
        entries('GenRandomBigIntVectorLessThan', {1: m}, lambda e: e if e.op == 'rand' and e.a[1] == 'range' and e.a[2] is m else None)
        def point(e):
            d = as_pt(e); g = T_('g', 'generator'); u = cfold(d[g]) if list(d) == [g] else None
            return u[0] if u and full(u[0].a[2]) else None
        entries('GenRandomECPointVector', {}, point)
        for q in ('GenRandomGenerator', 'GenRandomECPoint'):
            f = fn(P, q); R = run(P, f, {}); d = as_pt(R.ret); g = T_('g', 'generator')
            u = cfold(d[g]) if list(d) == [g] else None
            ck.ob(q, 'generator raised to a nonzero uniform exponent', bool(u) and u[0].a[2] is sub(O(), ONE) and u[1] == 1, f, short(R.ret, 300))
        for f in P.find('GenRandomBytes', nparams=1):
            R = run(P, f, {0: n}); t = R.ret
            rs = {x for x in subterms(t) if x.op == 'rand'}
            ck.ob('GenRandomBytes(num)', 'all requested bytes come from the cryptographic generator', True if len(rs) == 1 and any(x.a[1] == 'bytes' and x.a[2] is n for x in rs) else (None if residual(t) is not None or rs else False), f, short(t, 300))
    ck.guard('samplers', 'uniform', None, rnd)

class Masks:
    """the prover analysis of C14, restricted to how its masks are drawn"""
    def __init__(s, ck): s.ck = ck
    def __getattr__(s, n): return lambda *a, **k: None
    def ob(s, inst, rule, ok, f=None, detail='', **k):
        if 'independent randomness' in rule or 'full range' in rule or rule == 'responses': s.ck.ob(inst, rule, ok, f, detail, **k)
    def note_fn(s, f): s.ck.note_fn(f)
    def guard(s, *a): s.ck.guard(*a)

def go(ck, tier):
    ck.assumptions += ['BN_rand_range, RAND_bytes and std::random_device deliver independent uniform values; AES in counter mode under a random key is pseudo-random (C15 decides that the stream generator is that construction)',
                       'account creation in ADCP encrypts a publicly known initial balance with coins derived from the identity: not a secret, hence not covered']
    jobs = []
    for cfg in ('x25519', 'p256'):
        P = prog(cfg)
        jobs.append((cfg + ' key generation', 'secret key', None, lambda P=P, cfg=cfg: keygens(ck, P, cfg)))
        jobs.append((cfg + ' encryption', 'coins', None, lambda P=P, cfg=cfg: coins(ck, P, cfg)))
    P = prog('x25519')
    jobs += [('samplers', 'uniform', None, lambda: samplers(ck, P)), ('ledger', 'coins', None, lambda: ledger(ck, P)), ('generators', 'independent', None, lambda: gens(ck, P))]
    for m in (c08, c10, c11, c12): jobs.append((m.__name__, 'protocol randomness', None, lambda m=m: m.go(Tap(ck), 'quick')))
    c14.provers(Masks(ck), tier, lambda *a: jobs.append(a))
    ck.par(jobs)
