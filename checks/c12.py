"""VOLE: for every Delta, length, tree depth and punctured position, the two parties' outputs satisfy B = C + A*Delta."""
from spec import *
from duo import *
import net, bits, stdmodel, itertools
import c08, c11
from c11 import gf, p_gf, ld

def ecb(I, e, a, st, fr):
    """AES in ECB mode: block by block, a function of key and block"""
    k = ld(I, a[0], st, fr); p = I.eval(a[1], st, fr); n = I.eval(a[2], st, fr); v = net.elems(I, p, n, st, fr)
    q = I.eval(a[3], st, fr) if len(a) > 3 else p
    f = lambda i: T_('aes', k, sel(v, i))
    net.setelems(I, q, n, T_('vec', tuple(f(C(i)) for i in range(n.a[0]))) if isc(n) else mkbind('map', n, f), st, fr); return T_('void')
def ggm(I, e, a, st, fr):
    x = I.eval(a[0], st, fr); return T_('vec', (T_('ggm', x, ZERO), T_('ggm', x, ONE)))
LEN = ('REQ', 'otlen')
def ot(f, ilen, idx):
    def g(I, e, a, st, fr):
        n = I.eval(a[ilen], st, fr)
        if LEN in st.cells:
            for ix in idx: I.store(st, (LEN, ()), cat(st.cells[LEN], T_('vec', (T_('req', size(ld(I, a[ix], st, fr)), n),))))
        return f(I, e, a, st, fr)
    return g
OTS, OTR = ot(c08.ot_send(2, 3, 4), 4, (2, 3)), ot(c08.ot_recv, 3, (2,))
OTP = {'ALSZOTE::Send': OTS, 'ALSZOTE::Receive': OTR, 'NPOT::Send': OTS, 'NPOT::Receive': OTR, 'IKNPOTE::Send': OTS, 'IKNPOTE::Receive': OTR}
BASE = {**OTP, 'VOLE::gf128_mul': p_gf, 'AES::FastECBEnc': ecb}
STOP = ['ALSZOTE::Setup', 'ALSZOTE::FetchPP', 'ALSZOTE::SavePP', 'NPOT::Setup', 'NPOT::FetchPP', 'NPOT::SavePP']
def enc(I, e, a, st, fr):
    """dual encoding: a linear map fixed by the code seed, applied to each argument (decided below)"""
    k = F(ld(I, a[0], st, fr), 'mSeed')
    k = T_('codekey', fld(k, 'aes_key'), fld(k, 'counter'))
    for x in a[1:]:
        l = I.lval(x, st, fr); v = I.load(st, l); I.store(st, l, T_('vec', tuple(T_('lin', k, C(i), v) for i in range(size(v).a[0] // 2))))
    return T_('void')

def unresolved(t): return c11.unresolved(t)
def verdict(ck, inst, rule, ok, f, t, detail=''): ck.ob(inst, rule, True if ok else (None if unresolved(t) else False), f, detail or short(t, 2500))

def lengths(ck, inst, d):
    for R, f in ((d.A, d.fa), (d.B, d.fb)):
        q = R.st.cells[LEN]
        for r in (q.a[0] if q.op == 'vec' else ()):
            ck.equal(inst, 'the transfer is given at least as many messages / choices as it is run on', lt(r.a[0], r.a[1]), FALSE, f, detail='has %s, runs on %s' % (short(r.a[0]), short(r.a[1])))

def go(ck, tier):
    ck.assumptions += ['AES is a function of key and block; the oblivious transfer below delivers the chosen messages (C08); GF(2^128) multiplication is bilinear (decided below for gf128_mul)']
    P = prog('x25519')
    def F_(q, n=None):
        c = [f for f in P.find(q) if n is None or len(f['params']) == n]
        if not c: raise Missing(q)
        return c[0]
    jobs = []
    full = tier != 'quick'
    # ---- base VOLE
    deltas = [0, (1 << 128) - 1] + [1 << i for i in range(128)] + [int('5' * 32, 16), 0x0123456789abcdeffedcba9876543210]
    def base(ds, t):
        def go_():
            for dl in ds:
                i_ = 'baseVOLE_t[Delta=%x,t=%d]' % (dl, t); D = C(dl)
                d = corun(ck, i_, P, F_('VOLE::baseVOLE_tA'), {1: C(t), 2: EMPTY, 3: EMPTY}, F_('VOLE::baseVOLE_tB'), {1: C(t), 2: EMPTY, 3: D}, prims=BASE, stops=STOP, direct=4096, words=True, extra={LEN: EMPTY})
                u, w, v = d.ra(d.A.arg[2]), d.ra(d.A.arg[3]), d.rb(d.B.arg[2])
                corr(ck, i_, d.fb, w, v, u, D, t); lengths(ck, i_, d)
        return go_
    for k in range(0, len(deltas), 17): jobs.append(('baseVOLE_t', 'correlation', None, base(deltas[k:k + 17], 1)))
    jobs.append(('baseVOLE_t', 'correlation', None, base([deltas[-1]], 2))); jobs.append(('baseVOLE_t', 'correlation', None, base([deltas[-2]], 3)))
    # ---- punctured tree
    for dp in range(0, 6 if not full else 8):
        def tree(dp=dp):
            ff, fp = F_('VOLE::FullEval'), F_('VOLE::PuncEval')
            R = run(P, ff, {0: C(dp), 1: IN('k'), 2: EMPTY, 3: T_('vec', (IN('p0'),)), 4: T_('vec', (IN('p1'),))}, prims={'VOLE::GGM_PRG': ggm}, direct=4096)
            lf, m0, m1 = R.arg[2:5]; i_ = 'tree[depth %d]' % dp
            ck.equal(i_, 'one message pair appended per level', size(m0), C(dp + 1), ff); ck.equal(i_, 'one message pair appended per level', size(m1), C(dp + 1), ff)
            if dp: ck.equal(i_, '2^depth leaves', size(lf), C(1 << dp), ff)
            tot = ZERO
            for j in range(1 << dp if dp else 0): tot = xor(tot, sel(lf, C(j)))
            verdict(ck, i_, 'the returned value is the sum of all leaves', R.ret is tot, ff, R.ret)
            ck.ob(i_, 'leaves are pairwise independent', len({sel(lf, C(j)) for j in range(1 << dp)}) == 1 << dp if dp else True, ff)
            if not dp: return
            for al in range(1 << dp):
                sb = [1 - ((al >> (dp - 1 - i)) & 1) for i in range(dp)]
                m = T_('vec', tuple(sel((m0, m1)[b], C(i + 1)) for i, b in enumerate(sb)))
                Q = run(P, fp, {0: C(dp), 1: xor(R.ret, IN('e')), 2: m, 3: T_('vec', tuple(map(C, sb)))}, prims={'VOLE::GGM_PRG': ggm}, direct=4096, arrays=(2, 3))
                ck.equal('%s punctured at %d' % (i_, al), 'one leaf per position', size(Q.ret), C(1 << dp), fp)
                bad = [(j, xor(sel(Q.ret, C(j)), sel(lf, C(j)))) for j in range(1 << dp)]
                bad = [(j, x) for j, x in bad if x is not (IN('e') if j == al else ZERO)]
                verdict(ck, '%s punctured at %d' % (i_, al), 'all leaves are recovered, the punctured one shifted by the offset', not bad, fp, bad[0][1] if bad else ZERO, str([(j, short(x, 300)) for j, x in bad[:3]]))
        jobs.append(('tree depth %d' % dp, 'punctured evaluation', None, tree))
    # ---- multi-point
    shapes = [(7, 3), (4, 2), (8, 4), (9, 4), (5, 1), (17, 5), (16, 4)] + ([(33, 7), (64, 8), (50, 3)] if full else [])
    for N, t in shapes:
        sub, last = 2 * N // t, 2 * N % t + 2 * N // t
        pats = [lambda i, m: 0, lambda i, m: m - 1, lambda i, m: (3 * i + 1) % m, lambda i, m: (i * i + m // 2) % m] + ([lambda i, m, c=c: (c * (i + 1)) % m for c in (2, 5, 7, 11)] if full else [])
        for pi, pt in enumerate(pats):
            def mp(N=N, t=t, pt=pt, pi=pi):
                i_ = 'tmpVOLE[N=%d,t=%d,positions %d]' % (N, t, pi)
                def grm(I, e, a, st, fr):
                    m, n = I.eval(a[0], st, fr), I.eval(a[1], st, fr)
                    if not (isc(m) and isc(n)): raise Unsupported('position range')
                    return T_('vec', tuple(C(pt(i, m.a[0])) for i in range(n.a[0])))
                U, W = [T_('vec', tuple(sel(IN(x), C(i)) for i in range(t))) for x in 'uw']
                V = T_('vec', tuple(xor(sel(W, C(i)), gf(sel(U, C(i)), IN('delta'))) for i in range(t)))
                d = corun(ck, i_, P, F_('VOLE::tmpVOLE_B'), {1: C(N), 2: C(t), 3: V, 4: EMPTY}, F_('VOLE::tmpVOLE_A'), {1: C(N), 2: C(t), 3: EMPTY, 4: U, 5: W},
                          prims={**BASE, 'VOLE::GGM_PRG': ggm, 'VOLE::GenRandomMod': grm, 'VOLE::ExConvCode::dualEncode': enc, 'VOLE::ExConvCode::dualEncode2': enc},
                          stops=STOP + ['AES::GenEncKey'], direct=4096, words=True, extra={LEN: EMPTY})
                B, Cc, A = d.ra(d.A.arg[4]), d.rb(d.B.arg[3]), d.rb(d.B.ret)
                for nm, v in (('B', B), ('C', Cc), ('A', A)): ck.equal(i_, 'output %s has the requested length' % nm, size(v), C(N), d.fa)
                for k in range(N):
                    ts = [sel(v, C(k)) for v in (B, Cc, A)]
                    if not all(x.op == 'lin' for x in ts): ck.ob(i_, 'outputs are codewords of the dual code', None, d.fb, short(ts[0])); break
                    if not (ts[0].a[0] is ts[1].a[0] is ts[2].a[0]): ck.ob(i_, 'both parties encode with the same code', None if unresolved(ts[1].a[0]) else False, d.fb, '%s vs %s' % (short(ts[0].a[0]), short(ts[1].a[0]))); break
                    if k == 0:
                        vb, vc, va = [x.a[2] for x in ts]
                        ck.equal(i_, 'encoded vectors have equal length', size(vb), C(2 * N), d.fa)
                        bad = [(j, x) for j, x in ((j, xor(sel(vb, C(j)), sel(vc, C(j)), gf(sel(va, C(j)), IN('delta')))) for j in range(2 * N)) if x is not ZERO]
                        verdict(ck, i_, 'before encoding: B = C + A*Delta at every position', not bad, d.fb, bad[0][1] if bad else ZERO, str([(j, short(x, 300)) for j, x in bad[:3]]))
                        nz = [j for j in range(2 * N) if sel(va, C(j)) is not ZERO]
                        verdict(ck, i_, 'A has exactly t non-zero positions, one per block, carrying the t base correlations', len(nz) == t and {sel(va, C(j)) for j in nz} == set(U.a[0]), d.fb, va)
                    elif not (ts[0].a[2] is vb and ts[1].a[2] is vc and ts[2].a[2] is va and all(x.a[1] is C(k) for x in ts)):
                        ck.ob(i_, 'output k is component k of the codeword', False, d.fb); break
                else: ck.ob(i_, 'both parties encode with the same code', True, d.fb)
                lengths(ck, i_, d)
            jobs.append(('tmpVOLE[N=%d,t=%d,%d]' % (N, t, pi), 'multi-point correlation', None, mp))
    # ---- code: dualEncode(x) and both components of dualEncode2 are the same linear map
    for n, ew, aw in ((12, 3, 4), (15, 4, 5), (16, 2, 3)) if not full else ((12, 3, 4), (13, 3, 4), (15, 4, 5), (16, 2, 3), (20, 5, 6), (24, 21, 5)):
        def code(n=n, ew=ew, aw=aw):
            fc, f1, f2 = F_('VOLE::ExConvCode::config'), F_('VOLE::ExConvCode::dualEncode'), F_('VOLE::ExConvCode::dualEncode2')
            pr = {**proto.PRGP, 'PRG::GenRandomBits': rbits, 'VOLE::GenRandomMod': rmod}
            sd = mkrec(IN('seed'), {'counter': IN('ctr'), 'aes_key': IN('key')})
            c = run(P, fc, {0: sd, 1: C(2), 2: C(ew), 3: C(aw)}, this=T_('newrec', 'VOLE::ExConvCode')).this
            X, Y = [T_('vec', tuple(sel(IN(s), C(i)) for i in range(n))) for s in 'xy']
            a = run(P, f1, {0: X}, this=c, prims=pr, direct=1 << 16, budget=4_000_000).arg[0]
            r = run(P, f2, {0: X, 1: Y}, this=c, prims=pr, direct=1 << 16, budget=8_000_000).arg
            b = run(P, f1, {0: Y}, this=c, prims=pr, direct=1 << 16, budget=4_000_000).arg[0]
            i_ = 'ExConvCode[n=%d]' % n
            for v, w in ((a, 'dualEncode'), (r[0], 'dualEncode2 (first)'), (r[1], 'dualEncode2 (second)')): ck.equal(i_, '%s halves the length' % w, size(v), C(n // 2), f1)
            for v, w, fn_ in ((a, r[0], 'first'), (b, r[1], 'second')):
                ok = all(sel(v, C(k)) is sel(w, C(k)) for k in range(n // 2))
                verdict(ck, i_, 'dualEncode2 applies dualEncode to its %s argument' % fn_, ok, f2, T_('vec', (sel(v, ZERO), sel(w, ZERO))), 'component differs from dualEncode under the same seed')
            bad = nonlinear(a, set(X.a[0]))
            ck.ob(i_, 'the map is linear: only sums, and selections that do not depend on the data', True if bad is None else (None if residual(bad) is not None else False), f1, short(bad) if bad is not None else '')
        jobs.append(('ExConvCode[n=%d]' % n, 'linear code', None, code))
    def cfgseed():
        fc = F_('VOLE::ExConvCode::config'); sd = mkrec(IN('seed'), {'counter': IN('ctr'), 'aes_key': IN('key')})
        c = run(P, fc, {0: sd}, this=T_('newrec', 'VOLE::ExConvCode')).this
        ck.equal('ExConvCode::config', 'code key taken from the seed', F(c, 'mSeed', 'aes_key'), IN('key'), fc); ck.equal('ExConvCode::config', 'code counter taken from the seed', F(c, 'mSeed', 'counter'), IN('ctr'), fc)
    jobs.append(('ExConvCode::config', 'seed', None, cfgseed))
    # ---- dispatch
    for N in (1, 255, 256, 1000):
        def disp(N=N):
            i_ = 'VOLE[N=%d]' % N; t = IN('t')
            def bA(I, e, a, st, fr):
                n = I.eval(a[1], st, fr); v = net.take(I, st, 'BV', n)
                I.store(st, I.lval(a[2], st, fr), T_('bvu', v)); I.store(st, I.lval(a[3], st, fr), T_('bvw', v)); return T_('void')
            def bB(I, e, a, st, fr):
                n = I.eval(a[1], st, fr); tok = I.fresh('rand', 'bv'); net.emit(I, st, 'BV', n, T_('vec', (tok, I.eval(a[3], st, fr), n)))
                I.store(st, I.lval(a[2], st, fr), T_('bvv', T_('vec', (tok, I.eval(a[3], st, fr), n)))); return T_('void')
            def tA(I, e, a, st, fr):
                n, t_ = I.eval(a[1], st, fr), I.eval(a[2], st, fr); u, w = I.eval(a[4], st, fr), I.eval(a[5], st, fr)
                net.take(I, st, 'TV', n); I.store(st, I.lval(a[3], st, fr), T_('tvc', n, t_, u, w)); return T_('tva', n, t_, u, w)
            def tB(I, e, a, st, fr):
                n, t_ = I.eval(a[1], st, fr), I.eval(a[2], st, fr); v = I.eval(a[3], st, fr)
                net.emit(I, st, 'TV', n, v); I.store(st, I.lval(a[4], st, fr), T_('tvb', n, t_, v)); return T_('void')
            d = corun(ck, i_, P, F_('VOLE::VOLE_B'), {1: C(N), 2: EMPTY, 3: IN('delta'), 4: t}, F_('VOLE::VOLE_A'), {1: C(N), 2: EMPTY, 3: t},
                      prims={'VOLE::baseVOLE_tA': bA, 'VOLE::baseVOLE_tB': bB, 'VOLE::tmpVOLE_A': tA, 'VOLE::tmpVOLE_B': tB})
            B, Cc, A = d.ra(d.A.arg[2]), d.rb(d.B.arg[2]), d.rb(d.B.ret)
            if B.op == 'bvv': ok = Cc.op == 'bvw' and A.op == 'bvu' and Cc.a[0] is B.a[0] and A.a[0] is B.a[0] and B.a[0].a[0][1] is IN('delta') and B.a[0].a[0][2] is C(N)
            elif B.op == 'tvb':
                ok = Cc.op == 'tvc' and A.op == 'tva' and Cc.a == A.a and Cc.a[:2] == B.a[:2] and B.a[0] is C(N) and B.a[2].op == 'bvv' and Cc.a[2].op == 'bvu' and Cc.a[3].op == 'bvw'
                ok = ok and Cc.a[2].a[0] is B.a[2].a[0] is Cc.a[3].a[0] and B.a[2].a[0].a[0][1] is IN('delta') and B.a[2].a[0].a[0][2] is B.a[1]
            else: ok = None
            ck.ob(i_, 'both parties run the same sub-protocols on matching values', ok if ok is None or ok else (None if unresolved(T_('vec', (B, Cc, A))) else False), d.fb, '%s | %s | %s' % (short(B), short(Cc), short(A)))
        jobs.append(('VOLE[N=%d]' % N, 'dispatch', None, disp))
    ck.par(jobs)

def corr(ck, inst, f, w, v, u, D, t):
    for nm, x in (('w', w), ('v', v), ('u', u)): ck.equal(inst, 'output %s has the requested length' % nm, size(x), C(t), f)
    for j in range(t):
        x = xor(sel(w, C(j)), sel(v, C(j)), gf(sel(u, C(j)), D))
        verdict(ck, inst, 'w = v + u*Delta', x is ZERO, f, x, 'correlation %d: difference %s' % (j, short(x, 2000)))
def rbits(I, e, a, st, fr):
    l = I.lval(a[0], st, fr); n = I.eval(a[1], st, fr); s = I.load(st, l); k = T_('rb', fld(s, 'aes_key'), fld(s, 'counter'), n)
    I.store(st, (l[0], l[1] + (('f', 'counter'),)), T_('after', fld(s, 'counter'), n)); return T_('vec', tuple(T_('bit01', k, C(i)) for i in range(n.a[0])))
def rmod(I, e, a, st, fr):
    m, n, s = [I.eval(x, st, fr) for x in a[:3]]; k = T_('rm', m, n, fld(s, 'aes_key'), fld(s, 'counter'))
    return T_('vec', tuple(T_('pos', k, C(i)) for i in range(n.a[0])))
def nonlinear(t, data, seen=None):
    """first subterm through which the data does not flow linearly"""
    memo = {}
    def has(x):
        return any(y in data for y in subterms(x))
    st = [t]; done = set()
    while st:
        x = st.pop()
        if x in done or x in data or x is ZERO: continue
        done.add(x)
        if x.op == 'vec': st.extend(x.a[0])
        elif x.op == 'xor': st.extend(x.a[0])
        elif x.op == 'ite':
            if has(x.a[0]): return x
            st.extend(x.a[1:])
        elif x.op == 'sel':
            if has(x.a[1]): return x
            st.append(x.a[0])
        else: return x
    return None
