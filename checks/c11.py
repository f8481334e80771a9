"""OPRF, private equality test, private-ID: both parties evaluate one and the same function, item by item."""
from spec import *
from duo import *
import net, bits, stdmodel, itertools
import c10
HS = c10.HS

def gf(a, b):
    """GF(2^128) product: commutative, bilinear over xor"""
    if a is ZERO or b is ZERO: return ZERO
    for x, y in ((a, b), (b, a)):
        if x.op == 'xor': return xor(*[gf(t, y) for t in x.a[0]])
    for x, y in ((a, b), (b, a)):
        if isc(x) and not isc(y) and x.a[0] & (x.a[0] - 1): return xor(*[gf(C(1 << i), y) for i in range(128) if x.a[0] >> i & 1])
    if a.id > b.id: a, b = b, a
    return T_('gf', a, b)
tm.register('gf', gf)
def p_gf(I, e, a, st, fr): return gf(I.eval(a[0], st, fr), I.eval(a[1], st, fr))

# ---- contracts: OKVS (decode is linear in the encoding and returns the encoded value on encoded keys), VOLE (decided in C12), OPRF and PSU for private-ID
def ld(I, x, st, fr): return I.load(st, I.lval(x, st, fr))
def seed_of(I, this, st): return I.load(st, (this[0], this[1] + (('f', 'seed'),)))
def ok_solve(I, e, a, st, fr):
    th = I.lval(a[0], st, fr); s = seed_of(I, th, st); l = I.lval(a[3], st, fr); old = I.load(st, l); n = size(old)
    X, Vv = ld(I, a[1], st, fr), ld(I, a[2], st, fr); s = fld(s, 'aes_key')
    if not isc(n): raise Unsupported('encoding length')
    I.store(st, l, T_('vec', tuple(T_('okv', s, X, Vv, C(i)) for i in range(n.a[0])))); return T_('void')
def ok_decode(I, e, a, st, fr):
    th = I.lval(a[0], st, fr); s = fld(seed_of(I, th, st), 'aes_key'); X, D = ld(I, a[1], st, fr), ld(I, a[3], st, fr); l = I.lval(a[2], st, fr)
    n = size(I.load(st, l)); I.store(st, l, mkbind('map', n, lambda i: T_('dec', s, D, sel(X, i)))); return T_('void')
def vole_a(I, e, a, st, fr):
    n = I.eval(a[1], st, fr); v = net.take(I, st, 'VOLE', n)
    A, B, d = [T_('tk', v, C(k)) for k in range(3)]
    mk = lambda g: T_('vec', tuple(g(C(i)) for i in range(n.a[0])))
    I.store(st, I.lval(a[2], st, fr), mk(lambda i: xor(sel(B, i), gf(sel(A, i), d)))); return mk(lambda i: sel(A, i))
def vole_b(I, e, a, st, fr):
    n = I.eval(a[1], st, fr); A, B = I.fresh('rand', 'voleA'), I.fresh('rand', 'voleB'); d = I.eval(a[3], st, fr)
    net.emit(I, st, 'VOLE', n, T_('vec', (A, B, d)))
    I.store(st, I.lval(a[2], st, fr), T_('vec', tuple(sel(B, C(i)) for i in range(n.a[0])))); return T_('void')
tm.register('tk', lambda v, k: v.a[0][k.a[0]] if v.op == 'vec' else T_('tk', v, k))
VO = {'VOLE::gf128_mul': p_gf, 'gf128_mul': p_gf, 'VOLE::VOLE_A': vole_a, 'VOLE::VOLE_B': vole_b, 'Baxos::solve': ok_solve, 'Baxos::decode': ok_decode}

SEEDP = (('f', 'okvs'), ('f', 'seed'))
def prf(k, s, x): return T_('call', 'PRF', (k, s, x))
def oprf_server(seeded):
    def g(I, e, a, st, fr):
        k, s = I.fresh('rand', 'prfkey'), I.fresh('rand', 'prfseed'); l = I.lval(a[1], st, fr)
        if seeded: I.store(st, (l[0], l[1] + SEEDP), s)
        net.emit(I, st, 'OPRF', ONE, T_('vec', (k, s))); return k
    return g
def oprf_client(seeded):
    def g(I, e, a, st, fr):
        v = net.take(I, st, 'OPRF', ONE); k, s = T_('tk', v, ZERO), T_('tk', v, ONE); l = I.lval(a[1], st, fr)
        if seeded: I.store(st, (l[0], l[1] + SEEDP), s)
        X = ld(I, a[2], st, fr); n = I.eval(a[3], st, fr)
        return mkbind('map', n, lambda i: prf(k, s if seeded else ZERO, sel(X, i)))
    return g
def oprf_eval(seeded):
    def g(I, e, a, st, fr):
        l = I.lval(a[0], st, fr); s = I.load(st, (l[0], l[1] + SEEDP)) if seeded else ZERO
        k = ld(I, a[1], st, fr); X = ld(I, a[2], st, fr); n = I.eval(a[3], st, fr)
        return mkbind('map', n, lambda i: prf(k, s, sel(X, i)))
    return g
def psu_send(I, e, a, st, fr):
    net.emit(I, st, 'PSU', size(ld(I, a[2], st, fr)), T_('vec', (ld(I, a[2], st, fr), ld(I, a[1], st, fr), I.eval(a[3], st, fr)))); return T_('void')
def psu_recv(I, e, a, st, fr):
    pp = ld(I, a[1], st, fr)
    v = net.take(I, st, 'PSU', fld(pp, 'SENDER_ITEM_NUM')); return T_('union', ld(I, a[2], st, fr), T_('tk', v, ZERO), T_('tk', v, C(2)), I.eval(a[3], st, fr))
PIDP = {'mqRPMTPSU::Send': psu_send, 'mqRPMTPSU::Receive': psu_recv}
for ns, sd in (('VOLEOPRF', True), ('OTEOPRF', False), ('DDHOPRF', False)):
    PIDP.update({ns + '::Server': oprf_server(sd), ns + '::Client': oprf_client(sd), ns + '::Evaluate': oprf_eval(sd)})

def shuf(perms):
    def g(I, e, a, st, fr):
        l, off = I.arr_of(I.eval(a[0], st, fr), st, fr); v = I.load(st, l); n = size(v)
        if not isc(n): raise Unsupported('shuffle of unknown length')
        p = perms.get(n.a[0]) or [(k + 1) % n.a[0] for k in range(n.a[0])]
        I.store(st, l, T_('vec', tuple(sel(v, C(k)) for k in p))); return T_('void')
    return g

def go(ck, tier):
    ck.assumptions += ['hashing to the curve and to bytes are functions of their argument (injective up to collisions)', 'OKVS decoding is linear in the encoding and yields the encoded value on encoded keys (solvability is probabilistic)']
    elts = lambda nm, n: mkbind('map', n, lambda i: T_('elt', IN(nm), i))
    def finder(P):
        def F_(q, n=None):
            c = [f for f in P.find(q) if n is None or len(f['params']) == n]
            if not c: raise Missing(q)
            return c[0]
        return F_
    jobs = []
    for cfg in ('x25519', 'p256'):
        P = prog(cfg); F_ = finder(P); n = IN('n'); X = elts('X', n)
        def ddh(P=P, F_=F_, cfg=cfg, n=n, X=X):
            i_ = 'DDHOPRF[%s]' % cfg
            ident = mkbind('map', n, lambda i: i)
            d = corun(ck, i_, P, F_('DDHOPRF::Server'), {2: ident, 3: n}, F_('DDHOPRF::Client'), {2: X, 3: n}, prims=c10.FILT, stops=HS)
            fe = F_('DDHOPRF::Evaluate'); k = d.ra(d.A.ret)
            E = run(P, fe, {1: k, 2: X, 3: n}, stops=HS, prims=c10.FILT)
            cl = d.rb(d.B.ret)
            ck.equal(i_, 'one output per input', size(cl), n, d.fb)
            i = tm.lv(n)
            ck.equal(i_, "client output i = server's evaluation of item i under its key", sel(cl, i), sel(E.ret, i), d.fb)
            one_function(ck, i_, fe, sel(E.ret, i), sel(X, i))
            ck.equal(i_, 'inputs unchanged', d.B.arg[2], X, d.fb)
        jobs.append(('DDHOPRF[%s]' % cfg, 'evaluation agreement', None, ddh))
        for m in (3, 4) if tier == 'quick' else (2, 3, 4, 5):
            for pm in itertools.permutations(range(m)):
                if m > 3 and tier == 'quick' and sum(i != p for i, p in enumerate(pm)) < 4: continue
                def perm(P=P, F_=F_, cfg=cfg, m=m, pm=pm):
                    i_ = 'DDHOPRF[%s] permuted %s' % (cfg, pm); Xm = T_('vec', tuple(sel(IN('X'), C(i)) for i in range(m)))
                    d = corun(ck, i_, P, F_('DDHOPRF::Server'), {2: T_('vec', tuple(C(p) for p in pm)), 3: C(m)}, F_('DDHOPRF::Client'), {2: Xm, 3: C(m)}, prims=c10.FILT, stops=HS, direct=64)
                    E = run(P, F_('DDHOPRF::Evaluate'), {1: d.ra(d.A.ret), 2: Xm, 3: C(m)}, stops=HS, prims=c10.FILT, direct=64)
                    cl = d.rb(d.B.ret)
                    for i in range(m): ck.equal(i_, 'item i is answered at position permutation[i]', sel(cl, C(pm[i])), sel(E.ret, C(i)), d.fb)
                jobs.append(('DDHOPRF[%s] permuted %s' % (cfg, pm), 'permuted evaluation', None, perm))
        for r, c in (((2, 3), (3, 2)) if tier == 'quick' else ((2, 3), (3, 2), (1, 4), (4, 1), (3, 4))):
            for pr in itertools.permutations(range(r)):
                def peqt(P=P, F_=F_, cfg=cfg, r=r, c=c, pr=pr):
                    for pc in itertools.permutations(range(c)):
                        i_ = 'DDHPEQT[%s] %dx%d rows %s columns %s' % (cfg, r, c, pr, pc); N = r * c
                        Y, X = [T_('vec', tuple(T_('elt', IN(nm), C(i)) for i in range(N))) for nm in 'YX']
                        d = corun(ck, i_, P, F_('DDHPEQT::Send'), {1: Y, 2: C(r), 3: C(c)}, F_('DDHPEQT::Receive'), {1: X, 2: C(r), 3: C(c)},
                                  prims={**c10.FILT, 'std::shuffle': shuf({r: pr, c: pc})}, stops=HS, direct=256)
                        pm = d.ra(d.A.ret); res = d.rb(d.B.ret)
                        if pm.op != 'vec' or not all(isc(x) for x in pm.a[0]) or sorted(x.a[0] for x in pm.a[0]) != list(range(N)):
                            ck.ob(i_, 'the sender learns a permutation of the positions', None if residual(pm) is not None or pm.op != 'vec' or not all(isc(x) for x in pm.a[0]) else False, d.fa, short(pm)); continue
                        ck.ob(i_, 'the sender learns a permutation of the positions', True, d.fa)
                        pl = [x.a[0] for x in pm.a[0]]
                        ck.ob(i_, 'rows and columns stay together', all(pl[i * c + j] // c == pl[i * c] // c and pl[i * c + j] % c == pl[j] % c for i in range(r) for j in range(c)), d.fa, short(pm))
                        ck.equal(i_, 'one bit per position', size(res), C(N), d.fb)
                        for i in range(N):
                            b = sel(res, pm.a[0][i])
                            eqbit(ck, i_, d.fb, b, T_('elt', IN('X'), C(i)), T_('elt', IN('Y'), C(i)), i)
                jobs.append(('DDHPEQT[%s] %dx%d %s' % (cfg, r, c, pr), 'equality bits', None, peqt))
    P = prog('x25519'); F_ = finder(P)
    nS, nR = IN('nS'), IN('nR')
    def pid():
        i_ = 'mqRPMTPrivateID'; X, Y = elts('X', nS), elts('Y', nR)
        pp = mkrec(IN('pp'), {'SENDER_ITEM_NUM': nS, 'RECEIVER_ITEM_NUM': nR, 'psu_part': mkrec(IN('psu'), {'SENDER_ITEM_NUM': nS, 'RECEIVER_ITEM_NUM': nR}), 'oprf_part': mkrec(IN('oprf'), {'okvs': mkrec(IN('okvs'), {'seed': IN('seed0')})})})
        d = corun(ck, i_, P, F_(i_ + '::Send'), {1: pp, 2: X, 3: IN('L')}, F_(i_ + '::Receive'), {1: pp, 2: Y, 3: IN('L')}, prims={**c10.FILT, **PIDP}, stops=HS)
        a, b = d.ra(d.A.ret), d.rb(d.B.ret)
        if a.op != 'tup' or b.op != 'tup': return ck.ob(i_, 'identifiers', None, d.fa, short(a))
        (ua, xid), (ub, yid) = a.a[0], b.a[0]
        ck.equal(i_, 'one identifier per sender item', size(xid), nS, d.fa); ck.equal(i_, 'one identifier per receiver item', size(yid), nR, d.fb)
        z = IN('@z'); i, j = tm.lv(nS), tm.lv(nR)
        fx, fy = tm.subst(sel(xid, i), {sel(X, i): z}), tm.subst(sel(yid, j), {sel(Y, j): z})
        ck.equal(i_, 'both parties map an item to the same identifier', fx, fy, d.fb)
        keys = {t for t in subterms(fx) if t.op == 'rand'}
        for nm, R in (('sender', d.A), ('receiver', d.B)):
            mine = {t for t in subterms(R.st.cells[net.OUT]) if t.op == 'rand'}
            if residual(fx) is None: ck.ob(i_, "identifiers depend on the %s's own key" % nm, bool(keys & mine), d.fa, short(fx))
        u = ub.a[0] if ub.op == 'perm' else ub
        ck.ob(i_, 'both parties obtain the same list of union identifiers', True if ua is ub else (None if residual(ua) is not None else False), d.fa, '%s vs %s' % (short(ua), short(ub)))
        ok = u.op == 'union' and u.a[0] is yid and u.a[1] is xid and u.a[2] is u.a[3] and u.a[2] is IN('L')
        ck.ob(i_, 'the union is taken over exactly the two identifier lists', True if ok else (None if residual(u) is not None else False), d.fb, short(u))
        ck.equal(i_, 'inputs unchanged', d.A.arg[2], X, d.fa); ck.equal(i_, 'inputs unchanged', d.B.arg[2], Y, d.fb)
    jobs.append(('mqRPMTPrivateID', 'identifiers', None, pid))
    def psetup():
        f = F_('mqRPMTPrivateID::Setup')
        R = run(P, f, {i: IN(n) for i, n in enumerate(('lp', 'c', 'st', 'ls', 'lr'))}, stops=['VOLEOPRF::Setup', 'OTEOPRF::Setup', 'mqRPMTPSU::Setup'])
        r = R.ret
        ck.equal('mqRPMTPrivateID::Setup', 'sender size', fld(r, 'SENDER_ITEM_NUM'), c10.run_pow2(P, IN('ls')), f)
        ck.equal('mqRPMTPrivateID::Setup', 'receiver size', fld(r, 'RECEIVER_ITEM_NUM'), c10.run_pow2(P, IN('lr')), f)
        u = fld(r, 'psu_part')
        ck.ob('mqRPMTPrivateID::Setup', 'union parameters', None if u.op != 'call' else u.a[1] == tuple(IN(x) for x in ('c', 'st', 'ls', 'lr')), f, short(u))
    jobs.append(('mqRPMTPrivateID::Setup', 'parameters', None, psetup))
    for sfx, wrap in (('', True), ('1', False)):
        for N, m in ((8, 2), (19, 3), (5, 2)) if tier == 'quick' else ((1, 1), (5, 2), (7, 3), (8, 2), (9, 3), (16, 4), (19, 3), (24, 5), (31, 3)):
            def vole(sfx=sfx, N=N, m=m):
                i_ = 'VOLEOPRF%s[%d slots]' % (sfx, N); fs, fc, fe = F_('VOLEOPRF::Server' + sfx), F_('VOLEOPRF::Client' + sfx), F_('VOLEOPRF::Evaluate' + sfx)
                pp = mkrec(IN('pp'), {'okvs_output_size': C(N), 'okvs': mkrec(IN('okvs'), {'seed': IN('seed0')})})
                X = T_('vec', tuple(T_('elt', IN('X'), C(i)) for i in range(m)))
                d = corun(ck, i_, P, fs, {1: pp}, fc, {1: pp, 2: X, 3: C(m)}, prims=VO, direct=256)
                key = d.ra(d.A.ret); ppA = d.ra(d.A.arg[1])
                E = run(P, fe, {0: ppA, 1: key, 2: X, 3: C(m)}, prims={**proto.PRGP, **VO}, direct=256)
                cl, ev = d.rb(d.B.ret), d.ra(E.ret)
                ck.equal(i_, 'one output per input', size(cl), C(m), fc); ck.equal(i_, 'one output per input', size(ev), C(m), fe)
                for i in range(m): okvs_agree(ck, i_, fc, sel(cl, C(i)), sel(ev, C(i)), X, C(m), i, N)
                ck.equal(i_, 'inputs unchanged', d.B.arg[2], X, fc)
            jobs.append(('VOLEOPRF%s[%d slots]' % (sfx, N), 'evaluation agreement', None, vole))
    ck.par(jobs)

def one_function(ck, inst, f, b, x):
    """b is a keyed function of exactly its own item"""
    els = {t for t in subterms(b) if t.op == 'elt'}
    ck.ob(inst, 'the output depends on its own item and the key only', True if els == {x} and any(t.op == 'rand' for t in subterms(b)) else (None if residual(b) is not None else False), f, short(b))

def eqbit(ck, inst, f, b, x, y, i):
    """b is 1 exactly when x = y: an equality of one injective keyed image of each"""
    rule = 'the bit reported for pair i is 1 exactly when the two items are equal'
    same = tm.subst(b, {x: y})
    els = {t for t in subterms(b) if t.op == 'elt'}
    if residual(b) is not None: return ck.ob(inst, rule, None, f, short(b))
    ok = same is ONE or same is TRUE
    conds = [t for t in subterms(b) if t.op in ('peq0', 'eq', 'eq0m')]
    ok = ok and els == {x, y} and len(conds) == 1 and tm.subst(b, {conds[0]: FALSE}) in (ZERO, FALSE)
    ck.ob(inst, rule, bool(ok), f, 'pair %d: %s' % (i, short(b, 1500)))

def strip(t):
    while t.op in ('bytesof', 'frombytes') : t = t.a[0]
    return t
def okvs_agree(ck, inst, f, c, s, X, m, i, N):
    rule = "client output i = server's evaluation of item i under its key"
    if c is s: return ck.ob(inst, rule, True, f)
    cd = [t for t in subterms(c) if t.op == 'dec']; sd = [t for t in subterms(s) if t.op == 'dec']
    if residual(c) is not None or residual(s) is not None: return ck.ob(inst, rule, None, f, short(c) + ' vs ' + short(s))
    if len(cd) != 1 or len(sd) != 1: return ck.ob(inst, rule, None, f, short(c) + ' vs ' + short(s))
    h = IN('@dec')
    if tm.subst(c, {cd[0]: h}) is not tm.subst(s, {sd[0]: h}): return ck.ob(inst, rule, False, f, 'outputs are packaged differently: %s vs %s' % (short(c), short(s)))
    (s1, D1, x1), (s2, D2, x2) = cd[0].a, sd[0].a
    ck.equal(inst, 'both parties decode with the same encoding seed', s1, s2, f)
    ck.ob(inst, 'each party decodes the item it was given', x1 is x2 and x1 is sel(X, C(i)), f, '%s vs %s' % (short(x1), short(x2)))
    # D1 and D2 must differ by a multiple of an encoding that decodes to zero on every item under this seed
    for k in range(N):
        dlt = xor(sel(D1, C(k)), sel(D2, C(k)))
        ok = dlt is ZERO or (dlt.op == 'gf' and any(t.op == 'okv' and t.a[0] is s2 and t.a[1] is X and t.a[3] is C(k) and zeros(t.a[2]) for t in dlt.a))
        if not ok: return ck.ob(inst, rule, None if unresolved(dlt) else False, f, 'slot %d: the two decoded vectors differ by %s' % (k, short(dlt, 2000)))
    ck.ob(inst, rule, True, f)
def zeros(v): return v.op in ('zeroed',) or (v.op == 'rep' and v.a[0] is ZERO) or (v.op == 'vec' and all(t is ZERO for t in v.a[0]))
def unresolved(t): return residual(t) is not None or any(x.op == 'in' and str(x.a[0]).startswith('@inbox') for x in subterms(t))
