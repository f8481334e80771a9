"""Oblivious transfer: for every length and every choice string the receiver ends with exactly the chosen messages."""
from spec import *
from duo import *
import net, bits

def fst(v): return v.a[0][0] if v.op == 'vec' and len(v.a[0]) == 2 else T_('fst', v)
def snd(v): return v.a[0][1] if v.op == 'vec' and len(v.a[0]) == 2 else T_('snd', v)
tm.register('fst', fst); tm.register('snd', snd)
def choose(s, v, i): return ite(eq(sel(s, i), ZERO), sel(fst(v), i), sel(snd(v), i))

# contract of an OT used by a higher layer (each is itself decided below)
def ot_send(i0, i1, ilen):
    def g(I, e, a, st, fr):
        net.emit(I, st, 'OT', I.eval(a[ilen], st, fr), T_('vec', (I.load(st, I.lval(a[i0], st, fr)), I.load(st, I.lval(a[i1], st, fr))))); return T_('void')
    return g
def ot_recv(I, e, a, st, fr):
    n = I.eval(a[3], st, fr); s = I.load(st, I.lval(a[2], st, fr)); v = net.take(I, st, 'OT', n)
    return mkbind('map', n, lambda i: choose(s, v, i))
def rot_send(I, e, a, st, fr):
    n = I.eval(a[4], st, fr); k0, k1 = I.fresh('rand', 'rot0'), I.fresh('rand', 'rot1')
    m0, m1 = [mkbind('map', n, lambda i: sel(k, i)) for k in (k0, k1)]
    for ix, m in ((2, m0), (3, m1)):
        l = I.lval(a[ix], st, fr)
        I.store(st, l, m if size(I.load(st, l)) is n else stdmodel.region_write_seq(I.load(st, l), ZERO, n, m))
    net.emit(I, st, 'ROT', n, T_('vec', (m0, m1))); return T_('void')
def rot_recv(I, e, a, st, fr):
    n = I.eval(a[4], st, fr); s = I.load(st, I.lval(a[3], st, fr)); v = net.take(I, st, 'ROT', n)
    l = I.lval(a[2], st, fr); m = mkbind('map', n, lambda i: choose(s, v, i))
    I.store(st, l, m if size(I.load(st, l)) is n else stdmodel.region_write_seq(I.load(st, l), ZERO, n, m)); return T_('void')
BASE = {'NPOT::Send': ot_send(2, 3, 4), 'NPOT::Receive': ot_recv}
HS = ['Hash::ECPointToBlock', 'Hash::BlockToECPoint', 'Hash::FastBlocksToBlock']

def decide(ck, inst, f, res, m0, m1, n, s, note=''):
    """res[i] must be m0[i] when s[i]=0 and m1[i] when s[i]=1, at an arbitrary position i"""
    i = tm.lv(n)
    for b, m in ((ZERO, m0), (ONE, m1)):
        mp = {sel(s, i): b}
        got, want = tm.subst(sel(res, i), mp), tm.subst(sel(m, i), mp)
        rule = 'position i with choice bit %d yields message %d%s' % (b.a[0], b.a[0], note)
        if block_equal(got, want): ck.ob(inst, rule, True, f); continue
        bad = residual(got) is not None or any(x.op in ('payload', 'bbit', 'sel') and any(y.op == 'in' and str(y.a[0]).startswith('@inbox') for y in subterms(x)) for x in subterms(got))
        ck.ob(inst, rule, None if bad else False, f, 'computed: %s\n   required: %s' % (short(got, 2500), short(want, 2500)))
    ck.equal(inst, 'one result per position', size(res), n, f)

def go(ck, tier):
    ck.assumptions += ['x25519 Diffie-Hellman, AES and the hash functions are functions of their arguments; bit packing / transposition obey the contract decided in the block-utility check']
    for cfg in ('x25519', 'p256'):
        P = prog(cfg)
        def F_(q, n=None):
            c = [f for f in P.find(q) if n is None or len(f['params']) == n]
            if not c: raise Missing(q)
            return c[0]
        def np(cfg=cfg, P=P):
            n = IN('n'); d = corun(ck, 'NPOT[%s]' % cfg, P, F_('NPOT::Send'), {2: IN('m0'), 3: IN('m1'), 4: n}, F_('NPOT::Receive'), {2: IN('s'), 3: n}, stops=HS)
            decide(ck, 'NPOT[%s]' % cfg, d.fb, d.rb(d.B.ret), IN('m0'), IN('m1'), n, IN('s'))
        ck.guard('NPOT[%s]' % cfg, 'base OT', None, np)
    P = prog('x25519')
    def F_(q, n=None):
        c = [f for f in P.find(q) if n is None or len(f['params']) == n]
        if not c: raise Missing(q)
        return c[0]
    pp = mkrec(IN('pp'), {'BASE_LEN': C(128)})
    n = mul(C(128), IN('m'))
    for ns in ('ALSZOTE', 'IKNPOTE'):
        def ext(ns=ns):
            d = corun(ck, ns + '::Random', P, F_(ns + '::RandomSend'), {1: pp, 2: IN('k0'), 3: IN('k1'), 4: n}, F_(ns + '::RandomReceive'), {1: pp, 2: IN('k'), 3: IN('s'), 4: n}, prims=BASE, stops=HS)
            k0, k1, k = d.ra(d.A.arg[2]), d.ra(d.A.arg[3]), d.rb(d.B.arg[2])
            i = tm.lv(n)
            for b, m in ((ZERO, k0), (ONE, k1)):
                mp = {sel(IN('s'), i): b}
                got, want = tm.subst(sel(k, i), mp), tm.subst(sel(m, i), mp)
                ok = block_equal(got, want)
                und = residual(got) is not None or residual(want) is not None
                ck.ob(ns + '::Random', 'receiver key i equals sender key %d when its choice bit is %d' % (b.a[0], b.a[0]), True if ok else (None if und else False), d.fb, 'receiver: %s\n   sender: %s' % (short(got, 2000), short(want, 2000)))
            ck.equal(ns + '::Random', 'choice bits unchanged', d.B.arg[3], IN('s'), d.fb)
        ck.guard(ns + '::Random', 'random OT extension', None, ext)
        ROT = dict(BASE); ROT[ns + '::RandomSend'] = rot_send; ROT[ns + '::RandomReceive'] = rot_recv
        def std(ns=ns, ROT=ROT):
            i_ = ns + '::Send/Receive'
            d = corun(ck, i_, P, F_(ns + '::Send'), {1: pp, 2: IN('m0'), 3: IN('m1'), 4: n}, F_(ns + '::Receive'), {1: pp, 2: IN('s'), 3: n}, prims=ROT, stops=HS)
            decide(ck, i_, d.fb, d.rb(d.B.ret), IN('m0'), IN('m1'), n, IN('s'))
            for ix, nm in ((2, 'm0'), (3, 'm1')): ck.equal(i_, 'messages unchanged', d.A.arg[ix], IN(nm), d.fa)
        ck.guard(ns + '::Send/Receive', 'OT extension', None, std)
        def one(ns=ns, ROT=ROT):
            i_ = ns + '::OnesidedSend/Receive'
            d = corun(ck, i_, P, F_(ns + '::OnesidedSend'), {1: pp, 2: IN('m'+'sg'), 3: n}, F_(ns + '::OnesidedReceive'), {1: pp, 2: IN('s'), 3: n}, prims=ROT, stops=HS)
            onesided(ck, i_, d, IN('msg'), n)
        ck.guard(ns + '::OnesidedSend/Receive', 'one-sided OT', None, one)
        def setup(ns=ns):
            f = F_(ns + '::Setup'); R = run(P, f, {0: C(128)}, prims={'NPOT::Setup': lambda I, e, a, st, fr: IN('base')})
            ck.equal(ns + '::Setup', '128 base transfers', fld(R.ret, 'BASE_LEN'), C(128), f)
        ck.guard(ns + '::Setup', 'parameters', None, setup)
    # arbitrary-length messages (ALSZ only)
    ns = 'ALSZOTE'; ROT = dict(BASE); ROT[ns + '::RandomSend'] = rot_send; ROT[ns + '::RandomReceive'] = rot_recv
    def bstd():
        i_ = ns + '::SendByteVector'
        d = corun(ck, i_, P, F_(ns + '::SendByteVector'), {1: pp, 2: IN('m0'), 3: IN('m1'), 4: n}, F_(ns + '::ReceiveByteVector'), {1: pp, 2: IN('s'), 3: n}, prims=ROT, stops=HS)
        i = tm.lv(n); res = d.rb(d.B.ret)
        ck.equal(i_, 'one result per position', size(res), n, d.fb)
        for b, m in ((ZERO, IN('m0')), (ONE, IN('m1'))):
            ck.equal(i_, 'position i with choice bit %d yields message %d' % (b.a[0], b.a[0]), tm.subst(sel(res, i), {sel(IN('s'), i): b}), bytesof_(sel(m, i)), d.fb)
    ck.guard(ns + '::SendByteVector', 'OT of byte strings', None, bstd)
    def bone():
        i_ = ns + '::OnesidedSendByteVector'
        d = corun(ck, i_, P, F_(ns + '::OnesidedSendByteVector'), {1: pp, 2: IN('msg'), 3: n}, F_(ns + '::OnesidedReceiveByteVector'), {1: pp, 2: IN('s'), 3: n}, prims=ROT, stops=HS)
        onesided(ck, i_, d, IN('msg'), n, bytesof_)
    ck.guard(ns + '::OnesidedSendByteVector', 'one-sided OT of byte strings', None, bone)

def bytesof_(t): return mkbind('map', size(t), lambda i: modi(sel(t, i), C(256)))      # a byte string
def onesided(ck, inst, d, msg, n, wrap=lambda t: t):
    """result = the messages at positions with choice bit 1, in order, nothing else"""
    res = d.rb(d.B.ret)
    if res.op != 'catmap' or res.a[0] is not n:
        return ck.ob(inst, 'selected messages in order', None, d.fb, short(res))
    i = tm.lv(n); el = tm.inst(res, i)
    ck.equal(inst, 'position i with choice bit 1 is delivered', tm.subst(el, {sel(IN('s'), i): ONE}), T_('vec', (wrap(sel(msg, i)),)), d.fb)
    ck.equal(inst, 'position i with choice bit 0 is skipped', tm.subst(el, {sel(IN('s'), i): ZERO}), EMPTY, d.fb)
