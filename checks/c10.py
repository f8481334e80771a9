"""Private set operations: for all sets and sizes each party ends with exactly the specified function of the two inputs."""
from spec import *
from duo import *
import net, bits, stdmodel
import c08

def member(s, x): return T_('bool', T_('member', s, x))

# ---- contracts of the layers below (each decided elsewhere: filters C11, OT C08, mqRPMT here)
def h_bytes(I, e, a, st, fr):
    v = I.load(st, I.lval(a[0], st, fr)); n = I.eval(a[2], st, fr)
    I.write_region(I.eval(a[1], st, fr), n, T_('bytesof', T_('call', 'Hash::BlockToBytes', (v, n)), n), st, fr); return T_('void')
def fl_ctor(I, e, a, st, fr): return T_('filter', EMPTY, T_('vec', tuple(I.eval(x, st, fr) for x in a)) if a else EMPTY)
def _f(I, a, st, fr):
    l = I.lval(a[0], st, fr); v = I.load(st, l)
    if v.op in ('newrec', 'rec', 'undef'): v = T_('filter', EMPTY, EMPTY)
    return l, v
def fl_insert(I, e, a, st, fr):
    l, v = _f(I, a, st, fr); x = I.eval(a[1], st, fr) if False else I.load(st, I.lval(a[1], st, fr))
    seq = x if isseq(e, a) else T_('vec', (x,))
    I.store(st, l, T_('filter', cat(fst_(v), seq), T_('fmeta', v))); return T_('void')
def isseq(e, a): return True
def fst_(v): return v.a[0] if v.op == 'filter' else T_('fset', v)
tm.register('fset', fst_)
def fl_size(I, e, a, st, fr): l, v = _f(I, a, st, fr); return T_('fsize', v)
def fl_write(I, e, a, st, fr):
    l, v = _f(I, a, st, fr); p = I.eval(a[1], st, fr)
    I.write_region(p, T_('fsize', v), T_('bytesof', v, T_('fsize', v)), st, fr); return TRUE
def fl_read(I, e, a, st, fr):
    l, v = _f(I, a, st, fr); p = I.eval(a[1], st, fr)
    b, off = I.arr_of(p, st, fr); x = I.load(st, b)
    I.store(st, l, stdmodel.frombytes(x)); return TRUE
def fl_contain(I, e, a, st, fr):
    l, v = _f(I, a, st, fr); x = I.load(st, I.lval(a[1], st, fr))
    return mkbind('map', size(x), lambda i: ite(member(fst_(v), sel(x, i)), ONE, ZERO))
FILT = {'ctor:BloomFilter': fl_ctor, 'BloomFilter::Insert': fl_insert, 'BloomFilter::ObjectSize': fl_size, 'BloomFilter::WriteObject': fl_write,
        'BloomFilter::ReadObject': fl_read, 'BloomFilter::Contain': fl_contain, 'Hash::BlockToBytes': h_bytes}
def shuffle(I, e, a, st, fr):
    """std::shuffle: some permutation of the same elements"""
    t = I.eval(a[0], st, fr)
    l, off = I.arr_of(t, st, fr); v = I.load(st, l)
    I.store(st, l, T_('perm', v, I.fresh('rand', 'perm'))); return T_('void')
stdmodel.SIZEF['perm'] = lambda t: size(t.a[0])
tm.register('member', lambda s, x: T_('member', s.a[0], x) if s.op == 'perm' else T_('member', s, x))
FILT['std::shuffle'] = shuffle

def mq_client(I, e, a, st, fr):
    x = I.load(st, I.lval(a[2], st, fr)); pp = I.load(st, I.lval(a[1], st, fr))
    net.emit(I, st, 'MQ', fld(pp, 'CLIENT_LEN'), x); st_req(I, st, size(x), fld(pp, 'CLIENT_LEN')); return T_('void')
def mq_server(I, e, a, st, fr):
    y = I.load(st, I.lval(a[2], st, fr)); pp = I.load(st, I.lval(a[1], st, fr)); n = fld(pp, 'CLIENT_LEN')
    st_req(I, st, size(y), fld(pp, 'SERVER_LEN'))
    x = net.take(I, st, 'MQ', n)
    return mkbind('map', n, lambda i: ite(member(y, sel(x, i)), ONE, ZERO))
REQ = ('REQ', 'eq')
def st_req(I, st, a, b):
    if REQ in st.cells: I.store(st, (REQ, ()), cat(st.cells[REQ], T_('vec', (T_('req', a, b),))))
def ot1_send(I, e, a, st, fr):
    n = I.eval(a[3], st, fr); net.emit(I, st, 'OT1', n, I.load(st, I.lval(a[2], st, fr))); return T_('void')
def ot1_recv(I, e, a, st, fr):
    n = I.eval(a[3], st, fr); s = I.load(st, I.lval(a[2], st, fr)); m = net.take(I, st, 'OT1', n)
    return mkbind('catmap', n, lambda i: ite(eq(sel(s, i), ONE), T_('vec', (sel(m, i),)), EMPTY))
LAYER = {'cwPRFmqRPMT::Client': mq_client, 'cwPRFmqRPMT::Server': mq_server, 'ALSZOTE::OnesidedSend': ot1_send, 'ALSZOTE::OnesidedReceive': ot1_recv,
         'ALSZOTE::OnesidedSendByteVector': ot1_send, 'ALSZOTE::OnesidedReceiveByteVector': ot1_recv,
         'ALSZOTE::SendByteVector': c08.ot_send(2, 3, 4), 'ALSZOTE::ReceiveByteVector': c08.ot_recv}
HS = ['Hash::ECPointToBlock', 'Hash::BlockToECPoint', 'Hash::FastBlocksToBlock', 'Hash::BytesToBlock', 'Hash::ECPointToBytes']

INJ = {'call', 'xpt', 'bytesof', 'slice', 'pt', 'elt', 'P', 'poly', 'c', 'in'}
def same_image(e, s, x, Y, ny):
    """membership of e in sequence s is membership of x in Y: s is Y mapped element by element by a function f with f(x) = e"""
    if s.op == 'perm': s = s.a[0]
    if s.op not in ('map',): return None
    if s.a[0] is not ny: return False
    j = tm.lv(ny); b = tm.inst(s, j); z = IN('@z')
    b1 = tm.subst(b, {sel(Y, j): z}); e1 = tm.subst(e, {x: z})
    if b1 is e1: return z in set(subterms(e1))
    if residual(e1) is not None or residual(b1) is not None: return None
    return False

def go(ck, tier):
    ck.assumptions += ['the keyed map x -> H(x)^k is injective on the inputs up to hash/truncation collisions', 'filters have no false negatives (C11); false positives are the documented statistical error',
                       'set elements are pairwise distinct within one party, as the API requires']
    elts = lambda nm, n: mkbind('map', n, lambda i: T_('elt', IN(nm), i))
    nS, nC, tl = IN('nS'), IN('nC'), IN('tl')
    for cfg in ('x25519', 'p256', 'nofilter', 'p256nofilter'):
        try: P = prog(cfg)
        except Exception as ex: ck.ob('configuration ' + cfg, 'analysable', None, None, str(ex)[:300]); continue
        def F_(q, n=None, P=P):
            c = [f for f in P.find(q) if n is None or len(f['params']) == n]
            if not c: raise Missing(q)
            return c[0]
        def mq(cfg=cfg, P=P):
            i_ = 'cwPRFmqRPMT[%s]' % cfg
            pp = mkrec(IN('pp'), {'SERVER_LEN': nS, 'CLIENT_LEN': nC}); Y, X = elts('Y', nS), elts('X', nC)
            d = corun(ck, i_, P, F_('cwPRFmqRPMT::Server'), {1: pp, 2: Y}, F_('cwPRFmqRPMT::Client'), {1: pp, 2: X}, prims=FILT, stops=HS)
            res = d.ra(d.A.ret)
            ck.equal(i_, 'one bit per client item', size(res), nC, d.fa)
            indicator(ck, i_, d.fa, res, X, nC, Y, nS)
        ck.guard('cwPRFmqRPMT[%s]' % cfg, 'membership bits', None, mq)
    P = prog('x25519')
    def F_(q, n=None, pt=None):
        c = [f for f in P.find(q) if (n is None or len(f['params']) == n) and (pt is None or pt in str([p['ty'] for p in f['params']]))]
        if not c: raise Missing(q)
        return c[0]
    def psi():
        i_ = 'cwPRFPSI'; pp = mkrec(IN('pp'), {'SENDER_ITEM_NUM': nS, 'RECEIVER_ITEM_NUM': nC, 'TRUNCATE_LEN': tl}); Y, X = elts('Y', nS), elts('X', nC)
        d = corun(ck, i_, P, F_('cwPRFPSI::Send'), {1: pp, 2: Y}, F_('cwPRFPSI::Receive'), {1: pp, 2: X}, prims=FILT, stops=HS)
        res = d.rb(d.B.ret); selected(ck, i_, d.fb, res, X, nC, Y, nS, keep=True)
    ck.guard('cwPRFPSI', 'intersection', None, psi)
    nR = nC
    ppx = lambda a, b: mkrec(IN('pp'), {'SENDER_ITEM_NUM': a, 'RECEIVER_ITEM_NUM': b, 'mqrpmt_part': mkrec(IN('mqpp'), {'SERVER_LEN': b, 'CLIENT_LEN': a}), 'LOG_SUM_BOUND': C(32), 'LOG_VALUE_BOUND': IN('lv')})
    pp = ppx(nS, nR); X, Y = elts('X', nS), elts('Y', nR)          # sender holds X, receiver holds Y
    def reqs(i_, d):
        for R, f in ((d.A, d.fa), (d.B, d.fb)):
            q = R.st.cells[REQ]
            for r in (q.a[0] if q.op == 'vec' else ()):
                ck.equal(i_, 'set sizes handed to the membership test match its parameters', r.a[0], r.a[1], f)
    def duo2(i_, fa, A, fb, B):
        d = corun(ck, i_, P, fa, A, fb, B, prims=dict(FILT, **LAYER), stops=HS, extra={REQ: T_('vec', ())}); reqs(i_, d); return d
    def mpsi():
        i_ = 'mqRPMTPSI'; d = duo2(i_, F_(i_ + '::Send'), {1: pp, 2: X}, F_(i_ + '::Receive'), {1: pp, 2: Y})
        selected(ck, i_, d.fb, d.rb(d.B.ret), X, nS, Y, nR, keep=True)
        ck.equal(i_, 'inputs unchanged', d.A.arg[2], X, d.fa); ck.equal(i_, 'inputs unchanged', d.B.arg[2], Y, d.fb)
    ck.guard('mqRPMTPSI', 'intersection', None, mpsi)
    def mcard():
        i_ = 'mqRPMTPSIcard'; d = duo2(i_, F_(i_ + '::Send'), {1: pp, 2: X}, F_(i_ + '::Receive'), {1: pp, 2: Y})
        ck.equal(i_, 'number of sender items in the receiver set', d.rb(d.B.ret), mkbind('sum', nS, lambda i: ite(member(Y, sel(X, i)), ONE, ZERO)), d.fb)
    ck.guard('mqRPMTPSIcard', 'cardinality', None, mcard)
    def mpsu():
        i_ = 'mqRPMTPSU'; d = duo2(i_, F_(i_ + '::Send', 3), {1: pp, 2: X}, F_(i_ + '::Receive', 3), {1: pp, 2: Y})
        union(ck, i_, d.fb, d.rb(d.B.ret), X, nS, Y, nR)
        ck.equal(i_, 'inputs unchanged', d.A.arg[2], X, d.fa); ck.equal(i_, 'inputs unchanged', d.B.arg[2], Y, d.fb)
    ck.guard('mqRPMTPSU', 'union', None, mpsu)
    def msum():
        i_ = 'mqRPMTPSIcardsum'; v = elts('v', nS)
        d = duo2(i_, F_(i_ + '::Send'), {1: pp, 2: X, 3: v}, F_(i_ + '::Receive'), {1: pp, 2: Y})
        card = mkbind('sum', nS, lambda i: ite(member(Y, sel(X, i)), ONE, ZERO))
        ck.equal(i_, 'receiver learns the intersection cardinality', d.rb(d.B.ret), card, d.fb)
        r = d.ra(d.A.ret)
        if r.op != 'tup': return ck.ob(i_, 'sum', None, d.fa, short(r))
        ck.equal(i_, 'sender learns the intersection cardinality', r.a[0][0], card, d.fa)
        cardsum(ck, i_, d.fa, r.a[0][1], X, Y, v, nS)
        ck.equal(i_, 'inputs unchanged', d.A.arg[2], X, d.fa); ck.equal(i_, 'inputs unchanged', d.B.arg[2], Y, d.fb)
    ck.guard('mqRPMTPSIcardsum', 'sum', None, msum)
    def upsu():
        i_ = 'mqRPMTPSU(bytes)'; L = IN('L')
        its = lambda nm, n: mkbind('map', n, lambda i: T_('item', IN(nm), i))
        for tag, a, b in (('128m', mul(C(128), IN('m')), nR), ('3', C(3), nR), ('130', C(130), nR)):
            X_, Y_ = its('X', a), its('Y', b)
            d = duo2('%s[%s]' % (i_, tag), F_('mqRPMTPSU::Send', 4), {1: ppx(a, b), 2: X_, 3: L}, F_('mqRPMTPSU::Receive', 4), {1: ppx(a, b), 2: Y_, 3: L})
            union(ck, '%s[%s]' % (i_, tag), d.fb, d.rb(d.B.ret), X_, a, Y_, b)
    ck.guard('mqRPMTPSU(bytes)', 'union', None, upsu)
    for ns, np in (('mqRPMTPSI', 4), ('mqRPMTPSIcard', 4), ('mqRPMTPSU', 4), ('mqRPMTPSIcardsum', 6)):
        def setup(ns=ns, np=np):
            f = F_(ns + '::Setup'); la, lb = IN('la'), IN('lb')
            R = run(P, f, {0: IN('c'), 1: IN('st'), 2: la, 3: lb, 4: C(32), 5: IN('lv')}, prims={'NPOT::Setup': lambda I, e, a, st, fr: IN('base')})
            r = R.ret
            for path, w in ((('SENDER_ITEM_NUM',), la), (('RECEIVER_ITEM_NUM',), lb), (('mqrpmt_part', 'SERVER_LEN'), lb), (('mqrpmt_part', 'CLIENT_LEN'), la)):
                ck.equal(ns + '::Setup', 'sizes: ' + '.'.join(path), F(r, *path), run_pow2(P, w), f)
            ck.equal(ns + '::Setup', 'statistical parameter', F(r, 'mqrpmt_part', 'statistical_security_parameter'), IN('st'), f)
        ck.guard(ns + '::Setup', 'parameters', None, setup)

def run_pow2(P, w):
    f = [f for f in P.find('cwPRFmqRPMT::Setup')][0]
    return fld(run(P, f, {0: IN('st'), 1: w, 2: w}).ret, 'SERVER_LEN')

def indicator(ck, inst, f, res, X, nX, Y, nY, flip=False):
    i = tm.lv(nX); b = sel(res, i)
    ms = [t for t in subterms(b) if t.op == 'member']
    rule = 'bit i tells whether item i is in the other set'
    if len(ms) != 1: return ck.ob(inst, rule, None if (residual(b) is not None or ms) else False, f, short(b))
    m = ms[0]
    ok = same_image(m.a[1], m.a[0], sel(X, i), Y, nY)
    if ok is None: return ck.ob(inst, rule, None, f, short(b))
    v1, v0 = (tm.subst(b, {T_('bool', m): v}) for v in (TRUE, FALSE))
    good = ok and v1 is (ZERO if flip else ONE) and v0 is (ONE if flip else ZERO)
    ck.ob(inst, rule, bool(good), f, 'bit: %s' % short(b, 2500))
def cardsum(ck, inst, f, got, X, Y, v, n):
    """got = sum of v_i over the intersection, modulo the bound: compared position by position"""
    rule = 'sum over exactly the intersection'
    B = C(1 << 32)
    if got.op != 'mod' or got.a[0] is not B: return ck.ob(inst, rule, None if residual(got) is not None else False, f, short(got))
    i = tm.lv(n); per = ZERO
    for mono, c in tm.as_poly(got.a[1]).items():
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'sum':
            s = mono[0][0]
            if s.a[0] is not n: return ck.ob(inst, rule, False if residual(got) is None else None, f, 'adds up %s entries, one per item of the other set, where the transfer delivers %s: %s' % (s.a[0], n, short(got, 2000)))
            per = add(per, mul(C(c), tm.opn(s.a[1], i)))
        else: return ck.ob(inst, rule, None, f, short(got))
    m = member(Y, sel(X, i))
    for b, w in ((TRUE, sel(v, i)), (FALSE, ZERO)):
        ck.equal(inst, rule + (' (item in both sets)' if b is TRUE else ' (item in one set)'), mod(B, tm.subst(per, {m: b})), mod(B, w), f)
def union(ck, inst, f, res, X, nX, Y, nY):
    """the receiver's own items followed by exactly the sender items it lacks"""
    parts = list(res.a[0]) if res.op == 'cat' else [res]
    if parts[0] is not Y or len(parts) != 2: return ck.ob(inst, 'own items are all in the union', None if residual(res) is not None or len(parts) != 2 else False, f, short(res))
    ck.ob(inst, 'own items are all in the union', True, f)
    selected(ck, inst, f, parts[1], X, nX, Y, nY, keep=False)
def selected(ck, inst, f, res, X, nX, Y, nY, keep):
    rule = 'item i is returned exactly when it %s in the other set' % ('is' if keep else 'is not')
    if res.op == 'catmap' and isc(nX) and isc(res.a[0]) and res.a[0].a[0] > nX.a[0]:
        # padded transfer: the padding must contribute nothing
        for k in range(nX.a[0], res.a[0].a[0]):
            if tm.inst(res, C(k)) is not EMPTY: return ck.ob(inst, 'padding is never returned', None if residual(res) is not None else False, f, 'position %d: %s' % (k, short(tm.inst(res, C(k)))))
        ck.ob(inst, 'padding is never returned', True, f)
        its = [(C(k), tm.inst(res, C(k))) for k in range(nX.a[0])]
    elif res.op == 'catmap' and res.a[0] is nX:
        i = tm.lv(nX); its = [(i, tm.inst(res, i))]
    else: return ck.ob(inst, rule, None if residual(res) is not None or res.op != 'catmap' else False, f, short(res))
    for i, b in its: item(ck, inst, rule, f, i, b, X, Y, nY, keep)
def item(ck, inst, rule, f, i, b, X, Y, nY, keep):
    ms = list({t for t in subterms(b) if t.op == 'member'})
    if len(ms) != 1: return ck.ob(inst, rule, None if (residual(b) is not None or ms) else False, f, short(b))
    m = ms[0]; ok = same_image(m.a[1], m.a[0], sel(X, i), Y, nY)
    if ok is None: return ck.ob(inst, rule, None, f, short(b))
    v1, v0 = (tm.subst(b, {T_('bool', m): v}) for v in (TRUE, FALSE))
    yes, no = (v1, v0) if keep else (v0, v1)
    ck.ob(inst, rule, bool(ok and yes is T_('vec', (sel(X, i),)) and no is EMPTY), f, 'per item: %s' % short(b, 2500))
