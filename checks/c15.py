"""Symmetric layer: AES-128, the stream generator, the hash functions, the one-time pad, block and GF(2^128) helpers compute what they name, for every length."""
from zk import *
import bv, bits, proto, net, stdmodel, evalterm

# ------------------------------------------------------------------ AES rounds as algebra
# aesenc(x,k) = M(S(x)) + k, aesenclast(x,k) = S(x) + k, aesdec(x,k) = M'(S'(x)) + k, aesdeclast(x,k) = S'(x) + k, aesimc = M'
# with S, S' mutually inverse bijections and M, M' mutually inverse linear maps (definition of the instructions)
class NoForm(Unsupported): pass
_nf = {}
def nf(t):
    """xor-set normal form"""
    r = _nf.get(t)
    if r is None: r = _nf[t] = _nf1(t)
    return r
def S(x):
    if len(x) == 1 and (y := next(iter(x)))[0] == "S'": return y[1]
    return frozenset([('S', x)])
def Si(x):
    if len(x) == 1 and (y := next(iter(x)))[0] == 'S': return y[1]
    return frozenset([("S'", x)])
def lin(o, inv):
    def g(x):
        r = frozenset()
        for y in x: r = r ^ (y[1] if y[0] == inv else frozenset([(o, frozenset([y]))]))
        return r
    return g
M, Mi = lin('M', "M'"), lin("M'", 'M')
def _nf1(t):
    o, a = t.op, t.a
    if t is ZERO: return frozenset()
    if o == 'xor':
        r = frozenset()
        for x in a[0]: r = r ^ nf(x)
        return r
    if o == '_mm_aesenc_si128': return M(S(nf(a[0]))) ^ nf(a[1])
    if o == '_mm_aesenclast_si128': return S(nf(a[0])) ^ nf(a[1])
    if o == '_mm_aesdec_si128': return Mi(Si(nf(a[0]))) ^ nf(a[1])
    if o == '_mm_aesdeclast_si128': return Si(nf(a[0])) ^ nf(a[1])
    if o == '_mm_aesimc_si128': return Mi(nf(a[0]))
    if residual(t) is not None: raise NoForm(short(t, 200))
    return frozenset([('t', t)])
def E(ks, x):
    """AES-128 encryption of the xor-set x under round keys"""
    x = x ^ ks[0]
    for k in ks[1:10]: x = M(S(x)) ^ k
    return S(x) ^ ks[10]

# ------------------------------------------------------------------ key schedule on 32-bit lanes
def lanes(t, memo):
    r = memo.get(t)
    if r is None: r = memo[t] = _lanes(t, memo)
    return r
def _lanes(t, m):
    o, a = t.op, t.a
    if isc(t): return [frozenset([('c', v)]) if (v := t.a[0] >> 32 * j & 0xffffffff) else frozenset() for j in range(4)]
    if o == 'in': return [frozenset([('w', t.a[0], j)]) for j in range(4)]
    if o == 'xor':
        r = [frozenset()] * 4
        for x in a[0]: r = [p ^ q for p, q in zip(r, lanes(x, m))]
        return r
    if o in ('_mm_castps_si128', '_mm_castsi128_ps'): return lanes(a[0], m)
    if o == '__builtin_ia32_shufps':
        x, y, i = lanes(a[0], m), lanes(a[1], m), a[2].a[0]
        return [x[i & 3], x[i >> 2 & 3], y[i >> 4 & 3], y[i >> 6 & 3]]
    if o == '__builtin_ia32_pshufd':
        x, i = lanes(a[0], m), a[1].a[0]; return [x[i >> 2 * j & 3] for j in range(4)]
    if o == '__builtin_ia32_aeskeygenassist128':
        x, rc = lanes(a[0], m), a[1].a[0] & 0xff
        c = frozenset([('rcon', rc)])
        return [frozenset([('sub', x[1])]), frozenset([('rotsub', x[1])]) ^ c, frozenset([('sub', x[3])]), frozenset([('rotsub', x[3])]) ^ c]
    raise NoForm(o)
def schedule(name):
    w = [frozenset([('w', name, j)]) for j in range(4)]; rc = 1
    for i in range(4, 44):
        t = w[i - 1]
        if i % 4 == 0:
            t = frozenset([('rotsub', t)]) ^ frozenset([('rcon', rc)])
            rc = rc << 1 ^ (0x11b if rc & 0x80 else 0)
        w.append(w[i - 4] ^ t)
    return [w[4 * i:4 * i + 4] for i in range(11)]

KV = [IN('k%d' % i) for i in range(11)]
def keyrec(ks=None): return rec('AES::Key', roundkey=T_('vec', tuple(ks or KV)), ROUND_NUM=C(10))
KS = lambda: [frozenset([('t', k)]) for k in KV]
GK = ('G', 'AES::fixed_enc_key')

def cmp(ck, inst, rule, f, got, want):
    try: g = nf(got)
    except (NoForm, RecursionError) as e: return ck.ob(inst, rule, None, f, 'no normal form: %s' % e)
    return ck.ob(inst, rule, g == want, f, '' if g == want else 'computed: ' + short(got, 900))

def aes(ck, P, tier):
    ks = KS(); d = IN('d'); dx = frozenset([('t', d)])
    f = fn(P, 'AES::Enc'); R = run(P, f, {0: keyrec(), 1: d}, direct=64)
    cmp(ck, 'AES::Enc', 'ten AES-128 rounds', f, R.arg[1], E(ks, dx))
    # key schedule
    def sched():
        f = fn(P, 'AES::GenEncKey'); R = run(P, f, {0: IN('s')}); m = {}
        ck.equal('AES::GenEncKey', 'ten rounds', F(R.ret, 'ROUND_NUM'), C(10), f)
        for i, w in enumerate(schedule('s')):
            try: g = lanes(sel(F(R.ret, 'roundkey'), C(i)), m)
            except (NoForm, AttributeError) as e: ck.ob('AES::GenEncKey', 'round key %d is that of AES-128' % i, None, f, str(e)); continue
            ck.ob('AES::GenEncKey', 'round key %d is that of AES-128' % i, g == w, f, short(sel(F(R.ret, 'roundkey'), C(i)), 500))
    ck.guard('AES::GenEncKey', 'round keys', None, sched)
    dk = []
    def dec():
        f = fn(P, 'AES::DeriveDecKeyFromEncKey'); R = run(P, f, {0: keyrec()}, direct=64)
        dk.append(R.ret); ck.note_fn(f)
        f = fn(P, 'AES::Dec'); c = run(P, fn(P, 'AES::Enc'), {0: keyrec(), 1: d}, direct=64).arg[1]
        R2 = run(P, f, {0: R.ret, 1: c}, direct=64)
        cmp(ck, 'AES::Dec', 'inverts AES::Enc under the derived key', f, R2.arg[1], dx)
        f = fn(P, 'AES::GenDecKey')
        def pk(I, e, a, st, fr): I.load(st, I.lval(a[0], st, fr)); return keyrec()
        R3 = run(P, f, {0: IN('s')}, prims={'AES::GenEncKey': pk}, direct=64)
        for i in range(11): ck.equal('AES::GenDecKey', 'derived from the encryption key of the same salt', sel(F(R3.ret, 'roundkey'), C(i)), sel(F(R.ret, 'roundkey'), C(i)), f)
    ck.guard('AES::Dec', 'inverts AES::Enc under the derived key', None, dec)
    NS = list(range(0, 18)) + [23, 24, 25] if tier == 'quick' else list(range(0, 42)) + [63, 64, 65, 100]
    blk = lambda n: T_('vec', tuple(IN('d%d' % i) for i in range(n)))
    at = lambda i: frozenset([('t', IN('d%d' % i))])
    for n in NS:
        def fast(n=n):
            f = fn(P, 'AES::FastECBEnc')
            R = run(P, f, {0: keyrec(), 1: blk(n), 2: C(n), 3: T_('null')}, arrays=(1,), direct=400, budget=8_000_000)
            for i in range(n): cmp(ck, 'AES::FastECBEnc in place', 'block i is AES of block i', f, sel(R.arg[1], C(i)), E(ks, at(i)))
            ck.equal('AES::FastECBEnc in place', 'touches no other memory', size(R.arg[1]), C(n), f)
            R = run(P, f, {0: keyrec(), 1: blk(n), 2: C(n), 3: T_('vec', tuple(IN('o%d' % i) for i in range(n + 2)))}, arrays=(1, 3), direct=400, budget=8_000_000)
            for i in range(n):
                cmp(ck, 'AES::FastECBEnc', 'block i is AES of block i', f, sel(R.arg[3], C(i)), E(ks, at(i)))
                ck.equal('AES::FastECBEnc', 'plaintext unchanged', sel(R.arg[1], C(i)), IN('d%d' % i), f)
            for i in (n, n + 1): ck.equal('AES::FastECBEnc', 'touches no other memory', sel(R.arg[3], C(i)), IN('o%d' % i), f)
        ck.guard('AES::FastECBEnc', 'block i is AES of block i', None, fast)
    for n in NS[:8] if tier == 'quick' else NS[:18]:
        def ecb(n=n):
            f = fn(P, 'AES::ECBEnc'); R = run(P, f, {0: keyrec(), 1: blk(n + 1), 2: C(n)}, arrays=(1,), direct=400, budget=8_000_000)
            for i in range(n): cmp(ck, 'AES::ECBEnc', 'block i is AES of block i', f, sel(R.arg[1], C(i)), E(ks, at(i)))
            ck.equal('AES::ECBEnc', 'touches no other memory', sel(R.arg[1], C(n)), IN('d%d' % n), f)
            f2 = fn(P, 'AES::ECBDec'); R2 = run(P, f2, {0: dk[0], 1: R.arg[1], 2: C(n)}, arrays=(1,), direct=400, budget=8_000_000)
            for i in range(n): cmp(ck, 'AES::ECBDec', 'inverts AES::ECBEnc', f2, sel(R2.arg[1], C(i)), at(i))
            if n == 0: return
            f = fn(P, 'AES::CBCEnc'); R = run(P, f, {0: keyrec(), 1: blk(n), 2: C(n)}, arrays=(1,), direct=400, budget=8_000_000)
            x = frozenset()
            for i in range(n):
                x = E(ks, x ^ at(i)); cmp(ck, 'AES::CBCEnc', 'block i is AES of block i chained with the previous one', f, sel(R.arg[1], C(i)), x)
            f2 = fn(P, 'AES::CBCDec'); R2 = run(P, f2, {0: dk[0], 1: R.arg[1], 2: C(n)}, arrays=(1,), direct=400, budget=8_000_000)
            for i in range(n): cmp(ck, 'AES::CBCDec', 'inverts AES::CBCEnc', f2, sel(R2.arg[1], C(i)), at(i))
        ck.guard('AES modes', 'ECB/CBC', None, ecb)
    def init():
        f = fn(P, 'AES_Initialize')
        def pk(I, e, a, st, fr): return rec('AES::Key', roundkey=T_('vec', tuple(KV)), ROUND_NUM=C(10), salt=I.load(st, I.lval(a[0], st, fr)))
        R = run(P, f, {}, prims={'AES::GenEncKey': pk}, direct=64)
        e_, d_ = R.st.cells.get(GK), R.st.cells.get(('G', 'AES::fixed_dec_key'))
        ck.ob('AES_Initialize', 'the public key is fixed and the decryption key belongs to it', bool(e_ is not None and d_ is not None and not has_rand(e_) and all(sel(F(d_, 'roundkey'), C(i)) is sel(F(dk[0], 'roundkey'), C(i)) for i in range(11))), f, short(e_, 300))
    ck.guard('AES_Initialize', 'fixed key', None, init)

# ------------------------------------------------------------------ stream generator
def prg(ck, P, tier):
    c = IN('c'); ks = KS()
    seed = rec('PRG::Seed', counter=c, aes_key=keyrec())
    NS = list(range(0, 18)) + [24, 31, 33] if tier == 'quick' else list(range(0, 50)) + [64, 100, 128]
    def ctr(i):
        """the counter block of stream position c+i: everything outside AES must be an injective function of the position"""
        return frozenset([('t', T_('_mm_set_epi64x', ZERO, add(c, C(i))))])
    q = 'PRG::GenRandomBlocks'
    for n in NS:
        def b(n=n):
            f = fn(P, q); R = run(P, f, {0: seed, 1: C(n)}, direct=400, budget=8_000_000)
            ck.equal(q, 'delivers the requested number of blocks', size(R.ret), C(n), f)
            seen = {}
            for i in range(n):
                t = sel(R.ret, C(i))
                if any(x.op == 'undef' for x in subterms(t)): ck.ob(q, 'block i of the stream is AES of counter i', False, f, 'uninitialised memory: ' + short(t, 300)); continue
                cmp(ck, q, 'block i of the stream is AES of counter i', f, t, E(ks, ctr(i)))
            ck.equal(q, 'the next call continues the stream', F(R.arg[0], 'counter'), add(c, C(n)), f)
            ck.equal(q, 'the key is kept', F(R.arg[0], 'aes_key', 'roundkey'), F(seed, 'aes_key', 'roundkey'), f)
        ck.guard(q, 'block i of the stream is AES of counter i', None, b)
    K = IN('K'); s2 = rec('PRG::Seed', counter=c, aes_key=K); B = {'PRG::GenRandomBlocks': proto.p_blocks}
    def stream(n): 
        return [T_('prgb', K, add(c, C(i))) for i in range((n + 15) // 16)]
    def expand(t, n):
        """byte string term as a list of (block, byte index)"""
        if t.op == 'buf': 
            out = [None] * n
            for o, l, x in t.a[2]:
                for j, y in enumerate(expand(x, l.a[0])): out[o.a[0] + j] = y
            return out
        if t.op == 'cat': return sum([expand(x, size(x).a[0]) for x in t.a[0]], [])
        if t.op == 'bytesof':
            x = t.a[0]; k = t.a[1].a[0]
            bl = list(x.a[0]) if x.op == 'vec' else [inst(x, C(i)) for i in range(x.a[0].a[0])] if x.op == 'map' and isc(x.a[0]) else ([] if k == 0 else [x])
            r = [(y, j) for y in bl for j in range(16)][:k]
            return r + [None] * (k - len(r))
        if t.op == 'slice': return expand(t.a[0], size(t.a[0]).a[0])[t.a[1].a[0]:][:t.a[2].a[0]]
        if n == 0: return []
        raise NoForm(short(t, 200))
    for n in ([0, 1, 7, 15, 16, 17, 31, 32, 33, 48, 100] if tier == 'quick' else range(0, 130)):
        def b(n=n):
            want = [(y, j) for y in stream(n) for j in range(16)][:n]
            f = fn(P, 'PRG::GenRandomBytes', 2); R = run(P, f, {0: s2, 1: C(n)}, prims=B, direct=400)
            g = expand(R.ret, n)
            ck.ob('PRG::GenRandomBytes', 'byte i is byte i of the stream', g == want, f, short(R.ret, 300))
            ck.equal('PRG::GenRandomBytes', 'the next call reads fresh stream blocks', F(R.arg[0], 'counter'), add(c, C((n + 15) // 16)), f)
            f = fn(P, 'PRG::GenRandomBytes', 3); R = run(P, f, {0: s2, 1: IN('buf'), 2: C(n)}, prims=B, direct=400)
            o = R.arg[1]
            if n:
                regs = sorted((x for x in o.a[2]), key=lambda r: r[0].a[0]) if o.op == 'buf' else []
                g = sum([expand(x, l.a[0]) for _, l, x in regs], [])
                ck.ob('PRG::GenRandomBytes(buffer)', 'writes exactly LEN stream bytes', g == want and bool(regs) and regs[0][0] is ZERO, f, short(o, 300))
            ck.equal('PRG::GenRandomBytes(buffer)', 'the next call reads fresh stream blocks', F(R.arg[0], 'counter'), add(c, C((n + 15) // 16)), f)
        ck.guard('PRG::GenRandomBytes', 'byte i is byte i of the stream', None, b)
    def rest():
        n = IN('n')
        f = fn(P, 'PRG::GenRandomBits'); R = run(P, f, {0: s2, 1: n}, prims={'PRG::GenRandomBytes': proto.p_bytes})
        e = sel(R.ret, i := tm.lv(n)); by = sel(T_('prgbytes', K, c, n), i)
        ck.equal('PRG::GenRandomBits', 'length', size(R.ret), n, f)
        ok = any(e is modi(by, C(2)) for _ in (0,)) or e is tm.band(by, ONE)
        ck.ob('PRG::GenRandomBits', 'entry i is one bit of stream byte i', True if ok else (None if residual(e) is not None else False), f, short(e, 300))
        f = fn(P, 'PRG::GenRandomBitMatrix'); r, cn = IN('r'), IN('cn'); R = run(P, f, {0: s2, 1: mul(C(128), r), 2: mul(C(8), cn)}, prims=B)
        m = mul(r, mul(C(8), cn))
        ck.equal('PRG::GenRandomBitMatrix', 'one stream block per 128 bits', R.ret, mkbind('map', m, lambda i: T_('prgb', K, add(c, i))), f)
        ck.equal('PRG::GenRandomBitMatrix', 'the next call continues the stream', F(R.arg[0], 'counter'), add(c, m), f)
    ck.guard('PRG::GenRandomBits', 'entries', None, rest)
    # seeding
    def seeding():
        def pk(I, e, a, st, fr): return T_('aeskey', I.load(st, I.lval(a[0], st, fr)))
        KP = {'AES::GenEncKey': pk}
        idv, salt = IN('id'), IN('salt')
        want = T_('aeskey', xor(salt, T_('_mm_set_epi64x', ZERO, idv)))
        f = fn(P, 'PRG::SetSeed'); R = run(P, f, {0: salt, 1: idv}, prims=KP, direct=100)
        ck.equal('PRG::SetSeed(salt)', 'key = salt xor identifier', F(R.ret, 'aes_key'), want, f); ck.equal('PRG::SetSeed(salt)', 'stream starts at zero', F(R.ret, 'counter'), ZERO, f)
        g = fn(P, 'PRG::ReSeed'); R = run(P, g, {0: s2, 1: salt, 2: idv}, prims=KP, direct=100)
        ck.equal('PRG::ReSeed', 'key = salt xor identifier', F(R.arg[0], 'aes_key'), want, g); ck.equal('PRG::ReSeed', 'stream starts at zero', F(R.arg[0], 'counter'), ZERO, g)
        R = run(P, f, {0: T_('null'), 1: idv}, prims=KP, direct=100); k = F(R.ret, 'aes_key')
        ck.equal('PRG::SetSeed()', 'stream starts at zero', F(R.ret, 'counter'), ZERO, f)
        if k.op != 'aeskey': return ck.ob('PRG::SetSeed()', 'key is 128 bits from the random device', None, f, short(k, 300))
        v = k.a[0]; parts = [x for x in (v.a[0] if v.op == 'xor' else (v,)) if x is not T_('_mm_set_epi64x', ZERO, idv)]
        ok = False
        if len(parts) == 1:
            ws = words32(parts[0])
            ok = ws is not None and len(ws) == 4 and len(set(ws)) == 4 and all(w.op == 'rand' and w.a[1] == 'device' for w in ws)
            rs = {x for x in subterms(parts[0]) if x.op == 'rand'}
            if ws is None: ok = None if len(rs) >= 2 else False
        ck.ob('PRG::SetSeed()', 'key is 128 bits from the random device', ok, f, short(v, 500))
    ck.guard('PRG::SetSeed', 'key', None, seeding)

def words32(t):
    """the four 32-bit words stored into a block variable"""
    w = {}
    while t.op == 'upd':
        if isc(t.a[1]): w.setdefault(t.a[1].a[0], t.a[2])
        else: return None
        t = t.a[0]
    if t.op == 'rand' and t.a[1] == 'device' or t.op == 'undef': w.setdefault(0, t)
    elif not w: return None
    return [w[k] for k in sorted(w)] if sorted(w) == [0, 1, 2, 3] else (None if any(x.op not in ('rand', 'undef') for x in w.values()) else [w[k] for k in sorted(w)])

# ------------------------------------------------------------------ hashing
def hashing(ck, P, tier):
    x = IN('x')
    whole = {'StringToBlock': x, 'BytesToBlock': x, 'StringToBigInt': x, 'ECPointToBlock': None, 'ECPointToString': None, 'ECPointToBytes': None, 'BlocksToBlock': mkbind('catmap', size(x), lambda i: T_('bytesof', sel(x, i), C(16)))}
    for q, inp in whole.items():
        def b(q=q, inp=inp):
            f = fn(P, 'Hash::' + q); R = run(P, f, {0: x}); t = R.ret
            hs = [h for h in subterms(t) if h.op == 'hash']
            if len(hs) != 1: return ck.ob('Hash::' + q, 'digest of the whole input', None if residual(t) is not None or hs else False, f, short(t, 400))
            a = hs[0].a[1]
            if inp is None: ok = a.op == 'ptbytes' and a.a[0] is x and (a.a[1] is T_('g', 'POINT_COMPRESSED_BYTE_LEN') or isc(a.a[1]) and a.a[1].a[0] >= 33)
            else: ok = a is inp
            if q == 'BlocksToBlock' and not ok and evalterm.same(a, inp): ok = True
            ck.ob('Hash::' + q, 'digest of the whole input', True if ok else (None if residual(a) is not None else False), f, short(a, 400))
            rest = tm.subst(t, {hs[0]: T_('digest')})
            leaves = [y for y in subterms(rest) if y.op in ('in', 'rand', 'weakrand', 'undef', 'opaque')]
            ck.ob('Hash::' + q, 'depends on nothing but the input', not leaves, f, '; '.join(short(y, 60) for y in leaves[:3]))
            n = {'StringToBlock': 16, 'BytesToBlock': 16, 'ECPointToBlock': 16, 'BlocksToBlock': 16}.get(q, 32)
            sl = [y for y in subterms(rest) if y.op == 'slice' and y.a[0] is T_('digest')]
            got = min([y.a[2].a[0] for y in sl if isc(y.a[2])], default=32)
            ck.ob('Hash::' + q, 'keeps at least %d digest bytes' % n, got >= n, f, short(rest, 300))
        ck.guard('Hash::' + q, 'digest of the whole input', None, b)
    KC = {GK: keyrec()}; ks = KS()
    def chain(xs):
        out, p = [], frozenset()
        for y in xs: p = E(ks, p ^ y); out.append(p)
        return out
    for n in range(1, 9):
        def fb(n=n):
            f = fn(P, 'Hash::FastBlocksToBlock'); R = run(P, f, {0: T_('vec', tuple(IN('d%d' % i) for i in range(n)))}, cells=KC, direct=400)
            cmp(ck, 'Hash::FastBlocksToBlock', 'chains every input block', f, R.ret, chain([frozenset([('t', IN('d%d' % i))]) for i in range(n)])[-1])
        ck.guard('Hash::FastBlocksToBlock', 'chains every input block', None, fb)
    def ded():
        f = fn(P, 'Hash::Dedicated_CBCAES'); R = run(P, f, {0: T_('cat', (T_('bytesof', IN('b0'), C(16)), T_('bytesof', IN('b1'), C(16)))), 1: IN('o')}, cells=KC, direct=100, arrays=(0, 1))
        w = chain([frozenset([('t', IN('b%d' % i))]) for i in (0, 1)])
        outs(ck, 'Hash::Dedicated_CBCAES', 'chains both halves', f, R.arg[1], w, 32)
        f = fn(P, 'Hash::BlockToBytes'); w = chain([frozenset([('t', IN('x'))]), frozenset()])
        for n in (32,):
            R = run(P, f, {0: x, 1: IN('o'), 2: C(n)}, cells=KC, direct=100, arrays=(1,))
            outs(ck, 'Hash::BlockToBytes', 'digest of the block (%d bytes)' % n, f, R.arg[1], w, 32)
            ck.equal('Hash::BlockToBytes', 'reports success', R.ret, ONE, f)
        R = run(P, f, {0: x, 1: IN('o'), 2: C(33)}, cells=KC, direct=100, arrays=(1,))
        ck.ob('Hash::BlockToBytes', 'refuses lengths above the digest', R.ret is ZERO and R.arg[1] is IN('o'), f, short(R.ret, 100))
    ck.guard('Hash::Dedicated_CBCAES', 'chains both halves', None, ded)
    for n in (1, 5, 15, 16, 17, 32, 33, 40) if tier == 'quick' else range(1, 70):
        def cbc(n=n):
            f = fn(P, 'Hash::CBCAES'); R = run(P, f, {0: IN('msg'), 1: C(n), 2: IN('o')}, cells=KC, direct=100, arrays=(0, 2))
            t = R.arg[2]
            over = [y for y in subterms(t) if y.op == 'slice' and y.a[0] is IN('msg') and isc(y.a[1]) and isc(y.a[2]) and y.a[1].a[0] + y.a[2].a[0] > n]
            ck.ob('Hash::CBCAES', 'reads only the given input', not over, f, '; '.join(short(y, 80) for y in over[:2]) + ' for a %d-byte input' % n)
            und = [y for y in subterms(t) if y.op == 'undef' and not under_buf(t, y)]
            cov = covered(t, n)
            ck.ob('Hash::CBCAES', 'digest of the whole input', cov, f, short(t, 400))
        ck.guard('Hash::CBCAES', 'reads only the given input', None, cbc)
    def b2e():
        f = fn(P, 'Hash::BlockToECPoint'); R = run(P, f, {0: x}, cells=KC, direct=0)
        t = R.ret
        bad = [y for y in subterms(t) if y.op in ('rand', 'weakrand')]
        ck.ob('Hash::BlockToECPoint', 'deterministic in the block', not bad, f, short(t, 300))
        ck.ob('Hash::BlockToECPoint', 'the digest of the whole block selects the point', True if any(y is x for y in subterms(t)) else False, f, short(t, 300))
    ck.guard('Hash::BlockToECPoint', 'deterministic in the block', None, b2e)
    def s2e():
        f = fn(P, 'Hash::StringToECPoint'); R = run(P, f, {0: x}); t = R.ret
        hs = [h for h in subterms(t) if h.op == 'hash' and tm.contains(h, lambda y: y is x)]
        ck.ob('Hash::StringToECPoint', 'starts from the digest of the whole input', any(h.a[1] is x for h in hs), f, short(t, 300))
        ck.ob('Hash::StringToECPoint', 'deterministic', not [y for y in subterms(t) if y.op in ('rand', 'weakrand')], f, short(t, 300))
    ck.guard('Hash::StringToECPoint', 'starts from the digest of the whole input', None, s2e)

def under_buf(t, u): return False
def covered(t, n):
    """every byte of msg[0..n) occurs"""
    got = set()
    for y in subterms(t):
        if y.op == 'slice' and y.a[0] is IN('msg') and isc(y.a[1]) and isc(y.a[2]): got |= set(range(y.a[1].a[0], y.a[1].a[0] + y.a[2].a[0]))
    if set(range(n)) <= got: return True
    return None if not got or residual(t) is not None else False
def outs(ck, inst, rule, f, t, want, n):
    """byte buffer t holds the blocks want"""
    regs = {r[0].a[0]: r[2] for r in t.a[2] if isc(r[0])} if t.op == 'buf' else {}
    if t.op == 'cat':
        o = 0
        for p in t.a[0]: regs[o] = p; o += size(p).a[0] if isc(size(p)) else 10 ** 6
    got = {}
    for o, x in regs.items():
        if x.op == 'bytesof': got[o] = x.a[0]
        elif x.op == 'vec': pass
    if sorted(got) != [16 * i for i in range(len(want))]: return ck.ob(inst, rule, None, f, short(t, 400))
    for i, w in enumerate(want): cmp(ck, inst, rule + ' [block %d]' % i, f, got[16 * i], w)

# ------------------------------------------------------------------ one-time pad
def otp(ck, P):
    key, m = IN('key'), IN('m')
    def b():
        for k, fe in enumerate(P.find('OTP::Enc', nparams=2)):
            fd = [g for g in P.find('OTP::Dec', nparams=2) if g['params'][1]['ty'] == fe['params'][1]['ty']]
            if not fd: ck.ob('OTP', 'decryption exists', None, fe, ''); continue
            i_ = 'OTP::Dec(%s)' % ('string' if 'string' in fe['params'][1]['ty'] else 'bytes')
            R = run(P, fe, {0: key, 1: m}, prims=proto.PRGP)
            ck.equal(i_, 'ciphertext length', size(R.ret), size(m), fe); ck.equal(i_, 'plaintext unchanged', R.arg[1], m, fe)
            R2 = run(P, fd[0], {0: key, 1: R.ret}, prims=proto.PRGP)
            i = tm.lv(size(m)); e = sel(R2.ret, i)
            ok = e is sel(m, i) or e is modi(sel(m, i), C(256))
            ck.ob(i_, 'decryption inverts encryption at every position', True if ok else (None if residual(e) is not None else False), fd[0], short(e, 300))
            c = sel(R.ret, i)
            pads = [y for y in subterms(c) if y.op == 'prgbytes']
            ck.ob(i_, 'every byte is masked by its own pad byte', bool(pads) and any(y.op == 'sel' and y.a[0] in pads and i.a[0] in y.fv for y in subterms(c)), fe, short(c, 300))
            ck.ob(i_, 'the pad is keyed by the whole key', all(y.a[0].op == 'prgkey' and y.a[0].a[0] is key for y in pads), fe, short(c, 300))
    ck.guard('OTP', 'decryption inverts encryption', None, b)

# ------------------------------------------------------------------ blocks
def blocks(ck, P, tier):
    a = IN('a')
    def setb():
        for q, op in (('SetBit', 1), ('ClearBit', 0)):
            f = fn(P, 'Block::' + q)
            for n in range(128):
                R = run(P, f, {0: a, 1: C(n)})
                try: g = bv.bv(R.arg[0])
                except bv.NoBits as e: ck.ob('Block::' + q, 'changes exactly bit n', None, f, str(e)); break
                w = [bv.atom(a, j) for j in range(128)]; w[127 - n] = bv.OP if op else bv.ZP
                ck.ob('Block::' + q, 'changes exactly bit n', g == w, f, 'n = %d: %s' % (n, short(R.arg[0], 300)))
    ck.guard('Block::SetBit', 'changes exactly bit n', None, setb)
    def sparse():
        f = fn(P, 'Block::FromSparseBytes')
        for n in (0, 1, 2):
            R = run(P, f, {0: T_('vec', tuple(IN('byte%d' % i) for i in range(128 * n))), 1: C(128 * n), 2: T_('vec', tuple(IN('o%d' % i) for i in range(n))), 3: C(n)},
                    arrays=(0, 2), direct=5000, budget=20_000_000)
            for k in range(n):
                try: g = bv.bv(sel(R.arg[2], C(k)))
                except bv.NoBits as e: ck.ob('Block::FromSparseBytes', 'bit j of block k is byte 128k+j', None, f, str(e)); continue
                bad = None
                for j in range(128):
                    c = boolv(IN('byte%d' % (128 * k + j)))
                    if g[j] != bv.boolp(c): bad = j; break
                ck.ob('Block::FromSparseBytes', 'bit j of block k is byte 128k+j', bad is None, f, 'block %d bit %s' % (k, bad))
    ck.guard('Block::FromSparseBytes', 'bit j of block k is byte 128k+j', None, sparse)
    for rn, cn in ((16, 8), (32, 16), (16, 128), (48, 24), (128, 128)) + (((128, 256), (256, 128), (64, 136)) if tier != 'quick' else ()):
        def tr(rn=rn, cn=cn):
            f = fn(P, 'BitMatrixTranspose'); n = rn * cn // 8
            R = run(P, f, {0: T_('vec', tuple(IN('byte%d' % i) for i in range(n))), 1: C(rn), 2: C(cn), 3: T_('vec', tuple(IN('out%d' % i) for i in range(n)))},
                    arrays=(0, 3), direct=5000, words=True, budget=40_000_000)
            o = R.arg[3]; bad = None
            for y in range(cn):
                for x8 in range(rn // 8):
                    g = bv.bv(sel(o, C(y * rn // 8 + x8)), 8)
                    for x in range(8):
                        if g[x] != bv.atom(IN('byte%d' % ((x8 * 8 + x) * cn // 8 + y // 8)), y % 8): bad = bad or (x8 * 8 + x, y)
            ck.ob('BitMatrixTranspose[%dx%d]' % (rn, cn), 'bit (x,y) of the output is bit (y,x) of the input', bad is None, f, 'wrong at row %s' % (bad,))
        ck.guard('BitMatrixTranspose', 'bit (x,y) of the output is bit (y,x) of the input', None, tr)
    def vecs():
        va, vb = IN('va'), IN('vb')
        for q, op in (('XOR', lambda x, y: xor(x, y)), ('AND', lambda x, y: stdmodel._comm('mmand', x, y))):
            f = fn(P, 'Block::' + q, 2); R = run(P, f, {0: va, 1: vb})
            ck.equal('Block::' + q, 'entry by entry', R.ret, mkbind('map', size(va), lambda i: op(sel(va, i), sel(vb, i))), f)
            for k, v in ((0, va), (1, vb)): ck.equal('Block::' + q, 'operands unchanged', R.arg[k], v, f)
        f = fn(P, 'Block::FixXOR', 2); R = run(P, f, {0: va, 1: a}); ck.equal('Block::FixXOR', 'entry by entry', R.ret, mkbind('map', size(va), lambda i: xor(sel(va, i), a)), f)
        f = [g for g in P.find('Block::Compare', nparams=2) if 'vector<' not in g['params'][0]['ty']][0]
        R = run(P, f, {0: a, 1: a}); ck.ob('Block::Compare', 'equal blocks compare equal', True if tz(R.ret) is TRUE else (None if residual(R.ret) is not None else False), f, short(R.ret, 200))
        b = IN('b'); R = run(P, f, {0: a, 1: b})
        ts = [y for y in subterms(R.ret) if y.op == '_mm_testz_si128']
        full = [y for y in ts if y.a[0] is xor(a, b) and y.a[1] is xor(a, b)]
        r = R.ret
        for y in full: r = tm.subst(r, {y: ZERO})
        ck.ob('Block::Compare', 'blocks that differ anywhere compare unequal', (boolv(r) is FALSE) if full else None, f, short(R.ret, 300))
    ck.guard('Block::XOR', 'entry by entry', None, vecs)
    def order():
        b = IN('b'); f = fn(P, 'Block::IsLessThan'); R = run(P, f, {0: a, 1: b}); t = R.ret
        lt = [y for y in subterms(t) if y.op == '_mm_movemask_epi8']
        def side(y):
            z = y.a[0]
            if z.op == '_mm_cmplt_epi8': return 'l' if z.a == (a, b) else 'g'
            if z.op == '_mm_cmpgt_epi8': return 'g' if z.a == (a, b) else 'l'
        sd = {y: side(y) for y in lt}
        if len(lt) != 2 or set(sd.values()) != {'l', 'g'}: return ck.ob('Block::IsLessThan', 'strict total order', None, f, short(t, 300))
        L = [y for y in lt if sd[y] == 'l'][0]; G = [y for y in lt if sd[y] == 'g'][0]
        def ev(l, g): return boolv(tm.subst(t, {L: C(l), G: C(g)}))
        masks = [(l, g) for l in range(8) for g in range(8) if l & g == 0]
        bad = [(l, g) for l, g in masks if not ((ev(l, g) is TRUE) + (ev(g, l) is TRUE) == (1 if l or g else 0))]
        ck.ob('Block::IsLessThan', 'strict total order', not bad, f, 'byte-wise comparison masks %s' % bad[:2])
    ck.guard('Block::IsLessThan', 'strict total order', None, order)
    def tos():
        f = fn(P, 'Block::ToString'); R = run(P, f, {0: a}); ck.equal('Block::ToString', 'all sixteen bytes', R.ret, T_('bytesof', a, C(16)), f)
    ck.guard('Block::ToString', 'all sixteen bytes', None, tos)

def tz(t):
    """testz(0,0) = 1"""
    for y in list(subterms(t)):
        if y.op == '_mm_testz_si128' and y.a[0] is ZERO: t = tm.subst(t, {y: ONE})
    return boolv(t)

# ------------------------------------------------------------------ GF(2^128)
def gf(ck, P):
    a, b = IN('a'), IN('b')
    sp = [set() for _ in range(255)]
    for i in range(128):
        for j in range(128): sp[i + j] ^= {frozenset([(a, i), (b, j)])}
    for k in range(254, 127, -1):
        for s in (0, 1, 2, 7): sp[k - 128 + s] = sp[k - 128 + s] ^ sp[k]
    spec = [frozenset(x) for x in sp[:128]]
    fs = [f for f in P.find('gf128_mul', nparams=2) + P.find('VOLE::gf128_mul', nparams=2) if 'vector_size' in f['params'][0]['ty']]
    for f in fs:
        i_ = '%s (%s)' % (f['q'], f['file'].split('/')[-1])
        def m(f=f, i_=i_):
            R = run(P, f, {0: a, 1: b}); g = bv.bv(R.ret)
            bad = [j for j in range(128) if g[j] != spec[j]]
            ck.ob(i_, 'product modulo x^128 + x^7 + x^2 + x + 1', not bad, f, 'bits %s' % bad[:5])
        ck.guard(i_, 'product modulo x^128 + x^7 + x^2 + x + 1', f, m)
    def inv():
        f = fn(P, 'gf128_inv')
        def mp(I, e, args, st, fr):
            x, y = I.eval(args[0], st, fr), I.eval(args[1], st, fr)
            def ex_(t):
                if t is a: return 1
                if t.op == 'gfpow': return t.a[0].a[0]
                raise Unsupported('gf operand')
            return T_('gfpow', C(ex_(x) + ex_(y)))
        R = run(P, f, {0: a}, prims={'gf128_mul': mp}, direct=400)
        ck.equal('gf128_inv', 'x^(2^128-2), the inverse of x', R.ret, T_('gfpow', C((1 << 128) - 2)), f)
    ck.guard('gf128_inv', 'x^(2^128-2), the inverse of x', None, inv)
    def gip():
        f = fn(P, 'VOLE::gadget_innerProduct'); R = run(P, f, {0: vi('x', 128)}, stops=('VOLE::gf128_mul', 'gf128_mul'), direct=500)
        want = {}
        ps = R.ret.a[0] if R.ret.op == 'xor' else ()
        got = {}
        for y in ps:
            if y.op != 'call': return ck.ob('VOLE::gadget_innerProduct', 'sum of 2^i x_i', None, f, short(y, 200))
            u, v = y.a[1][:2]
            c, xx = (u, v) if isc(u) else (v, u)
            got[xx] = c.a[0] if isc(c) else None
        bad = [i for i in range(128) if got.get(IN('x%d' % i)) != 1 << i] if len(ps) == 128 else ['terms']
        ck.ob('VOLE::gadget_innerProduct', 'sum of 2^i x_i', not bad, f, 'coefficient %s' % bad[:3])
    ck.guard('VOLE::gadget_innerProduct', 'sum of 2^i x_i', None, gip)

def go(ck, tier):
    ck.assumptions += ['the AES-NI, PCLMULQDQ and SSE2 instructions compute their documented functions; OpenSSL digests compute the named hash']
    P = prog('x25519')
    ck.par([('AES', 'rounds', None, lambda: aes(ck, P, tier)), ('PRG', 'stream', None, lambda: prg(ck, P, tier)), ('hash', 'digest', None, lambda: hashing(ck, P, tier)),
            ('OTP', 'pad', None, lambda: otp(ck, P)), ('blocks', 'bits', None, lambda: blocks(ck, P, tier)), ('GF(2^128)', 'product', None, lambda: gf(ck, P))])
