"""Membership filters: an inserted element is always found (Bloom; cuckoo until deleted); deletion removes exactly one element."""
from zk import *
import stdmodel, itertools

# ------------------------------------------------------------------ value terms in finite models
class Unk(Exception): pass
def ev(t, env, memo=None):
    """value of a word/bool/array term under an assignment of its atoms"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is None: r = memo[t] = ev1(t, env, memo)
    return r
def ev1(t, env, m):
    o, a = t.op, t.a
    E = lambda x: ev(x, env, m)
    if o == 'c': return a[0]
    if o == 'true': return True
    if o == 'false': return False
    if o in ('in', 'hash32', 'weakrand', 'has'):
        r = env(t)
        if r is None: raise Unk(short(t, 80))
        return r
    if o == 'poly':
        s = 0
        for mono, c in a[0]:
            p = c
            for x, e in mono:
                if e < 0: raise Unk('neg')
                p *= int(E(x)) ** e
            s += p
        return s
    if o == 'bool': return bool(E(a[0]))
    if o == 'modi': return int(E(a[0])) % E(a[1])
    if o == 'div':
        d = E(a[1])
        if d == 0: raise Unk('div0')
        return int(E(a[0])) // d
    if o == 'pow2': return 1 << E(a[0])
    if o == 'shl': return E(a[0]) << E(a[1])
    if o == 'shr': return E(a[0]) >> E(a[1])
    if o == 'band': return int(E(a[0])) & int(E(a[1]))
    if o == 'bor': return int(E(a[0])) | int(E(a[1]))
    if o == 'bnot': return ~int(E(a[0]))
    if o == 'xor':
        r = 0
        for x in a[0]: r ^= int(E(x))
        return r
    if o == 'eq': return E(a[0]) == E(a[1])
    if o == 'lt': return E(a[0]) < E(a[1])
    if o == 'not': return not E(a[0])
    if o == 'and': return all(E(x) for x in a[0])
    if o == 'or': return any(E(x) for x in a[0])
    if o == 'ite': return E(a[1]) if E(a[0]) else E(a[2])
    if o == 'vec': return [E(x) for x in a[0]]
    if o == 'rep': return [E(a[0])] * E(a[1])
    if o == 'upd':
        v = list(E(a[0])); i = E(a[1])
        if not 0 <= i < len(v): raise Unk('index %r' % i)
        v[i] = E(a[2]); return v
    if o == 'sel':
        v, i = E(a[0]), E(a[1])
        if not 0 <= i < len(v): raise Oob('%s at index %d of %d' % (short(t, 120), i, len(v)))
        return v[i]
    if o == 'u16': return E(a[0]) | E(a[1]) << 8
    if o == 'le': return sum(E(x) << 8 * k for k, x in enumerate(a[0]))
    if o == 'lo8': return E(a[0]) & 255
    if o == 'hi8': return E(a[0]) >> 8 & 255
    if o == 'byteof': return E(a[0]) >> 8 * E(a[1]) & 255
    if o == 'trunc': return E(a[1]) & ((1 << a[0]) - 1)
    raise Unk(o)
class Oob(Exception): pass
def evf(t, n, memo):
    """value of a size term (with floating point parts) for a given element count"""
    if t in memo: return memo[t]
    if t.op == 'fp/': r = evf(t.a[0], n, memo) / evf(t.a[1], n, memo)
    elif t.op == 'fp*': r = evf(t.a[0], n, memo) * evf(t.a[1], n, memo)
    elif t.op == 'f': r = float(t.a[0])
    elif t.op == 'poly' and any(x.op in ('fp*', 'f') for mono, _ in t.a[0] for x, e in mono):
        r = 0
        for mono, c in t.a[0]:
            p = c
            for x, e in mono: p *= evf(x, n, memo) ** e
            r += p
        r = int(r)
    else:
        mm = {IN('n'): n, IN('fp'): 0.5}
        for y in subterms(t):
            if y is not t and (y.op in ('fp/', 'f') or y.op == 'poly' and any(x.op in ('fp*', 'f') for mono, _ in y.a[0] for x, e in mono)): mm[y] = evf(y, n, memo)
        r = ev(t, mm.get, dict(mm))
    memo[t] = r; return r
NS = sorted({0, 1, 3, 4, 5, 7, 8, 9, 100, 1000, 1 << 20} | {(1 << k) + d for k in range(2, 32) for d in (-1, 0, 1)} | {3 << k for k in range(30)})

def models(ck, inst, rule, f, envs, pred):
    """pred(value-of function, env) must hold in every model"""
    n = 0
    try:
        for e in envs:
            m = {}; n += 1
            try: r = pred(lambda t: ev(t, e, m), e)
            except Oob as x: r = 'out of bounds: %s' % x
            if r is not True: return ck.ob(inst, rule, False, f, r if isinstance(r, str) else 'fails')
    except Unk as x: return ck.ob(inst, rule, None, f, 'cannot evaluate: %s' % x)
    ck.counts['finite models'] = ck.counts.get('finite models', 0) + n
    return ck.ob(inst, rule, True, f)

def h32(I, e, a, st, fr):
    s, x, n = [I.eval(y, st, fr) for y in a]
    return T_('hash32', s, x, n)
HASH = {'LiteMurmurHash': h32, 'MurmurHash3': h32}

# ------------------------------------------------------------------ Bloom filter
def bloom(ck, P, tier):
    q = 'BloomFilter::'
    def obj(k, m): return rec('BloomFilter', random_seed=IN('rs'), hash_num=C(k), vec_salt=T_('vec', tuple(IN('s%d' % i) for i in range(k))), table_size=C(m),
                              bit_table=T_('vec', tuple(IN('t%d' % i) for i in range(m // 8))), projected_element_num=IN('p'), inserted_element_num=IN('n'))
    TAB = [lambda i: 0, lambda i: 255, lambda i: 0x51 ^ 0x3f * i & 255]
    for k, m in ((1, 8), (1, 16), (1, 24), (2, 16), (3, 8)) + (((2, 24), (2, 32), (4, 8), (3, 16)) if tier == 'thorough' else ()):
        def b(k=k, m=m):
            fi, fc = fn(P, q + 'PlainInsert'), fn(P, q + 'PlainContain')
            o = obj(k, m); x, L = IN('x'), IN('L')
            px = {0: T_('ptr', ('X', 'x'), (('i', ZERO),)), 1: L}; py = {0: T_('ptr', ('X', 'y'), (('i', ZERO),)), 1: L}
            i_ = 'Bloom filter, %d hashes, %d bits' % (k, m)
            R = run(P, fi, px, this=o, prims=HASH, direct=64); ck.note_fn(fi); ck.note_fn(fc)
            c = run(P, fc, px, this=R.this, prims=HASH, direct=64).ret
            hs = sorted({y for t in [c, F(R.this, 'bit_table')] for y in subterms(t) if y.op == 'hash32'}, key=lambda t: repr(t))
            def envs(hs, tabs=TAB):
                for tab in tabs:
                    for vals in itertools.product(range(m), repeat=len(hs)):
                        d = {h: v + m * (3 * v + j) for j, (h, v) in enumerate(zip(hs, vals))}
                        yield lambda t, d=d, tab=tab: d[t] if t in d else (tab(int(t.a[0][1:])) if t.op == 'in' and str(t.a[0]).startswith('t') and t.a[0][1:].isdigit() else None)
            models(ck, i_, 'an inserted element is found', fc, envs(hs), lambda V, e: True if V(c) else 'hash values %s' % [e(h) for h in hs])
            tb, ta = F(o, 'bit_table'), F(R.this, 'bit_table')
            models(ck, i_, 'insertion clears no bit', fi, envs(hs), lambda V, e: all(p & q_ == p for p, q_ in zip(V(tb), V(ta))) and len(V(tb)) == len(V(ta)) or 'hash values %s' % [e(h) for h in hs])
            # and reports nothing it has not seen: an element one of whose bits is clear is absent
            R0 = run(P, fc, px, this=o, prims=HASH, direct=64); c0 = R0.ret
            h0 = sorted({y for y in subterms(c0) if y.op == 'hash32'}, key=repr)
            ck.ob(i_, 'all hash functions are consulted', len(h0) == k and set(h0) == set(hs) or (None if residual(c0) is not None else False), fc, short(c0, 300))
            def want(V, e):
                t = V(tb)
                return V(c0) == all(t[(e(h) % m) >> 3] >> (e(h) % m & 7) & 1 for h in h0) or 'hash values %s' % [e(h) for h in h0]
            # membership is exactly "all addressed bits set", hence monotone in the table: later insertions keep earlier elements
            models(ck, i_, 'membership is exactly that every addressed bit is set', fc, envs(h0, TAB + [lambda i: 0xfe, lambda i: 0x7f]), want)
            ck.equal(i_, 'queries leave the table alone', F(R0.this, 'bit_table'), tb, fc)
        ck.guard('Bloom filter', 'an inserted element is found', None, b)
    def ctor():
        f = fn(P, q + 'BloomFilter', 2)
        for k in (1, 3, 20, 40):
            def salt(I, e, a, st, fr): n, s = [I.eval(y, st, fr) for y in a]; return T_('saltv', n, s)
            R = run(P, f, {0: IN('n'), 1: C(k)}, this=T_('newrec', 'BloomFilter') if False else None, prims={'GenUniqueSaltVector': salt}); o = R.this
            m = F(o, 'table_size'); tb = F(o, 'bit_table')
            bad = None
            try:
                for n in [x for x in NS if 0 < x * k * 1.44 < 2**31]:
                    mv, sv = evf(m, n, {}), evf(size(tb), n, {})
                    if mv <= 0 or 8 * sv < mv: bad = '%d bits in %d bytes for %d elements' % (mv, sv, n); break
                    if mv + 8 < 1.4 * n * k: bad = '%d bits for %d elements and %d hashes' % (mv, n, k); break
                ck.ob('BloomFilter', 'the table holds table_size bits, enough for the projected elements', bad is None, f, bad or '')
            except Unk as x: ck.ob('BloomFilter', 'the table holds table_size bits, enough for the projected elements', None, f, str(x))
            ck.equal('BloomFilter', 'the salts are those of hash_num and the seed', F(o, 'vec_salt'), T_('saltv', F(o, 'hash_num'), F(o, 'random_seed')), f)
            ck.equal('BloomFilter', 'statistical security parameter = number of hashes', F(o, 'hash_num'), C(k), f)
    ck.guard('BloomFilter', 'constructor', None, ctor)

# ------------------------------------------------------------------ element encodings
LOG = ('LOG', 'ins')
def region(I, p, n, st, fr):
    if p.op == 'ptr' and not (p.a[1] and p.a[1][-1][0] == 'i') and I.load(st, (p.a[0], p.a[1])).op not in ('buf', 'cat', 'rep', 'ptbytes', 'vec', 'map', 'slice', 'bytesof'):
        return T_('bytesof', I.load(st, (p.a[0], p.a[1])), n)
    return I.read_region(p, n, st, fr)
def rec_ins(I, e, a, st, fr):
    n = I.eval(a[2], st, fr); x = region(I, I.eval(a[1], st, fr), n, st, fr)
    st.cells[LOG] = cat(st.cells.get(LOG, EMPTY), T_('vec', (T_('enc', x, n),))); return TRUE
def rec_has(I, e, a, st, fr):
    n = I.eval(a[2], st, fr); return T_('bool', T_('has', T_('enc', region(I, I.eval(a[1], st, fr), n, st, fr), n)))
def encodings(ck, P, cls):
    pr = {cls + '::PlainInsert': rec_ins, cls + '::PlainContain': rec_has, cls + '::PlainDelete': rec_ins}
    fs = [f for f in P.F.values() if f['q'] in (cls + '::Insert', cls + '::Contain', cls + '::Delete')]
    def key(f): return ','.join(p['ty'] if 'ty' in p else str(p.get('type')) for p in f['params']).replace('const ', '').replace('&', '').replace(' ', '')
    groups = {}
    for f in fs:
      if len(f['params']) != 1: continue
      g = groups.setdefault(key(f), {}); o = f['q'].split('::')[1]
      if o not in g or f['params'][0]['const']: g[o] = f
    enc = {}
    def one(f, arg):
        R = run(P, f, {0: arg}, prims=pr, direct=64, cells={LOG: EMPTY})
        return R
    for k, g in sorted(groups.items()):
        if k.startswith('std::vector<') or 'Insert' not in g: continue
        def b(k=k, g=g):
            x = IN('x'); f = g['Insert']
            L = one(f, x).st.cells[LOG]
            if L.op != 'vec': return ck.ob('%s %s' % (cls, k), 'the element is inserted', None, f, short(L, 200))
            ck.ob('%s %s' % (cls, k), 'the element is inserted exactly once', len(L.a[0]) == 1, f, short(L, 300))
            e = L.a[0][0]; enc[k] = e
            for o, what in (('Insert', e), ('Contain', None), ('Delete', None)):
                if o not in g: continue
                if o == 'Contain':
                    hs = [y for y in subterms(one(g[o], x).ret) if y.op == 'has']; what = hs[0].a[0] if len(hs) == 1 else None
                    if what is not None: ck.equal('%s::Contain %s' % (cls, k), 'answers membership of the element', one(g[o], x).ret, T_('bool', hs[0]), g[o])
                elif o == 'Delete':
                    l = one(g[o], x).st.cells[LOG]; what = l.a[0][0] if l.op == 'vec' and len(l.a[0]) == 1 else None
                i_ = '%s::%s %s' % (cls, o, k)
                if what is None: ck.ob(i_, 'one encoding of the element', None, g[o]); continue
                ck.ob(i_, 'the hashed bytes are a function of the element alone', not any(y.op in ('undef', 'rand', 'weakrand') for y in subterms(what)), g[o], 'uninitialised bytes: ' + short(what, 300))
                if o != 'Insert': ck.equal(i_, 'inserts and queries encode the element alike', what, e, g[o])
        ck.guard('%s %s' % (cls, k), 'inserts and queries encode the element alike', None, b)
    for k, g in sorted(groups.items()):
        if not k.startswith('std::vector<'): continue
        el = next((z for z in enc if k.startswith('std::vector<' + z)), None)
        if el is None: continue
        for n in (0, 1, 3):
            def b(k=k, g=g, n=n):
                xs = [T_('s', 'el%d' % i) if 'string' in el else IN('e%d' % i) for i in range(n)]; V_ = T_('vec', tuple(xs))
                want = [tm.subst(enc[el], {IN('x'): y}) for y in xs]
                if 'Insert' in g:
                    f = g['Insert']; L = run(P, f, {0: V_}, prims=pr, direct=64, cells={LOG: EMPTY}).st.cells[LOG]
                    if L is EMPTY: L = T_('vec', ())
                    if L.op != 'vec': ck.ob('%s::Insert %s' % (cls, k), 'every element of the vector is inserted', None, f, short(L, 200))
                    else: ck.ob('%s::Insert %s [%d]' % (cls, k, n), 'every element of the vector is inserted', {*L.a[0]} == {*want}, f, short(L, 300))
                if 'Contain' in g:
                    f = g['Contain']; R = run(P, f, {0: V_}, prims=pr, direct=64)
                    ck.equal('%s::Contain %s [%d]' % (cls, k, n), 'one answer per element', size(R.ret), C(n), f)
                    for i in range(n):
                        got = sel(R.ret, C(i)); w = T_('bool', T_('has', want[i]))
                        ck.equal('%s::Contain %s [%d]' % (cls, k, n), 'answer i concerns element i', got, ite(w, ONE, ZERO), f)
            ck.guard('%s %s' % (cls, k), 'vector overloads', None, b)

# ------------------------------------------------------------------ cuckoo filter
SL = [[IN('b%d_%d' % (i, j)) for j in range(4)] for i in range(2)]
def cobj(n=2, kick=3, tab=None, **vic):
    tab = tab or T_('vec', tuple(T_('byteof', SL[i][j], C(k)) for i in range(2) for j in range(4) for k in range(2)))
    return rec('CuckooFilter', bucket_table=tab, inserted_element_num=IN('n'), max_kick_count=C(kick), slot_num=C(4), tag_bit_size=C(16), bucket_byte_size=C(8), bucket_num=C(n),
               victim=rec('VictimCache', **{**dict(bucket_index=IN('vb'), tag=IN('vt'), used=IN('vu')), **vic}))
def slots(b, i): return [b[8 * i + 2 * j] | b[8 * i + 2 * j + 1] << 8 for j in range(4)]
TAGS = [(1, 2, 0x100), (0x8000, 0x7fff, 0x8001), (0xffff, 0xfffe, 0x00ff), (0x0100, 0x0001, 0xff00)]
def cenvs(extra=({},)):
    for t, u, w in TAGS:
        for pat in itertools.product((0, t, u), repeat=4):
            for i in (0, 1):
                for x in extra:
                    d = {SL[i][j]: pat[j] for j in range(4)}; d.update({SL[1 - i][j]: (w, 0, t, u)[j] for j in range(4)}); d[IN('t')] = t; d.update(x); d['i'] = i
                    def e(z, d=d):
                        if z in d: return d[z]
                        if z.op == 'weakrand': return d.get('r', 7)
                    e.d = d; yield e
def cuckoo(ck, P, tier):
    q = 'CuckooFilter::'
    K = dict(direct=64, words=2); t = IN('t')
    def both(f, args, **kw): return [run(P, f, {0: C(i), **args}, this=cobj(**kw), **K) for i in (0, 1)]
    B = lambda R: F(R.this, 'bucket_table')
    def w(e): return 'slots %s, tag %#x' % ([e(SL[e.d['i']][j]) for j in range(4)], e(t))
    def read():
        f = fn(P, q + 'ReadTag'); g = fn(P, q + 'WriteTag')
        for j in range(4):
            R = both(f, {1: C(j)}); W = both(g, {1: C(j), 2: t})
            models(ck, 'ReadTag slot %d' % j, 'reads its own slot', f, cenvs(), lambda V, e: V(R[e.d['i']].ret) == e(SL[e.d['i']][j]) or w(e))
            def wr(V, e):
                i = e.d['i']; a = V(B(W[i]))
                return slots(a, i) == [e(t) if k == j else e(SL[i][k]) for k in range(4)] and slots(a, 1 - i) == [e(SL[1 - i][k]) for k in range(4)] or w(e)
            models(ck, 'WriteTag slot %d' % j, 'writes its own slot only', g, cenvs(), wr)
    ck.guard('CuckooFilter slots', 'slot access', None, read)
    def find():
        f = fn(P, q + 'FindTagInBucket'); R = both(f, {1: t})
        models(ck, 'FindTagInBucket', 'true exactly when a slot of the bucket holds the tag', f, cenvs(), lambda V, e: bool(V(R[e.d['i']].ret)) == (e(t) in [e(SL[e.d['i']][k]) for k in range(4)]) or w(e))
        for i in (0, 1): ck.equal('FindTagInBucket', 'leaves the table alone', B(R[i]), F(cobj(), 'bucket_table'), f)
    ck.guard('FindTagInBucket', 'find', None, find)
    def dele():
        f = fn(P, q + 'DeleteTagFromBucket'); R = both(f, {1: t})
        def d(V, e):
            i = e.d['i']; old = [e(SL[i][k]) for k in range(4)]; a = V(B(R[i])); new = slots(a, i)
            if slots(a, 1 - i) != [e(SL[1 - i][k]) for k in range(4)]: return 'other bucket changed; ' + w(e)
            if bool(V(R[i].ret)) != (e(t) in old): return 'result; ' + w(e)
            if e(t) not in old: return new == old or w(e)
            diff = [k for k in range(4) if new[k] != old[k]]
            return len(diff) == 1 and old[diff[0]] == e(t) and new[diff[0]] == 0 and V(R[i].arg[2]) == diff[0] or w(e)
        models(ck, 'DeleteTagFromBucket', 'removes exactly one copy of the tag and names its slot', f, cenvs(), d)
    ck.guard('DeleteTagFromBucket', 'delete', None, dele)
    def ins():
        f = fn(P, q + 'InsertTagToBucket')
        for lic in (0, 1):
            R = both(f, {1: t, 2: C(lic), 3: IN('ko')})
            def d(V, e):
                i = e.d['i']; old = [e(SL[i][k]) for k in range(4)]; a = V(B(R[i])); new = slots(a, i); s = V(R[i].ret); ko = V(R[i].arg[3])
                if slots(a, 1 - i) != [e(SL[1 - i][k]) for k in range(4)]: return 'other bucket changed; ' + w(e)
                diff = [k for k in range(4) if new[k] != old[k]]
                if 0 in old: return s == 0 and len(diff) == 1 and old[diff[0]] == 0 and new[diff[0]] == e(t) or 'free slot: ' + w(e)
                if not lic: return s == 1 and not diff or 'no licence to evict: ' + w(e)
                r = e.d['r'] % 4
                return s == 2 and ko == old[r] and new == [e(t) if k == r else old[k] for k in range(4)] or \
                    (s == 2 and sorted(new + [ko]) == sorted(old + [e(t)])) or 'eviction loses a tag: ' + w(e)
            models(ck, 'InsertTagToBucket licence=%d' % lic, 'no tag is lost', f, cenvs([{'r': r, IN('ko'): 0x4242} for r in (0, 1, 2, 7)]), d)
    ck.guard('InsertTagToBucket', 'insert', None, ins)
    # ---- candidate buckets
    fa, fb, ft = fn(P, q + 'ComputeAnotherBucketIndex'), fn(P, q + 'ComputeBucketIndex'), fn(P, q + 'ComputeTag')
    H = IN('h'); VALS = [0, 1, 0xffff, 0x10000, 0xfffff, 0x12345678, 0x9e3779b9, 0xffffffff, 0x80000000, 0x7fff0001]
    def idx():
        for N in (1, 2, 8, 1024, 1 << 20, 1 << 31):
            o = cobj(N); i1 = run(P, fb, {0: H}, this=o).ret; tg = run(P, ft, {0: H}, this=o).ret
            i2 = run(P, fa, {0: IN('i'), 1: t}, this=o).ret; back = run(P, fa, {0: i2, 1: t}, this=o).ret
            E1 = [(lambda z, h=h: h if z is H else None) for h in VALS]
            models(ck, '%d buckets' % N, 'the first candidate bucket exists', fb, E1, lambda V, e: 0 <= V(i1) < N or 'hash %#x' % e(H))
            models(ck, '%d buckets' % N, 'tags are non-zero 16-bit values', ft, E1, lambda V, e: 0 < V(tg) < 65536 or 'hash %#x' % e(H))
            E2 = [(lambda z, i=i, g=g: i if z is IN('i') else g if z is t else None) for i in {v % N for v in VALS} for g in (1, 2, 3, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0xabcd)]
            models(ck, '%d buckets' % N, 'the other candidate bucket exists and leads back', fa, E2, lambda V, e: (0 <= V(i2) < N and V(back) == e(IN('i'))) or 'bucket %d tag %#x' % (e(IN('i')), e(t)))
    ck.guard('candidate buckets', 'involution', None, idx)
    # ---- insertion: follow the carried tag along every outcome of the bucket step
    N = 8; SC, LG = ('SC', 0), ('LOG', 'calls')
    alt = lambda i, g: run(P, fa, {0: i, 1: g}, this=cobj(N)).ret
    def venv(t_):
        at = sorted({y for x in t_ for y in subterms(x) if y.op in ('in', 'hash32')}, key=repr)
        for s in range(24):
            d = {y: (2654435761 * (s + 1) * (k + 3) ^ 0x5bd1 * s) & (0xffff if y.op == 'in' else 0xffffffff) for k, y in enumerate(at)}
            for y in at:
                if y.op == 'in' and d[y] == 0: d[y] = 1
            yield d.get
    def same(ck, inst, rule, f, got, *want):
        """got equals one of the terms in want, uniformly"""
        if any(got is x for x in want): return ck.ob(inst, rule, True, f)
        try:
            for x in want:
                if all(ev(got, e) == ev(x, e) for e in venv([got, x])): return ck.ob(inst, rule, True, f)
        except (Unk, Oob) as x: return ck.ob(inst, rule, None, f, str(x))
        return ck.ob(inst, rule, False, f, 'computed %s, required %s' % (short(got, 300), short(want[0], 300)))
    fp = fn(P, q + 'PlainInsert'); inp = {0: T_('ptr', ('X', 'x'), (('i', ZERO),)), 1: IN('L')}
    hx = T_('hash32', T_('g', 'fixed_salt32'), inp[0], inp[1])
    def step(script):
        def p(I, e, a, st, fr):
            k = st.cells[SC].a[0]
            b_, g_ = I.eval(a[1], st, fr), I.eval(a[2], st, fr); l_ = I.eval(a[3], st, fr)
            st.cells[SC] = C(k + 1)
            if k >= len(script): raise Unsupported('more bucket steps than scripted')
            st.cells[LG] = cat(st.cells[LG], T_('vec', (T_('step', b_, g_, l_),)))
            if script[k] == 2: I.store(st, I.lval(a[4], st, fr), IN('k%d' % k))
            return C(script[k])
        return p
    def first(o):
        R = run(P, fn(P, q + 'PlainContain'), inp, this=o, prims={**HASH, q + 'FindTagInBucket': lambda I, e, a, st, fr: T_('bool', T_('has', T_('at', I.eval(a[1], st, fr), I.eval(a[2], st, fr))))})
        return R
    def insert():
        for kick in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 5):
            for script in scripts(kick):
                i_ = 'cuckoo insert, outcomes %s, limit %d' % (''.join('FNK'[(1, 0, 2).index(s)] if False else {0: 'S', 1: 'F', 2: 'K'}[s] for s in script), kick)
                def b(script=script, i_=i_, kick=kick):
                    o = cobj(N, kick, IN('tab'), used=ZERO)
                    R = run(P, fp, inp, this=o, prims={**HASH, q + 'InsertTagToBucket': step(script)}, direct=64, cells={SC: ZERO, LG: EMPTY})
                    L = R.st.cells[LG]; hh = [y for x in L.a[0][:1] for y in subterms(x) if y.op == 'hash32'] if L.op == 'vec' else []
                    if not hh: return ck.ob(i_, 'the element is offered to its first candidate bucket', None, fp, short(L, 200))
                    if len(L.a[0]) != len(script): return ck.ob(i_, 'tries every step the limit allows', None if len(L.a[0]) < len(script) else False, fp)
                    h = hh[0]; tag = run(P, ft, {0: h}, this=o).ret; j = run(P, fb, {0: h}, this=o).ret
                    homes = [j, alt(j, tag)]
                    for k, x in enumerate(L.a[0]):
                        same(ck, i_, 'step %d carries the pending tag' % k, fp, x.a[1], tag)
                        same(ck, i_, 'step %d targets a candidate bucket of the pending tag' % k, fp, x.a[0], *homes)
                        if script[k] == 2: tag = IN('k%d' % k); homes = [x.a[0], alt(x.a[0], tag)]
                    ck.equal(i_, 'insertion succeeds', R.ret, TRUE, fp)
                    v = F(R.this, 'victim')
                    if script[-1] != 0:
                        same(ck, i_, 'a tag still pending goes to the victim cache', fp, F(v, 'tag'), tag)
                        same(ck, i_, 'the victim remembers a candidate bucket of its tag', fp, F(v, 'bucket_index'), *homes)
                        ck.ob(i_, 'the victim cache is marked used', isc(F(v, 'used')) and F(v, 'used').a[0] != 0, fp, short(F(v, 'used')))
                    else: ck.equal(i_, 'the victim cache stays free', F(v, 'used'), ZERO, fp)
                ck.guard(i_, 'insertion', fp, b)
        def full():
            o = cobj(N, 3, IN('tab'), used=ONE)
            R = run(P, fp, inp, this=o, prims={**HASH, q + 'InsertTagToBucket': step([])}, direct=64, cells={SC: ZERO, LG: EMPTY})
            ck.equal('cuckoo insert into a full filter', 'is refused', R.ret, tm.FALSE, fp)
            ck.equal('cuckoo insert into a full filter', 'keeps the pending victim', F(R.this, 'victim'), F(o, 'victim'), fp)
        ck.guard('cuckoo insert into a full filter', 'is refused', fp, full)
    ck.guard('cuckoo insert', 'insertion', None, insert)
    # ---- queries
    def contain():
        f = fn(P, q + 'PlainContain'); o = cobj(N, 3, IN('tab')); R = first(o); c = R.ret; ck.note_fn(f)
        hs = [y for y in subterms(c) if y.op == 'hash32']; has = [y for y in subterms(c) if y.op == 'has']
        if len(set(hs)) != 1: return ck.ob('cuckoo query', 'finds an element in either candidate bucket or the victim cache', None, f, short(c, 300))
        h = hs[0]; tag = run(P, ft, {0: h}, this=o).ret; j1 = run(P, fb, {0: h}, this=o).ret; j2 = alt(j1, tag)
        def envs():
            for hv in VALS:
                g = ev(tag, lambda z: hv); a = ev(j1, lambda z: hv); b_ = ev(j2, lambda z: hv)
                for in1, in2 in itertools.product((0, 1), repeat=2):
                    for vu, vt, vb in itertools.product((0, 1), (g, g ^ 1), {a, b_, (a + 1) % N, (b_ + 3) % N}):
                        base = {h: hv, IN('vu'): vu, IN('vt'): vt, IN('vb'): vb}
                        def e(z, base=base, a=a, b_=b_, g=g, in1=in1, in2=in2):
                            if z in base: return base[z]
                            if z.op == 'has':
                                i, tt = ev(z.a[0].a[0], base.get), ev(z.a[0].a[1], base.get)
                                return bool(tt == g and (i == a and in1 or i == b_ and in2))
                        e.want = bool(in1 or in2 or vu and vt == g and vb in (a, b_)) ; yield e
        models(ck, 'cuckoo query', 'finds an element in either candidate bucket or the victim cache, and nothing else', f, envs(), lambda V, e: bool(V(c)) == e.want or 'hash %#x, present=%s' % (e(h), e.want))
        ck.equal('cuckoo query', 'leaves the filter alone', R.this, o, f)
        fi = fn(P, q + 'PlainInsert'); Ri = run(P, fi, inp, this=cobj(N, 1, IN('tab'), used=ZERO), prims={**HASH, q + 'InsertTagToBucket': step([0])}, direct=64, cells={SC: ZERO, LG: EMPTY})
        hi = [y for y in subterms(Ri.st.cells[LG]) if y.op == 'hash32']
        if hi: ck.equal('cuckoo query', 'inserts and queries hash the element alike', h, hi[0], f)
    ck.guard('cuckoo query', 'finds', None, contain)
    # ---- deletion
    def delete():
        f = fn(P, q + 'PlainDelete'); D = ('LOG', 'del'); rule = 'removes exactly one copy of the element'; ck.note_fn(f)
        def run_(o, hv, cnt):
            """cnt: bucket -> copies of the tag it holds"""
            def pd(I, e, a, st, fr):
                i, g = I.eval(a[1], st, fr), I.eval(a[2], st, fr)
                L = st.cells[D].a[0] if st.cells[D].op == 'vec' else ()
                st.cells[D] = cat(st.cells[D], T_('vec', (T_('del', i, g),)))
                have = cnt.get(i.a[0], 0) if isc(i) else 0
                for x in L:
                    if x.a[0] is i: have += -1 if x.op == 'del' and have > 0 else x.op == 'wr'
                if have > 0: I.store(st, I.lval(a[3], st, fr), C(2)); return TRUE
                return tm.FALSE
            def pw(I, e, a, st, fr):
                st.cells[D] = cat(st.cells[D], T_('vec', (T_('wr', *[I.eval(x, st, fr) for x in a[1:]]),))); return T_('void')
            return run(P, f, inp, this=o, prims={'LiteMurmurHash': lambda I, e, a, st, fr: C(hv), q + 'DeleteTagFromBucket': pd, q + 'WriteTag': pw}, direct=64, cells={D: EMPTY})
        for hv in (0x12345678, 0xdeadbeef, 0x01020304, 0x9e3779b9, 0x00080003, 0x00100006, 0x00000005):
            o0 = cobj(N, 3, IN('tab')); val = lambda t_: ev(t_, lambda z: None)
            tag, j1 = val(run(P, ft, {0: C(hv)}, this=o0).ret), val(run(P, fb, {0: C(hv)}, this=o0).ret); j2 = val(alt(C(j1), C(tag)))
            ob = next(x for x in range(N) if x not in (j1, j2))
            for d in itertools.product((0, 1, 2), (0, 1, 2) if j1 != j2 else (0,)):
                for vic, vb, vt in (('none', 0, 0), ('in bucket 1', j1, tag), ('in bucket 2', j2, tag), ('of another tag', j1, tag ^ 1), ('of another bucket', ob, tag)):
                    def b():
                        cnt = {j1: d[0]}
                        if j1 != j2: cnt[j2] = d[1]
                        o = cobj(N, 3, IN('tab'), used=C(int(vic != 'none')), bucket_index=C(vb), tag=C(vt))
                        R = run_(o, hv, cnt); L = R.st.cells[D]
                        i_ = 'cuckoo delete, hash %#x, %s copies in the candidate buckets, victim %s' % (hv, d[:1 + (j1 != j2)], vic)
                        if L is EMPTY: L = T_('vec', ())
                        left = dict(cnt)
                        for x in L.a[0]:
                            i, g = val(x.a[0]), val(x.a[1] if x.op == 'del' else x.a[2])
                            if x.op == 'del':
                                if left.get(i, 0) > 0:
                                    if g != tag: return ck.ob(i_, rule, False, f, 'deletes a different tag')
                                    left[i] -= 1
                            else:
                                if g != tag or val(x.a[1]) != 2: return ck.ob(i_, rule, False, f, 'overwrites a slot with a different tag')
                                left[i] = left.get(i, 0) + 1
                        mine = vic in ('in bucket 1', 'in bucket 2'); used = bool(val(F(R.this, 'victim', 'used')))
                        had, now = sum(cnt.values()) + mine, sum(left.get(j, 0) for j in cnt) + (mine and used)
                        if not mine and used != (vic != 'none'): return ck.ob(i_, rule, False, f, 'drops an unrelated victim')
                        if any(left.get(j) for j in left if j not in cnt): return ck.ob(i_, rule, False, f, 'writes to a foreign bucket')
                        ok = now == max(had - 1, 0) and bool(val(R.ret)) == bool(had)
                        ck.ob(i_, rule, ok, f, '%d copies before, %d after, result %s' % (had, now, val(R.ret)))
                    ck.guard('cuckoo delete', rule, f, b)
    ck.guard('cuckoo delete', 'removes exactly one copy of the element', None, delete)
    def ctor():
        f = fn(P, q + 'CuckooFilter', 2); R = run(P, f, {0: IN('n'), 1: IN('fp')}); o = R.this; N_ = F(o, 'bucket_num')
        ns = NS
        for n in ns:
            try: v = evf(N_, n, {})
            except (Unk, ZeroDivisionError) as x: ck.ob('CuckooFilter', 'the number of buckets is a power of two', None, f, str(x)); break
            if v <= 0 or v & (v - 1): ck.ob('CuckooFilter', 'the number of buckets is a power of two', False, f, '%d buckets for %d elements' % (v, n)); break
            if 4 * v < n: ck.ob('CuckooFilter', 'there is a slot for every projected element', False, f, '%d buckets for %d elements' % (v, n)); break
        else:
            ck.ob('CuckooFilter', 'the number of buckets is a power of two', True, f); ck.ob('CuckooFilter', 'there is a slot for every projected element', True, f)
        ck.equal('CuckooFilter', 'the table holds all buckets', size(F(o, 'bucket_table')), mul(N_, F(o, 'bucket_byte_size')), f)
        ck.equal('CuckooFilter', 'bucket size', mul(C(8), F(o, 'bucket_byte_size')), mul(F(o, 'slot_num'), F(o, 'tag_bit_size')), f)
        ck.equal('CuckooFilter', 'the victim cache starts free', F(o, 'victim', 'used'), ZERO, f)
    ck.guard('CuckooFilter', 'constructor', None, ctor)
def scripts(kick):
    """outcome sequences of the bucket step: S(uccess), at most one F(resh failure) while eviction is not licensed, K(ick)"""
    out = []
    for pre in ([], [1]):
        ks = kick if pre else 0
        for n in range(ks + 1):
            s = pre + [2] * n
            if n < kick: out.append(s + [0])
            elif pre: out.append(s)
    return [s for s in out if s]

def go(ck, tier):
    P = prog('x25519')
    bloom(ck, P, tier)
    for c in ('BloomFilter', 'CuckooFilter'): ck.guard(c, 'element encodings', None, lambda c=c: encodings(ck, P, c))
    cuckoo(ck, P, tier)
    ck.assumptions.append('LiteMurmurHash is an uninterpreted function of (salt, bytes); std::vector and OpenSSL point encoding as modelled; concurrency of the insert loops is the subject of the race-freedom property')
