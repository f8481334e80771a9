"""What a prover or protocol party discloses depends on its secrets only under randomness of its own, drawn for that purpose."""
from zk import *
from duo import *
import net, evalterm, math
import c08, c10, c11, c12

HASHOPS = ('call', 'aes', 'prgb', 'prgbytes', 'ggm')
# messages of an ideal sub-protocol (its own privacy is decided where it is implemented)
IDEAL = {'OT', 'OT1', 'ROT', 'MQ', 'PSU', 'VOLE', 'OPRF', 'BV', 'TV'}
# receivers that by specification hand their (masked) result back
OUTPUTS = {'mqRPMTPSIcardsum::Receive'}
IDEALTAGS = {'voleA', 'rot0', 'rot1'}

class Flow:
    """secret-to-message flow of one party"""
    def __init__(s, secrets, uids, published=()):
        s.sec, s.uids, s.pub = secrets, uids, published
        s.masks, s.leaks, s.n = [], [], 0
        s._sec, s._own = {}, {}
    def secret(s, t):
        r = s._sec.get(t)
        if r is None:          # lengths are public
            r = s._sec[t] = t in s.sec or (t.op != 'size' and any(s.secret(c) for c in tm.children(t)))
        return r
    def isown(s, x):
        return x.op == 'rand' and (s.uids[0] < x.a[0] <= s.uids[1] or x.a[1] in IDEALTAGS)
    def own(s, t):
        """t contains randomness of this party that it did not publish"""
        r = s._own.get(t)
        if r is None:
            if t in s.pub: r = False
            elif s.isown(t): r = True
            else: r = any(s.own(c) for c in tm.children(t))
            s._own[t] = r
        return r
    def leak(s, why, t): s.leaks.append((why, t))
    def mask(s, m, loops, what): s.masks.append((m, loops, what))
    def pad(s, x):
        """x is computationally uniform given everything but this party's randomness"""
        return not s.secret(x) and s.own(x)
    def prf(s, x):
        while x.op in ('modi', 'sel', 'slice'): x = x.a[0]
        return x.op in HASHOPS and s.own(x)
    def walk(s, t, loops):
        if not s.secret(t): return
        s.n += 1
        if t in s.sec: return s.leak('sent in the clear', t)
        op = t.op
        if op in ('map', 'catmap', 'sum', 'psum', 'all', 'any', 'xsum'):
            v = tm.lv(t.a[0]); return s.walk(tm.inst(t, v), loops + (v,))
        if op == 'ite' and s.secret(t.a[0]):
            # the choice itself is secret: both alternatives have to be blinded in the same way
            for b in t.a[1:]:
                if not s.blinded(b, loops, t): return s.leak('the alternative sent tells the secret condition', t)
            return
        if op == 'xor':
            ps = [x for x in t.a[0] if s.pad(x)]
            if ps: return s.mask(xor(*ps), loops, t)
            if any(s.prf(x) for x in t.a[0]): return
            for x in t.a[0]: s.walk(x, loops)
            return
        if op == 'pt':
            if s.ptmask(t, loops): return
            for b, e in t.a[0]:
                if s.secret(e): s.leak('exponent not blinded', t); return
                if s.secret(b) and not s.keyed(e): s.leak('group element not raised to a key of the sender', t); return
            return
        if op == 'xpt':
            if any(s.pad(k) for k in t.a[1]): return
            return s.leak('group element not raised to a key of the sender', t)
        if op == 'mod':
            if s.polymask(t, loops): return
        if op in HASHOPS:
            if s.own(t): return
            return s.leak('hash of the secret without a key', t)
        for c in tm.children(t): s.walk(c, loops)
    def keyed(s, e):
        p = as_poly(ex(e))
        return bool(p) and all(any(s.isown(x) for x, _ in mono) for mono in p)
    def ptmask(s, t, loops, what=None):
        for b, e in as_pt(t).items():
            if s.secret(b) or tm.contains(b, lambda x: x.op == 'ite'): continue
            for mono, c in as_poly(ex(e)).items():
                own = [x for x, k in mono if s.isown(x)]
                if own and not any(s.secret(x) for x, _ in mono):
                    s.mask(from_pt({b: from_poly({mono: 1})}), loops, what or t); return True
        return False
    def polymask(s, t, loops, what=None):
        """t = x + r mod m with r uniform below m"""
        if t.op != 'mod': return False
        for mono, c in as_poly(t.a[1]).items():
            if c in (1, -1) and len(mono) == 1 and mono[0][1] == 1 and s.isown(mono[0][0]) and len(mono[0][0].a) > 2 and mono[0][0].a[2] is t.a[0]:
                s.mask(from_poly({mono: 1}), loops, what or t); return True
        return False
    def blinded(s, b, loops, what):
        if b.op == 'pt': return s.ptmask(b, loops, what)
        if b.op == 'xor':
            ps = [x for x in b.a[0] if s.pad(x)]
            if ps: s.mask(xor(*ps), loops, what); return True
            return False
        if b.op == 'mod': return s.polymask(b, loops, what)
        if b.op in HASHOPS: return s.own(b)
        if b.op == 'ite': return all(s.blinded(x, loops, what) for x in b.a[1:])
        if s.pad(b): s.mask(b, loops, what); return True
        return False

def msgs(out):
    """(kind, payload, loops) of every message in an outbox"""
    r = []
    def walk(t, loops):
        if t.op == 'vec':
            for m in t.a[0]: walk(m, loops)
        elif t.op == 'cat':
            for p in t.a[0]: walk(p, loops)
        elif t.op in ('map', 'catmap'):
            v = tm.lv(t.a[0]); walk(tm.inst(t, v), loops + (v,))
        elif t.op == 'msg': r.append((t.a[0], t.a[2], loops))
        elif t.op == 'ite':
            for b in t.a[1:]: walk(b, loops)
        else: raise Unsupported('outbox shape ' + t.op)
    walk(out, ())
    return r

def elems_(t):
    if t.op in ('vec', 'cat', 'tup'):
        for x in t.a[0]: yield from elems_(x)
    elif t.op in ('map', 'catmap'): yield from elems_(tm.inst(t, tm.lv(t.a[0])))
    else: yield t

SECRETS = {'s', 'm0', 'm1', 'msg', 'X', 'Y', 'v', 'delta', 'w', 'u', 'Xm'}
def secret_of(args):
    r = set()
    for t in args.values():
        for x in subterms(t):
            if x.op == 'in' and (x.a[0] in SECRETS): r.add(x)
    return r

RULE = 'every message depends on the party\'s inputs only under a mask or key of its own'
REUSE = 'no mask is used for two messages'
def party(ck, inst, f, out, args, uids, ideal=IDEAL, only=None):
    sec = {x for x in secret_of(args) if only is None or x.a[0] in only}
    ms = [m for m in msgs(out) if m[0] not in ideal]
    if not ms or not sec: return
    def one():
        fl0 = Flow(sec, uids)
        pub = set()
        for k, p, loops in ms:
            for x in elems_(p):
                if not fl0.secret(x) and x.op in ('prgb', 'rand', 'prgbytes', 'xor', 'sel'): pub.add(x)
        fl = Flow(sec, uids, pub)
        for k, p, loops in ms: fl.walk(p, loops)
        ck.ob(inst, RULE, not fl.leaks, f, '\n'.join('%s: %s' % (w, short(t, 500)) for w, t in fl.leaks[:3]))
        seen = {}; bad = None
        for m, loops, what in fl.masks:
            for v in loops:
                if v.a[0] in what.fv and v.a[0] not in m.fv: bad = 'mask %s is the same at every position of %s' % (short(m, 300), short(what, 300))
            if m in seen and seen[m] is not what: bad = 'mask %s covers both %s and %s' % (short(m, 200), short(seen[m], 200), short(what, 200))
            seen[m] = what
        if fl.masks: ck.ob(inst, REUSE, bad is None, f, bad)
    ck.guard(inst, RULE, f, one)

ORDER_ = 'positions of the returned list are hidden by a random permutation or a filter'
def unordered(ck, inst, f, out, src):
    """no value derived from src is sent at a position of its own"""
    seen = False
    def bare(t):
        if t.op in ('perm', 'filter', 'shuffle', 'size'): return None
        if src(t): return t
        for c in tm.children(t):
            r = bare(c)
            if r is not None: return r
    bad = None
    for k, p, loops in msgs(out):
        if k in ('MQ', 'PSU'): continue
        if any(src(x) for x in subterms(p)): seen = True
        if bare(p) is not None: bad = short(p, 600)
    ck.ob(inst, ORDER_, bad is None if seen else None, f, bad or 'no such message')
def peqt_maps(ck, maps):
    rule = 'the applied permutation ranges over all row and column permutations'
    for inst, l in sorted(maps.items()):
        r, c = map(int, inst.split()[-1].split('x')); f = l[0][0]
        if any(t.op != 'vec' or not all(isc(x) for x in t.a[0]) for _, t in l): ck.ob(inst, rule, None, f); continue
        if len(l) < math.factorial(r) * math.factorial(c): ck.ob(inst, rule, None, f, 'incomplete enumeration'); continue
        k = len({t for _, t in l})
        ck.ob(inst, rule, k == math.factorial(r) * math.factorial(c), f, '%d of %d row/column permutations give different placements' % (k, math.factorial(r) * math.factorial(c)))

class Tap:
    """stands in for the checker of another property: only the two-party runs matter"""
    def __init__(s, ck, only=None): s.ck, s.only, s.assumptions, s.done, s.maps = ck, only, [], set(), {}
    def __getattr__(s, n): return lambda *a, **k: None
    def guard(s, inst, rule, f, body):
        s.ck.guard(inst, RULE, f, body)
    def par(s, jobs):
        for j in jobs: s.guard(*j)
    def on_duo(s, inst, d):
        a, b = d.args
        if inst.startswith('cwPRFmqRPMT'): s.ck.guard(inst, ORDER_, d.fb, lambda: unordered(s.ck, inst, d.fb, d.outB, lambda x: x.op == 'in' and x.a[0] == 'Y'))
        if inst.startswith('mqRPMTPrivateID'): s.ck.guard(inst, ORDER_, d.fb, lambda: unordered(s.ck, inst, d.fb, d.outB, lambda x: x.op == 'union'))
        if inst.startswith('DDHPEQT'): s.maps.setdefault(inst.split(' rows')[0], []).append((d.fa, d.ra(d.A.ret)))
        party(s.ck, inst + '/' + d.fa['q'], d.fa, d.outA, a, d.uids[0])
        if d.fb['q'] not in OUTPUTS: party(s.ck, inst + '/' + d.fb['q'], d.fb, d.outB, b, d.uids[1])
        if d.fa['q'] == 'mqRPMTPSIcardsum::Send': party(s.ck, inst + '/values handed to OT', d.fa, d.outA, a, d.uids[0], IDEAL - {'OT'}, {'v'})
        if inst.endswith('::Random'): s.ck.guard(inst, UNCH, d.fa, lambda: random_ot(s.ck, inst, d))
        if inst.startswith('NPOT'): s.ck.guard(inst, UNCH, d.fa, lambda: npot(s.ck, inst, d))

UNCH = 'the key of the message not chosen depends on the sender\'s own secret'
def random_ot(ck, inst, d):
    """position i, choice bit b: the other key is a hash of a block that changes with every secret bit of the sender"""
    n = d.args[0][4]; i = tm.lv(n); s = IN('s')
    for b in (0, 1):
        k = d.ra(d.A.arg[3 - b]); t = tm.subst(sel(k, i), {sel(s, i): C(b)})
        rule = UNCH + ' (choice %d)' % b
        if t.op != 'call': ck.ob(inst, rule, None if residual(t) is not None or t.op in ('ite', 'sel') else False, d.fa, short(t, 800)); continue
        blocks = [x for a in t.a[1] for x in (a.a[0] if a.op == 'vec' else (a,))]
        j = tm.lv(C(128)); dep = False; own = Flow(set(), d.uids[0])
        for x in blocks:
            try: y = bits.bitof(x, j)
            except Unsupported: dep = None; break
            for a in atoms01(y):
                if own.own(a) and tm.subst(y, {a: ZERO}) is not tm.subst(y, {a: ONE}):
                    # not merely syntactically: differ under some value of the remaining selection bits
                    if not same_bits(tm.subst(y, {a: ZERO}), tm.subst(y, {a: ONE})): dep = True
        ck.ob(inst, rule, dep, d.fa, short(t, 1200))
def same_bits(a, b, k=0):
    if a is b: return True
    ats = atoms01(T_('vec', (a, b)))
    if not ats or k > 6: return False
    return all(same_bits(tm.subst(a, {ats[0]: v}), tm.subst(b, {ats[0]: v}), k + 1) for v in (ZERO, ONE))

def npot(ck, inst, d):
    fl = Flow(set(), d.uids[0]); m0, m1, s = IN('m0'), IN('m1'), IN('s')
    got = {}
    for kind, p, loops in msgs(d.outA):
        if p.op != 'map': continue
        i = tm.lv(p.a[0]); t = tm.inst(p, i)
        for b, m in ((0, m0), (1, m1)):
            if sel(m, i) in (t.a[0] if t.op == 'xor' else (t,)): got[b] = (t, i)
    for b in (0, 1):
        rule = UNCH + ' (choice %d)' % (1 - b)
        if b not in got: ck.ob(inst, rule, None, d.fa, 'masked message %d not found' % b); continue
        t, i = got[b]; u = tm.subst(t, {sel(s, i): C(1 - b)})
        keys = [x for x in (u.a[0] if u.op == 'xor' else (u,)) if x.op == 'call']
        ok = False
        for k in keys:
            for x in k.a[1]:
                if x.op == 'pt' and any(sum(e for y, e in mono if fl.isown(y)) >= 2 for bs, ee in as_pt(x).items() for mono in as_poly(ex(ee))): ok = True
        ck.ob(inst, rule, ok, d.fa, short(u, 1000))

# ------------------------------------------------------------------ provers
PRIME = (1 << 127) - 1
def num(t, salt):
    """value of a coefficient at a pseudo-random point (identity testing of the derived polynomial)"""
    r = 0
    for mono, c in as_poly(t).items():
        x = c % PRIME
        for y, k in mono: x = x * pow(evalterm.H(salt, y.id) % PRIME, k, PRIME) % PRIME
        r += x
    return r % PRIME
def rank(rows):
    rows = [dict(r) for r in rows]; n = 0
    while rows:
        r = rows.pop()
        r = {k: v % PRIME for k, v in r.items() if v % PRIME}
        if not r: continue
        n += 1
        k, v = next(iter(r.items())); iv = pow(v, -1, PRIME)
        for q in rows:
            if q.get(k, 0) % PRIME:
                f = q[k] * iv
                for k2, v2 in r.items(): q[k2] = (q.get(k2, 0) - f * v2) % PRIME
    return n
def scal_row(t, sec, rnd):
    """(rand -> coefficient term) of a scalar; None for rands with a coefficient that is secret or itself random"""
    x = t.a[1] if t.op == 'mod' else t
    return poly_row(as_poly(x), sec, rnd)
def poly_row(p, sec, rnd):
    row = {}
    for mono, c in p.items():
        rs = [(y, k) for y, k in mono if rnd(y)]
        if not rs: continue
        rest = tuple((y, k) for y, k in mono if not rnd(y))
        if len(rs) > 1 or rs[0][1] != 1 or any(sec(y) for y, _ in rest):
            for y, _ in rs: row[y] = None
            continue
        if row.get(rs[0][0], ZERO) is not None: row[rs[0][0]] = add(row.get(rs[0][0], ZERO), from_poly({rest: c}))
    return row
def pt_row(t, sec, rnd):
    row = {}
    for b, e in as_pt(t).items():
        for r, c in poly_row(as_poly(ex(e)), sec, rnd).items():
            if c is None or sec(b) or row.get(r, ZERO) is None: row[r] = None
            else: row[r] = add(row.get(r, ZERO), mul(c, T_('dl', b)))
    return row
def full_rank(rows):
    bad = {r for row in rows for r, c in row.items() if c is None}
    m = [{r: num(c, 'p') for r, c in row.items() if r not in bad} for row in rows]
    return rank(m) == len(rows)

def reduced(t): return isc(t) or t.op == 'mod' and t.a[0] is tm.ORDER or t.op == 'rand' and t.a[1] == 'range' and t.a[2] is tm.ORDER
def prover(ck, inst, f, scalars, points, secrets, uids):
    """scalars, points: name -> term.  Secrets hidden behind hash outputs (challenges) do not count."""
    memo = {}
    def sec(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = t in secrets or (not ischal(t) and t.op != 'size' and any(sec(c) for c in tm.children(t)))
        return r
    def rnd(t): return t.op == 'rand' and uids[0] < t.a[0] <= uids[1]
    O = tm.ORDER
    for nm, t in scalars.items():
        if residual(t) is not None: ck.ob(inst, 'response %s is reduced modulo the group order' % nm, None, f, short(t, 300)); continue
        ck.ob(inst, 'response %s is reduced modulo the group order' % nm, reduced(t), f, 'disclosed integer: ' + short(t, 900))
    def joint(what, d, rowf):
        rows = {k: rowf(t, sec, rnd) for k, t in d.items()}
        if not rows: return
        rule = 'the %s are blinded by independent randomness' % what
        ok = full_rank(list(rows.values()))
        why = ''
        if not ok:
            for k, r in rows.items():
                if not any(c is not None for c in r.values()): why += '%s has no mask: %s\n' % (k, short(d[k], 500)); 
            why = why or 'the masks of %s are linearly dependent: %s' % (', '.join(rows), '; '.join('%s: %s' % (k, ', '.join(short(x, 60) for x in r)) for k, r in list(rows.items())[:6]))
        ck.ob(inst, rule, ok, f, why)
        for k, r in rows.items():
            for x in r:
                if x.a[1] == 'range': 
                    if x.a[2] is not O and x.a[2] is not sub(O, ONE): ck.ob(inst, 'masks are drawn from the full range of exponents', False, f, short(x, 200))
                elif x.a[1] != 'range': ck.ob(inst, 'masks are drawn from the full range of exponents', False, f, short(x, 200))
        ck.ob(inst, 'masks are drawn from the full range of exponents', True, f)
    joint('responses', scalars, scal_row)
    joint('commitments', points, pt_row)

SCAL = {'DLOGKnowledge': ('z',), 'DLOGEquality': ('z',), 'PlaintextKnowledge': ('z1', 'z2'), 'PlaintextEquality': ('z', 't')}
def provers(ck, tier, par):
    P = prog('x25519'); pp, x, w = IN('pp'), IN('x'), IN('w')
    def window(b):
        u0 = tm.uid(); r = b(); return r, (u0, tm.uid())
    for s in SIGMA:
        def body(s=s):
            fp = fn(P, s['ns'] + '::Prove', 4)
            A, u = window(lambda: run(P, fp, {0: pp, 1: mkrec(x, s['x']), 2: w, 3: TR}))
            fs = dict(A.ret.a[1]) if A.ret.op == 'rec' else None
            if fs is None: return ck.ob(s['ns'] + '::Prove', 'responses', None, fp, A.ret)
            sc = {k: F(A.ret, k) for k in SCAL[s['ns']]}
            ck.note_fn(fp)
            prover(ck, s['ns'] + '::Prove', fp, sc, {}, {w}, u)
            for k in fs:
                if k not in SCAL[s['ns']]:
                    ck.ob(s['ns'] + '::Prove', 'commitment %s does not involve the witness' % k, not hides(F(A.ret, k), {w}), fp, short(F(A.ret, k), 600))
        par(s['ns'] + '::Prove', 'responses', None, body)
    def sign():
        fs = fn(P, 'Schnorr::Sign'); A, u = window(lambda: run(P, fs, {0: pp, 1: IN('sk'), 2: IN('m')}))
        prover(ck, 'Schnorr::Sign', fs, {'z': F(A.ret, 'z')}, {}, {IN('sk')}, u); ck.note_fn(fs)
        ck.ob('Schnorr::Sign', 'commitment A does not involve the key', not hides(F(A.ret, 'A'), {IN('sk')}), fs, short(F(A.ret, 'A'), 600))
    par('Schnorr::Sign', 'responses', None, sign)
    W = ('Z', 'w')
    def cap(I, e, a, st, fr):
        I.store(st, (W, ()), I.load(st, I.lval(a[2], st, fr))); return T_('void')
    for RL, n in ((2, 1), (2, 2), (4, 1)) if tier == 'quick' else ((1, 1), (2, 1), (2, 2), (4, 1), (2, 4), (4, 2), (8, 1)):
        i_ = 'Bullet::Prove[bits=%d,values=%d]' % (RL, n)
        def bu(RL=RL, n=n, i_=i_):
            L, bpp = bullet_setting(RL, n); fp = fn(P, 'Bullet::Prove')
            rs, vs = vi('r', n), vi('v', n)
            A, u = window(lambda: run(P, fp, {0: bpp, 1: mkrec(x, {'C': vi('C', n)}), 2: mkrec(w, {'r': rs, 'v': vs}), 3: TR, 4: rec('Bullet::Proof', ip_proof=IN('ipp'))},
                    prims={'InnerProduct::Prove': cap}, cells={W: T_('undef', 0)}, budget=8_000_000))
            ck.note_fn(fp)
            pf, ip = A.arg[4], A.st.cells[W]
            sc = {k: F(pf, k) for k in ('taux', 'mu')}
            prover(ck, i_, fp, sc, {k: F(pf, k) for k in ('A', 'S', 'T1', 'T2')}, set(rs.a[0]) | set(vs.a[0]), u)
            for nm in ('vec_a', 'vec_b'):
                v = F(ip, nm)
                if v.op != 'vec': ck.ob(i_, 'vectors', None, fp, v); return
                for k, t in enumerate(v.a[0]): sc['%s[%d]' % (nm, k)] = t
            prover(ck, i_ + ' with the vectors opened', fp, sc, {}, set(rs.a[0]) | set(vs.a[0]), u)
        par(i_, 'responses', None, bu)
    for n, N in ((2, 2), (2, 4), (3, 9)) if tier == 'quick' else ((2, 2), (2, 4), (2, 8), (3, 3), (3, 9), (4, 4), (4, 16)):
        for l in sorted({0, 1, N - 1}):
            i_ = 'EncRelation::Prove[n=%d,N=%d,index=%d]' % (n, N, l)
            def enc(n=n, N=N, l=l, i_=i_):
                fp = fn(P, 'EncRelation::Prove'); ck.note_fn(fp)
                cts = [rec('CT', X=IN('X%d' % i), Y=IN('Y%d' % i)) for i in range(N)]
                A, u = window(lambda: run(P, fp, {0: mkrec(pp, {'n': C(n)}), 1: mkrec(x, {'vec_CT': vec(*cts)}), 2: mkrec(w, {'l': C(l)}), 3: TR}, budget=4_000_000))
                pf = A.ret; fv, G = F(pf, 'vec_f'), F(pf, 'vec_G')
                m = round(math.log(N) / math.log(n))
                sc = {k: F(pf, k) for k in ('z', 'zA', 'zC')}
                for k in range(m * n):
                    t = sel(fv, C(k))
                    if k % n: sc['f[%d,%d]' % divmod(k, n)] = t
                    else: ck.ob(i_, 'response f[%d,0] is reduced modulo the group order' % (k // n), reduced(t), fp, 'disclosed integer: ' + short(t, 600))
                pts = {k: F(pf, k) for k in 'ABCD'}
                for k in range(m): pts['G[%d].Y' % k] = F(sel(G, C(k)), 'Y')
                prover(ck, i_, fp, sc, pts, {w}, u)
            par(i_, 'responses', None, enc)

def hides(t, secrets):
    """t involves a secret outside hash outputs"""
    return t in secrets or (not ischal(t) and t.op != 'size' and any(hides(c, secrets) for c in tm.children(t)))

def tapped(ck, m):
    t = Tap(ck); m.go(t, 'quick'); peqt_maps(ck, t.maps)

def go(ck, tier):
    ck.assumptions += ['AES, the hash functions and the tree expansion are pseudo-random functions of their keys; Diffie-Hellman assumption for values raised to a secret exponent',
                       'ideal sub-protocols (OT below OT extension users, mqRPMT, PSU, VOLE, OPRF) disclose nothing beyond their output; each is analysed where it is implemented']
    jobs = []
    provers(ck, tier, lambda *a: jobs.append(a))
    for m in (c08, c10, c11, c12): jobs.append((m.__name__, RULE, None, lambda m=m: tapped(ck, m)))
    ck.par(jobs)
