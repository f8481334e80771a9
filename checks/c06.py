"""Saved objects load back unchanged; byte strings cover every field."""
from spec import *
import re
OPTIONAL = {('ADCP::ToOneCTx', 'sender_balance_ct')}     # documented in the struct as "not necessarily included"

class Mismatch(Exception): pass
class Cannot(Exception): pass

def seq(t):
    """event sequence of a stream value"""
    if t.op == 'cat':
        out = []
        for x in t.a[0]: out += seq(x)
        return out
    if t.op == 'vec': return [x for x in t.a[0] if x.op == 'ev']
    if t.op in ('catmap', 'map'): return [t]
    if t.op == 'ev': return [t]
    if t.op == 'in': return []
    if t.op == 's' and t.a[0] == '': return []
    raise Cannot('stream value ' + short(t, 200))

class Sub:
    def __init__(self, sizes): self.tok = {}; self.sizes = sizes
    def __call__(self, t):
        if not isinstance(t, T): return t
        for _ in range(30):
            t2 = self.once(t, {})
            if t2 is t: return t
            t = t2
        return t
    def once(self, t, memo):
        """replace read tokens by what was written; binders are opened at a fresh index first"""
        if isinstance(t, tuple): return tuple(self.once(y, memo) for y in t)
        if not isinstance(t, T): return t
        r = memo.get(t)
        if r is not None: return r
        r = t
        if t.op == 'rd' and t.a[0] in self.tok: r = self.tok[t.a[0]](self.once(t.a[1], memo))
        elif t.op == 'size' and self.sizes(t) is not None: r = self.sizes(t)
        elif t.op in ('map', 'catmap', 'all', 'any'):
            n = self.once(t.a[0], memo); v = tm.lv(n)
            b = tm.inst(t, v); b2 = self.once(b, {})
            if n is not t.a[0] or b2 is not b: r = tm.bind(t.op, n, v, b2)
        elif t.op == 'lupd':
            b0, n, off = (self.once(z, memo) for z in t.a[:3]); v = tm.lv(n)
            b = tm.inst(t, v); b2 = self.once(b, {})
            if b2 is not b or (b0, n, off) != tuple(t.a[:3]): r = tm.lupd(b0, n, off, v, b2)
        elif t.a and t.op not in ('cl',):
            a = self.once(t.a, memo)
            if any(x is not y for x, y in zip(a, t.a)): r = tm.rebuild(t.op, a)
        memo[t] = r
        return r

def unify(W, Rr, S, vars_=()):
    W, Rr = list(W), list(Rr)
    i = 0
    while W and Rr:
        w, r = W.pop(0), Rr.pop(0)
        if w.op == 'ev' and w.a[0] == 'seek' or r.op == 'ev' and r.a[0] == 'seek': raise Cannot('seek')
        if w.op == 'ev' and r.op == 'ev':
            nw, nr = w.a[1], S(r.a[1])
            tw, tr = w.a[1].op == 'txt', r.a[1].op == 'txt'
            if tw != tr: raise Mismatch('text output read as binary or the reverse: %s / %s' % (short(w, 200), short(r, 200)))
            if not tw and nw is not nr:
                import evalterm
                if not evalterm.same(nw, nr): 
                    raise Mismatch('record %d: %s bytes written, %s read' % (i, short(nw, 200), short(nr, 200)))
            tok = r.a[2]; val = w.a[2]; vs = vars_
            S.tok[tok.a[0]] = (lambda lvs, val=val, vs=vs: tm.subst(val, dict(zip(vs, lvs))) if vs else val)
        elif w.op in ('catmap', 'map') and r.op in ('catmap', 'map'):
            nw, nr = w.a[0], S(r.a[0])
            if nw is not nr:
                import evalterm
                if invariant(nw) is not nr and not evalterm.same(nw, nr): raise Mismatch('%s elements written, %s read' % (short(nw, 200), short(nr, 200)))
            v = tm.lv(nr)
            unify(seq(tm.inst(w, v)), seq(tm.inst(r, v)), S, vars_ + (v,))
        else:
            raise Cannot('loop on one side only: %s / %s' % (short(w, 150), short(r, 150)))
        i += 1
    if W: raise Mismatch('%d record(s) written but never read, first %s' % (len(W), short(W[0], 300)))
    if Rr: raise Mismatch('%d record(s) read but never written, first %s' % (len(Rr), short(Rr[0], 300)))

def invariant(t):
    """size(o.vec_g) for a Bullet::PP o: RANGE_LEN * MAX_AGG_NUM (established by Bullet::Setup, checked below)"""
    v = t.a[0] if t.op == 'size' else t
    if v.op == 'fld' and v.a[1] in ('vec_g', 'vec_h'): return mul(fld(v.a[0], 'RANGE_LEN'), fld(v.a[0], 'MAX_AGG_NUM'))
    return None

def ycounter(x):
    """size(path(y)) -> size(path(x)): vectors of the target are sized like the source (reader contract)"""
    p = []; t = x.a[0]
    while t.op == 'fld': p.append(t.a[1]); t = t.a[0]
    if t is IN('y'):
        r = IN('x')
        for f in reversed(p): r = fld(r, f)
        return size(r)
    if t.op == 'sel':
        s, t2 = t.a[1], t.a[0]
        q = []
        while t2.op == 'fld': q.append(t2.a[1]); t2 = t2.a[0]
        if t2 is IN('y'):
            r = IN('x')
            for f in reversed(q): r = fld(r, f)
            r = sel(r, s)
            for f in reversed(p): r = fld(r, f)
            return size(r)
    return None

def leaves(P, ty, path=(), vecs=False):
    ty = ty.replace('const ', '').strip()
    r = P.R.get(ty) or P.Rq.get(ty)
    if vecs and ty.startswith('std::vector<'):
        yield from leaves(P, ty[ty.index('<') + 1:].split(',')[0].rstrip(' >'), path + ('*',), vecs); return
    if r is None or ty in ('BigInt', 'ECPoint', 'EC25519Point'): yield path, ty; return
    for f in r['fields']:
        if (r['q'], f[0]) in OPTIONAL: continue
        yield from leaves(P, f[1], path + (f[0],), vecs)

def pathsel(t, path):
    for p in path: t = fld(t, p)
    return t

def rawsafe(P, ty):
    """no pointer or container anywhere in the object representation"""
    ty = ty.replace('const ', '').strip()
    if ty.endswith(']'): return rawsafe(P, ty[:ty.rindex('[')].strip())
    if ty.endswith('*') or ty.startswith('std::') and not ty.startswith('std::array'): return False
    r = P.R.get(ty) or P.Rq.get(ty)
    if r: return all(rawsafe(P, f[1]) for f in r['fields'])
    return True
def restored(ck, inst, path, ty, got, want, f):
    rule = 'field %s restored' % '.'.join(path)
    n = 32 if ty == 'EC25519Point' else None
    m = re.search(r'\[(\d+)\]$', ty)
    if m: n = int(m.group(1))
    if got.op == 'slice' and got.a[0] is want and got.a[1] is ZERO and got.a[2] is invariant(want): got = want
    if n is None: return ck.equal(inst, rule, got, want, f)
    mp = {size(want): C(n)}
    for x in subterms(got):
        if x.op == 'bytesof' and x.a[0] is want: mp[x] = want
    got = tm.subst(got, mp)
    for x in subterms(got):
        if x.op == 'slice' and x.a[0] is want and x.a[1] is ZERO and x.a[2] is C(n): got = tm.subst(got, {x: want})
    for i in range(n):
        g, w = sel(got, C(i)), sel(want, C(i))
        if g is not w: return ck.equal(inst, rule, g, w, f)
    ck.ob(inst, rule, True, f)
def reads_of(vals):
    return {x.a[0] for v in vals for x in subterms(v) if x.op == 'rd'}

def pairup(ck, P, inst, fw, fr_, ty, wi, ri):
    """wi/ri: index of the object parameter; streams are either parameter 0 or files named by IN('file')"""
    def body():
        ck.note_fn(fr_)
        A = {wi: IN('x')}; B = {ri: IN('y')}
        other = 1 - wi
        fileobj = 'stream' not in fw['params'][other]['ty'] and 'ofstream' not in fw['params'][other]['ty']
        if fileobj: A[other] = IN('file'); B[1 - ri] = IN('file')
        else: A[other] = EMPTY; B[1 - ri] = EMPTY
        RW = run(P, fw, A); RR = run(P, fr_, B)
        if fileobj:
            W = RW.st.cells.get(('FILE', IN('file'), 'o')); Rd = RR.st.cells.get(('FILE', IN('file'), 'i'))
            if W is None or Rd is None: raise Cannot('no file events')
        else: W, Rd = RW.arg[other], RR.arg[1 - ri]
        S = Sub(ycounter)
        try: unify(seq(W), seq(Rd), S)
        except Mismatch as m: return ck.ob(inst, 'writer and reader agree on the byte layout', False, fr_, str(m))
        except Cannot as m: return ck.ob(inst, 'writer and reader agree on the byte layout', None, fr_, str(m))
        ck.ob(inst, 'writer and reader agree on the byte layout', True, fr_)
        ck.equal(inst, 'saving leaves the object unchanged', RW.arg[wi], IN('x'), fw)
        y = S(RR.arg[ri])
        for path, t in leaves(P, ty):
            restored(ck, inst, path, t, pathsel(y, path), pathsel(IN('x'), path), fr_)
    ck.guard(inst, 'round trip', None, body)

FILT = {'CuckooFilter': [('bucket_table', lambda o: mul(fld(o, 'bucket_byte_size'), fld(o, 'bucket_num')))],
        'BloomFilter': [('bit_table', lambda o: div(fld(o, 'table_size'), C(8)))]}
SALT = ['GenUniqueSaltVector']
def filters(ck, P):
    """a filter written to a file or buffer and read back has the same table and parameters"""
    for cls, inv in FILT.items():
        r = P.Rq.get(cls) or P.R.get(cls)
        if r is None: continue
        x = IN('x')
        isz = {size(fld(x, v)): fnc(x) for v, fnc in inv}
        def norm(t):
            t = tm.subst(t, isz)
            for v, fnc in inv:       # whole-table slices
                w = fld(x, v)
                for s_ in list(subterms(t)):
                    if s_.op == 'slice' and s_.a[0] is w and s_.a[1] is ZERO and s_.a[2] is fnc(x): t = tm.subst(t, {s_: w})
            return t
        for f in P.find(cls + '::' + cls):
            if len(f['params']) < 2: continue
            def est(f=f):
                R = run(P, f, stops=SALT); o = R.this
                for v, fnc in inv:
                    ck.equal('%s constructor' % cls, 'table %s has the length its parameters say' % v, size(fld(o, v)), fnc(o), f, small=True)
                if cls == 'BloomFilter': salt(ck, cls + ' constructor', o, f)
            ck.guard(cls + ' constructor', 'establishes the table length', f, est)
        for fw in P.find(cls + '::WriteObject'):
            ty = fw['params'][0]['ty']
            fr_ = [g for g in P.find(cls + '::ReadObject') if g['params'][0]['ty'] == ty]
            if not fr_: continue
            fr_ = fr_[0]; buf = ty.replace(' ', '') == 'char*'
            inst = '%s::WriteObject/ReadObject(%s)' % (cls, 'buffer' if buf else 'file')
            def body(fw=fw, fr_=fr_, buf=buf, inst=inst):
                ck.note_fn(fr_)
                if buf:
                    RW = run(P, fw, {0: IN('buf')}, this=x, stops=SALT)
                    b = norm(RW.arg[0])
                    RR = run(P, fr_, {0: b}, this=IN('y'), stops=SALT)
                    y = norm(RR.this)
                    if b.op == 'buf':
                        osz = run(P, P.find(cls + '::ObjectSize')[0], this=x)
                        last = add(b.a[2][-1][0], b.a[2][-1][1])
                        ck.equal(inst, 'the buffer holds exactly ObjectSize() bytes', last, norm(osz.ret), fw)
                else:
                    RW = run(P, fw, {0: IN('file')}, this=x, stops=SALT); RR = run(P, fr_, {0: IN('file')}, this=IN('y'), stops=SALT)
                    W = RW.st.cells.get(('FILE', IN('file'), 'o')); Rd = RR.st.cells.get(('FILE', IN('file'), 'i'))
                    if W is None or Rd is None: raise Cannot('no file events')
                    S = Sub(lambda t: None)
                    try: unify(seq(norm(W)), seq(Rd), S)
                    except Mismatch as m: return ck.ob(inst, 'writer and reader agree on the byte layout', False, fr_, str(m))
                    except Cannot as m: return ck.ob(inst, 'writer and reader agree on the byte layout', None, fr_, str(m))
                    ck.ob(inst, 'writer and reader agree on the byte layout', True, fr_)
                    y = norm(S(RR.this))
                ck.equal(inst, 'writing leaves the filter unchanged', RW.this, x, fw)
                for path, t in leaves(P, cls):
                    if path == ('vec_salt',): salt(ck, inst, y, fr_); continue
                    ck.equal(inst, 'field %s restored' % '.'.join(path), pathsel(y, path), pathsel(x, path), fr_)
            ck.guard(inst, 'round trip', fr_, body)
def salt(ck, inst, o, f):
    s = fld(o, 'vec_salt')
    hn = fld(o, 'hash_num'); rs = fld(o, 'random_seed')
    ok = s.op == 'call' and s.a[0].endswith('GenUniqueSaltVector') and tuple(s.a[1][:2]) == (hn, rs)
    ck.ob(inst, 'salts are the ones derived from (hash_num, random_seed)', True if ok else False, f, short(s, 500))

def go(ck, tier):
    for cfg in ('x25519', 'p256'):
        P = prog(cfg)
        ops_w, ops_r = {}, {}
        for q, fs in P.byq.items():
            nm = q.split('::')[-1]
            for f in fs:
                ps = f['params']
                if nm == 'operator<<' and len(ps) == 2 and 'ofstream' in ps[0]['ty']: ops_w.setdefault((q.rsplit('operator', 1)[0], ps[1]['ty']), f)
                if nm == 'operator>>' and len(ps) == 2 and 'ifstream' in ps[0]['ty']: ops_r.setdefault((q.rsplit('operator', 1)[0], ps[1]['ty']), f)
        if cfg == 'p256':
            ops_w = {k: v for k, v in ops_w.items() if 'ElGamal' in k[1] or 'cwPRF' in k[1]}
        for (ns, ty), fw in sorted(ops_w.items(), key=lambda z: str(z[0])):
            fr_ = ops_r.get((ns, ty))
            inst = '%s operator<< / operator>> [%s]' % (ty[:80], cfg)
            if ns.startswith('Serialization') and (P.R.get(ty) or P.Rq.get(ty)):
                r = P.R.get(ty) or P.Rq.get(ty)
                ck.ob(inst, 'only pointer-free objects are stored as a raw image', rawsafe(P, ty), fw, r['q'])
                continue
            if 'std::vector<' in ty and ns.startswith('Serialization'):
                et = ty[ty.index('<') + 1:].split(',')[0].strip(' >')
                r = P.R.get(et) or P.Rq.get(et)
                ck.ob(inst, 'only pointer-free objects are stored as a raw image', rawsafe(P, et), fw, et)
            if fr_ is None:
                if ty == 'EC25519Point': continue
                ck.ob(inst, 'a reader exists', None, fw, 'no reader'); continue
            pairup(ck, P, inst, fw, fr_, ty, 1, 1)
        if cfg == 'p256': continue
        # Save*/Fetch* pairs
        for q, fs in sorted(P.byq.items()):
            nm = q.split('::')[-1]
            if not nm.startswith('Save'): continue
            for fw in fs:
                ty = fw['params'][0]['ty'] if fw['params'] else ''
                if 'file' not in (fw['params'][1]['name'].lower() if len(fw['params']) > 1 else ''): continue
                rs = [f for f in P.find(q[:-len(nm)] + 'Fetch' + nm[4:]) if f['params'][0]['ty'] == ty]
                inst = '%s(%s)' % (q, ty)
                if not rs:
                    def only(fw=fw, ty=ty, inst=inst):
                        # no reader: the file must at least contain every field of the object
                        RW = run(P, fw, {0: IN('x'), 1: IN('file')})
                        W = RW.st.cells.get(('FILE', IN('file'), 'o'))
                        if W is None: return ck.ob(inst, 'saved file contains every field', None, fw, 'no file events')
                        sub_ = used(W)
                        for path, t in leaves(P, ty, (), True):
                            if path[-1:] == ('sender_balance_ct',) or 'sender_balance_ct' in path: continue
                            ok = any(covers(x, path) for x in sub_)
                            ck.ob(inst, 'saved file contains %s' % '.'.join(path), True if ok else (None if residual(W) is not None else False), fw, '')
                    ck.guard(inst, 'saved file contains every field', None, only); continue
                pairup(ck, P, inst, fw, rs[0], ty, 0, 0)
    P = prog('x25519')
    def est():
        f = P.find('Bullet::Setup')[0]
        R = run(P, f)
        for v in ('vec_g', 'vec_h'):
            ck.equal('Bullet::Setup', 'establishes |%s| = RANGE_LEN * MAX_AGG_NUM' % v, size(fld(R.ret, v)), mul(fld(R.ret, 'RANGE_LEN'), fld(R.ret, 'MAX_AGG_NUM')), f)
    ck.guard('Bullet::Setup', 'establishes the vector lengths', None, est)
    filters(ck, P)
    # raw images: the type each template instance stores
    # byte strings that are hashed or signed must cover the whole object
    for q, fs in sorted(P.byq.items()):
        nm = q.split('::')[-1]
        if not (nm.endswith('ToByteString') and '::' in q and not q.startswith(('BigInt', 'ECPoint')) or nm.startswith('ExtractToSign')): continue
        for f in fs:
            if len(f['params']) != 1: continue
            ty = f['params'][0]['ty']
            if not (P.R.get(ty) or P.Rq.get(ty)): continue
            def cov(f=f, ty=ty, q=q):
                R = run(P, f, {0: IN('x')})
                sub_ = used(R.ret)
                for path, t in leaves(P, ty, (), True):
                    if q.endswith('ExtractToSignMessageFromCTx') and path[0] in SIGN_EXEMPT: continue
                    ok = any(covers(x, path) for x in sub_)
                    ck.ob('%s(%s)' % (q, ty), 'byte string covers %s' % '.'.join(path), True if ok else (None if residual(R.ret) is not None else False), f, short(R.ret, 600))
                ck.equal('%s(%s)' % (q, ty), 'object unchanged', R.arg[0], IN('x'), f)
            ck.guard('%s(%s)' % (q, ty), 'byte string covers the object', None, cov)
# the refresh proof is the signature over the message, so it is produced after the message
SIGN_EXEMPT = {'correct_refresh_proof'}

def used(t):
    """subterms whose value is part of t (a length mentions a vector without containing it)"""
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, T) or x in seen: continue
        seen.add(x)
        if x.op == 'size': continue
        st.extend(x.a[1:] if x.op in ('map', 'catmap') else x.a)
    return seen
def covers(x, path):
    """x is the leaf value at path of IN('x') ('*': an element), used whole"""
    t = x
    for i in range(len(path) - 1, -1, -1):
        if path[i] == '*':
            if t.op == 'sel': t = t.a[0]
            elif i != len(path) - 1: return False
        elif t.op == 'fld' and t.a[1] == path[i]: t = t.a[0]
        else: return False
    return t is IN('x')
