"""Models of the C++ standard library, OpenSSL and intrinsics used by the tree."""
from terms import *
import terms as tm
from interp import prim, PRIMS, Dead, Unsupported, SIZEOF, TRACE, ASSUME, region_read, region_write, seqbind, strip_targs

V = T_('void')
tm.set_order(T_('g', 'order'))
ORDER = tm.ORDER
GEN = T_('g', 'generator')

def ev(I, a, st, fr): return I.eval(a, st, fr)

def content(I, p, st, fr):
    """value behind a pointer term"""
    if p.op == 'null': return T_('null')
    l = I.deref(p, st, fr)
    v = I.load(st, l)
    return v

def put(I, p, v, st, fr):
    if p.op == 'null': return
    I.store(st, I.deref(p, st, fr), v)

# ------------------------------------------------------------------ control
@prim('exit', 'abort', '__assert_fail', 'std::terminate')
def _exit(I, e, args, st, fr): raise Dead()

@prim('CRYPTO_CHECK')
def _cc(I, e, args, st, fr):
    I.eval(args[0], st, fr); return V

def noop(I, e, args, st, fr):
    for a in args:
        I.eval(a, st, fr)
    return V
for n in ('BN_free', 'BN_CTX_free', 'EC_POINT_free', 'CRYPTO_free', 'free', 'perror', 'fprintf', 'printf', 'srand',
          'std::setw', 'std::setfill', 'omp_set_num_threads', '__builtin_prefetch', 'fflush', '_mm_free',
          'EVP_MD_CTX_free', 'EVP_DigestInit_ex'):
    PRIMS[n] = noop
def skip(I, e, args, st, fr): return V
for n in ('std::chrono::steady_clock::now', 'std::chrono::operator-', 'std::chrono::duration::count', 'ERR_get_error', 'ERR_error_string_n'):
    PRIMS[n] = (lambda I, e, args, st, fr: T_('time'))
PRIMS['ctor:std::chrono::duration'] = lambda I, e, args, st, fr: T_('time')
PRIMS['omp_get_thread_num'] = lambda I, e, args, st, fr: T_('tid')
PRIMS['omp_get_max_threads'] = lambda I, e, args, st, fr: T_('nthreads')

# ------------------------------------------------------------------ BIGNUM
@prim('BN_new', 'BN_secure_new')
def _(I, e, args, st, fr):
    r = I.newroot(); st.cells[r] = ZERO
    return I.ptr((r, ()))
PRIMS['BN_CTX_new'] = lambda I, e, args, st, fr: T_('ctx')

def bn(f, outi=0, ins=(1, 2)):
    def g(I, e, args, st, fr):
        ps = [I.eval(a, st, fr) for a in args]
        vs = [content(I, ps[i], st, fr) for i in ins]
        put(I, ps[outi], f(*vs), st, fr)
        return ONE
    return g
PRIMS['BN_add'] = bn(add)
PRIMS['BN_sub'] = bn(sub)
PRIMS['BN_mul'] = bn(mul)
PRIMS['BN_sqr'] = bn(lambda a: mul(a, a), 0, (1,))
def bnexp(a, b):
    if isc(a) and isc(b) and 0 <= b.a[0] <= 512: return C(a.a[0] ** b.a[0])
    return T_('bnexp', a, b)
tm.register('bnexp', bnexp)
PRIMS['BN_exp'] = bn(bnexp)
PRIMS['BN_gcd'] = bn(lambda a, b: T_('gcd', *sorted((a, b), key=lambda t: t.id)))
PRIMS['BN_nnmod'] = bn(lambda a, m: mod(m, a))
PRIMS['BN_mod_add'] = bn(lambda a, b, m: mod(m, add(a, b)), 0, (1, 2, 3))
PRIMS['BN_mod_sub'] = bn(lambda a, b, m: mod(m, sub(a, b)), 0, (1, 2, 3))
PRIMS['BN_mod_mul'] = bn(lambda a, b, m: mod(m, mul(a, b)), 0, (1, 2, 3))
PRIMS['BN_mod_sqr'] = bn(lambda a, m: mod(m, mul(a, a)), 0, (1, 2))
def bnmodexp(a, b, m):
    if isc(b) and 0 <= b.a[0] <= 16:
        r = ONE
        for _ in range(b.a[0]): r = mod(m, mul(r, a))
        return r
    return T_('bnmodexp', a, b, m)
PRIMS['BN_mod_exp'] = bn(bnmodexp, 0, (1, 2, 3))
def _minv(I, e, args, st, fr):
    ps = [I.eval(a, st, fr) for a in args]
    r = minv(content(I, ps[2], st, fr), content(I, ps[1], st, fr))
    if ps[0].op == 'null':
        root = I.newroot(); st.cells[root] = r; return I.ptr((root, ()))
    put(I, ps[0], r, st, fr); return ps[0]
PRIMS['BN_mod_inverse'] = _minv
def _msqrt(I, e, args, st, fr):
    ps = [I.eval(a, st, fr) for a in args]
    put(I, ps[0], T_('msqrt', content(I, ps[1], st, fr), content(I, ps[2], st, fr)), st, fr); return ps[0]
PRIMS['BN_mod_sqrt'] = _msqrt
@prim('BN_div')
def _(I, e, args, st, fr):
    ps = [I.eval(a, st, fr) for a in args]
    a, b = content(I, ps[2], st, fr), content(I, ps[3], st, fr)
    if ps[0].op != 'null': put(I, ps[0], div(a, b) if isc(b) and False else T_('bndiv', a, b), st, fr)
    if ps[1].op != 'null': put(I, ps[1], T_('bnrem', a, b), st, fr)
    return ONE
def _copy(I, e, args, st, fr):
    ps = [I.eval(a, st, fr) for a in args]
    put(I, ps[0], content(I, ps[1], st, fr), st, fr)
    return ps[0]
PRIMS['BN_copy'] = _copy
PRIMS['EC_POINT_copy'] = lambda I, e, args, st, fr: (_copy(I, e, args, st, fr), ONE)[1]
@prim('BN_dup')
def _(I, e, args, st, fr):
    r = I.newroot(); st.cells[r] = content(I, I.eval(args[0], st, fr), st, fr); return I.ptr((r, ()))
@prim('BN_set_word')
def _(I, e, args, st, fr):
    p = I.eval(args[0], st, fr); put(I, p, I.eval(args[1], st, fr), st, fr); return ONE
@prim('BN_get_word')
def _(I, e, args, st, fr): return content(I, I.eval(args[0], st, fr), st, fr)
def bn1(op):
    def g(I, e, args, st, fr): return T_(op, content(I, I.eval(args[0], st, fr), st, fr))
    return g
PRIMS['BN_num_bits'] = bn1('numbits')
PRIMS['BN_is_zero'] = lambda I, e, args, st, fr: eq(content(I, I.eval(args[0], st, fr), st, fr), ZERO)
PRIMS['BN_is_one'] = lambda I, e, args, st, fr: eq(content(I, I.eval(args[0], st, fr), st, fr), ONE)
def isneg(v): return (TRUE if v.a[0] < 0 else FALSE) if isc(v) else T_('bool', T_('isneg', v))
PRIMS['BN_is_negative'] = lambda I, e, args, st, fr: isneg(content(I, I.eval(args[0], st, fr), st, fr))
PRIMS['BN_is_prime_ex'] = lambda I, e, args, st, fr: T_('bool', T_('isprime', content(I, I.eval(args[0], st, fr), st, fr)))
@prim('BN_is_bit_set')
def _(I, e, args, st, fr): return T_('bool', T_('bit', content(I, I.eval(args[0], st, fr), st, fr), I.eval(args[1], st, fr)))
@prim('BN_cmp', 'BN_ucmp')
def _(I, e, args, st, fr):
    a, b = [content(I, I.eval(x, st, fr), st, fr) for x in args[:2]]
    if a is b: return ZERO
    return T_('bnucmp' if e[3] == 'BN_ucmp' else 'bncmp', a, b)
tm.register('bnucmp', lambda a, b: ZERO if a is b else T_('bnucmp', a, b))
tm.register('bncmp', lambda a, b: ZERO if a is b else T_('bncmp', a, b))
@prim('BN_set_negative')
def _(I, e, args, st, fr):
    p = I.eval(args[0], st, fr); v = content(I, p, st, fr); n = I.eval(args[1], st, fr)
    put(I, p, setneg(v, n), st, fr)
    return V
def setneg(v, n):
    """BN_set_negative: sign of v becomes negative iff n != 0 (and v != 0)"""
    nb = boolv(n)
    isn = T_('bool', T_('isneg', v))
    if nb is not_(isn): return neg(v)
    if nb is isn: return v
    if isc(v) and nb in (TRUE, FALSE): return C(-abs(v.a[0]) if nb is TRUE else abs(v.a[0]))
    if nb is TRUE: return T_('setneg', v)
    return T_('setneg', v, n)
@prim('BN_lshift')
def _(I, e, args, st, fr):
    p = I.eval(args[0], st, fr); a = content(I, I.eval(args[1], st, fr), st, fr); k = I.eval(args[2], st, fr)
    put(I, p, shl(a, k), st, fr); return ONE
@prim('BN_rshift')
def _(I, e, args, st, fr):
    p = I.eval(args[0], st, fr); a = content(I, I.eval(args[1], st, fr), st, fr); k = I.eval(args[2], st, fr)
    put(I, p, shr(a, k), st, fr); return ONE
@prim('BN_mask_bits')
def _(I, e, args, st, fr):
    p = I.eval(args[0], st, fr); a = content(I, p, st, fr); k = I.eval(args[1], st, fr)
    put(I, p, maskbits(a, k), st, fr); return ONE
@prim('BN_rand_range', 'BN_priv_rand_range')
def _(I, e, args, st, fr):
    p = I.eval(args[0], st, fr); m = content(I, I.eval(args[1], st, fr), st, fr)
    put(I, p, I.fresh('rand', 'range', m), st, fr); return ONE
@prim('BN_rand', 'BN_priv_rand')
def _(I, e, args, st, fr):
    p = I.eval(args[0], st, fr)
    put(I, p, I.fresh('rand', 'bits', I.eval(args[1], st, fr)), st, fr); return ONE
@prim('BN_generate_prime_ex')
def _(I, e, args, st, fr):
    p = I.eval(args[0], st, fr)
    put(I, p, I.fresh('rand', 'prime', I.eval(args[1], st, fr), I.eval(args[2], st, fr)), st, fr); return ONE
@prim('RAND_bytes', 'RAND_priv_bytes')
def _(I, e, args, st, fr):
    p = I.eval(args[0], st, fr); n = I.eval(args[1], st, fr)
    I.write_region(p, n, T_('bytesof', I.fresh('rand', 'bytes', n), n), st, fr); return ONE

# BN <-> bytes
def bn2bin(x, n): return T_('bnbytes', x, n)
def bin2bn(b):
    if b.op == 'bnbytes': return b.a[0]
    return T_('bin2bn', b)
tm.register('bin2bn', bin2bn)
@prim('BN_bn2binpad')
def _(I, e, args, st, fr):
    x = content(I, I.eval(args[0], st, fr), st, fr); p = I.eval(args[1], st, fr); n = I.eval(args[2], st, fr)
    I.write_region(p, n, T_('bnbytes', x, n), st, fr); return n
@prim('BN_bn2bin')
def _(I, e, args, st, fr):
    x = content(I, I.eval(args[0], st, fr), st, fr); p = I.eval(args[1], st, fr)
    n = div(add(T_('numbits', x), C(7)), C(8))
    I.write_region(p, n, T_('bnbytes', x, n), st, fr); return n
_sz = {}
@prim('BN_bin2bn')
def _(I, e, args, st, fr):
    p = I.eval(args[0], st, fr); n = I.eval(args[1], st, fr); o = I.eval(args[2], st, fr)
    b = I.read_region(p, n, st, fr)
    if o.op == 'null':
        r = I.newroot(); st.cells[r] = bin2bn(b); return I.ptr((r, ()))
    put(I, o, bin2bn(b), st, fr); return o
for n_, op in (('BN_bn2dec', 'dec'), ('BN_bn2hex', 'hex')):
    def mk(op):
        def g(I, e, args, st, fr):
            r = I.newroot(); st.cells[r] = T_(op + 'str', content(I, I.eval(args[0], st, fr), st, fr)); return I.ptr((r, (('i', ZERO),)))
        return g
    PRIMS[n_] = mk(op)

# ------------------------------------------------------------------ EC
@prim('EC_POINT_new')
def _(I, e, args, st, fr):
    r = I.newroot(); st.cells[r] = INF; return I.ptr((r, ()))
@prim('EC_POINT_set_to_infinity')
def _(I, e, args, st, fr):
    put(I, I.eval(args[1], st, fr), INF, st, fr); return ONE
@prim('EC_POINT_add')
def _(I, e, args, st, fr):
    ps = [I.eval(a, st, fr) for a in args[1:4]]
    put(I, ps[0], pt_add(content(I, ps[1], st, fr), content(I, ps[2], st, fr)), st, fr); return ONE
@prim('EC_POINT_dbl')
def _(I, e, args, st, fr):
    ps = [I.eval(a, st, fr) for a in args[1:3]]
    put(I, ps[0], pt_mul(content(I, ps[1], st, fr), C(2)), st, fr); return ONE
@prim('EC_POINT_invert')
def _(I, e, args, st, fr):
    p = I.eval(args[1], st, fr); put(I, p, pt_mul(content(I, p, st, fr), C(-1)), st, fr); return ONE
@prim('EC_POINT_mul')
def _(I, e, args, st, fr):
    r, n, q, m = [I.eval(a, st, fr) for a in args[1:5]]
    acc = INF
    if n.op != 'null': acc = pt_add(acc, pt_mul(GEN, content(I, n, st, fr)))
    if q.op != 'null' and m.op != 'null': acc = pt_add(acc, pt_mul(content(I, q, st, fr), content(I, m, st, fr)))
    put(I, r, acc, st, fr); return ONE
@prim('EC_POINTs_mul')
def _(I, e, args, st, fr):
    r, n, num, pts, scs = [I.eval(a, st, fr) for a in args[1:6]]
    pa = I.load(st, I.arr_of(pts, st, fr)[0]); sa = I.load(st, I.arr_of(scs, st, fr)[0])
    po = I.arr_of(pts, st, fr)[1]; so = I.arr_of(scs, st, fr)[1]
    def at(arr, i):
        x = sel(arr, i)
        if x.op == 'ptr':
            return I.load(st, (x.a[0], x.a[1]))
        return x
    acc = INF
    if n.op != 'null': acc = pt_mul(GEN, content(I, n, st, fr))
    w = T_('lv', uid(), num)
    acc = pt_add(acc, bind('psum', num, w, pt_mul(at(pa, add(po, w)), at(sa, add(so, w)))))
    put(I, r, acc, st, fr); return ONE
@prim('EC_POINT_cmp')
def _(I, e, args, st, fr):
    a, b = [content(I, I.eval(x, st, fr), st, fr) for x in args[1:3]]
    return ite(peq(a, b), ZERO, ONE)
@prim('EC_POINT_is_at_infinity')
def _(I, e, args, st, fr): return ite(peq(content(I, I.eval(args[1], st, fr), st, fr), INF), ONE, ZERO)
@prim('EC_POINT_is_on_curve')
def _(I, e, args, st, fr): return T_('bool', T_('oncurve', content(I, I.eval(args[1], st, fr), st, fr)))
def pt2oct(p, n, form): return T_('ptbytes', p, n, form)
def oct2pt(b):
    if b.op == 'ptbytes': return b.a[0]
    return T_('oct2pt', b)
tm.register('oct2pt', oct2pt)
@prim('EC_POINT_point2oct')
def _(I, e, args, st, fr):
    x = content(I, I.eval(args[1], st, fr), st, fr); form = I.eval(args[2], st, fr); p = I.eval(args[3], st, fr); n = I.eval(args[4], st, fr)
    if p.op != 'null': I.write_region(p, n, T_('ptbytes', x, n, form), st, fr)
    return n
@prim('EC_POINT_oct2point')
def _(I, e, args, st, fr):
    o = I.eval(args[1], st, fr); p = I.eval(args[2], st, fr); n = I.eval(args[3], st, fr)
    put(I, o, oct2pt(I.read_region(p, n, st, fr)), st, fr); return ONE
@prim('EC_POINT_point2hex')
def _(I, e, args, st, fr):
    r = I.newroot(); st.cells[r] = T_('pthex', content(I, I.eval(args[1], st, fr), st, fr)); return I.ptr((r, (('i', ZERO),)))
@prim('EC_POINT_set_affine_coordinates_GFp')
def _(I, e, args, st, fr):
    put(I, I.eval(args[1], st, fr), T_('affine', content(I, I.eval(args[2], st, fr), st, fr), content(I, I.eval(args[3], st, fr), st, fr)), st, fr); return ONE
@prim('EC_POINT_set_compressed_coordinates', 'EC_POINT_set_compressed_coordinates_GFp')
def _(I, e, args, st, fr):
    put(I, I.eval(args[1], st, fr), T_('compressed', content(I, I.eval(args[2], st, fr), st, fr), I.eval(args[3], st, fr)), st, fr); return ONE
tm.register('undefpt', lambda *a: T_('undefpt', *a))
tm.register('ptbytes', lambda p, n, f: T_('ptbytes', p, n, f))

import terms, interp
SIZEF = tm.SIZEF
for _o in ('bnbytes', 'ptbytes', 'bytesof', 'rep'): SIZEF[_o] = lambda t: t.a[1]
SIZEF['rd'] = lambda t: t.a[2]
SIZEF['hash'] = lambda t: C(32)
SIZEF['xpt'] = lambda t: C(32)
SIZEF['shuffle'] = lambda t: tm.size(t.a[0])
SIZEF['prgbytes'] = lambda t: t.a[2]

# ------------------------------------------------------------------ hash
@prim('SHA256')
def _(I, e, args, st, fr):
    p = I.eval(args[0], st, fr); n = I.eval(args[1], st, fr); o = I.eval(args[2], st, fr)
    I.write_region(o, C(32), T_('hash', 'SHA256', I.read_region(p, n, st, fr)), st, fr); return o
PRIMS['EVP_sm3'] = lambda I, e, args, st, fr: T_('fnp', 'sm3', 'sm3')
@prim('EVP_MD_CTX_new')
def _(I, e, args, st, fr):
    r = I.newroot(); st.cells[r] = EMPTY; return I.ptr((r, ()))
@prim('EVP_DigestUpdate')
def _(I, e, args, st, fr):
    c, p, n = [I.eval(a, st, fr) for a in args]
    l = I.deref(c, st, fr); I.store(st, l, cat(I.load(st, l), I.read_region(p, n, st, fr))); return ONE
@prim('EVP_DigestFinal_ex')
def _(I, e, args, st, fr):
    c, o, n = [I.eval(a, st, fr) for a in args]
    l = I.deref(c, st, fr)
    I.write_region(o, C(32), T_('hash', 'SM3', I.load(st, l)), st, fr); return ONE

# ------------------------------------------------------------------ memory
def elem_size(e):
    """byte size of the element a pointer expression points to (looks through casts)"""
    while e and e[0] == 'cast': e = e[4]
    ty = None
    if e[0] == 'v': ty = e[4]
    elif e[0] == 'm': ty = e[5]
    elif e[0] == 'call': ty = e[5]
    elif e[0] == '[]': ty = e[4]
    elif e[0] == 'u' and e[2] == '&':
        x = e[3]
        ty = (x[4] if x[0] in ('v', '[]') else x[5] if x[0] in ('m', 'call') else None)
        if ty: return sizeof(ty), True
    elif e[0] == 'b': return elem_size(e[3])
    if not ty: return None, False
    if ty.endswith('*'): return sizeof(ty[:-1].strip()), False
    if ty.endswith(']'): return sizeof(ty[:ty.index('[')].strip()), False
    return None, False
def sizeof(ty):
    ty = ty.replace('const ', '').strip()
    if ty in SIZEOF: return SIZEOF[ty]
    if '__vector_size__(2' in ty: return 16
    if ty == 'EC25519Point': return 32
    return None

@prim('memcpy', 'memmove')
def _(I, e, args, st, fr):
    d = I.eval(args[0], st, fr); s = I.eval(args[1], st, fr); n = I.eval(args[2], st, fr)
    es, addr_s = elem_size(args[1]); ed, addr_d = elem_size(args[0])
    # source bytes
    def scale(n, k):
        return div(n, C(k)) if k and k > 1 else n
    if es and es > 1 and ed == es:
        al, off = I.arr_of(s, st, fr)
        val = region_read(I.load(st, al), off, scale(n, es))
        I.write_region(d, scale(n, es), val, st, fr)
        return d
    if s.op == 's': val = s if n is tm.size(s) else T_('slice', s, ZERO, n)
    elif s.op == 'ptr':
        al, off = I.arr_of(s, st, fr)
        v = I.load(st, al)
        if es and es > 1 and not (s.a[1] and s.a[1][-1][0] == 'i'):
            val = T_('bytesof', v, n)          # object representation of a scalar/struct
        elif es and es > 1:
            k = C(-(-n.a[0] // es)) if isc(n) else div(n, C(es))
            if not isc(n) and k.op == 'div' and off is ZERO: val = T_('bytesof', v, n)      # a prefix that may end inside an element
            else: val = T_('bytesof', sel(v, off), n) if k is ONE else T_('bytesof', slice_(v, off, k), n)
        else: val = region_read(v, off, n)
    else:
        al, off = I.arr_of(s, st, fr)
        val = region_read(I.load(st, al), off, n)
    if ed and ed > 1:
        # bytes into a scalar/struct object
        lv_ = I.deref(d, st, fr)
        k = div(n, C(ed))
        if k is ONE:
            I.store(st, lv_, frombytes(val))
        else:
            al, off = I.arr_of(d, st, fr)
            I.store(st, al, region_write(I.load(st, al), off, k, frombytes(val)))
        return d
    I.write_region(d, n, val, st, fr)
    return d
def frombytes(v):
    if v.op == 'bytesof': return v.a[0]
    if v.op == 'rep' and v.a[0] is ZERO: return ZERO
    return T_('frombytes', v)
tm.register('frombytes', frombytes)
@prim('memset')
def _(I, e, args, st, fr):
    d = I.eval(args[0], st, fr); c = I.eval(args[1], st, fr); n = I.eval(args[2], st, fr)
    ed, _a = elem_size(args[0])
    if ed and ed > 1 and c is ZERO:
        k = div(n, C(ed))
        if not (d.op == 'ptr' and d.a[1] and d.a[1][-1][0] == 'i'):
            I.store(st, I.deref(d, st, fr), T_('zeroed', 0)); return d
        n = k
    I.write_region(d, n, T_('rep', c, n), st, fr); return d
@prim('memcmp')
def _(I, e, args, st, fr):
    a = I.eval(args[0], st, fr); b = I.eval(args[1], st, fr); n = I.eval(args[2], st, fr)
    return ite(eq(I.read_region(a, n, st, fr), I.read_region(b, n, st, fr)), ZERO, ONE)

# ------------------------------------------------------------------ math
PRIMS['std::max'] = lambda I, e, a, st, fr: _minmax(I, a, st, fr, True)
PRIMS['std::min'] = lambda I, e, a, st, fr: _minmax(I, a, st, fr, False)
def _minmax(I, a, st, fr, mx):
    x, y = [I.eval(z, st, fr) for z in a[:2]]
    c = lt(x, y)
    return ite(c, y, x) if mx else ite(c, x, y)
def uf(name, comm=False):
    def g(I, e, args, st, fr):
        vs = [b2i(I.eval(a, st, fr)) for a in args]
        return T_(name, *vs)
    return g
import math
def log2_(I, e, args, st, fr):
    v = I.eval(args[0], st, fr)
    if isc(v) and v.a[0] > 0 and v.a[0] & (v.a[0] - 1) == 0: return C(v.a[0].bit_length() - 1)
    return T_('log2', v)
for n in ('log2', 'std::log2', 'log2l', 'log2f'): PRIMS[n] = log2_
for n in ('log', 'std::log', 'ceil', 'std::ceil', 'floor', 'std::floor', 'sqrt', 'std::sqrt', 'exp', 'round', 'std::round', 'lround', 'std::lround', 'abs', 'std::abs'):
    PRIMS[n] = (lambda nm: (lambda I, e, args, st, fr: _f1(nm, I.eval(args[0], st, fr))))(n.split('::')[-1])
def flt(t):
    """constant floating value of a term, or None"""
    if isc(t): return float(t.a[0])
    if t.op == 'fn1':
        x = flt(t.a[1])
        if x is None: return None
        try: return {'log': math.log, 'ceil': math.ceil, 'floor': math.floor, 'sqrt': math.sqrt, 'exp': math.exp, 'round': lambda v: math.floor(v + 0.5), 'lround': lambda v: math.floor(v + 0.5)}[t.a[0]](x)
        except (KeyError, ValueError): return None
    if t.op == 'log2':
        x = flt(t.a[0]); return math.log2(x) if x and x > 0 else None
    if t.op == 'fp/':
        a, b = flt(t.a[0]), flt(t.a[1])
        return None if a is None or not b else a / b
    return None
def toint(t):
    x = flt(t)
    return C(int(x)) if x is not None else (t if t.op in ('c', 'poly', 'size') else T_('toint', t))
tm.register('toint', toint)
def _f1(nm, v):
    if nm in ('ceil', 'floor', 'round') and v.op in ('c', 'poly', 'size', 'log2i'): return v
    return T_('fn1', nm, v)
def pow_(I, e, args, st, fr):
    a, b = [I.eval(x, st, fr) for x in args[:2]]
    if isc(a) and isc(b) and b.a[0] >= 0: return C(a.a[0] ** b.a[0])
    if isc(a) and a.a[0] == 2: return T_('pow2', b)
    return T_('powf', a, b)
for n in ('pow', 'std::pow'): PRIMS[n] = pow_
_oldshl = tm.shl
def shl3(a, k):
    if isc(a) and a.a[0] == 1 and not isc(k): return T_('pow2', k)
    return _oldshl(a, k)
tm.shl = shl3; interp.shl = shl3; shl = shl3; tm._REB['shl'] = shl3
PRIMS['rand'] = lambda I, e, a, st, fr: I.fresh('weakrand', 'rand')
PRIMS['time'] = lambda I, e, a, st, fr: T_('time')
PRIMS['std::random_device::operator()'] = lambda I, e, a, st, fr: I.fresh('rand', 'device')
PRIMS['htonl'] = uf('htonl'); PRIMS['htons'] = uf('htons'); PRIMS['inet_addr'] = uf('inet_addr')
PRIMS['toupper'] = uf('toupper')
PRIMS['std::move'] = lambda I, e, a, st, fr: I.lval(a[0], st, fr) if len(a) < 3 else PRIMS['std::copy'](I, e, a, st, fr)
PRIMS['std::forward'] = PRIMS['std::move']
@prim('std::swap')
def _(I, e, args, st, fr):
    a = I.lval(args[0], st, fr); b = I.lval(args[1], st, fr)
    x, y = I.load(st, a), I.load(st, b)
    I.store(st, a, y); I.store(st, b, x); return V

# ------------------------------------------------------------------ containers
def cont(I, a, st, fr): return I.lval(a, st, fr)

@prim('std::vector::operator[]', 'std::vector::at', 'std::basic_string::operator[]', 'std::basic_string::at', 'std::array::operator[]', 'std::array::at')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); i = I.eval(args[1], st, fr)
    return (l[0], l[1] + (('i', b2i(i)),))
@prim('std::unique_ptr::operator[]')
def _(I, e, args, st, fr):
    p = I.eval(args[0], st, fr); i = I.eval(args[1], st, fr)
    return I.deref(I.ptr_add(p, i), st, fr)
PRIMS['std::unique_ptr::get'] = lambda I, e, a, st, fr: I.eval(a[0], st, fr)
@prim('std::unique_ptr::reset')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); I.store(st, l, I.eval(args[1], st, fr) if len(args) > 1 else T_('null')); return V
@prim('std::vector::front', 'std::basic_string::front')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); return (l[0], l[1] + (('i', ZERO),))
@prim('std::vector::back', 'std::basic_string::back')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); n = size(I.load(st, l)); return (l[0], l[1] + (('i', sub(n, ONE)),))
@prim('std::vector::size', 'std::basic_string::size', 'std::basic_string::length', 'std::set::size', 'std::unordered_set::size', 'std::unordered_map::size', 'std::array::size')
def _(I, e, args, st, fr): return size(I.load(st, cont(I, args[0], st, fr)))
@prim('std::vector::empty', 'std::basic_string::empty', 'std::unordered_map::empty', 'std::set::empty')
def _(I, e, args, st, fr): return eq(size(I.load(st, cont(I, args[0], st, fr))), ZERO)
PRIMS['std::vector::capacity'] = PRIMS['std::vector::size']
@prim('std::vector::data', 'std::basic_string::data', 'std::basic_string::c_str', 'std::array::data')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); return I.ptr((l[0], l[1] + (('i', ZERO),)))
@prim('std::vector::begin', 'std::basic_string::begin', 'std::vector::cbegin', 'std::array::begin', 'std::set::begin', 'std::unordered_set::begin', 'std::unordered_map::begin', 'std::begin', 'std::set::cbegin')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); return T_('it', l[0], l[1], ZERO)
@prim('std::vector::end', 'std::basic_string::end', 'std::vector::cend', 'std::array::end', 'std::set::end', 'std::end')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); return T_('it', l[0], l[1], size(I.load(st, l)))
@prim('std::unordered_set::end', 'std::unordered_map::end', 'std::unordered_set::cend')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); return T_('mend', I.load(st, l))
@prim('std::unordered_set::find', 'std::unordered_map::find', 'std::set::find')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); k = I.eval(args[1], st, fr); return T_('mfind', I.load(st, l), k)
@prim('std::unordered_set::count', 'std::unordered_map::count', 'std::set::count', 'std::unordered_set::contains')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); k = I.eval(args[1], st, fr); return ite(T_('bool', T_('member', I.load(st, l), k)), ONE, ZERO)
@prim('std::unordered_set::insert', 'std::set::insert', 'std::unordered_set::emplace', 'std::set::emplace')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr)
    if len(args) == 2:
        k = I.eval(args[1], st, fr); I.store(st, l, T_('cat', (I.load(st, l),)) if False else cat(I.load(st, l), T_('vec', (k,))))
        return T_('void')
    return I.opaque('set insert')
@prim('std::unordered_map::operator[]')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); k = I.eval(args[1], st, fr)
    return (l[0], l[1] + (('i', T_('key', k)),))
PRIMS['std::unordered_map::reserve'] = skip
PRIMS['std::vector::reserve'] = skip
PRIMS['std::vector::shrink_to_fit'] = skip
PRIMS['std::basic_string::reserve'] = skip
def itcmp(neg_):
    def g(I, e, args, st, fr):
        a, b = [I.eval(x, st, fr) for x in args[:2]]
        r = None
        for x, y in ((a, b), (b, a)):
            if x.op == 'mfind' and (y.op == 'mend'): r = not_(T_('bool', T_('member', x.a[0], x.a[1])))
        if r is None: r = eq(a, b)
        return not_(r) if neg_ else r
    return g
for n in ('std::__detail::operator==', '__gnu_cxx::operator==', 'std::operator=='): PRIMS[n] = itcmp(False)
for n in ('std::__detail::operator!=', '__gnu_cxx::operator!=', 'std::operator!='): PRIMS[n] = itcmp(True)
PRIMS['__gnu_cxx::operator<'] = lambda I, e, a, st, fr: lt(I.eval(a[0], st, fr), I.eval(a[1], st, fr))
PRIMS['__gnu_cxx::operator-'] = lambda I, e, a, st, fr: I.arith('-', I.eval(a[0], st, fr), I.eval(a[1], st, fr), 'long')
PRIMS['__gnu_cxx::__normal_iterator::operator+'] = lambda I, e, a, st, fr: I.ptr_add(I.eval(a[0], st, fr), I.eval(a[1], st, fr))
PRIMS['__gnu_cxx::__normal_iterator::operator-'] = lambda I, e, a, st, fr: I.arith('-', I.eval(a[0], st, fr), I.eval(a[1], st, fr), 'long')
@prim('__gnu_cxx::__normal_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--')
def _(I, e, args, st, fr):
    l = I.lval(args[0], st, fr); o = I.load(st, l)
    n = I.ptr_add(o, ONE if '++' in e[3] else C(-1)); I.store(st, l, n)
    return o if len(args) > 1 else l
@prim('__gnu_cxx::__normal_iterator::operator+=')
def _(I, e, args, st, fr):
    l = I.lval(args[0], st, fr); I.store(st, l, I.ptr_add(I.load(st, l), I.eval(args[1], st, fr))); return l
@prim('__gnu_cxx::__normal_iterator::operator*', '__gnu_cxx::__normal_iterator::operator->', 'std::unique_ptr::operator*')
def _(I, e, args, st, fr): return I.deref(I.eval(args[0], st, fr), st, fr)
def rit_add(t, k):
    if t.op != 'rit': raise Unsupported('reverse iterator')
    return T_('rit', t.a[0], t.a[1], sub(t.a[2], k))
@prim('std::vector::rbegin', 'std::vector::crbegin')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); return T_('rit', l[0], l[1], size(I.load(st, l)))
@prim('std::vector::rend', 'std::vector::crend')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); return T_('rit', l[0], l[1], ZERO)
PRIMS['std::reverse_iterator::operator+'] = lambda I, e, a, st, fr: rit_add(I.eval(a[0], st, fr), I.eval(a[1], st, fr))
@prim('std::reverse_iterator::operator++', 'std::reverse_iterator::operator+=')
def _(I, e, a, st, fr):
    l = I.lval(a[0], st, fr); old = I.load(st, l); plus = e and len(a) > 1 and 'operator+=' in str(e)[:400]
    new = rit_add(old, I.eval(a[1], st, fr) if plus else ONE); I.store(st, l, new)
    return new if plus or len(a) == 1 else old
@prim('std::reverse_iterator::operator*')
def _(I, e, a, st, fr):
    t = I.eval(a[0], st, fr)
    if t.op != 'rit': raise Unsupported('reverse iterator')
    return (t.a[0], t.a[1] + (('i', sub(t.a[2], ONE)),))
PRIMS['ctor:std::reverse_iterator'] = lambda I, e, a, st, fr: I.eval(a[0], st, fr) if a else T_('null')
PRIMS['ctor:__gnu_cxx::__normal_iterator'] = lambda I, e, a, st, fr: I.eval(a[0], st, fr) if a else T_('null')
PRIMS['ctor:std::unique_ptr'] = lambda I, e, a, st, fr: I.eval(a[0], st, fr) if a else T_('null')
PRIMS['ctor:std::allocator'] = lambda I, e, a, st, fr: V

@prim('std::vector::push_back', 'std::vector::emplace_back', 'std::basic_string::push_back')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr)
    x = I.eval(args[1], st, fr) if len(args) > 1 else T_('undef', uid())
    I.store(st, l, cat(I.load(st, l), T_('vec', (x,)))); return V
@prim('std::vector::pop_back')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); v = I.load(st, l); I.store(st, l, slice_(v, ZERO, sub(size(v), ONE))); return V
@prim('std::vector::clear', 'std::basic_string::clear')
def _(I, e, args, st, fr):
    I.store(st, cont(I, args[0], st, fr), EMPTY); return V

def vec_elem_ty(ty):
    i = ty.find('<')
    d = 0
    for j in range(i + 1, len(ty)):
        c = ty[j]
        if c == '<' or c == '(': d += 1
        elif c == '>' or c == ')':
            if d == 0: return ty[i + 1:j].strip()
            d -= 1
        elif c == ',' and d == 0: return ty[i + 1:j].strip()
    return ''
def obj_ty(a):
    """static type of an lvalue expression"""
    k = a[0]
    if k == 'v': return a[4]
    if k == 'm': return a[5]
    if k in ('call',): return a[5]
    if k == '[]': return a[4]
    if k == 'g': return a[3]
    if k == 'u': return a[4] if len(a) > 4 else ''
    return ''
def repv(n, x):
    if isc(n) and n.a[0] <= 0: return EMPTY
    w = T_('lv', uid(), n)
    return bind('map', n, w, x)
@prim('std::vector::resize', 'std::basic_string::resize', 'std::vector::assign')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); v = I.load(st, l)
    if e[3].endswith('assign'):
        a, b = I.eval(args[1], st, fr), I.eval(args[2], st, fr)
        if a.op in ('it', 'ptr') and b.op in ('it', 'ptr'):
            I.store(st, l, itrange(I, a, b, st, fr))
        else: I.store(st, l, repv(a, b))
        return V
    n = I.eval(args[1], st, fr)
    if len(args) > 2: d = I.eval(args[2], st, fr)
    else:
        et = vec_elem_ty(strip_cv(e[3]))
        d = I.default(et, st, fr, True) if et else ZERO
    if n is size(v): return V
    if size(v) is ZERO: I.store(st, l, repv(n, d)); return V
    if isc(n) and isc(size(v)):
        k = n.a[0] - size(v).a[0]
        I.store(st, l, cat(v, repv(C(k), d)) if k > 0 else slice_(v, ZERO, n)); return V
    I.store(st, l, T_('resize', v, n, d)); return V
tm.register('resize', lambda v, n, d: v if n is size(v) else (repv(n, d) if size(v) is ZERO else T_('resize', v, n, d)))
def strip_cv(q): return q
def itrange(I, a, b, st, fr):
    if a.op == 'ptr': al, off = I.arr_of(a, st, fr); bl, boff = I.arr_of(b, st, fr)
    else: al, off = (a.a[0], a.a[1]), a.a[2]; bl, boff = ((b.a[0], b.a[1]), b.a[2]) if b.op == 'it' else I.arr_of(b, st, fr)
    if al != bl: return I.opaque('iterator range over different containers')
    return slice_(I.load(st, al), off, sub(boff, off))
@prim('ctor:std::vector', 'ctor:std::basic_string', 'ctor:std::set', 'ctor:std::unordered_set', 'ctor:std::unordered_map', 'ctor:std::list', 'ctor:std::map')
def _(I, e, args, st, fr):
    ty = e[3]
    args = [a for a in args if not (a[0] == 'ctor' and a[3].startswith('std::allocator')) and not (a[0] == 'call' and 'allocator' in a[5] and 'std::vector' not in a[5])]
    if not args: return EMPTY
    vs = [I.eval(a, st, fr) for a in args]
    if ty.startswith('std::basic_string'):
        if len(vs) == 1:
            v = vs[0]
            if v.op == 's': return v
            if v.op == 'ptr':
                al, off = I.arr_of(v, st, fr); x = I.load(st, al)
                return x if off is ZERO and x.op in ('decstr', 'hexstr', 'pthex', 's') else T_('cstr', x, off)
            return v
        if len(vs) == 2:
            a, b = vs
            if a.op in ('it',) and b.op == 'it': return itrange(I, a, b, st, fr)
            if a.op == 'ptr' and b.op == 'ptr': return itrange(I, a, b, st, fr)
            if a.op == 's': return a if b is tm.size(a) else T_('slice', a, ZERO, b)
            if a.op == 'ptr': return I.read_region(a, b, st, fr)
            if not (a.op in ('ptr', 'it')): return repv(a, b) if isc(b) else T_('slice', a, ZERO, b)
        if len(vs) == 3: return slice_(vs[0], vs[1], vs[2])
        return I.opaque('string ctor')
    if args[0][0] == 'init' or vs[0].op in ('vec',): return vs[0]
    if len(vs) == 1:
        et = vec_elem_ty(ty)
        if vs[0].op in ('map', 'cat') : return vs[0]
        return repv(vs[0], I.default(et, st, fr, True))
    a, b = vs[:2]
    if a.op in ('it', 'ptr') and b.op in ('it', 'ptr'): return itrange(I, a, b, st, fr)
    return repv(a, b)
@prim('std::vector::insert')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr); v = I.load(st, l)
    pos = I.eval(args[1], st, fr)
    vs = [I.eval(a, st, fr) for a in args[2:]]
    x = itrange(I, vs[0], vs[1], st, fr) if len(vs) == 2 and vs[0].op in ('it', 'ptr') else (T_('vec', (vs[0],)) if len(vs) == 1 else repv(vs[0], vs[1]))
    k = pos.a[2] if pos.op == 'it' else None
    if k is None: return I.opaque('insert')
    I.store(st, l, cat(slice_(v, ZERO, k), x, slice_(v, k, sub(size(v), k))))
    return V
@prim('std::copy')
def _(I, e, args, st, fr):
    a, b, d = [I.eval(x, st, fr) for x in args[:3]]
    r = itrange(I, a, b, st, fr)
    if d.op == 'backins':
        l = (d.a[0], d.a[1]); I.store(st, l, cat(I.load(st, l), r)); return d
    al, off = I.arr_of(d, st, fr)
    I.store(st, al, region_write_seq(I.load(st, al), off, size(r), r))
    return I.ptr_add(d, size(r))
def region_write_seq(v, off, n, val):
    if off is ZERO and n is size(v): return val
    if n is ZERO: return v
    tot = size(v)
    rest = sub(tot, add(off, n))
    if off is ZERO or True:
        pre_ = slice_(v, ZERO, off)
        post = slice_(v, add(off, n), rest) if rest is not ZERO else EMPTY
        return cat(pre_, val, post)
PRIMS['std::back_inserter'] = lambda I, e, a, st, fr: (lambda l: T_('backins', l[0], l[1]))(I.lval(a[0], st, fr))
@prim('std::fill')
def _(I, e, args, st, fr):
    a, b = [I.eval(x, st, fr) for x in args[:2]]; x = I.eval(args[2], st, fr)
    if a.op != 'it' or b.op != 'it': return I.opaque('fill')
    n = sub(b.a[2], a.a[2]); l = (a.a[0], a.a[1])
    I.store(st, l, region_write_seq(I.load(st, l), a.a[2], n, repv(n, x))); return V
@prim('std::find')
def _(I, e, args, st, fr):
    a, b = [I.eval(x, st, fr) for x in args[:2]]; k = I.eval(args[2], st, fr)
    v = itrange(I, a, b, st, fr)
    return T_('itfind', v, k)
@prim('std::equal')
def _(I, e, args, st, fr):
    a, b, c = [I.eval(x, st, fr) for x in args[:3]]
    v = itrange(I, a, b, st, fr); al, off = I.arr_of(c, st, fr)
    return eq(v, slice_(I.load(st, al), off, size(v)))
@prim('std::shuffle')
def _(I, e, args, st, fr):
    a, b = [I.eval(x, st, fr) for x in args[:2]]
    l = (a.a[0], a.a[1]); v = I.load(st, l)
    I.store(st, l, T_('shuffle', v, I.fresh('weakrand', 'shuffle'))); return V

@prim('std::basic_string::operator+=', 'std::basic_string::append')
def _(I, e, args, st, fr):
    l = cont(I, args[0], st, fr)
    if len(args) == 2:
        x = I.eval(args[1], st, fr)
        if x.op == 'ptr':
            al, off = I.arr_of(x, st, fr); x = T_('cstr', I.load(st, al), off)
        elif args[1][0] == 'i' or (x.op == 'c'): x = T_('vec', (x,))
    else:
        p, n = I.eval(args[1], st, fr), I.eval(args[2], st, fr)
        x = I.read_region(p, n, st, fr) if p.op == 'ptr' else (itrange(I, p, n, st, fr) if p.op == 'it' else T_('slice', p, ZERO, n))
    I.store(st, l, cat(I.load(st, l), x)); return l
@prim('std::basic_string::operator=', 'std::basic_string::assign')
def _(I, e, args, st, fr):
    if len(args) == 2: x = I.eval(args[1], st, fr)
    else:
        p, n = I.eval(args[1], st, fr), I.eval(args[2], st, fr)
        x = I.read_region(p, n, st, fr) if p.op == 'ptr' else itrange(I, p, n, st, fr)
    l = cont(I, args[0], st, fr)
    if x.op == 'ptr':
        al, off = I.arr_of(x, st, fr); x = T_('cstr', I.load(st, al), off)
    I.store(st, l, x); return l
@prim('std::operator+')
def _(I, e, args, st, fr):
    a, b = [I.eval(x, st, fr) for x in args[:2]]
    a = T_('vec', (a,)) if a.op == 'c' else a
    b = T_('vec', (b,)) if b.op == 'c' else b
    return cat(a, b)
PRIMS['std::to_string'] = lambda I, e, a, st, fr: T_('tostr', I.eval(a[0], st, fr))
@prim('std::basic_string::substr')
def _(I, e, args, st, fr):
    v = I.load(st, cont(I, args[0], st, fr)); o = I.eval(args[1], st, fr)
    n = I.eval(args[2], st, fr) if len(args) > 2 and args[2][0] != 'g' else sub(size(v), o)
    return slice_(v, o, n)
@prim('std::_Bit_reference::operator=')
def _(I, e, args, st, fr):
    v = boolv(I.eval(args[1], st, fr)); l = I.lval(args[0], st, fr); I.store(st, l, v); return l
PRIMS['std::_Bit_reference::operator bool'] = lambda I, e, a, st, fr: I.eval(a[0], st, fr)
@prim('std::__str_hash_base::operator()', 'std::hash::operator()')
def _(I, e, args, st, fr): return T_('stdhash', I.eval(args[-1], st, fr))

# tuples
PRIMS['std::tie'] = lambda I, e, a, st, fr: T_('tie', tuple(I.ptr(I.lval(x, st, fr)) for x in a))
PRIMS['std::make_tuple'] = lambda I, e, a, st, fr: T_('tup', tuple(I.eval(x, st, fr) for x in a))
PRIMS['ctor:std::tuple'] = lambda I, e, a, st, fr: T_('tup', tuple(I.eval(x, st, fr) for x in a))
PRIMS['std::make_pair'] = PRIMS['std::make_tuple']
PRIMS['ctor:std::pair'] = PRIMS['ctor:std::tuple']
@prim('std::tuple::operator=', 'std::pair::operator=')
def _(I, e, args, st, fr):
    v = I.eval(args[1], st, fr)
    t = I.eval(args[0], st, fr)
    if t.op == 'tie':
        for j, p in enumerate(t.a[0]):
            I.store(st, (p.a[0], p.a[1]), tupget(v, j))
        return V
    l = I.lval(args[0], st, fr); I.store(st, l, v); return l
def tupget(v, j):
    if v.op == 'tup': return v.a[0][j]
    if v.op == 'ite': return ite(v.a[0], tupget(v.a[1], j), tupget(v.a[2], j))
    return T_('tget', v, j)
tm.register('tget', tupget)

# ------------------------------------------------------------------ streams
def is_console(l): return l[0][0] == 'G' and l[0][1].startswith('std::c')
def sput(I, l, st, tok):
    v = I.load(st, l)
    if v.op == 'open':
        # everything done to a named file, in order, lives in the file's own cell
        fl = ((('FILE', v.a[0], 'i' if 'ifstream' in v.a[1] else 'o')), ())
        st.cells.setdefault(fl[0], EMPTY)
        I.store(st, fl, cat(st.cells[fl[0]], tok))
    else: I.store(st, l, cat(v, tok))
def sopen(I, st, nm, ty, m):
    k = ('FILE', nm, 'i' if 'ifstream' in ty else 'o')
    if st.cells.get(k, EMPTY) is not EMPTY and 'ifstream' in ty:
        I.store(st, (k, ()), cat(st.cells[k], T_('vec', (T_('ev', 'seek', ZERO, ZERO),))))
    else:
        st.cells.setdefault(k, EMPTY)
        if st.cells[k] is not EMPTY: I.store(st, (k, ()), EMPTY)
    return T_('open', nm, strip_targs(ty), m)
def stream_base(v):
    return v
@prim('ctor:std::basic_ofstream', 'ctor:std::basic_ifstream', 'ctor:std::basic_fstream', 'ctor:std::basic_stringstream')
def _(I, e, args, st, fr):
    if args and args[0][0] != 'i':
        nm = I.eval(args[0], st, fr)
        mode = I.eval(args[1], st, fr) if len(args) > 1 and args[1][0] != 'i' else ZERO
        return sopen(I, st, nm, e[3], mode)
    return EMPTY
@prim('std::basic_ofstream::open', 'std::basic_ifstream::open', 'std::basic_fstream::open')
def _(I, e, args, st, fr):
    l = I.lval(args[0], st, fr)
    m = I.eval(args[2], st, fr) if len(args) > 2 else ZERO
    nm = I.eval(args[1], st, fr)
    I.store(st, l, sopen(I, st, nm, e[3], m)); return V
for n in ('std::basic_ofstream::close', 'std::basic_ifstream::close', 'std::basic_fstream::close', 'std::basic_ostream::flush'):
    PRIMS[n] = skip
PRIMS['std::basic_ios::operator!'] = lambda I, e, a, st, fr: FALSE
PRIMS['std::basic_ios::operator bool'] = lambda I, e, a, st, fr: TRUE
PRIMS['std::basic_ofstream::is_open'] = PRIMS['std::basic_ifstream::is_open'] = lambda I, e, a, st, fr: TRUE
PRIMS['std::basic_ios::good'] = lambda I, e, a, st, fr: TRUE
PRIMS['std::operator|'] = lambda I, e, a, st, fr: bor(I.eval(a[0], st, fr), I.eval(a[1], st, fr))
@prim('std::basic_ostream::write')
def _(I, e, args, st, fr):
    l = I.lval(args[0], st, fr); p = I.eval(args[1], st, fr); n = I.eval(args[2], st, fr)
    es, addr = elem_size(args[1])
    if es and es > 1:
        al, off = I.arr_of(p, st, fr); v = I.load(st, al)
        if p.op == 'ptr' and p.a[1] and p.a[1][-1][0] == 'i':
            k = div(n, C(es)); val = T_('bytesof', sel(v, off) if k is ONE else slice_(v, off, k), n)
        else: val = T_('bytesof', v, n)
    elif es == 1 and not (p.op == 'ptr' and p.a[1] and p.a[1][-1][0] == 'i'):
        val = T_('bytesof', I.load(st, I.deref(p, st, fr)), n)
    elif es is None:
        # object of unknown size (struct)
        ld = I.load(st, I.deref(p, st, fr)) if not (p.op == 'ptr' and p.a[1] and p.a[1][-1][0] == 'i') else None
        val = T_('bytesof', ld, n) if ld is not None else I.read_region(p, n, st, fr)
    else: val = I.read_region(p, n, st, fr)
    if not is_console(l): sput(I, l, st, T_('vec', (T_('ev', 'w', n, val),)))
    return l
@prim('std::basic_istream::read')
def _(I, e, args, st, fr):
    l = I.lval(args[0], st, fr); p = I.eval(args[1], st, fr); n = I.eval(args[2], st, fr)
    tok = T_('rd', uid(), tuple(I.loopvars), n)
    sput(I, l, st, T_('vec', (T_('ev', 'r', n, tok),)))
    es, addr = elem_size(args[1])
    isidx = p.op == 'ptr' and p.a[1] and p.a[1][-1][0] == 'i'
    if (es and es > 1) or (es == 1 and not isidx) or (es is None and not isidx):
        k = div(n, C(es)) if es else ONE
        if isidx and k is not ONE:
            al, off = I.arr_of(p, st, fr); I.store(st, al, region_write(I.load(st, al), off, k, frombytes(tok)))
        else: I.store(st, I.deref(p, st, fr), frombytes(tok))
    else: I.write_region(p, n, tok, st, fr)
    return l
@prim('std::operator<<', 'std::basic_ostream::operator<<')
def _(I, e, args, st, fr):
    l = I.lval(args[0], st, fr)
    if is_console(l) or args[1][0] == 'fn': 
        return l
    x = I.eval(args[1], st, fr)
    if x.op == 'fnp' or x.op == 'void': return l
    if x.op == 'ptr':
        try:
            al, off = I.arr_of(x, st, fr); x = T_('cstr', I.load(st, al), off)
        except Unsupported: pass
    sput(I, l, st, T_('vec', (T_('ev', 'w', T_('txt', strip_targs(obj_ty(args[1]) or args[1][0])), x),))); return l
@prim('std::operator>>', 'std::basic_istream::operator>>')
def _(I, e, args, st, fr):
    l = I.lval(args[0], st, fr); d = I.lval(args[1], st, fr)
    tok = T_('rd', uid(), tuple(I.loopvars), T_('txt', 0))
    sput(I, l, st, T_('vec', (T_('ev', 'r', T_('txt', strip_targs(obj_ty(args[1]))), tok),)))
    I.store(st, d, tok); return l
PRIMS['std::basic_stringstream::str'] = lambda I, e, a, st, fr: T_('sstr', I.load(st, I.lval(a[0], st, fr)))
@prim('std::basic_istream::seekg', 'std::basic_ostream::seekp')
def _(I, e, args, st, fr):
    l = I.lval(args[0], st, fr); sput(I, l, st, T_('vec', (T_('ev', 'seek', I.eval(args[1], st, fr), ZERO),))); return l
PRIMS['std::basic_istream::tellg'] = lambda I, e, a, st, fr: T_('tellg', I.load(st, I.lval(a[0], st, fr)))

# ------------------------------------------------------------------ SSE blocks
PRIMS['_mm_xor_si128'] = lambda I, e, a, st, fr: xor(I.eval(a[0], st, fr), I.eval(a[1], st, fr))
PRIMS['_mm_and_si128'] = lambda I, e, a, st, fr: _comm('mmand', I.eval(a[0], st, fr), I.eval(a[1], st, fr))
PRIMS['_mm_or_si128'] = lambda I, e, a, st, fr: _comm('mmor', I.eval(a[0], st, fr), I.eval(a[1], st, fr))
def _comm(op, a, b): return T_(op, *sorted((a, b), key=lambda t: t.id))
for n in ('_mm_andnot_si128', '_mm_aesenc_si128', '_mm_aesenclast_si128', '_mm_aesdec_si128', '_mm_aesdeclast_si128', '_mm_aesimc_si128',
          '_mm_set_epi64x', '_mm_set_epi8', '_mm_set_epi16', '_mm_setzero_si128', '_mm_slli_epi64', '_mm_srli_epi64', '_mm_cmpgt_epi8', '_mm_cmplt_epi8',
          '_mm_movemask_epi8', '_mm_castps_si128', '_mm_castsi128_ps', '__builtin_ia32_aeskeygenassist128', '__builtin_ia32_pclmulqdq128',
          '__builtin_ia32_pshufd', '__builtin_ia32_pslldqi128_byteshift', '__builtin_ia32_psrldqi128_byteshift', '__builtin_ia32_shufps', '_mm_cvtsi128_si64',
          '_mm_testz_si128', '_mm_cmpeq_epi64', '_mm_sub_epi64', '_mm_cmpgt_epi64'):
    PRIMS[n] = uf(n)
def mmset64(I, e, a, st, fr):
    h, l = I.eval(a[0], st, fr), I.eval(a[1], st, fr)
    if isc(h) and isc(l): return C(((h.a[0] & (1 << 64) - 1) << 64) | (l.a[0] & (1 << 64) - 1))
    return T_('_mm_set_epi64x', h, l)
PRIMS['_mm_set_epi64x'] = mmset64
PRIMS['_mm_setzero_si128'] = lambda I, e, a, st, fr: ZERO
def mmload(I, e, args, st, fr):
    p = I.eval(args[0], st, fr)
    es, _ = elem_size(args[0])
    if es == 1 or es is None:
        return frombytes(I.read_region(p, C(16), st, fr))
    return I.load(st, I.deref(p, st, fr))
for n in ('_mm_load_si128', '_mm_loadu_si128', '_mm_loadl_epi64'): PRIMS[n] = mmload
def mmstore(I, e, args, st, fr):
    p = I.eval(args[0], st, fr); v = I.eval(args[1], st, fr)
    es, _ = elem_size(args[0])
    if es == 1 or es is None: I.write_region(p, C(16), T_('bytesof', v, C(16)), st, fr)
    else: I.store(st, I.deref(p, st, fr), v)
    return V
for n in ('_mm_store_si128', '_mm_storeu_si128'): PRIMS[n] = mmstore

# x25519 : out = k * P  (commuting scalars)
def x25519(base, k):
    if base.op == 'xpt': return T_('xpt', base.a[0], tuple(sorted(base.a[1] + (k,), key=lambda t: t.id)))
    return T_('xpt', base, (k,))
tm.register('xpt', lambda b, ks: (lambda r: [r := x25519(r, k) for k in ks][-1])(b) if ks else b)
@prim('x25519_scalar_mulx')
def _(I, e, args, st, fr):
    o, k, p = [I.eval(a, st, fr) for a in args[:3]]
    kv = I.read_region(k, C(32), st, fr); pv = I.read_region(p, C(32), st, fr)
    I.write_region(o, C(32), x25519(pv, kv), st, fr); return V

def maskbits(a, k):
    if isc(a) and isc(k) and a.a[0] >= 0: return C(a.a[0] & ((1 << k.a[0]) - 1))
    return T_('maskbits', a, k)
tm.register('maskbits', maskbits)
