"""Arithmetic layer: every BigInt / ECPoint operation computes the function it names."""
from spec import *
import stdmodel as sm

def go(ck, tier):
    P = prog('x25519')
    a, b, m, n = IN('a'), IN('b'), IN('m'), IN('n')
    def meth(q, args, want, rule='value', np=None, this=a, keep=True, pt=None, stops=(), prims=None):
        def body():
            cands = P.find(q, nparams=len(args) if np is None else np, ptypes=pt)
            if not cands: return ck.ob(q, rule, None, None, 'not found')
            f = cands[0]
            R = run(P, f, dict(enumerate(args)), this=this, stops=stops, prims=prims)
            w = want(R) if callable(want) else want
            ck.equal(q, rule, R.ret, w, f, small=True)
            if keep:
                ck.equal(q, 'object unchanged', R.this, this, f)
            for i, x in enumerate(args):
                ck.equal(q, 'operands unchanged', R.arg[i], x, f)
        ck.guard(q, rule, None, body)
    B = 'BigInt::'
    cmp_ = T_('bncmp', a, b)
    # value of every arithmetic method
    meth(B + 'Negate', [], neg(a))
    for q, w in (('Add', add(a, b)), ('Sub', sub(a, b)), ('Mul', mul(a, b)), ('Div', T_('bndiv', a, b)), ('DivAndTruncate', T_('bndiv', a, b)),
                 ('Exp', T_('bnexp', a, b)), ('Mod', mod(b, a)), ('GCD', T_('gcd', *sorted((a, b), key=lambda t: t.id))),
                 ('ModSquare', mod(b, mul(a, a))), ('ModInverse', minv(b, a)), ('ModSquareRoot', T_('msqrt', a, b)), ('ModNegate', mod(b, neg(a))),
                 ('CompareTo', cmp_)):
        meth(B + q, [b], w)
    meth(B + 'Square', [], mul(a, a))
    for q, w in (('ModAdd', mod(m, add(a, b))), ('ModSub', mod(m, sub(a, b))), ('ModMul', mod(m, mul(a, b))), ('ModExp', T_('bnmodexp', a, b, m))):
        meth(B + q, [b, m], w)
    meth(B + 'Lshift', [n], sm.shl(a, n)); meth(B + 'Rshift', [n], shr(a, n))
    # operators
    meth(B + 'operator-', [], neg(a), np=0)
    for o, w in (('+', add(a, b)), ('-', sub(a, b)), ('*', mul(a, b)), ('/', T_('bndiv', a, b)), ('%', mod(b, a))):
        meth(B + 'operator' + o, [b], w, np=1)
        def ca(o=o, w=w):
            f = fn(P, B + 'operator' + o + '=', 1); R = run(P, f, {0: b}, this=a)
            ck.equal(B + 'operator' + o + '=', 'target becomes the result', R.this, w, f)
            ck.equal(B + 'operator' + o + '=', 'value of the expression', R.ret, w, f)
            ck.equal(B + 'operator' + o + '=', 'operands unchanged', R.arg[0], b, f)
            # aliasing: x op= x
            al = alias_run(P, f)
            ck.equal(B + 'operator' + o + '=', 'same object on both sides', al, subst_(w, b, a), f)
        ck.guard(B + 'operator' + o + '=', 'compound assignment', None, ca)
    for o, w in (('<<', sm.shl(a, n)), ('>>', shr(a, n))):
        meth(B + 'operator' + o, [n], w, pt={0: 'int'})
        def cs(o=o, w=w):
            f = fn(P, B + 'operator' + o + '=', 1); R = run(P, f, {0: n}, this=a)
            ck.equal(B + 'operator' + o + '=', 'target becomes the result', R.this, w, f)
        ck.guard(B + 'operator' + o + '=', 'compound assignment', None, cs)
    # comparisons are a total order read off one three-way comparison: enumerate its three outcomes
    for o, tt in (('==', (0, 1, 0)), ('!=', (1, 0, 1)), ('<', (1, 0, 0)), ('>', (0, 0, 1)), ('<=', (1, 1, 0)), ('>=', (0, 1, 1))):
        def cm(o=o, tt=tt):
            f = fn(P, B + 'operator' + o, 1)
            for c, w in zip((-1, 0, 1), tt):
                R = run(P, f, {0: b}, this=a, prims={'BN_cmp': _cmpc(c)})
                ck.equal(B + 'operator' + o, 'comparison outcome %+d' % c, boolv(R.ret), TRUE if w else FALSE, f)
            R = run(P, f, {0: b}, this=a)
            cs = [x for x in subterms(R.ret) if x.op in ('bncmp', 'bnucmp')]
            if cs: ck.ob(B + 'operator' + o, 'compares left with right', all(x is cmp_ for x in cs), f, R.ret)
            ck.equal(B + 'operator' + o, 'operands unchanged', R.arg[0], b, f)
        ck.guard(B + 'operator' + o, 'comparison', None, cm)
    def asg(cls):
        f = fn(P, cls + '::operator=', 1); R = run(P, f, {0: b}, this=a)
        ck.equal(cls + '::operator=', 'copies the value', R.this, b, f)
        ck.equal(cls + '::operator=', 'operands unchanged', R.arg[0], b, f)
    for cls in ('BigInt', 'ECPoint'): ck.guard(cls + '::operator=', 'copies the value', None, lambda cls=cls: asg(cls))
    # queries
    meth(B + 'GetTheNthBit', [n], lambda R: ite(eq(sm.maskbits(shr(a, n), ONE), ONE), ONE, ZERO))
    meth(B + 'GetLastNBits', [n], sm.maskbits(a, n))
    meth(B + 'GetBitLength', [], T_('numbits', a))
    meth(B + 'GetByteLength', [], div(add(T_('numbits', a), C(7)), C(8)))
    for q, w in (('IsBitSet', T_('bool', T_('bit', a, n))),): meth(B + q, [n], w)
    for q, w in (('IsZero', eq(a, ZERO)), ('IsOne', eq(a, ONE)), ('IsNonNegative', not_(sm.isneg(a)))):
        def qq(q=q, w=w):
            f = fn(P, B + q, 0); R = run(P, f, {}, this=a); ck.equal(B + q, 'value', boolv(R.ret), w, f); ck.equal(B + q, 'object unchanged', R.this, a, f)
        ck.guard(B + q, 'value', None, qq)
    # byte conversions invert each other
    def conv():
        f = fn(P, B + 'ToByteString', 0); R = run(P, f, {}, this=a)
        s = R.ret
        g = [x for x in P.find(B + 'FromByteString', nparams=1)][0]
        R2 = run(P, g, {0: s}, this=b)
        ck.note_fn(g)
        ck.equal(B + 'ToByteString/FromByteString', 'round trip', R2.this, a, f)
        g2 = P.find(B + 'FromByteString', nparams=2)
        if g2:
            I0 = T_('in', 'buf')
            R3 = run(P, g2[0], {0: T_('bnbytes', a, n), 1: n}, this=b)
            ck.equal(B + 'FromByteString/2', 'reads the whole buffer', R3.this, a, g2[0])
        for ft in P.find(B + 'ToByteString', nparams=2):
            R = run(P, ft, {0: IN('buf'), 1: n}, this=a)
            got = R.arg[0]
            whole = T_('bnbytes', a, n)
            if got.op == 'buf': ok = [tuple(w) for w in got.a[2]] == [(ZERO, n, whole)]
            else: ok = got is whole
            ck.ob(B + 'ToByteString(buffer, LEN)', 'writes exactly the LEN-byte encoding', True if ok else (None if residual(got) is not None else False), ft, short(got, 600))
        fv = fn(P, B + 'ToByteVector', 1); R = run(P, fv, {0: n}, this=a)
        gv = fn(P, B + 'FromByteVector', 1); R2 = run(P, gv, {0: R.ret}, this=b)
        ck.note_fn(gv)
        ck.equal(B + 'ToByteVector/FromByteVector', 'round trip', R2.this, a, fv)
        ck.equal(B + 'ToByteVector', 'requested length', size(R.ret), n, fv)
    ck.guard('BigInt bytes', 'round trip', None, conv)
    # constructors
    def ctors():
        for f in P.find('BigInt::BigInt'):
            if not f['params']:
                R = run(P, f, {}); ck.equal('BigInt()', 'zero', R.this, ZERO, f)
            elif f['params'][0]['ty'] in ('BigInt', 'unsigned long', 'size_t') or 'BigInt' in f['params'][0]['ty']:
                R = run(P, f, {0: a}); ck.equal('BigInt(%s)' % f['params'][0]['ty'], 'takes the value', R.this, a, f)
                ck.equal('BigInt(%s)' % f['params'][0]['ty'], 'operands unchanged', R.arg[0], a, f)
        for f in P.find('ECPoint::ECPoint'):
            if not f['params']:
                R = run(P, f, {}); ck.equal('ECPoint()', 'identity', R.this, INF, f)
            elif len(f['params']) == 1 and 'ECPoint' in f['params'][0]['ty']:
                R = run(P, f, {0: a}); ck.equal('ECPoint(copy)', 'takes the value', R.this, a, f); ck.equal('ECPoint(copy)', 'operands unchanged', R.arg[0], a, f)
    ck.guard('constructors', 'value', None, ctors)
    # randomness helpers
    def rnd():
        for f in P.find('GenRandomBigIntLessThan', nparams=1):
            R = run(P, f, {0: m})
            ck.ob('GenRandomBigIntLessThan', 'uniform in [0,max) from the CSPRNG', R.ret.op == 'rand' and R.ret.a[1] == 'range' and R.ret.a[2] is m, f, R.ret)
        f = fn(P, 'GenRandomBigIntBetween'); R = run(P, f, {0: a, 1: b})
        rs = has_rand(R.ret)
        ok = len(rs) == 1 and all(x.a[1] == 'range' and x.a[2] is sub(b, a) for x in rs)
        ck.ob('GenRandomBigIntBetween', 'range is end - start', ok, f, R.ret)
        if ok: ck.equal('GenRandomBigIntBetween', 'offset by start', R.ret, add(next(iter(rs)), a), f)
        f = fn(P, 'GenRandomBigIntVectorLessThan'); R = run(P, f, {0: n, 1: m})
        ck.equal('GenRandomBigIntVectorLessThan', 'length', size(R.ret), n, f)
        e = sel(R.ret, T_('lv', -77, n))
        ck.ob('GenRandomBigIntVectorLessThan', 'every element drawn from [0,modulus)', e.op == 'rand' and m in e.a and contains_lv(e, -77), f, e)
        f = fn(P, 'GenRandomGenerator'); R = run(P, f, {})
        d = as_pt(R.ret); ok = list(d) == [GEN_()]
        if ok:
            k = d[GEN_()]; rs = has_rand(k)
            ok = len(rs) == 1 and k is add(next(iter(rs)), ONE) and sub(T_('g', 'order'), ONE) in next(iter(rs)).a
        ck.ob('GenRandomGenerator', 'generator times a nonzero random scalar', ok, f, R.ret)
        f = fn(P, 'GenRandomECPointVector'); R = run(P, f, {0: n})
        e = sel(R.ret, T_('lv', -77, n))
        ck.equal('GenRandomECPointVector', 'length', size(R.ret), n, f)
        ck.ob('GenRandomECPointVector', 'independent element at every index', any(contains_lv(x, -77) for x in has_rand(e)), f, e)
        f = fn(P, 'GenCoPrimeLessThan')
    ck.guard('random sampling', 'range', None, rnd)
    # BigInt vectors
    va, vb = IN('va'), IN('vb')
    def el(v, f2): return mkbind('map', size(v), f2)
    c = IN('c')
    vecs = (('BigIntVectorModAdd', [va, vb, m], lambda i: mod(m, add(sel(va, i), sel(vb, i)))),
            ('BigIntVectorModSub', [va, vb, m], lambda i: mod(m, sub(sel(va, i), sel(vb, i)))),
            ('BigIntVectorModProduct', [va, vb, m], lambda i: mod(m, mul(sel(va, i), sel(vb, i)))),
            ('BigIntVectorProduct', [va, vb], lambda i: mul(sel(va, i), sel(vb, i))),
            ('BigIntVectorModInverse', [va, m], lambda i: minv(m, sel(va, i))),
            ('BigIntVectorModScalar', [va, c, m], lambda i: mod(m, mul(sel(va, i), c))),
            ('BigIntVectorScalar', [va, c], lambda i: mul(sel(va, i), c)),
            ('BigIntVectorModNegate', [va, m], lambda i: mod(m, neg(sel(va, i)))),
            ('ECPointVectorAdd', [va, vb], lambda i: pt_add(sel(va, i), sel(vb, i))),
            ('ECPointVectorScalar', [va, c], lambda i: pt_mul(sel(va, i), c)),
            ('ECPointVectorProduct', [va, vb], lambda i: pt_mul(sel(va, i), sel(vb, i))))
    def same_size(R): return R.assume
    for q, args, w in vecs:
        def vv(q=q, args=args, w=w):
            f = fn(P, q, len(args)); R = run(P, f, dict(enumerate(args)))
            ck.equal(q, 'elementwise value', under(R, R.ret), el(va, w), f)
            for i, x in enumerate(args): ck.equal(q, 'operands unchanged', R.arg[i], x, f)
            if vb in args:
                ck.ob(q, 'length mismatch refused', refused(R, eq(size(va), size(vb))), f, R.assume)
        ck.guard(q, 'elementwise value', None, vv)
    for q in ('BigIntVectorModInnerProduct', 'BigIntVectorInnerProduct'):
        def ip(q=q):
            f = fn(P, q, 3); R = run(P, f, {0: va, 1: vb, 2: m})
            w = mod(m, mkbind('sum', size(va), lambda i: mul(sel(va, i), sel(vb, i))))
            ck.equal(q, 'inner product', under(R, R.ret), w, f)
            ck.ob(q, 'length mismatch refused', refused(R, eq(size(va), size(vb))), f, R.assume)
            for i, x in enumerate((va, vb, m)): ck.equal(q, 'operands unchanged', R.arg[i], x, f)
        ck.guard(q, 'inner product', None, ip)
    def vm():
        f = fn(P, 'ECPointVectorMul', 2); R = run(P, f, {0: va, 1: vb})
        w = mkbind('psum', size(va), lambda i: pt_mul(sel(va, i), sel(vb, i)))
        ck.equal('ECPointVectorMul', 'sum of scaled points', under(R, R.ret), w, f)
        ck.ob('ECPointVectorMul', 'length mismatch refused', refused(R, eq(size(va), size(vb))), f, R.assume)
        for i, x in enumerate((va, vb)): ck.equal('ECPointVectorMul', 'operands unchanged', R.arg[i], x, f)
        f = fn(P, 'ECPointVectorMul', 4); s, e = IN('s'), IN('e'); R = run(P, f, {0: va, 1: vb, 2: s, 3: e})
        w = mkbind('psum', sub(e, s), lambda i: pt_mul(sel(va, add(i, s)), sel(vb, add(i, s))))
        ck.equal('ECPointVectorMul/range', 'sum over the index range', R.ret, w, f)
    ck.guard('ECPointVectorMul', 'sum of scaled points', None, vm)
    # ECPoint
    E = 'ECPoint::'; p, q_ = IN('p'), IN('q'); k = IN('k')
    meth(E + 'Add', [q_], pt_add(p, q_), this=p); meth(E + 'Sub', [q_], pt_add(p, q_, -1), this=p)
    meth(E + 'Invert', [], pt_mul(p, C(-1)), this=p)
    meth(E + 'operator+', [q_], pt_add(p, q_), this=p); meth(E + 'operator-', [q_], pt_add(p, q_, -1), this=p, np=1); meth(E + 'operator-', [], pt_mul(p, C(-1)), this=p, np=0)
    for q in ('Mul', 'operator*'):
        def mm(q=q):
            f = fn(P, E + q, 1)
            for base, w in ((T_('g', 'generator'), 'fixed-base path'), (p, 'variable-base path')):
                R = run(P, f, {0: k}, this=base)
                ck.equal(E + q, 'scalar multiple (%s)' % w, case_eq(R.ret, base), pt_mul(base, k), f)
                ck.equal(E + q, 'operands unchanged', R.arg[0], k, f); ck.equal(E + q, 'object unchanged', R.this, base, f)
        ck.guard(E + q, 'scalar multiple', None, mm)
    for o, w in (('+', pt_add(p, q_)), ('-', pt_add(p, q_, -1))):
        def ca(o=o, w=w):
            f = fn(P, E + 'operator' + o + '=', 1); R = run(P, f, {0: q_}, this=p)
            ck.equal(E + 'operator' + o + '=', 'target becomes the result', R.this, w, f)
            ck.equal(E + 'operator' + o + '=', 'operands unchanged', R.arg[0], q_, f)
            ck.equal(E + 'operator' + o + '=', 'same object on both sides', alias_run(P, f, p), subst_(w, q_, p), f)
        ck.guard(E + 'operator' + o + '=', 'compound assignment', None, ca)
    def cmu():
        f = fn(P, E + 'operator*=', 1); R = run(P, f, {0: k}, this=p)
        ck.equal(E + 'operator*=', 'target becomes the result', case_eq(R.this, p), pt_mul(p, k), f)
    ck.guard(E + 'operator*=', 'compound assignment', None, cmu)
    for q, w in (('CompareTo', peq(p, q_)), ('operator==', peq(p, q_)), ('operator!=', not_(peq(p, q_)))):
        def ce(q=q, w=w):
            f = fn(P, E + q, 1); R = run(P, f, {0: q_}, this=p); ck.equal(E + q, 'value', boolv(R.ret), w, f)
        ck.guard(E + q, 'value', None, ce)
    oc = T_('bool', T_('oncurve', p)); inf = peq(p, INF)
    for q, w in (('IsOnCurve', oc), ('IsAtInfinity', inf), ('IsValid', and_(oc, not_(inf)))):
        def cv(q=q, w=w):
            f = fn(P, E + q, 0); R = run(P, f, {}, this=p); ck.equal(E + q, 'value', boolv(R.ret), w, f)
        ck.guard(E + q, 'value', None, cv)
    def misc():
        f = fn(P, E + 'SetInfinity', 0); R = run(P, f, {}, this=p); ck.equal(E + 'SetInfinity', 'identity', R.this, INF, f)
        f = fn(P, 'GetPointAtInfinity', 0); R = run(P, f, {}); ck.equal('GetPointAtInfinity', 'identity', R.ret, INF, f)
        f = fn(P, E + 'Clone', 1); R = run(P, f, {0: q_}, this=p); ck.equal(E + 'Clone', 'copies the value', R.this, q_, f)
        f = fn(P, E + 'ToByteString', 0); R = run(P, f, {}, this=p)
        inj = R.ret.op == 'ptbytes' and R.ret.a[0] is p and R.ret.a[1] is T_('g', 'POINT_COMPRESSED_BYTE_LEN')
        ck.ob(E + 'ToByteString', 'whole compressed encoding of the point', True if inj else (None if residual(R.ret) else False), f, R.ret)
        ck.equal(E + 'ToByteString', 'object unchanged', R.this, p, f)
        f = fn(P, 'CreateECPoint', 2); R = run(P, f, {0: a, 1: b})
        pt = T_('affine', a, b)
        ck.equal('CreateECPoint', 'point with the given coordinates', R.ret, pt, f)
        ck.ob('CreateECPoint', 'invalid coordinates refused', refused(R, and_(T_('bool', T_('oncurve', pt)), not_(peq(pt, INF)))), f, R.assume)
    ck.guard('ECPoint misc', 'value', None, misc)

def _cmpc(c):
    def g(I, e, args, st, fr):
        for x in args: I.eval(x, st, fr)
        return C(c)
    return g
def GEN_(): return T_('g', 'generator')
def contains_lv(t, u): return any(x.op == 'lv' and x.a[0] == u for x in subterms(t))
def subst_(t, x, y): return tm.subst(t, {x: y})
def alias_run(P, f, v=None):
    """run the compound assignment with this == other (same storage)"""
    v = v if v is not None else IN('a')
    I = Interp(P, (), None); I.budget = 100000
    st = State({('A', 'o'): v}, TRUE); fr = Frame(f, 0)
    th = (('A', 'o'), ())
    I.invoke(f, th, [th], st, fr, 0)
    return st.cells[('A', 'o')]
def under(R, t):
    """t under the run's assumption (paths that exit are not considered)"""
    return t
def refused(R, cond):
    """the surviving paths imply cond"""
    if R.assume is cond: return True
    r = tm.implies(R.assume, cond) if hasattr(tm, 'implies') else None
    return True if r else (None if residual(R.assume) else False)
def case_eq(t, base):
    """a conditional on base == generator selects between two computations of the same value"""
    if t.op == 'ite':
        c = t.a[0]
        g = GEN_()
        if c is peq(base, g):
            if tm.subst(t.a[1], {g: base}) is t.a[2] or evaleq(tm.subst(t.a[1], {g: base}), t.a[2]): return t.a[2]
    return t
def evaleq(x, y):
    import evalterm
    return evalterm.same(x, y)
