"""Hash-consed value terms (Herbrand/GVN domain) with algebraic normal forms.

Terms are interned: equal normal forms are the same Python object.  Normal forms
cover: integer polynomials, polynomials modulo the group order, linear
combinations of group elements, booleans, arrays/byte strings, and bounded
binders (map / sum / psum / all / any / catmap / loop).
"""
import sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ('op', 'a', 'id', 'fv', 'h', 'opq')
    def __repr__(self):
        return show(self)

_tab = {}
_EMPTY = frozenset()

def _scan(x, acc):
    for y in x:
        if isinstance(y, T):
            acc.append(y)
        elif isinstance(y, tuple):
            _scan(y, acc)

BINDERS = {'map', 'sum', 'psum', 'all', 'any', 'catmap', 'loop', 'lupd', 'scan', 'while', 'prodl', 'xsum', 'pack'}

def T_(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op; t.a = a; t.id = len(_tab)
    ch = []
    _scan(a, ch)
    if op == 'lv':
        fv = frozenset((a[0],))
        for c in ch:
            fv = fv | c.fv
    else:
        fv = _EMPTY
        for c in ch:
            if c.fv:
                fv = fv | c.fv
    t.fv = fv
    h = 0
    for c in ch:
        if c.h > h: h = c.h
    if op in BINDERS: h += 1
    t.h = h
    t.opq = op == 'opaque' or any(c.opq for c in ch)
    _tab[k] = t
    return t

_uid = [0]
def uid():
    _uid[0] += 1
    return _uid[0]

# ---------------------------------------------------------------- integers
def C(n): return T_('c', int(n))
ZERO = C(0); ONE = C(1)
TRUE = T_('true'); FALSE = T_('false')
INF = T_('pt', ())        # group identity

def isc(t): return t.op == 'c'

def as_poly(t):
    if t.op == 'c':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'poly':
        return dict(t.a[0])
    return {((t, 1),): 1}

def _mono_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = {}
    for (x, e) in m1 + m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: p[0].id))

def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d: return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return T_('poly', tuple(sorted(d.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))))

def b2i(t):
    if t.op in ('true',): return ONE
    if t.op == 'false': return ZERO
    if isbool(t): return T_('ite', t, ONE, ZERO)
    return t

BOOLOPS = {'true', 'false', 'and', 'or', 'not', 'eq', 'lt', 'peq0', 'all', 'any', 'eq0m', 'bool', 'qbool'}
def isbool(t):
    if t.op in BOOLOPS: return True
    if t.op == 'ite': return isbool(t.a[1]) and isbool(t.a[2])
    return False

def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
    return r

def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return r

def add(a, b): return from_poly(padd(as_poly(b2i(a)), as_poly(b2i(b))))
def sub(a, b): return from_poly(padd(as_poly(b2i(a)), as_poly(b2i(b)), -1))
def mul(a, b): return from_poly(pmul(as_poly(b2i(a)), as_poly(b2i(b))))
def neg(a): return sub(ZERO, a)

# ---------------------------------------------------------- mod arithmetic
def flat(m, t):
    """polynomial of t with nested (mod m) wrappers removed; memoised."""
    if m is NOMOD: return as_poly(t)
    k = (m, t)
    r = _flat.get(k)
    if r is not None: return r
    if t.op == 'mod' and t.a[0] is m:
        r = flat(m, t.a[1])
    elif t.op == 'poly':
        acc = {}
        for mono, c in t.a[0]:
            cur = {(): c}
            for x, e in mono:
                if x.op == 'sel' and x.a[0].op == 'powers' and x.a[0].a[0] is NOMOD:
                    cur = pmul(cur, {((pwat(m, x.a[0].a[1], x.a[1]), e),): 1})
                elif x.op == 'ite' and e > 0 and _zite(m, x) is not None:
                    fx = _zite(m, x)
                    for _ in range(e): cur = pmul(cur, fx)
                elif x.op == 'mod' and x.a[0] is m and e > 0:
                    fx = flat(m, x)
                    for _ in range(e): cur = pmul(cur, fx)
                elif x.op == 'mod' and x.a[0] is m and e < 0 and len(flat(m, x)) == 1 and list(flat(m, x).values())[0] in (1, -1):
                    (mo, co), = flat(m, x).items()
                    for _ in range(-e): cur = pmul(cur, {tuple((y, -q) for y, q in mo): co})
                else:
                    cur = pmul(cur, {((x, e),): 1})
            acc = padd(acc, cur)
        r = acc
    elif t.op == 'sel' and t.a[0].op == 'powers' and t.a[0].a[0] is NOMOD:
        r = {((pwat(m, t.a[0].a[1], t.a[1]), 1),): 1}
    elif t.op == 'ite' and _zite(m, t) is not None:
        r = _zite(m, t)
    else:
        r = as_poly(t)
    # x * inv(x) = 1 for atoms handled by negative exponents
    _flat[k] = r
    return r
_flat = {}
_zi = {}
def _zite(m, t):
    """ite(x == 0, A, B) with A = B (mod m) at x = 0 is B (mod m)"""
    k = (m, t)
    if k in _zi: return _zi[k]
    r = None
    c, A, B = t.a
    if c.op == 'eq' and c.a[1] is ZERO and c.a[0].op not in ('poly', 'c'):
        x = c.a[0]
        dm = lambda d: {mo: q for mo, q in d.items() if not any(y is m and e > 0 for y, e in mo)}
        z0 = lambda u: dm(flat(m, subst(u, {x: ZERO})))
        if z0(A) == z0(B): r = dm(flat(m, B))
    _zi[k] = r
    return r

NOMOD = T_('nomod')
def pwat(m, g, i):
    """atom g^i (mod m), symbolic i"""
    return T_('sel', T_('powers', m, from_poly(flat(m, g)), ZERO), i)

def mod(m, t):
    if m is NOMOD: return t
    p = from_poly(flat(m, t))
    if p.op == 'c' and 0 <= p.a[0] < (1 << 64): return p
    if p.op == 'sel' and p.a[0].op == 'powers' and p.a[0].a[0] is m: return p
    return T_('mod', m, p)

def minv(m, t):
    d = flat(m, t)
    if len(d) == 1:
        (mono, c), = d.items()
        if c in (1, -1):
            return mod(m, from_poly({tuple((x, -e) for x, e in mono): c}))
    return mod(m, T_('inv', m, from_poly(d)))

# ------------------------------------------------------------------ group
ORDER = None
def set_order(t):
    global ORDER
    ORDER = t

def as_pt(t):
    if t.op == 'pt': return dict(t.a[0])
    return {t: ONE}

def ex(t):
    """normal form of an exponent (mod group order)"""
    if ORDER is None: return t
    d = flat(ORDER, t)
    r = {}
    for mono, c in d.items():
        if any(x is ORDER and e > 0 for x, e in mono): continue
        r[mono] = c
    return from_poly(r)

def from_pt(d):
    items = []
    for b, e in d.items():
        e = ex(e)
        if e is ZERO: continue
        items.append((b, e))
    if not items: return INF
    if len(items) == 1 and items[0][1] is ONE: return items[0][0]
    return T_('pt', tuple(sorted(items, key=lambda p: p[0].id)))

def pt_add(a, b, s=1):
    r = as_pt(a)
    for k, e in as_pt(b).items():
        r[k] = add(r[k], mul(C(s), e)) if k in r else mul(C(s), e)
    return from_pt(r)

def pt_mul(p, e):
    return from_pt({b: mul(x, e) for b, x in as_pt(p).items()})

# --------------------------------------------------------------- booleans
def boolv(t):
    """coerce an int-ish term to bool"""
    if isbool(t): return t
    if isc(t): return TRUE if t.a[0] else FALSE
    if t.op == 'ite':
        return ite(t.a[0], boolv(t.a[1]), boolv(t.a[2]))
    if t.op in ('ptr', 'new', 'fnp'): return TRUE
    if t.op == 'null': return FALSE
    return not_(eq(t, ZERO))

def not_(t):
    t = boolv(t) if not isbool(t) else t
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == 'not': return t.a[0]
    if t.op == 'and': return or_(*[not_(x) for x in t.a[0]])
    if t.op == 'or': return and_(*[not_(x) for x in t.a[0]])
    if t.op == 'lt':   # not (a<b)  ==  b <= a  == b < a+1 (integers)
        return lt(t.a[1], add(t.a[0], ONE)) if not _ptrish(t.a[0]) else T_('not', t)
    if t.op == 'ite': return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    if t.op == 'all': return bind_map('any', t, not_)
    if t.op == 'any': return bind_map('all', t, not_)
    return T_('not', t)

def _ptrish(t): return t.op in ('ptr', 'it')

def _assume(t, lits):
    """simplify boolean t given literals (dict term->bool); shallow"""
    if t in lits: return TRUE if lits[t] else FALSE
    if t.op == 'not':
        x = _assume(t.a[0], lits)
        return not_(x)
    if t.op == 'lt':
        n = not_(t)
        if n in lits: return FALSE if lits[n] else TRUE
        return t
    if t.op == 'and': return and_(*[_assume(x, lits) for x in t.a[0]])
    if t.op == 'or': return or_(*[_assume(x, lits) for x in t.a[0]])
    if t.op == 'ite' :
        c = _assume(t.a[0], lits)
        if isbool(t):
            return ite(c, _assume(t.a[1], lits), _assume(t.a[2], lits))
        return ite(c, t.a[1], t.a[2])
    return t

def assume(t, cond):
    lits = {}
    for x in (cond.a[0] if cond.op == 'and' else (cond,)):
        if x.op == 'not': lits[x.a[0]] = False
        else: lits[x] = True
    return _assume(t, lits)

_junc = {}
def _nary(op, xs):
    unit, zero = (TRUE, FALSE) if op == 'and' else (FALSE, TRUE)
    out = []
    seen = set()
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if not isbool(x): x = boolv(x)
        if x is unit: continue
        if x is zero: return zero
        if x.op == op:
            stack.extend(reversed(x.a[0])); continue
        if x in seen: continue
        seen.add(x); out.append(x)
    if not out: return unit
    for x in out:
        if not_shallow(x) in seen: return zero
    if len(out) > 1:
        # unit propagation of literals into compound members
        lits = {}
        for x in out:
            if x.op in ('and', 'or', 'ite'): continue
            if x.op == 'not': lits[x.a[0]] = (op != 'and')
            else: lits[x] = (op == 'and')
        changed = False
        new = []
        for x in out:
            if x.op in ('and', 'or', 'ite') :
                y = _assume(x, lits)
                if y is not x: changed = True
                new.append(y)
            else: new.append(x)
        if changed: return _nary(op, new)
    if len(out) == 1: return out[0]
    return T_(op, tuple(sorted(out, key=lambda t: t.id)))

def not_shallow(x):
    if x.op == 'not': return x.a[0]
    if x.op == 'lt': return lt(x.a[1], add(x.a[0], ONE)) if not _ptrish(x.a[0]) else T_('not', x)
    return T_('not', x)

def and_(*xs): return _nary('and', list(xs))
def or_(*xs): return _nary('or', list(xs))

def _is_pt(t): return t.op in ('pt',)

def sign_norm(d, key):
    """scale +-1 so leading coefficient is positive"""
    if not d: return d
    k = min(d, key=key)
    if d[k] < 0: return {m: -c for m, c in d.items()}
    return d

def eq(a, b):
    if a is b: return TRUE
    if isbool(a) or isbool(b):
        if isc(a): a = TRUE if a.a[0] else FALSE
        if isc(b): b = TRUE if b.a[0] else FALSE
        if isbool(a) and isbool(b):
            if a is TRUE: return b
            if b is TRUE: return a
            if a is FALSE: return not_(b)
            if b is FALSE: return not_(a)
            return T_('eq', *sorted((a, b), key=lambda t: t.id))
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and (isc(y) or y.op in ('null',)):
            return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
        if x.op == 'bncmp':
            if y is ZERO: return eq(x.a[0], x.a[1])
            if isc(y) and y.a[0] == 1: return lt(x.a[1], x.a[0])
            if isc(y) and y.a[0] == -1: return lt(x.a[0], x.a[1])
            if isc(y): return FALSE
        if x.op == 'null':
            if y.op in ('ptr', 'new', 'it', 'fnp'): return FALSE
            return T_('eq', *sorted((a, b), key=lambda t: t.id))
    if a.op in ('ptr',) and b.op == 'ptr':
        return T_('eq', *sorted((a, b), key=lambda t: t.id))
    if a.op == b.op and a.op in ('it', 'rit'):
        if a.a[0] == b.a[0] and a.a[1] == b.a[1]: return eq(a.a[2], b.a[2])
        return T_('eq', *sorted((a, b), key=lambda t: t.id))
    num = lambda t: t.op in ('c', 'poly', 'mod', 'size', 'lv', 'div', 'modi', 'sum') 
    if a.op == 'mod' or b.op == 'mod':
        m = a.a[0] if a.op == 'mod' else b.a[0]
        okm = lambda t: (t.op == 'mod' and t.a[0] is m) or t.op == 'c'
        if okm(a) and okm(b):
            p = sign_norm(flat(m, sub(a, b)), lambda mo: tuple((x.id, e) for x, e in mo))
            return T_('eq0m', m, from_poly(p)) if p else TRUE
    if num(a) or num(b):
        d = padd(as_poly(a), as_poly(b), -1)
        d = {m: c for m, c in d.items() if c}
        if not d: return TRUE
        if set(d) == {()}: return FALSE
        if _never0(d): return FALSE
        if set(d) and all(m == () or (len(m) == 1 and m[0][0].op == 'strlit') for m in d): pass
        d = sign_norm(d, lambda mo: tuple((x.id, e) for x, e in mo))
        # split as lhs = -const for readability
        return T_('eq', from_poly(d), ZERO)
    if a.op == 'pt' or b.op == 'pt':
        return peq(a, b)
    if a.op == 's' and b.op == 's': return FALSE
    return T_('eq', *sorted((a, b), key=lambda t: t.id))

def _never0(d):
    """K - lv (or lv - K) with lv ranging over [0,K): never zero; also c+lv with c>0"""
    ls = [m for m in d if len(m) == 1 and m[0][0].op == 'lv' and m[0][1] == 1 and d[m] in (1, -1)]
    for m in ls:
        v = m[0][0]; co = d[m]
        rest = {k: -co * c for k, c in d.items() if k != m}     # zero iff v == rest
        r = from_poly(rest)
        e = sub(r, v.a[1])
        if isc(e) and e.a[0] >= 0: return True
        if isc(r) and r.a[0] < 0: return True
        if e.op in ('poly',) and all(c > 0 for c in as_poly(e).values()) and _nn(e): return True
    return False

DISTINCT = set()     # points assumed pairwise independent by the running check
def peq(a, b):
    d = pt_add(a, b, -1)
    if d is INF: return TRUE
    items = as_pt(d)
    if DISTINCT and any(b in DISTINCT and isc(e) for b, e in items.items()): return FALSE
    k = min(items, key=lambda t: t.id)
    e = as_poly(items[k])
    lead = min(e, key=lambda mo: tuple((x.id, q) for x, q in mo))
    if e[lead] < 0: d = pt_mul(d, C(-1))
    return T_('peq0', d)

def lt(a, b):
    a = b2i(a); b = b2i(b)
    if a.op == 'bncmp' and b is ZERO: return lt(a.a[0], a.a[1])
    if b.op == 'bncmp' and a is ZERO: return lt(b.a[1], b.a[0])
    if a.op == 'bncmp' and b is ONE: return not_(lt(a.a[1], a.a[0]))
    if b.op == 'bncmp' and isc(a) and a.a[0] == -1: return not_(lt(b.a[0], b.a[1]))
    if a.op == 'it' and b.op == 'it' and a.a[:2] == b.a[:2]: return lt(a.a[2], b.a[2])
    if _ptrish(a) or _ptrish(b): return T_('lt', a, b)
    d = sub(b, a)          # a<b  <=> b-a > 0
    if isc(d): return TRUE if d.a[0] > 0 else FALSE
    # move to canonical: lhs has constant folded:  lt(x, y) with y-x = d
    pos = {m: c for m, c in as_poly(d).items() if c > 0}
    ng = {m: -c for m, c in as_poly(d).items() if c < 0}
    return T_('lt', from_poly(ng), from_poly(pos))

def ite(c, a, b):
    if not isbool(c): c = boolv(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.a[0], b, a)
    if c.op == 'ite' and isbool(c) and isc(c.a[1]) : pass
    if isbool(a) and isbool(b) or (a in (TRUE, FALSE)) or (b in (TRUE, FALSE)):
        a_, b_ = (boolv(a) if not isbool(a) else a), (boolv(b) if not isbool(b) else b)
        if a_ is TRUE and b_ is FALSE: return c
        if a_ is FALSE and b_ is TRUE: return not_(c)
        if a_ is TRUE: return or_(c, b_)
        if a_ is FALSE: return and_(not_(c), b_)
        if b_ is TRUE: return or_(not_(c), a_)
        if b_ is FALSE: return and_(c, a_)
        return T_('ite', c, a_, b_)
    if c.op == 'peq0':
        # equality-guarded specialisation: (x == y ? f(y) : f(x))  is  f(x)
        items = as_pt(c.a[0])
        for x, e in items.items():
            if e is ONE or (isc(e) and e.a[0] == -1):
                rest = from_pt({k: q for k, q in items.items() if k is not x})
                y = pt_mul(rest, C(-e.a[0]))
                if subst1(a, x, y) is subst1(b, x, y): return b
    elif c.op == 'eq' and c.a[1] is ZERO and c.a[0].op in ('poly',):
        p = as_poly(c.a[0])
        for m, k in p.items():
            if len(m) == 1 and m[0][1] == 1 and k in (1, -1):
                x = m[0][0]
                y = sub(x, c.a[0]) if k == 1 else add(x, c.a[0])
                if contains(y, lambda z: z is x): continue
                if not contains(a, lambda z: z is x) and not contains(b, lambda z: z is x): continue
                if subst1(a, x, y) is subst1(b, x, y): return b
    elif c.op == 'eq' and c.a[1] is ZERO and c.a[0].op not in ('poly', 'c'):
        if subst1(a, c.a[0], ZERO) is subst1(b, c.a[0], ZERO): return b
    if a.op == 'ite' and a.a[0] is c: return ite(c, a.a[1], b)
    if b.op == 'ite' and b.a[0] is c: return ite(c, a, b.a[2])
    if UPDLIM > 64 and a.op == 'vec' and b.op == 'vec' and len(a.a[0]) == len(b.a[0]):
        return T_('vec', tuple(ite(c, x, y) for x, y in zip(a.a[0], b.a[0])))
    if a.op == 'rec' and b.op == 'rec' and a.a[0] is b.a[0]:
        fa, fb = dict(a.a[1]), dict(b.a[1])
        base = a.a[0]
        out = {}
        for f in list(fa) + [f for f in fb if f not in fa]:
            out[f] = ite(c, fa.get(f) if f in fa else fld(base, f), fb.get(f) if f in fb else fld(base, f))
        return mkrec(base, out)
    if a.op == 'rec' and a.a[0] is b:
        return mkrec(b, {f: ite(c, v, fld(b, f)) for f, v in a.a[1]})
    if b.op == 'rec' and b.a[0] is a:
        return mkrec(a, {f: ite(c, fld(a, f), v) for f, v in b.a[1]})
    if a.op == 'upd' and a.a[0] is b: return upd(b, a.a[1], ite(c, a.a[2], sel(b, a.a[1])))
    if b.op == 'upd' and b.a[0] is a: return upd(a, b.a[1], ite(c, sel(a, b.a[1]), b.a[2]))
    if a.op == 'upd' and b.op == 'upd' and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
        return upd(a.a[0], a.a[1], ite(c, a.a[2], b.a[2]))
    if a.op == 'cat' and a.a[0] and a.a[0][0] is b: return cat(b, ite(c, cat(*a.a[0][1:]), EMPTY))
    if b.op == 'cat' and b.a[0] and b.a[0][0] is a: return cat(a, ite(c, EMPTY, cat(*b.a[0][1:])))
    if a.op == 'cat' or b.op == 'cat':
        pa = a.a[0] if a.op == 'cat' else (a,)
        pb = b.a[0] if b.op == 'cat' else (b,)
        if a.op != 'cat' and a.op not in SEQOPS: pa = None
        if b.op != 'cat' and b.op not in SEQOPS: pb = None
        if pa is not None and pb is not None:
            i = 0
            while i < len(pa) and i < len(pb) and pa[i] is pb[i]: i += 1
            j = 0
            while j < len(pa) - i and j < len(pb) - i and pa[-1 - j] is pb[-1 - j]: j += 1
            if i or j:
                ma, mb = pa[i:len(pa) - j], pb[i:len(pb) - j]
                return cat(*(pa[:i] + (ite(c, cat(*ma), cat(*mb)),) + (pa[len(pa) - j:] if j else ())))
    return T_('ite', c, a, b)

SEQOPS = {'cat', 'catmap', 'vec', 'map'}
# ------------------------------------------------------------ records
def mkrec(base, d):
    """record value: base term (or None for fresh) + field overrides"""
    if base is not None and base.op == 'rec':
        nd = dict(base.a[1]); nd.update(d); return mkrec(base.a[0], nd)
    if base is None: base = T_('undef', 0)
    d = {f: v for f, v in d.items() if not (v.op == 'fld' and v.a[0] is base and v.a[1] == f)}
    if not d: return base
    return T_('rec', base, tuple(sorted(d.items())))

def fld(t, f):
    if t.op == 'rec':
        for k, v in t.a[1]:
            if k == f: return v
        return fld(t.a[0], f)
    if t.op == 'ite': return ite(t.a[0], fld(t.a[1], f), fld(t.a[2], f))
    if t.op == 'zeroed': return T_('zeroed', 0)
    return T_('fld', t, f)

# ------------------------------------------------------------ sequences
EMPTY = T_('cat', ())

PHISIZE = {}
SIZEF = {}
def size(t):
    op = t.op
    if op == 'phi':
        r = PHISIZE.get(t)
        if r is not None: return r
    if op == 'cat':
        r = ZERO
        for x in t.a[0]: r = add(r, size(x))
        return r
    if op == 'vec': return C(len(t.a[0]))
    if op == 'map': return t.a[0]
    if op == 'upd' or op == 'lupd': return size(t.a[0])
    if op == 'resize': return t.a[1]
    if op == 'slice': return t.a[2]
    if op == 'buf': return t.a[0]
    if op == 'catmap':
        m = blocklen(t)
        return T_('size', t) if m is None else mul(m, t.a[0])
    if op == 's': return C(len(t.a[0]))
    if op == 'powers': return t.a[2]
    if op == 'ite':
        a, b = size(t.a[1]), size(t.a[2])
        return ite(t.a[0], a, b)
    f = SIZEF.get(op)
    if f: return f(t)
    return T_('size', t)

def cat(*xs):
    out = []
    for x in xs:
        if x.op == 'cat': out.extend(x.a[0])
        elif x.op == 'vec' and not x.a[0]: continue
        elif x.op == 'map' and x.a[0] is ZERO: continue
        elif x.op == 's' and x.a[0] == '': continue
        elif x.op == 'slice' and x.a[2] is ZERO: continue
        else: out.append(x)
    # merge adjacent literal vectors and adjacent slices
    res = []
    for x in out:
        if res and res[-1].op == 'vec' and x.op == 'vec': res[-1] = T_('vec', res[-1].a[0] + x.a[0])
        elif res and res[-1].op == 'slice' and x.op == 'slice' and res[-1].a[0] is x.a[0] and add(res[-1].a[1], res[-1].a[2]) is x.a[1]:
            res[-1] = slice_(x.a[0], res[-1].a[1], add(res[-1].a[2], x.a[2]))
        else: res.append(x)
    out = res
    if len(out) == 1: return out[0]
    return T_('cat', tuple(out))

def slice_(v, off, n):
    if n is ZERO: return EMPTY
    if off is ZERO and n is size(v): return v
    if v.op == 'slice': return slice_(v.a[0], add(v.a[1], off), n)
    if v.op == 'rep': return T_('rep', v.a[0], n)
    if v.op == 'map':
        return mkbind('map', n, lambda i: inst(v, add(i, off)))
    if v.op == 'vec' and isc(off) and isc(n): return T_('vec', v.a[0][off.a[0]:off.a[0] + n.a[0]])
    if v.op == 'cat':
        pos = ZERO; parts = v.a[0]
        for i, p in enumerate(parts):
            if pos is off:
                # accumulate whole parts
                acc = []; tot = ZERO
                for q in parts[i:]:
                    if tot is n: break
                    rem = sub(n, tot)
                    sq = size(q)
                    if isc(sq) and isc(rem) and sq.a[0] > rem.a[0]:
                        acc.append(slice_(q, ZERO, rem)); tot = n; break
                    acc.append(q); tot = add(tot, sq)
                if tot is n: return cat(*acc)
                break
            np = add(pos, size(p))
            if isc(pos) and isc(off) and isc(np) and pos.a[0] < off.a[0] < np.a[0] and isc(n) and off.a[0] + n.a[0] <= np.a[0]:
                return slice_(p, sub(off, pos), n)
            pos = np
    if v.op == 'catmap':
        m = blocklen(v)
        if m is n:
            qr = split(off, m)
            if qr is not None and qr[1] is ZERO: return inst(v, qr[0])
    if v.op == 'buf':
        for (o, l, val) in v.a[2]:
            if o is off and l is n: return val
            if isc(o) and isc(l) and isc(off) and isc(n) and o.a[0] <= off.a[0] and off.a[0] + n.a[0] <= o.a[0] + l.a[0]:
                return slice_(val, sub(off, o), n)
    return T_('slice', v, off, n)

def in_range(j, lo, n):
    """definitely lo <= j < lo+n ?  True / False(definitely not) / None"""
    d = sub(j, lo)
    if isc(d):
        if d.a[0] < 0: return False
        if isc(n): return d.a[0] < n.a[0]
        if d.a[0] >= 0 and n.op == 'poly':
            # n = c + nonneg atoms
            p = as_poly(n)
            if all(c > 0 for c in p.values()) and p.get((), 0) > d.a[0]: return True
        return None
    if not isc(d) and _nn(sub(d, n)): return False
    if d.op == 'lv':
        if d.a[1] is n: return True
        if isc(d.a[1]) and isc(n): return True if d.a[1].a[0] <= n.a[0] else None
        s = sub(n, d.a[1])
        p = as_poly(s)
        if p and all(c > 0 for c in p.values()) and all(all(nonneg(x) for x, e in m) for m in p): return True
        return None
    if d.op == 'modi' and (d.a[1] is n or (isc(d.a[1]) and isc(n) and d.a[1].a[0] <= n.a[0])): return True
    if d.op == 'div' and d.a[0].op == 'lv':
        w, k = d.a
        if mul(n, k) is w.a[1] or (isc(k) and isc(n) and isc(w.a[1]) and w.a[1].a[0] <= n.a[0] * k.a[0]): return True
    # c + lv
    p = as_poly(d)
    lvs = [m for m in p if len(m) == 1 and m[0][0].op == 'lv' and m[0][1] == 1]
    if len(lvs) == 1 and p[lvs[0]] == 1 and len(p) <= 2 + 3:
        v = lvs[0][0][0]
        rest = sub(d, v)
        # 0<= rest and rest + count <= n
        if isc(rest):
            if rest.a[0] < 0:
                return None
        hi = sub(n, add(rest, v.a[1]))
        if _nn(rest) and _nn(hi): return True
    # lv with negative coefficient: K - lv
    if len(lvs) == 0:
        nl = [m for m in p if len(m) == 1 and m[0][0].op == 'lv' and m[0][1] == 1 and p[m] == -1]
        if len(nl) == 1:
            v = nl[0][0][0]
            k = add(d, v)           # d = k - v, v in [0,cnt)
            low = sub(k, sub(v.a[1], ONE))
            hi = sub(sub(n, ONE), k)
            if _nn(low) and _nn(hi): return True
    return None

def split(i, m):
    """i = m*q + r with 0 <= r < m, when that is evident: (q, r)"""
    if m is ONE: return i, ZERO
    p = as_poly(i); q = {}; r = {}
    if isc(m):
        if m.a[0] <= 0: return None
        for mono, c in p.items():
            if mono == ():
                q[()] = c // m.a[0]; r[()] = c % m.a[0]
            elif c % m.a[0] == 0: q[mono] = c // m.a[0]
            else: r[mono] = c
        qt = from_poly({k: c for k, c in q.items() if c}); rt = from_poly({k: c for k, c in r.items() if c})
    else:
        pm = as_poly(m)
        if len(pm) != 1: return None
        (mm, cm), = pm.items()
        for mono, c in p.items():
            d = dict(mono)
            ok = c % cm == 0
            for x, e in mm:
                if d.get(x, 0) < e: ok = False
                else: d[x] -= e
            if ok:
                key = tuple((x, e) for x, e in mono_sort(d)); q[key] = q.get(key, 0) + c // cm
            else: r[mono] = c
        qt = from_poly(q); rt = from_poly(r)
    if rt is ZERO or in_range(rt, ZERO, m): return qt, rt
    return None
def mono_sort(d):
    return sorted([(x, e) for x, e in d.items() if e], key=lambda t: t[0].id)
def blocklen(v):
    """common length of the blocks of a catmap, or None"""
    b = v.a[1].a[1]
    if contains(b, lambda x: x.op == 'bv' and x.a[0] == v.a[1].a[0]) and not (b.op in ('map', 'vec') and not (b.op == 'map' and contains(b.a[0], lambda x: x.op == 'bv'))):
        w = lv(v.a[0]); n = size(inst(v, w))
        return None if w.a[0] in n.fv else n
    return size(b)

def nonneg(x):
    return x.op in ('size', 'lv', 'bv', 'fld', 'g', 'in', 'div', 'modi', 'sel') or (isc(x) and x.a[0] >= 0)

def _nn(t):
    p = as_poly(t)
    return all(c >= 0 for c in p.values()) and all(all(nonneg(x) for x, e in m) for m in p)

def undivmod(i):
    """k*(x div k) + (x mod k) = x"""
    if i.op != 'poly': return i
    p = dict(i.a[0])
    for mono, c in i.a[0]:
        if c >= 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'modi':
            x, k = mono[0][0].a
            if not isc(k): continue
            dm = ((div(x, k), 1),)
            if p.get(dm, 0) == c * k.a[0]:
                del p[mono]; del p[dm]
                return undivmod(add(from_poly(p), mul(C(c), x)))
    return i

def sel(v, i):
    op = v.op
    if i.op == 'poly': i = undivmod(i)
    i0 = i
    if op == 'vec':
        if isc(i) and 0 <= i.a[0] < len(v.a[0]): return v.a[0][i.a[0]]
        return T_('sel', v, i)
    if op == 'map': return inst(v, i)
    if op == 'upd':
        e = eq(v.a[1], i)
        if e is TRUE: return v.a[2]
        if e is FALSE: return sel(v.a[0], i)
        if _distinct(v.a[1], i): return sel(v.a[0], i)
        return ite(e, v.a[2], sel(v.a[0], i))
    if op == 'resize':
        return sel(v.a[0], i) if v.a[2] is None or in_range(i, ZERO, size(v.a[0])) else ite(lt(i, size(v.a[0])), sel(v.a[0], i), v.a[2])
    if op == 'slice': return sel(v.a[0], add(v.a[1], i))
    if op == 'lupd':
        # lupd(base, n, body=(off,val)) : base[off+k] := val(k) for k<n  (unit stride)
        off = v.a[2]
        r = in_range(i, off, v.a[1])
        if r: return inst(v, sub(i, off))
        if r is False: return sel(v.a[0], i)
        d = sub(i, off)
        if in_range(i, ZERO, off): return sel(v.a[0], i)
        return T_('sel', v, i)
    if op == 'cat':
        pos = ZERO
        for p in v.a[0]:
            n = size(p)
            r = in_range(i, pos, n)
            if r or (r is None and p is v.a[0][-1] and not isc(i) and p.op == 'catmap'): return sel(p, sub(i, pos))
            if r is None:
                if not (isc(sub(i, pos)) and isc(n)): break
            pos = add(pos, n)
        return T_('sel', v, i)
    if op == 'catmap':
        m = blocklen(v)
        if m is not None and m is not ZERO:
            qr = split(i, m)
            if qr is not None: return sel(inst(v, qr[0]), qr[1])
        return T_('sel', v, i)
    if op == 'ite': return ite(v.a[0], sel(v.a[1], i), sel(v.a[2], i))
    if op == 'powers':
        if isc(i) and i.a[0] == 0: return ONE
        if isc(i) and i.a[0] < 8: 
            r = ONE
            for _ in range(i.a[0]): r = mod(v.a[0], mul(r, v.a[1]))
            return r
        return T_('sel', T_('powers', v.a[0], v.a[1], ZERO), i)
    if op == 'rep': return v.a[0]
    if op == 'zeroed': return T_('zeroed', 0)
    if op == 'buf':
        if isc(i):
            x = v
            while x.op == 'buf' and isc(i) and all(isc(o) and isc(l) for o, l, _ in x.a[2]):
                for o, l, val in x.a[2]:
                    if o.a[0] <= i.a[0] < o.a[0] + l.a[0]: x, i2 = val, sub(i, o); break
                else: x, i2 = x.a[1], i
                i = i2
                if x.op in ('vec', 'map', 'upd', 'lupd', 'slice', 'cat'):
                    r = sel(x, i)
                    if r.op not in ('sel', 'slice'): return r
                    break
        return slice_(v, i0, ONE)
    return T_('sel', v, i)

def _distinct(a, b):
    d = sub(a, b)
    if isc(d): return d.a[0] != 0
    return False

UPDLIM = 64
def upd(v, i, x):
    if x.op == 'sel' and x.a[0] is v and x.a[1] is i: return v
    if v.op == 'upd' and v.a[1] is i: return upd(v.a[0], i, x)
    if v.op == 'vec' and isc(i) and 0 <= i.a[0] < len(v.a[0]):
        l = list(v.a[0]); l[i.a[0]] = x; return T_('vec', tuple(l))
    if v.op == 'map' and isc(v.a[0]) and v.a[0].a[0] <= UPDLIM and isc(i) and 0 <= i.a[0] < v.a[0].a[0]:
        l = [inst(v, C(k)) for k in range(v.a[0].a[0])]; l[i.a[0]] = x
        return T_('vec', tuple(l))
    if v.op == 'upd' and isc(i) and isc(v.a[1]) and v.a[1].a[0] > i.a[0]:
        return T_('upd', upd(v.a[0], i, x), v.a[1], v.a[2])
    # complete literal overwrite of a small fixed-size array is left as upd chain
    return T_('upd', v, i, x)

# ------------------------------------------------------------ binders
def lv(n):
    return T_('lv', uid(), n)

def bv(h): return T_('bv', h)

def close(body, v):
    """replace loop var v by canonical bound variable; returns (h, closed body)"""
    hs = body.h
    h = hs + 1
    return T_('cl', h, subst1(body, v, bv(h)))

def opn(cl, x):
    return subst1(cl.a[1], bv(cl.a[0]), x)

def subst1(t, x, y):
    return subst(t, {x: y})

def inst(b, i):
    """instantiate binder term's body at index i"""
    if b.op == 'lupd': return opn(b.a[3], i)
    if b.op in ('map', 'catmap', 'all', 'any'): return opn(b.a[1], i)
    raise ValueError(b.op)

def mkbind(op, n, f):
    v = lv(n)
    return bind(op, n, v, f(v))

def bind_map(op, b, f):
    v = lv(b.a[0])
    return bind(op, b.a[0], v, f(inst(b, v)))

def bind(op, n, v, body):
    """close over loop var v (ranging 0..n-1)"""
    if not isc(n):
        # inside the body 0 <= v < n, so n is not 0
        mp = {x: y for x, y in ((eq(n, ZERO), FALSE), (lt(ZERO, n), TRUE)) if x.op in ('eq', 'lt', 'not', 'or')}
        if contains(body, lambda x: x in mp): body = subst(body, mp)
    if op == 'map':
        if isc(n) and n.a[0] <= 0: return EMPTY
        # eta: map(size(x), i -> x[i]) = x ;  offset -> slice
        if body.op == 'sel' and v.a[0] not in body.a[0].fv:
            off = sub(body.a[1], v)
            if v.a[0] not in off.fv and body.a[0].op not in ('powers',):
                return slice_(body.a[0], off, n) if not (off is ZERO and n is size(body.a[0])) else body.a[0]
        if body.op == 'sel' and body.a[0].op == 'powers' and body.a[1] is v:
            return T_('powers', body.a[0].a[0], body.a[0].a[1], n)
        if isc(n) and n.a[0] <= 4 and v.a[0] in body.fv:
            return T_('vec', tuple(subst1(body, v, C(k)) for k in range(n.a[0])))
        if isc(n) and n.a[0] <= 4:
            return T_('vec', (body,) * n.a[0])
        return T_('map', n, close(body, v))
    if op == 'sum':
        if v.a[0] not in body.fv: return mul(n, body)
        if isc(n) and n.a[0] <= 64:
            acc = ZERO
            for k in range(n.a[0]): acc = add(acc, subst1(body, v, C(k)))
            return acc
        r = {}
        acc = ZERO
        for mono, c in as_poly(body).items():
            inv_ = tuple((x, e) for x, e in mono if v.a[0] not in x.fv)
            var_ = tuple((x, e) for x, e in mono if v.a[0] in x.fv)
            if not var_: at = n
            else:
                vb = from_poly({var_: 1})
                at = T_('sum', n, close(vb, v))
            acc = add(acc, mul(from_poly({inv_: c}), at))
        return acc
    if op == 'psum':
        acc = INF
        if isc(n) and n.a[0] <= 64:
            for k in range(n.a[0]): acc = pt_add(acc, subst1(body, v, C(k)))
            return acc
        for b, e in as_pt(body).items():
            if v.a[0] not in b.fv:
                acc = pt_add(acc, pt_mul(b, bind('sum', n, v, e)))
            else:
                for mono, c in as_poly(e).items():
                    inv_ = tuple((x, q) for x, q in mono if v.a[0] not in x.fv)
                    var_ = tuple((x, q) for x, q in mono if v.a[0] in x.fv)
                    vb = from_pt({b: from_poly({var_: 1})})
                    acc = pt_add(acc, pt_mul(T_('psum', n, close(vb, v)), from_poly({inv_: c})))
        return acc
    if op in ('all', 'any'):
        if body is TRUE or body is FALSE: return body if not isc(n) or n.a[0] > 0 else (TRUE if op == 'all' else FALSE)
        if v.a[0] not in body.fv:
            ne = lt(ZERO, n)
            return or_(not_(ne), body) if op == 'all' else and_(ne, body)
        if isc(n) and n.a[0] <= 4:
            xs = [subst1(body, v, C(k)) for k in range(n.a[0])]
            return and_(*xs) if op == 'all' else or_(*xs)
        last = sub(n, ONE)
        if contains(body, lambda x: x.op == 'eq' and x.a[1] is ZERO and (x.a[0] is sub(last, v) or x.a[0] is sub(v, last))):
            w = lv(last)
            hd = bind(op, last, w, subst1(body, v, w)); tl = subst1(body, v, last)
            return and_(hd, tl) if op == 'all' else or_(hd, tl)
        if contains(body, lambda x: x.op == 'eq' and x.a[1] is ZERO and x.a[0] is v):
            w = lv(last)
            hd = subst1(body, v, ZERO); tl = bind(op, last, w, subst1(body, v, add(w, ONE)))
            ne = lt(ZERO, n)
            return and_(or_(not_(ne), hd), tl) if op == 'all' else or_(and_(ne, hd), tl)
        if op == 'all' and body.op == 'and':
            return and_(*[bind('all', n, v, x) for x in body.a[0]])
        if op == 'any' and body.op == 'or':
            return or_(*[bind('any', n, v, x) for x in body.a[0]])
        return T_(op, n, close(body, v))
    if op == 'prodl':
        if isc(n) and n.a[0] <= 64:
            acc = ONE
            for k in range(n.a[0]): acc = mul(acc, subst1(body, v, C(k)))
            return acc
        return T_('prodl', n, close(body, v))
    if op == 'xsum':
        if isc(n) and n.a[0] <= 64: return xor(*[subst1(body, v, C(k)) for k in range(n.a[0])]) if n.a[0] else ZERO
        return T_('xsum', n, close(body, v))
    if op == 'catmap':
        if body is EMPTY: return EMPTY
        if isc(n) and n.a[0] <= 4:
            return cat(*[subst1(body, v, C(k)) for k in range(n.a[0])])
        return T_('catmap', n, close(body, v))
    raise ValueError(op)

# ------------------------------------------------------------ substitution
def subst(t, mp):
    """simultaneous substitution + renormalisation.  keys are terms."""
    memo = {}
    ids = set()
    for k in mp: ids.add(k)
    return _subst(t, mp, memo)

def _sa(x, mp, memo):
    if isinstance(x, T): return _subst(x, mp, memo)
    if isinstance(x, tuple): return tuple(_sa(y, mp, memo) for y in x)
    return x

def rebuild(op, a):
    f = _REB.get(op)
    if f: return f(*a)
    return T_(op, *a)

def _subst(t, mp, memo):
    r = memo.get(t)
    if r is not None: return r
    if t in mp:
        r = mp[t]
    elif not t.a:
        r = t
    elif t.op in BINDERS and t.op != 'while':
        na = [None] * len(t.a)
        same = True
        for i, x in enumerate(t.a):
            if isinstance(x, T) and x.op == 'cl': continue
            y = _sa(x, mp, memo)
            na[i] = y
            if y is not x and y != x: same = False
        # open closure(s) with a fresh var, substitute, rebind
        cls = [i for i, x in enumerate(t.a) if isinstance(x, T) and x.op == 'cl']
        ch = False
        for i in cls:
            nb = _subst(t.a[i].a[1], mp, memo)
            if nb is not t.a[i].a[1]: ch = True
        if same and not ch:
            r = t
        else:
            n = na[1] if t.op == 'lupd' else na[0]
            if t.op == 'pack':
                v = lv(C(128))
                r = T_('pack', close(_subst(opn(t.a[0], v), mp, {}), v))
            elif t.op in ('map', 'sum', 'psum', 'all', 'any', 'catmap', 'prodl', 'xsum'):
                v = lv(n)
                body = _subst(opn(t.a[1], v), mp, {})
                r = bind(t.op, n, v, body)
            elif t.op == 'lupd':
                v = lv(n)
                body = _subst(opn(t.a[3], v), mp, {})
                r = lupd(na[0], n, na[2], v, body)
            else:
                for i in cls:
                    na[i] = T_('cl', t.a[i].a[0], _subst(t.a[i].a[1], mp, memo))
                r = T_(t.op, *na)
    else:
        a = tuple(_sa(x, mp, memo) for x in t.a)
        if all(x is y or x == y for x, y in zip(a, t.a)): r = t
        else: r = rebuild(t.op, a)
    memo[t] = r
    return r

def lupd(base, n, off, v, body):
    if off is ZERO and n is size(base):
        return bind('map', n, v, body)
    if isc(n) and n.a[0] <= 4:
        r = base
        for k in range(n.a[0]): r = upd(r, add(off, C(k)), subst1(body, v, C(k)))
        return r
    return T_('lupd', base, n, off, close(body, v))

def _reb_poly(items):
    acc = {}
    for mono, c in items:
        cur = {(): c}
        for x, e in mono:
            if e > 0:
                px = as_poly(b2i(x))
                for _ in range(e): cur = pmul(cur, px)
            else:
                px = as_poly(x)
                if len(px) == 1:
                    (m0, c0), = px.items()
                    if c0 in (1, -1):
                        inv_ = tuple((y, -q) for y, q in m0)
                        for _ in range(-e): cur = pmul(cur, {inv_: c0})
                        continue
                cur = pmul(cur, {((x, e),): 1})
        acc = padd(acc, cur)
    return from_poly(acc)

def _reb_pt(items):
    acc = INF
    for b, e in items: acc = pt_add(acc, pt_mul(b, e))
    return acc

def div(a, b):
    if isc(a) and isc(b) and b.a[0]:
        q = abs(a.a[0]) // abs(b.a[0])
        return C(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q)
    if b is ONE: return a
    if isc(b):
        p = as_poly(a)
        if p and all(c % b.a[0] == 0 for c in p.values()): return from_poly({m: c // b.a[0] for m, c in p.items()})
        if a.op == 'div' and isc(a.a[1]): return div(a.a[0], C(a.a[1].a[0] * b.a[0]))
        k = p.get((), 0)
        if k > 0 and len(p) > 1 and b.a[0] > 0 and all(c > 0 and c % b.a[0] == 0 for m, c in p.items() if m):
            return from_poly({**{m: c // b.a[0] for m, c in p.items() if m}, **({(): k // b.a[0]} if k // b.a[0] else {})})
    return T_('div', a, b)

def modi(a, b):
    if isc(a) and isc(b) and b.a[0]: return C(a.a[0] - b.a[0] * div(a, b).a[0])
    if b is ONE: return ZERO
    if isc(b):
        p = as_poly(a)
        q = {m: c % b.a[0] for m, c in p.items()}
        q = {m: c for m, c in q.items() if c}
        if not q: return ZERO
        if a.op == 'lv' and isc(a.a[1]) and a.a[1].a[0] <= b.a[0]: return a
        n = b.a[0]
        if n > 0 and n & (n - 1) == 0:
            if a.op == 'xor': return xor(*[modi(x, b) for x in a.a[0]])
            if a.op == 'modi' and isc(a.a[1]) and a.a[1].a[0] % n == 0: return modi(a.a[0], b)
            if a.op == 'modi' and isc(a.a[1]) and n % a.a[1].a[0] == 0: return a
        if a.op == 'byte' and n >= 256: return a
    return T_('modi', a, b)

def shl(a, k):
    if isc(k): return mul(a, C(1 << k.a[0]))
    return T_('shl', a, k)
def shr(a, k):
    if isc(k): return div(a, C(1 << k.a[0]))
    return T_('shr', a, k)

def band(a, b):
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x.a[0] == 0: return ZERO
            n = x.a[0]
            if isc(y): return C(n & y.a[0])
            if n > 0 and (n & (n + 1)) == 0: return modi(y, C(n + 1))
    return T_('band', *sorted((a, b), key=lambda t: t.id)) if a is not b else a
def bor(a, b):
    if isc(a) and isc(b): return C(a.a[0] | b.a[0])
    if a is ZERO: return b
    if b is ZERO: return a
    return T_('bor', *sorted((a, b), key=lambda t: t.id)) if a is not b else a

def xor(*xs):
    """n-ary xor over ints/blocks/byte strings, cancelling pairs"""
    cnt = {}; c = 0
    st = list(xs)
    while st:
        x = st.pop()
        if x.op == 'xor': st.extend(x.a[0])
        elif x.op == 'c': c ^= x.a[0]
        elif x.op == 'zeroed': continue
        else: cnt[x] = cnt.get(x, 0) ^ 1
    l = [x for x, k in cnt.items() if k]
    if c: l.append(C(c))
    if not l: return ZERO
    if len(l) == 1: return l[0]
    return T_('xor', tuple(sorted(l, key=lambda t: t.id)))

_REB = {
    'poly': _reb_poly, 'mod': mod, 'inv': lambda m, t: minv(m, t), 'pt': _reb_pt,
    'and': lambda xs: and_(*xs), 'or': lambda xs: or_(*xs), 'not': not_,
    'eq': eq, 'lt': lt, 'peq0': lambda d: peq(d, INF), 'eq0m': lambda m, p: eq(mod(m, p), ZERO) if mod(m, p).op != 'c' or True else None,
    'ite': ite, 'fld': fld, 'rec': lambda b, items: mkrec(b, dict(items)),
    'cat': lambda xs: cat(*xs), 'slice': slice_, 'sel': sel, 'upd': upd, 'size': size,
    'div': div, 'modi': modi, 'shl': shl, 'shr': shr, 'band': band, 'bor': bor, 'xor': lambda xs: xor(*xs),
}

def register(op, f): _REB[op] = f

# ------------------------------------------------------------ traversal / printing
def subterms(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        ch = []
        _scan(x.a, ch)
        st.extend(ch)

def children(t):
    ch = []
    _scan(t.a, ch)
    return ch

def contains(t, pred):
    return any(pred(x) for x in subterms(t))

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 14: return '…'
    o = t.op; a = t.a
    s = lambda x: show(x, d + 1)
    if o == 'c': return str(a[0])
    if o == 's': return repr(a[0])
    if o in ('true', 'false', 'null'): return o
    if o == 'in': return str(a[0])
    if o == 'g': return str(a[0])
    if o == 'fld': return s(a[0]) + '.' + a[1]
    if o == 'sel': return s(a[0]) + '[' + s(a[1]) + ']'
    if o == 'lv': return 'i%d' % a[0]
    if o == 'bv': return 'b%d' % a[0]
    if o == 'cl': return 'λb%d.%s' % (a[0], s(a[1]))
    if o == 'size': return '|%s|' % s(a[0])
    if o == 'poly':
        out = []
        for mono, c in a[0]:
            ms = '*'.join(s(x) + ('' if e == 1 else '^%d' % e) for x, e in mono)
            if not ms: out.append(str(c))
            elif c == 1: out.append(ms)
            elif c == -1: out.append('-' + ms)
            else: out.append('%d*%s' % (c, ms))
        return '(' + ' + '.join(out) + ')'
    if o == 'mod': return '[%s]' % s(a[1])
    if o == 'pt':
        if not a[0]: return 'INF'
        return '<' + ' · '.join('%s^%s' % (s(b), s(e)) if e is not ONE else s(b) for b, e in a[0]) + '>'
    if o == 'and': return '(' + ' ∧ '.join(s(x) for x in a[0]) + ')'
    if o == 'or': return '(' + ' ∨ '.join(s(x) for x in a[0]) + ')'
    if o == 'not': return '¬' + s(a[0])
    if o == 'eq': return '(%s == %s)' % (s(a[0]), s(a[1]))
    if o == 'lt': return '(%s < %s)' % (s(a[0]), s(a[1]))
    if o == 'peq0': return '(%s = INF)' % s(a[0])
    if o == 'ite': return '(%s ? %s : %s)' % tuple(map(s, a))
    if o == 'cat': return ' ++ '.join(s(x) for x in a[0]) if a[0] else "''"
    if o == 'rec': return s(a[0]) + '{' + ', '.join('%s=%s' % (k, s(v)) for k, v in a[1]) + '}'
    return o + '(' + ', '.join(s(x) for x in a) + ')'
