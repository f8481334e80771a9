"""Second opinion on term equality: interpret two terms that are not syntactically
equal in several random algebraic models (group = Z_q, hashes/atoms = random
functions).  Used only to *withhold* a report when two terms the normaliser
could not identify denote the same function (identity testing on terms; the
program under analysis is never executed)."""
import hashlib
import terms as tm
from terms import T

Q = 2**61 - 1
class Unk(Exception): pass
class A:
    """value of an uninterpreted atom"""
    __slots__ = ('k',)
    def __init__(self, k): self.k = k
    def __eq__(self, o): return isinstance(o, A) and self.k == o.k
    def __hash__(self): return hash(self.k)

def H(*x): return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=16).digest(), 'big')

class Model:
    def __init__(self, seed, small=False): self.small = small; self.seed = seed; self.steps = 0; self.memo = {}
    def num(self, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        if isinstance(v, A):
            if self.small: return H(self.seed, 'n', v.k) % 5
            if v.k[0] == 'size' : return 1 + H(self.seed, v.k) % 5
            return 2 + H(self.seed, 'n', v.k) % (10**6)
        return H(self.seed, 'l', self.canon(v)) % Q
    def isz(self, v): return self.num(v)
    def pt(self, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v % Q
        return H(self.seed, 'p', self.canon(v)) % Q
    def canon(self, v):
        if isinstance(v, A): return ('A',) + v.k
        if isinstance(v, (list, tuple)): return ('L', tuple(self.canon(x) for x in v))
        if isinstance(v, dict): return ('D', tuple(sorted((k, self.canon(x)) for k, x in v.items() if k != '')), self.canon(v.get('', 0)))
        if isinstance(v, bool): return int(v)
        return v
    def size(self, v):
        if isinstance(v, list): return len(v)
        if isinstance(v, A):
            if v.k[0] == 'bytesof': return v.k[2] if isinstance(v.k[2], int) else 4
            return 1 + H(self.seed, 'size', v.k) % 5
        raise Unk('size')
    def seq(self, v):
        if isinstance(v, list): return v
        if isinstance(v, A): return [A(('sel', v.k, i)) for i in range(self.size(v))]
        if isinstance(v, (int, bool)): return [A(('scalarseq', int(v)))]
        raise Unk('seq')
    def sel(self, v, i):
        if isinstance(v, list):
            if 0 <= i < len(v): return v[i]
            return A(('oob', repr(self.canon(v)), i))
        if isinstance(v, A): return A(('sel', v.k, i))
        return A(('selx', repr(self.canon(v)), i))
    def fld(self, v, f):
        if isinstance(v, dict):
            return v[f] if f in v else self.fld(v[''], f)
        if isinstance(v, A): return A(('fld', v.k, f))
        return A(('fldx', repr(self.canon(v)), f))
    def truth(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        return H(self.seed, 'b', self.canon(v)) % 2 == 0
    def eqv(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool): return self.truth(a) == self.truth(b)
        if isinstance(a, int) and isinstance(b, int): return a == b
        if isinstance(a, int) and isinstance(b, A): return a == self.num(b)
        if isinstance(b, int) and isinstance(a, A): return b == self.num(a)
        if isinstance(a, list) or isinstance(b, list):
            try: x, y = self.seq(a), self.seq(b)
            except Unk: return False
            return len(x) == len(y) and all(self.eqv(p, q) for p, q in zip(x, y))
        if isinstance(a, dict) or isinstance(b, dict):
            ks = {k for d in (a, b) if isinstance(d, dict) for k in d if k != ''}
            base = lambda v: self.canon(v['']) if isinstance(v, dict) else self.canon(v)
            return base(a) == base(b) and all(self.eqv(self.fld(a, k), self.fld(b, k)) for k in ks)
        return self.canon(a) == self.canon(b)

    def ev(self, t, env):
        if not isinstance(t, T):
            if isinstance(t, tuple): return [self.ev(x, env) for x in t]
            return t
        key = None
        if not env:
            key = t
            if t in self.memo: return self.memo[t]
        self.steps += 1
        if self.steps > 200000: raise Unk('budget')
        r = self.ev_(t, env)
        if key is not None: self.memo[t] = r
        return r
    def ev_(self, t, env):
        o, a = t.op, t.a
        E = lambda x: self.ev(x, env)
        N = lambda x: self.num(E(x))
        if o == 'c': return a[0]
        if o == 'true': return True
        if o == 'false': return False
        if o == 's': return [A(('ch', ord(c))) for c in a[0]]
        if o == 'lv' : return env[t] if t in env else A(('lv', a[0]))
        if o == 'bv': return env[t] if t in env else A(('bv', a[0]))
        if o == 'poly':
            neg = any(e < 0 for mono, c in a[0] for x, e in mono)
            s = 0
            for mono, c in a[0]:
                p = c
                for x, e in mono:
                    v = self.scal(E(x))
                    p = p * (pow(v % Q, e % (Q - 1), Q) if e < 0 else v ** e)
                s += p
            return s % Q if neg else s
        if o == 'mod':
            if a[0] is tm.ORDER or self.isorder(a[0]): return self.scal(E(a[1])) % Q
            m = N(a[0]); return N(a[1]) % m if m else A(('mod0', N(a[1])))
        if o == 'inv':
            v = self.scal(E(a[1])) % Q
            return pow(v, Q - 2, Q)
        if o == 'powers': 
            n = N(a[2]); g = self.scal(E(a[1])) % Q
            return [pow(g, i, Q) for i in range(n)]
        if o == 'sel' and a[0].op == 'powers':
            return pow(self.scal(E(a[0].a[1])) % Q, N(a[1]), Q)
        if o == 'pt': return sum(self.pt(E(b)) * self.scal(E(e)) for b, e in a[0]) % Q
        if o == 'peq0': return self.pt(E(a[0])) % Q == 0
        if o == 'eq0m': return self.scal(E(a[1])) % Q == 0
        if o == 'and': return all(self.truth(E(x)) for x in a[0])
        if o == 'or': return any(self.truth(E(x)) for x in a[0])
        if o == 'not': return not self.truth(E(a[0]))
        if o == 'eq': return self.eqv(E(a[0]), E(a[1]))
        if o == 'lt': return N(a[0]) < N(a[1])
        if o == 'ite': return E(a[1]) if self.truth(E(a[0])) else E(a[2])
        if o == 'rec':
            d = {k: E(v) for k, v in a[1]}; d[''] = E(a[0]); return d
        if o == 'fld': return self.fld(E(a[0]), a[1])
        if o == 'sel': return self.sel(E(a[0]), N(a[1]))
        if o == 'size': return self.size(E(a[0]))
        if o == 'cat':
            out = []
            for x in a[0]: out += self.seq(E(x))
            return out
        if o == 'vec': return [E(x) for x in a[0]]
        if o == 'slice':
            v = E(a[0]); of = N(a[1]); n = N(a[2])
            if n > 5000: raise Unk('big')
            return [self.sel(v, of + i) for i in range(n)]
        if o == 'upd':
            v = E(a[0]); i = N(a[1]); x = E(a[2])
            l = list(self.seq(v))
            if 0 <= i < len(l): l[i] = x; return l
            return A(('updoob', repr(self.canon(l)), i, repr(self.canon(x))))
        if o == 'resize':
            l = list(self.seq(E(a[0]))); n = N(a[1])
            if n > 5000: raise Unk('big')
            f = E(a[2]) if isinstance(a[2], T) else A(('fill', 0))
            return (l + [f] * max(0, n - len(l)))[:n]
        if o in ('map', 'catmap', 'sum', 'psum', 'all', 'any'):
            n = N(a[0]); cl = a[1]
            if n > 3000: raise Unk('big')
            vs = []
            b = tm.bv(cl.a[0])
            for i in range(n):
                e2 = dict(env); e2[b] = i
                vs.append(self.ev(cl.a[1], e2))
            if o == 'map': return vs
            if o == 'catmap':
                out = []
                for v in vs: out += self.seq(v)
                return out
            if o == 'sum': return sum(self.scal(v) for v in vs)
            if o == 'psum': return sum(self.pt(v) for v in vs) % Q
            if o == 'all': return all(self.truth(v) for v in vs)
            return any(self.truth(v) for v in vs)
        if o == 'lupd':
            l = list(self.seq(E(a[0]))); n = N(a[1]); of = N(a[2]); cl = a[3]
            if n > 3000: raise Unk('big')
            for i in range(n):
                e2 = dict(env); e2[tm.bv(cl.a[0])] = i
                v = self.ev(cl.a[1], e2)
                if 0 <= of + i < len(l): l[of + i] = v
                else: return A(('lupdoob', repr(self.canon(l))))
            return l
        if o == 'div':
            x, y = N(a[0]), N(a[1])
            return (abs(x) // abs(y)) * (1 if (x >= 0) == (y > 0) else -1) if y else A(('div0', x))
        if o == 'modi':
            x, y = N(a[0]), N(a[1])
            return x - y * ((abs(x) // abs(y)) * (1 if (x >= 0) == (y > 0) else -1)) if y else A(('mod0', x))
        if o == 'shl': return N(a[0]) << min(N(a[1]), 4096)
        if o == 'shr': return N(a[0]) >> min(N(a[1]), 4096)
        if o == 'band': return N(a[0]) & N(a[1])
        if o == 'bor': return N(a[0]) | N(a[1])
        if o == 'xor':
            r = 0
            for x in a[0]: r ^= self.num(E(x))
            return r
        if o in ('while', 'loop', 'opaque', 'phi', 'brkloop'): raise Unk(o)
        # uninterpreted function of evaluated arguments
        return A((o,) + tuple(self.key(x, env) for x in a))
    def key(self, x, env):
        if isinstance(x, T): return self.canon2(self.ev(x, env))
        if isinstance(x, tuple): return tuple(self.key(y, env) for y in x)
        return x
    def canon2(self, v):
        """canonical key; sequences that are atoms are expanded so cat/slice forms agree"""
        if isinstance(v, A): return ('A',) + v.k
        if isinstance(v, list): 
            # a list that is exactly all elements of one atom collapses to the atom
            if v and all(isinstance(x, A) and x.k[0] == 'sel' and x.k[2] == i for i, x in enumerate(v)) and len({x.k[1] for x in v}) == 1:
                base = A(v[0].k[1])
                if self.size(base) == len(v): return ('A',) + base.k
            return ('L',) + tuple(self.canon2(x) for x in v)
        if isinstance(v, dict): return ('D', tuple(sorted((k, self.canon2(x)) for k, x in v.items() if k != '')), self.canon2(v.get('', 0)))
        return int(v) if isinstance(v, bool) else v
    def scal(self, v): return self.num(v)
    def isorder(self, m): return m.op == 'g' and m.a[0] == 'order' or (m.op == 'fld' and m.a[1] == 'order')

def same_bool(a, b):
    """structural match of conjunctions/quantifiers; equations compared by their two sides"""
    if a is b: return True
    if a.op != b.op:
        for x, y in ((a, b), (b, a)):
            if x.op in ('and', 'or') and y.op in ('and', 'or', 'true', 'false'): return False
        return False
    o = a.op
    if o in ('and', 'or'):
        xs, ys = list(a.a[0]), list(b.a[0])
        for x in list(xs):
            for y in ys:
                if same_bool(x, y): xs.remove(x); ys.remove(y); break
        return not xs and not ys
    if o == 'not': return same_bool(a.a[0], b.a[0])
    if o == 'peq0': return same(a.a[0], b.a[0]) or same(a.a[0], tm.pt_mul(b.a[0], tm.C(-1)))
    if o == 'eq0m': return same(a.a[1], b.a[1]) or same(a.a[1], tm.neg(b.a[1]))
    if o == 'eq':
        return all(same(x, y) for x, y in zip(a.a, b.a)) or all(same(x, y) for x, y in zip(a.a, reversed(b.a))) or \
            (a.a[1] is tm.ZERO and b.a[1] is tm.ZERO and bool(same(a.a[0], tm.neg(b.a[0]))))
    if o == 'lt': return all(same(x, y) for x, y in zip(a.a, b.a))
    if o in ('all', 'any'):
        if not same(a.a[0], b.a[0]): return False
        v = tm.lv(a.a[0])
        return same_bool(tm.inst(a, v), tm.inst(b, v))
    if o == 'ite': return same_bool(a.a[0], b.a[0]) and same_bool(a.a[1], b.a[1]) and same_bool(a.a[2], b.a[2])
    if o == 'bool': return same(a.a[0], b.a[0])
    return False

def cond_atoms(t):
    """equations that guard a choice somewhere in t (random models never satisfy them)"""
    out = []
    for x in tm.subterms(t):
        if x.op == 'ite':
            for y in tm.subterms(x.a[0]):
                if y.op in ('eq', 'eq0m', 'peq0') and y not in out: out.append(y)
    return out

ATOMIC = ('in', 'g', 'fld', 'sel', 'rand', 'lv', 'call', 'xpt', 'hash', 'size')
def solve_eq(c):
    """{x: value} making the equation c true, or None"""
    def lone(t):
        """t = coef*x + rest with coef +-1 and x atomic not in rest"""
        d = tm.as_poly(t)
        for mono, k in d.items():
            if k in (1, -1) and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op in ATOMIC:
                x = mono[0][0]
                rest = tm.from_poly({m2: (v if k == -1 else -v) for m2, v in d.items() if m2 != mono})
                if x not in set(tm.subterms(rest)): return {x: rest}
        return None
    try:
        if c.op == 'eq0m': return lone(c.a[1])
        if c.op == 'peq0':
            d = tm.as_pt(c.a[0])
            for x, e in d.items():
                if x.op in ATOMIC and e in (tm.ONE, tm.C(-1)):
                    rest = tm.INF
                    for y, e2 in d.items():
                        if y is not x: rest = tm.pt_add(rest, tm.pt_mul(y, e2), -1 if e is tm.ONE else 1)
                    if x not in set(tm.subterms(rest)): return {x: rest}
            return None
        x, y = c.a
        if y is tm.ZERO or x.op == 'poly' or y.op in ('c', 'poly'):
            r = lone(tm.sub(x, y))
            if r: return r
        for p, q in ((x, y), (y, x)):
            if p.op in ATOMIC and p not in set(tm.subterms(q)): return {p: q}
    except Exception: return None
    return None

def same(a, b, n=6, small=False, deep=True):
    """True: equal in every model tried; False: some model separates them; None: cannot evaluate"""
    if a is b: return True
    if not isinstance(a, T) or not isinstance(b, T): return None
    if tm.isbool(a) and tm.isbool(b): return same_bool(a, b)
    # boundaries are invisible to random models: comparisons must agree syntactically
    la = {x for x in tm.subterms(a) if x.op == 'lt'}; lb = {x for x in tm.subterms(b) if x.op == 'lt'}
    if la != lb: return False
    unk = False
    for s in range(n):
        m = Model(s)
        try:
            if not m.eqv(m.ev(a, {}), m.ev(b, {})): return False
        except (Unk, RecursionError, ValueError, TypeError, KeyError, OverflowError): unk = True
    if small:
        for s in range(40):
            m = Model(1000 + s, True)
            try:
                if not m.eqv(m.ev(a, {}), m.ev(b, {})): return False
            except (Unk, RecursionError, ValueError, TypeError, KeyError, OverflowError): unk = True
    if unk: return None
    if deep:
        # equations that guard a choice are never satisfied by random models: decide those cases explicitly
        for c in cond_atoms(a) + [x for x in cond_atoms(b)]:
            mp = solve_eq(c)
            x, y = tm.subst(a, {c: tm.TRUE}), tm.subst(b, {c: tm.TRUE})
            if mp: x, y = tm.subst(x, mp), tm.subst(y, mp)
            if same(x, y, n=3, deep=False): continue
            return False if mp else None
    return True
