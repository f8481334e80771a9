"""Value-flow abstract interpreter over the extracted IR.

One pass per function body; branches are merged (gated values), loops are
summarised from their transfer function, callees inside the analysed tree are
inlined unless listed in `stops`.  Nothing is executed, no path is enumerated,
no solver is called: the result is one value term per location.
"""
import json
from terms import *
import terms as tm

class Dead(Exception): pass
class Unsupported(Exception): pass

import functools
@functools.lru_cache(None)
def strip_targs(q):
    out = []; dep = 0; i = 0; n = len(q)
    while i < n:
        c = q[i]
        if c == '<':
            pre = q[:i]
            if pre.endswith('operator') or pre.endswith('operator<'):
                out.append(c) if dep == 0 else None
            else: dep += 1
        elif c == '>':
            if dep: dep -= 1
            else: out.append(c)
        elif dep == 0: out.append(c)
        i += 1
    return ''.join(out)

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.F = {}
        self.byq = {}
        for f in d['functions']:
            self.F[f['m']] = f
            f['sq'] = strip_targs(f['q'])
            self.byq.setdefault(f['sq'], []).append(f)
        self.R = {r['ty']: r for r in d['records']}
        self.Rq = {r['q']: r for r in d['records']}
        self.G = {g['q']: g for g in d['globals']}
    def find(self, q, file=None, nparams=None, ptypes=None):
        c = self.byq.get(q, [])
        if file: c = [f for f in c if f['file'].endswith(file)]
        if nparams is not None: c = [f for f in c if len(f['params']) == nparams]
        if ptypes is not None:
            c = [f for f in c if all(i < len(f['params']) and p in f['params'][i]['ty'] for i, p in ptypes.items())]
        return c

class Frame:
    __slots__ = ('fn', 'env', 'this', 'rets', 'id', 'brk', 'cont', 'aborts', 'retref')
    def __init__(self, fn, fid):
        self.fn = fn; self.env = {}; self.this = None; self.rets = []; self.id = fid
        self.brk = None; self.cont = None; self.retref = fn.get('retref') if fn else False

class State:
    __slots__ = ('cells', 'pc')
    def __init__(self, cells, pc): self.cells = cells; self.pc = pc
    def copy(self): return State(dict(self.cells), self.pc)

WRAP = {('BigInt', 'bn_ptr'), ('ECPoint', 'point_ptr'), ('EC25519Point', 'px')}
ASSUME = ('ASSUME',)
TRACE = ('TRACE',)

NUMERIC = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char',
           'signed char', 'bool', 'long long', 'unsigned long long', 'double', 'float', '__int128', 'unsigned __int128'}
BITS = {'bool': 1, 'char': 8, 'unsigned char': 8, 'signed char': 8, 'short': 16, 'unsigned short': 16,
        'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
SIZEOF = {'bool': 1, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'int': 4,
          'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'double': 8, 'size_t': 8}

def wtype(t): return '__m128i *' if 'vector_size' in t or '__m128i' in t else t.replace('const ', '').replace('uint64_t', 'unsigned long').replace('u64', 'unsigned long')
def w64(v, k):
    if isc(v) and isc(k): return C((v.a[0] >> (64 * k.a[0])) & (1 << 64) - 1)
    if v.op == 'xor' and isc(k): return xor(*[w64(x, k) for x in v.a[0]])
    return T_('w64', v, k)
def setw64(v, k, x):
    if isc(v) and isc(k) and isc(x):
        m = ((1 << 64) - 1) << (64 * k.a[0]); return C((v.a[0] & ~m) | (x.a[0] << (64 * k.a[0])))
    return T_('setw64', v, k, x)
tm.register('w64', w64)

WV = {'h': 2, 'd': 4, 'q': 8}
def wview(v, x, k):
    if k == 'h': return T_('u16', sel(v, x), sel(v, add(x, ONE)))
    return T_('le', tuple(sel(v, add(x, C(j))) for j in range(WV[k])))
class Interp:
    maxrec = 2
    def __init__(self, prog, stops=(), prims=None, noinline=(), wrap=True):
        self.p = prog
        self.stops = set(stops)
        self.prims = dict(PRIMS)
        if prims: self.prims.update(prims)
        self.nframe = 0
        self.unknown = {}
        self.loopvars = []
        self.depth = 0
        self.hooks = []           # (on_load, on_store)
        self.calls = []           # call log (qname, line) of stops
        self.wrap = wrap
        self.nheap = 0
        self.stack = []
        self.ginit = {}
        self.steps = 0
        self.omp = None
        self.noteline = None
        self.lines = set()
        self.budget = 3_000_000

    # ------------------------------------------------------------ memory
    def fresh(self, kind, *x):
        return T_(kind, uid(), *x, tuple(self.loopvars))

    def opaque(self, why):
        self.unknown[why] = self.unknown.get(why, 0) + 1
        return T_('opaque', why, uid())

    def cell(self, st, root):
        v = st.cells.get(root)
        if v is None:
            v = self.initial(root, st)
            st.cells[root] = v
        return v

    def initial(self, root, st):
        if root[0] == 'G':
            q = root[1]
            g = self.p.G.get(q)
            if g and g['const'] and g['init'] is not None and q not in self.ginit:
                self.ginit[q] = None
                fr = Frame({'q': '<global>', 'm': '', 'retref': False}, 0)
                try:
                    v = self.construct_from(g['init'], st, fr, g['ty'])
                except (Unsupported, Dead):
                    v = T_('g', q)
                self.ginit[q] = v
            if self.ginit.get(q) is not None: return self.ginit[q]
            return T_('g', q)
        if root[0] == 'GP': return T_('ptr', ('G', root[1]), ())
        if root in (ASSUME,): return TRUE
        if root[0] in ('TRACE', 'STREAM'): return EMPTY
        return T_('undef', root)

    def load(self, st, lv):
        root, path = lv
        if self.hooks:
            for h in self.hooks: h.on_load(self, st, lv)
        v = self.cell(st, root)
        for k, x in path:
            v = fld(v, x) if k == 'f' else (sel(v, x) if k == 'i' else (w64(v, x) if k == 'w' else wview(v, x, k)))
        return v

    def store(self, st, lv, val):
        root, path = lv
        if self.hooks:
            for h in self.hooks: h.on_store(self, st, lv, val)
        st.cells[root] = self._put(self.cell(st, root), path, 0, val) if path else val

    def _put(self, v, path, i, val):
        if i == len(path): return val
        k, x = path[i]
        if k == 'f': return mkrec(v, {x: self._put(fld(v, x), path, i + 1, val)})
        if k == 'w': return setw64(v, x, val)
        if k == 'h': return upd(upd(v, x, T_('lo8', val)), add(x, ONE), T_('hi8', val))
        if k in 'dq':
            for j in range(WV[k]): v = upd(v, add(x, C(j)), T_('byteof', val, C(j)))
            return v
        return upd(v, x, self._put(sel(v, x), path, i + 1, val))

    def newroot(self, kind='H'):
        self.nheap += 1
        return (kind, self.nheap)

    def temp(self, st, val, fr):
        r = ('L', fr.id, 't', uid())
        st.cells[r] = val
        return (r, ())

    @staticmethod
    def ptr(lv): return T_('ptr', lv[0], lv[1])
    def deref(self, t, st, fr):
        if t.op == 'ptr': return (t.a[0], t.a[1])
        if t.op == 'it': return (t.a[0], t.a[1] + (('i', t.a[2]),))
        if t.op == 'ite':
            # pointer merge: give up precisely
            raise Unsupported('deref of merged pointer')
        if t.op == 'padd':
            raise Unsupported('deref of opaque pointer arithmetic')
        return (('P', t), ())

    def ptr_add(self, t, k):
        if k is ZERO: return t
        if t.op == 'ptr':
            root, path = t.a
            if path and path[-1][0] in WV: return T_('ptr', root, path[:-1] + ((path[-1][0], add(path[-1][1], mul(C(WV[path[-1][0]]), k))),))
            if path and path[-1][0] in 'iw':
                return T_('ptr', root, path[:-1] + ((path[-1][0], add(path[-1][1], k)),))
            return T_('ptr', root, path + (('i', k),))
        if t.op == 'it':
            return T_('it', t.a[0], t.a[1], add(t.a[2], k))
        return T_('ptr', ('P', t), (('i', k),))

    # region of bytes/elements behind a pointer
    def arr_of(self, t, st, fr):
        """pointer -> (array lvalue, offset)"""
        if t.op == 'it': return (t.a[0], t.a[1]), t.a[2]
        lv = self.deref(t, st, fr)
        root, path = lv
        if path and path[-1][0] == 'i': return (root, path[:-1]), path[-1][1]
        return (root, path), ZERO

    def read_region(self, t, n, st, fr):
        a, off = self.arr_of(t, st, fr)
        v = self.load(st, a)
        return region_read(v, off, n)

    def write_region(self, t, n, val, st, fr):
        a, off = self.arr_of(t, st, fr)
        v = self.load(st, a)
        self.store(st, a, region_write(v, off, n, val))

    # ------------------------------------------------------------ defaults
    def field_default(self, f, st, fr, zero=False):
        if len(f) > 4 and f[4] is not None and f[4][0] != 'x': return self.eval(f[4], st, fr)
        return self.default(f[1], st, fr, zero)
    def default(self, ty, st, fr, zero=False):
        if ty in NUMERIC or ty.endswith('*'):
            return ZERO if zero else T_('undef', uid())
        if ty.startswith('std::vector') or ty.startswith('std::basic_string') or ty.startswith('std::unordered') or ty.startswith('std::set<') or ty.startswith('std::map') or ty.startswith('std::list'):
            return EMPTY
        if ty.endswith(']'):
            base, dims = ty[:ty.index('[')], ty[ty.index('[') + 1:]
            n = dims[:dims.index(']')]
            if n.strip().isdigit():
                rest = dims[dims.index(']') + 1:]
                if rest: return mkbind('map', C(int(n)), lambda i: self.default(base.strip() + rest, st, fr, zero))
                if zero: return T_('map', C(int(n)), close(ZERO, lv(C(int(n)))))
                return T_('buf', C(int(n)), T_('undef', uid()), ())
            return T_('undef', uid())
        r = self.p.R.get(ty)
        if r:
            if r['q'] in ('BigInt',): return ZERO
            if r['q'] == 'ECPoint': return INF          # EC_POINT_new yields the point at infinity
            if r['q'] == 'EC25519Point': return T_('buf', C(32), T_('undef', uid()), ())
            # user default ctor?
            for f in self.p.byq.get(strip_targs(r['q']) + '::' + strip_targs(r['q']).split('::')[-1], []):
                if f.get('ctor') and len(f['params']) == 0 and f.get('cls') == r['q']:
                    lvt = self.temp(st, T_('undef', uid()), fr)
                    self.invoke(f, lvt, [], st, fr, 0)
                    v = self.load(st, lvt); del st.cells[lvt[0]]
                    return v
            return mkrec(T_('newrec', r['q']), {f[0]: self.field_default(f, st, fr, zero) for f in r['fields']})
        if ty.startswith('std::array'):
            return T_('undef', uid())
        return T_('undef', uid())

    # ------------------------------------------------------------ lvalues
    def lval(self, e, st, fr):
        k = e[0]
        if k == 'v':
            r = fr.env.get(e[2])
            if r is None:
                r = (('L', fr.id, e[2], e[3]), ()); fr.env[e[2]] = r
            return r
        if k == 'g':
            if e[3].endswith('*') and ('bignum_st' in e[3] or 'ec_point_st' in e[3]):
                return (('GP', e[2]), ())
            return (('G', e[2]), ())
        if k == 'm':
            if self.wrap and (e[4], e[3]) in WRAP: return self.lval(e[2], st, fr)
            b = self.lval(e[2], st, fr)
            return (b[0], b[1] + (('f', e[3]),))
        if k == '[]':
            p = self.eval(e[2], st, fr)
            i = self.eval(e[3], st, fr)
            return self.deref(self.ptr_add(p, i), st, fr)
        if k == 'u' and e[2] == '*':
            if e[3][0] == 'this': return fr.this
            p = self.eval(e[3], st, fr)
            return self.deref(p, st, fr)
        if k == 'u' and e[2] in ('pre++', 'pre--'):
            self.eval(e, st, fr); return self.lval(e[3], st, fr)
        if k == 'this': return self.temp(st, self.ptr(fr.this), fr)
        if k == '=':
            self.eval(e, st, fr); return self.lval(e[3], st, fr)
        if k == 'call':
            r = self.call(e, st, fr)
            if isinstance(r, tuple): return r
            return self.temp(st, r, fr)
        if k == '?':
            c = boolv(self.eval(e[2], st, fr))
            if c is TRUE: return self.lval(e[3], st, fr)
            if c is FALSE: return self.lval(e[4], st, fr)
            return self.temp(st, self.eval(e, st, fr), fr)
        if k == 'cast' and e[4][0] in ('v', 'm', '[]', 'u', 'call', 'g') and e[2] in ('NoOp', 'LValueBitCast', 'BaseToDerived'):
            return self.lval(e[4], st, fr)
        if k == 'x':
            return self.temp(st, self.opaque('x:' + str(e[2])), fr)
        return self.temp(st, self.eval(e, st, fr), fr)

    # ------------------------------------------------------------ expressions
    def eval(self, e, st, fr):
        self.steps += 1
        if self.steps > self.budget: raise Unsupported('step budget exceeded')
        if e is None: return T_('void')
        k = e[0]
        if k == 'i': return C(int(e[2])) if e[3] != 'bool' else (TRUE if int(e[2]) else FALSE)
        if k == 's': return T_('s', e[2])
        if k == 'f': return T_('f', repr(e[2])) if e[2] != int(e[2]) else C(int(e[2]))
        if k == 'null': return T_('null')
        if k == 'zero': return self.default(e[2], st, fr, True)
        if k == 'fn': return T_('fnp', e[2], e[3])
        if k == 'this': return self.ptr(fr.this)
        if k == 'v':
            l = self.lval(e, st, fr)
            if '[' in e[4] and e[4].endswith(']'): return self.ptr((l[0], l[1] + (('i', ZERO),)))
            return self.load(st, l)
        if k == 'g':
            if e[3].endswith('*') and ('bignum_st' in e[3] or 'ec_point_st' in e[3]):
                return self.ptr((('G', e[2]), ()))
            l = self.lval(e, st, fr)
            if e[3].endswith(']'): return self.ptr((l[0], l[1] + (('i', ZERO),)))
            return self.load(st, l)
        if k == 'm':
            if self.wrap and (e[4], e[3]) in WRAP:
                l = self.lval(e[2], st, fr)
                if e[3] == 'px': return self.ptr((l[0], l[1] + (('i', ZERO),)))
                return self.ptr(l)
            l = self.lval(e, st, fr)
            if e[5].endswith(']'): return self.ptr((l[0], l[1] + (('i', ZERO),)))
            return self.load(st, l)
        if k == '[]':
            l = self.lval(e, st, fr)
            if e[4].endswith(']'): return self.ptr((l[0], l[1] + (('i', ZERO),)))
            return self.load(st, l)
        if k == 'cast':
            v = self.eval(e[4], st, fr)
            return self.cast(e[2], e[3], v, e[5])
        if k == 'u': return self.unary(e, st, fr)
        if k == 'b': return self.binary(e, st, fr)
        if k == '=': return self.assign(e, st, fr)
        if k == '?':
            c = boolv(self.eval(e[2], st, fr))
            if c is TRUE: return self.eval(e[3], st, fr)
            if c is FALSE: return self.eval(e[4], st, fr)
            s2 = st.copy()
            try: a = self.eval(e[3], st, fr)
            except Dead: a = None
            try: b = self.eval(e[4], s2, fr)
            except Dead:
                if a is None: raise
                st.cells[ASSUME] = and_(st.cells.get(ASSUME, TRUE), or_(not_(st.pc), c))
                return a
            if a is None:
                st.cells = s2.cells
                st.cells[ASSUME] = and_(st.cells.get(ASSUME, TRUE), or_(not_(st.pc), not_(c)))
                return b
            self.merge_into(st, c, s2)
            return ite(c, a, b)
        if k == 'call':
            r = self.call(e, st, fr)
            if isinstance(r, tuple): return self.load(st, r)
            return r
        if k == 'ctor': return self.ctor(e, st, fr)
        if k == 'init':
            return self.initlist(e, st, fr)
        if k == 'new':
            root = self.newroot()
            if e[5]:
                n = self.eval(e[3], st, fr) if e[3] is not None else ZERO
                if e[2] in ('unsigned char', 'char'):
                    v = T_('buf', n, T_('undef', uid()), ())
                else:
                    d = self.default(e[2], st, fr)
                    v = bind('map', n, lv(n), d) if d.op != 'undef' else T_('buf', n, d, ())
                st.cells[root] = v
                return self.ptr((root, (('i', ZERO),)))
            st.cells[root] = self.eval(e[4], st, fr) if e[4] is not None else self.default(e[2], st, fr)
            return self.ptr((root, ()))
        if k == 'del':
            self.eval(e[3], st, fr)
            return T_('void')
        if k == 'throw': raise Dead()
        if k == 'icall':
            return self.opaque('icall')
        if k == 'lam': return T_('lam', id(e))
        if k == 'x':
            return self.opaque('x:' + str(e[2]))
        raise Unsupported('expr ' + k)

    def initlist(self, e, st, fr):
        ty = e[2]
        vals = [self.construct_from(x, st, fr, None) for x in e[3]]
        r = self.p.R.get(ty)
        if r:
            d = {}
            for f, v in zip(r['fields'], vals): d[f[0]] = v
            for f in r['fields'][len(vals):]: d[f[0]] = self.field_default(f, st, fr, True)
            return mkrec(T_('newrec', r['q']), d)
        if ty.endswith(']'):
            n = ty[ty.rindex('[') + 1:-1]
            if n.isdigit() and len(vals) < int(n) and int(n) <= 4096:
                base = ty[:ty.index('[')].strip()
                if not vals: return self.default(ty, st, fr, True)
                vals += [self.default(base, st, fr, True)] * (int(n) - len(vals))
            return T_('vec', tuple(vals))
        if len(vals) == 1 and not ty.startswith('std::'): return vals[0]
        if not vals: return self.default(ty, st, fr, True)
        return T_('vec', tuple(vals))

    words = False                   # model uint64_t views of 128-bit blocks
    def cast(self, kind, ty, v, sty):
        if self.words and kind == 'BitCast' and v.op == 'ptr' and '__m128i' in wtype(sty) and wtype(ty) == 'unsigned long *' and not (v.a[1] and v.a[1][-1][0] == 'w'):
            return T_('ptr', v.a[0], v.a[1] + (('w', ZERO),))
        if self.words and kind == 'BitCast' and v.op == 'ptr' and 'unsigned char' in sty and 'unsigned short' in ty and v.a[1] and v.a[1][-1][0] == 'i':
            return T_('ptr', v.a[0], v.a[1][:-1] + (('h', v.a[1][-1][1]),))
        if self.words == 2 and kind == 'BitCast' and v.op == 'ptr' and 'unsigned char' in sty and v.a[1] and v.a[1][-1][0] == 'i' and (k := 'd' if 'unsigned int *' in wtype(ty) else 'q' if 'unsigned long' in wtype(ty) else None):
            return T_('ptr', v.a[0], v.a[1][:-1] + ((k, v.a[1][-1][1]),))
        if kind in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'): return boolv(v)
        if kind in ('IntegralCast', 'IntegralToFloating', 'BooleanToSignedIntegral'):
            if kind == 'IntegralCast' and sty == 'bool': return b2i(v)
            if isbool(v): v = b2i(v)
            if kind == 'IntegralCast' and ty in BITS and sty in BITS and BITS[ty] <= 16 and BITS[sty] > BITS[ty]:
                if isc(v): return C(v.a[0] & ((1 << BITS[ty]) - 1)) if ty.startswith('unsigned') or v.a[0] < 0 and ty == 'unsigned char' else v
                return modi(v, C(1 << BITS[ty])) if ty.startswith('unsigned') else T_('trunc', BITS[ty], v)
            return v
        if kind == 'FloatingToIntegral':
            if v.op in ('c', 'poly', 'size', 'pow2', 'div'): return v
            return tm.rebuild('toint', (v,))
        return v

    def unary(self, e, st, fr):
        op = e[2]
        if op == '*':
            l = self.lval(e, st, fr)
            return self.load(st, l)
        if op == '&':
            if e[3][0] == 'fn': return self.eval(e[3], st, fr)
            l = self.lval(e[3], st, fr)
            return self.ptr(l)
        if op in ('pre++', 'pre--', 'post++', 'post--'):
            l = self.lval(e[3], st, fr)
            old = self.load(st, l)
            d = ONE if '++' in op else C(-1)
            new = self.ptr_add(old, d) if old.op in ('ptr', 'it') else add(old, d)
            self.store(st, l, new)
            return new if op.startswith('pre') else old
        v = self.eval(e[3], st, fr)
        if op == '!': return not_(boolv(v))
        if op == '-': return neg(v)
        if op == '+': return v
        if op == '~':
            if isc(v):
                b = BITS.get(e[4], 32)
                return C(~v.a[0] & ((1 << b) - 1)) if 'unsigned' in e[4] else C(~v.a[0])
            return T_('bnot', v)
        return self.opaque('unary ' + op)

    def arith(self, op, a, b, ty):
        if op in ('+', '-'):
            if a.op in ('ptr', 'it') and not b.op in ('ptr', 'it'):
                return self.ptr_add(a, b if op == '+' else neg(b))
            if b.op in ('ptr', 'it') and op == '+': return self.ptr_add(b, a)
            if a.op == 'it' and b.op == 'it' and a.a[:2] == b.a[:2]: return sub(a.a[2], b.a[2])
            if a.op == 'ptr' and b.op == 'ptr':
                return T_('pdiff', a, b)
            if ty in ('double', 'float') and (a.op == 'f' or b.op == 'f'): return T_('fp' + op, a, b)
            return add(a, b) if op == '+' else sub(a, b)
        a = b2i(a); b = b2i(b)
        if op == '*':
            if a.op == 'f' or b.op == 'f': return T_('fp*', *sorted((a, b), key=lambda t: t.id))
            return mul(a, b)
        if op == '/':
            if ty in ('double', 'float'): return T_('fp/', a, b) if not b is ONE else a
            return div(a, b)
        if op == '%': return modi(a, b)
        if op == '<<': return shl(a, b)
        if op == '>>': return shr(a, b)
        if op == '&': return band(a, b)
        if op == '|': return bor(a, b)
        if op == '^': return xor(a, b)
        return self.opaque('arith ' + op)

    def binary(self, e, st, fr):
        op = e[2]
        if op in ('&&', '||'):
            a = boolv(self.eval(e[3], st, fr))
            if op == '&&' and a is FALSE: return FALSE
            if op == '||' and a is TRUE: return TRUE
            s2 = st.copy()
            b = boolv(self.eval(e[4], s2, fr))
            c = a if op == '&&' else not_(a)
            # side effects of the right operand happen only when evaluated
            s1 = st.copy(); st.cells = s2.cells
            self.merge_into(st, c, s1)
            return and_(a, b) if op == '&&' else or_(a, b)
        if op == ',':
            self.eval(e[3], st, fr); return self.eval(e[4], st, fr)
        a = self.eval(e[3], st, fr); b = self.eval(e[4], st, fr)
        if op == '==': return eq(a, b)
        if op == '!=': return not_(eq(a, b))
        if op == '<': return lt(a, b)
        if op == '>': return lt(b, a)
        if op == '<=': return not_(lt(b, a))
        if op == '>=': return not_(lt(a, b))
        return self.arith(op, a, b, e[5])

    def assign(self, e, st, fr):
        op, L, R = e[2], e[3], e[4]
        if self.wrap and L[0] == 'm' and (L[4], L[3]) in WRAP and op == '':
            v = self.eval(R, st, fr)
            l = self.lval(L[2], st, fr)
            if v.op == 'ptr': self.store(st, l, self.load(st, (v.a[0], v.a[1])))
            elif v.op == 'null': self.store(st, l, T_('undef', uid()))
            else: self.store(st, l, self.opaque('wrapped pointer assign'))
            return v
        if L[0] == 'g' and L[3].endswith('*') and ('bignum_st' in L[3] or 'ec_point_st' in L[3]):
            self.eval(R, st, fr)
            return T_('void')
        v = self.eval(R, st, fr)
        l = self.lval(L, st, fr)
        if op:
            v = self.arith(op, self.load(st, l), v, e[5])
            if e[5] in ('unsigned char', 'unsigned short') and not isc(v) and op in ('+', '-', '*', '<<'): v = modi(v, C(1 << BITS[e[5]]))
        elif e[5] == 'bool': v = boolv(v)
        self.store(st, l, v)
        return v

    # ------------------------------------------------------------ merge
    def merge_cells(self, c, a, b):
        """value of cells: c ? a : b"""
        if a is b: return a
        out = dict(a)
        for r, vb in b.items():
            va = a.get(r)
            if va is vb: continue
            if va is None: out[r] = vb      # declared in one branch only / lazily initialised
            else: out[r] = ite(c, va, vb)
        return out

    def merge_into(self, st, c, other):
        st.cells = self.merge_cells(c, st.cells, other.cells)

    # ------------------------------------------------------------ calls
    def construct_from(self, e, st, fr, ty):
        v = self.eval(e, st, fr)
        if ty == 'bool' : v = boolv(v)
        return v

    def ctor(self, e, st, fr):
        _, ln, m, ty, args, kind, user = e
        if ty.endswith(']'):
            return self.default(ty, st, fr)
        if kind == 'copy':
            return self.eval(args[0], st, fr)
        f = self.p.F.get(m)
        sty = strip_targs(ty)
        pk = 'ctor:' + sty
        if pk in self.prims: return self.prims[pk](self, e, args, st, fr)
        if f is None:
            if kind == 'defimpl': return self.default(ty, st, fr)
            if not args: return self.default(ty, st, fr)
            if len(args) == 1: return self.eval(args[0], st, fr)
            for a in args: self.eval(a, st, fr)
            return self.opaque('ctor ' + sty)
        lvt = self.temp(st, T_('undef', uid()) if not self.wrap or ty not in ('BigInt', 'ECPoint') else ZERO, fr)
        self.invoke(f, lvt, args, st, fr, ln)
        v = self.load(st, lvt)
        st.cells.pop(lvt[0], None)
        return v

    def call(self, e, st, fr):
        _, ln, m, q, args, ty, meth, islv = e
        self.lines.add((fr.fn.get('file'), ln) if fr.fn else None)
        sq = strip_targs(q)
        f = self.p.F.get(m)
        if sq in self.prims:
            r = self.prims[sq](self, e, args, st, fr)
            if r is not NotImplemented: return r
        last = sq.split('::')[-1]
        if f is not None:
            if sq in self.stops or last.startswith('Print'):
                return self.uninterp(f, sq, e, args, st, fr)
            this = None
            rest = args
            if meth:
                this = self.lval(args[0], st, fr); rest = args[1:]
            return self.invoke(f, this, rest, st, fr, ln)
        if sq.endswith('operator=') and len(args) == 2:
            v = self.eval(args[1], st, fr)
            l = self.lval(args[0], st, fr)
            self.store(st, l, v)
            return l
        if last.startswith('operator ') and len(args) == 1:  # conversion
            return self.eval(args[0], st, fr)
        for a in args:
            try: self.eval(a, st, fr)
            except Unsupported: pass
        return self.opaque('call ' + sq)

    def uninterp(self, f, sq, e, args, st, fr):
        """uninterpreted call: result and by-reference outputs are functions of the inputs"""
        last = sq.split('::')[-1]
        if last.startswith('Print'): return T_('void')
        meth = e[6]
        ps = f['params']
        ain = []
        outs = []
        rest = args
        if meth:
            l = self.lval(args[0], st, fr)
            ain.append(self.load(st, l))
            if not f.get('constm'): outs.append(('this', l))
            rest = args[1:]
        for a, p in zip(rest, ps):
            if p['ref'] :
                l = self.lval(a, st, fr)
                ain.append(self.load(st, l))
                if not p['const']: outs.append((len(ain) - 1, l))
            elif p['ptr']:
                v = self.eval(a, st, fr)
                if v.op == 'ptr':
                    al, off = self.arr_of(v, st, fr)
                    ain.append(T_('at', self.load(st, al), off))
                    if not p['const']: outs.append((len(ain) - 1, al))
                else: ain.append(v)
            else: ain.append(self.eval(a, st, fr))
        ct = T_('call', sq, tuple(ain))
        if sq in EFFECTFUL_STOPS or last in ('Prove', 'Setup'):
            ct = T_('call', sq, tuple(ain), uid(), tuple(self.loopvars))
        self.calls.append((sq, tuple(ain), e[1], fr.fn.get('q')))
        for i, l in outs:
            self.store(st, l, T_('out', ct, i))
        if f['ret'] == 'void': return T_('void')
        if f['ret'] == 'bool': return T_('bool', ct)
        return ct

    def invoke(self, f, this, args, st, fr, ln):
        self.depth += 1
        if self.depth > 40: self.depth -= 1; raise Unsupported('recursion depth in ' + f['q'])
        self.nframe += 1
        nf = Frame(f, self.nframe)
        nf.this = this
        fid = nf.id
        pushed = False
        try:
            for p, a in zip(f['params'], args):
                if p['ref']:
                    if isinstance(a, tuple): nf.env[p['id']] = a       # already an lvalue
                    else: nf.env[p['id']] = self.lval(a, st, fr)
                else:
                    v = a if isinstance(a, T) else self.eval(a, st, fr)
                    if p['ty'] == 'bool': v = boolv(v)
                    r = ('L', fid, p['id'], p['name'])
                    st.cells[r] = v
                    nf.env[p['id']] = (r, ())
            if sum(1 for x in self.stack if x is f) >= self.maxrec:
                raise Unsupported('recursion: ' + f['q'])
            self.stack.append(f); pushed = True
            r = self.run_body(f, nf, st)
        finally:
            if pushed: self.stack.pop()
            self.depth -= 1
        for root in [x for x in st.cells if x[0] == 'L' and x[1] == fid]:
            del st.cells[root]
        return r

    def run_body(self, f, nf, st):
        pc0 = st.pc
        st.pc = TRUE
        if f.get('ctor'):
            for name, init, written in f.get('inits', []):
                v = self.eval(init, st, nf)
                if self.wrap and (f.get('cls'), name) in WRAP:
                    if v.op == 'ptr': v = self.load(st, (v.a[0], v.a[1]))
                    self.store(st, nf.this, v)
                else:
                    self.store(st, (nf.this[0], nf.this[1] + (('f', name),)), v)
        cur = State(st.cells, TRUE)
        try:
            alive = self.exec(f['body'], cur, nf)
        except Dead:
            alive = False
        outs = list(nf.rets)
        if alive: outs.append((cur.pc, cur.cells, None))
        if not outs:
            st.pc = pc0
            raise Dead()
        pc, cells, rv = outs[-1]
        for (p2, c2, r2) in reversed(outs[:-1]):
            cells = self.merge_cells(p2, c2, cells)
            if rv is None: rv = r2
            elif r2 is not None:
                if isinstance(rv, tuple) or isinstance(r2, tuple):
                    if rv != r2: raise Unsupported('merged reference return')
                else: rv = ite(p2, r2, rv)
        st.cells = cells
        st.pc = pc0
        if rv is None: return T_('void')
        return rv

    # ------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        """returns True if control falls through"""
        if s is None: return True
        k = s[0]
        if k == 'blk' or k == 'seq':
            for x in s[2]:
                if not self.exec(x, st, fr): return False
            return True
        if k == 'e':
            try: self.eval(s[2], st, fr)
            except Dead: return self.dead(st, fr)
            return True
        if k == 'decl': 
            try: return self.decl(s, st, fr)
            except Dead: return self.dead(st, fr)
        if k == 'vla':
            n = self.eval(s[3], st, fr)
            l = fr.env[s[2]]
            st.cells[l[0]] = T_('buf', n, T_('undef', uid()), ())
            return True
        if k == 'if': return self.if_(s, st, fr)
        if k == 'ret':
            try:
                if s[2] is None: rv = None
                elif fr.retref: rv = self.lval(s[2], st, fr)
                else:
                    rv = self.eval(s[2], st, fr)
                    if fr.fn.get('ret') == 'bool': rv = boolv(rv)
            except Dead: return self.dead(st, fr)
            fr.rets.append((st.pc, st.cells, rv))
            return False
        if k == 'brk':
            if fr.brk is None: raise Unsupported('break outside loop')
            fr.brk.append((st.pc, st.cells)); return False
        if k == 'cont':
            fr.cont.append((st.pc, st.cells)); return False
        if k == 'for':
            if s[2] is not None and not self.exec(s[2], st, fr): return False
            cond = (lambda z: boolv(self.eval(s[3], z, fr))) if s[3] is not None else (lambda z: TRUE)
            def body(z):
                al = self.exec(s[5], z, fr)
                return al
            inc = (lambda z: self.eval(s[4], z, fr)) if s[4] is not None else None
            return self.loop(st, fr, cond, body, inc, s[1])
        if k == 'while':
            return self.loop(st, fr, lambda z: boolv(self.eval(s[2], z, fr)), lambda z: self.exec(s[3], z, fr), None, s[1])
        if k == 'do':
            # body once, then while
            sv = (fr.brk, fr.cont)
            fr.brk = []; fr.cont = []
            al = self.exec(s[3], st, fr)
            b, c = fr.brk, fr.cont
            fr.brk, fr.cont = sv
            if b or c:
                return self.loop(st, fr, lambda z: TRUE, lambda z: self.exec(s[3], z, fr), None, s[1]) if not b and False else self._havoc_loop(st, fr, s)
            if not al: return False
            return self.loop(st, fr, lambda z: boolv(self.eval(s[2], z, fr)), lambda z: self.exec(s[3], z, fr), None, s[1])
        if k == 'rfor':
            l = self.lval(s[6], st, fr)
            n = size(self.load(st, l))
            idx = (('L', fr.id, 'rf', uid()), ())
            st.cells[idx[0]] = ZERO
            def cond(z): return lt(z.cells[idx[0]], n)
            def body(z):
                el = (l[0], l[1] + (('i', z.cells[idx[0]]),))
                if s[5]: fr.env[s[2]] = el
                else:
                    r = ('L', fr.id, s[2], s[3]); z.cells[r] = self.load(z, el); fr.env[s[2]] = (r, ())
                return self.exec(s[7], z, fr)
            def inc(z): z.cells[idx[0]] = add(z.cells[idx[0]], ONE)
            return self.loop(st, fr, cond, body, inc, s[1])
        if k == 'omp':
            sv = self.omp
            self.omp = (s[2], s[3], s[1], fr)
            for h in self.hooks: h.omp_enter(self, st, fr, s)
            try: return self.exec(s[4], st, fr)
            finally:
                for h in self.hooks: h.omp_exit(self, st, fr, s)
                self.omp = sv
        if k == 'try':
            return self.exec(s[2], st, fr)
        if k == 'sw': return self.switch(s, st, fr)
        if k == 'xs':
            self.opaque('stmt ' + s[2]); return True
        raise Unsupported('stmt ' + k)

    def _havoc_loop(self, st, fr, s):
        raise Unsupported('do-while with break/continue')

    def dead(self, st, fr):
        # program ends here: everything after runs under the negation
        st.cells[ASSUME] = FALSE
        self.last_dead = True
        return False

    def decl(self, s, st, fr):
        _, ln, vid, name, ty, init, isref, isstatic, nelem = s
        if isref and init is not None:
            fr.env[vid] = self.lval(init, st, fr)
            return True
        r = ('L', fr.id, vid, name) if not isstatic else ('G', 'static:' + name + str(vid))
        fr.env[vid] = (r, ())
        if init is None: v = self.default(ty, st, fr)
        else: v = self.construct_from(init, st, fr, ty)
        if isstatic and (isstatic == 1 or any(x.op in ('in', 'rand', 'weakrand', 'opaque', 'phi') for x in subterms(v))):
            v = T_('g', 'static:' + name)        # keeps its value from the first call: unknown here, and never fresh
        if ty in ('unsigned char', 'unsigned short') and isc(v): v = C(v.a[0] & ((1 << BITS[ty]) - 1))
        st.cells[r] = v
        return True

    def if_(self, s, st, fr):
        try: c = boolv(self.eval(s[2], st, fr))
        except Dead: return self.dead(st, fr)
        if c is TRUE: return self.exec(s[3], st, fr)
        if c is FALSE: return self.exec(s[4], st, fr) if s[4] is not None else True
        pc = st.pc
        s2 = State(dict(st.cells), and_(pc, not_(c)))
        asm = st.cells.get(ASSUME, TRUE)
        st.pc = and_(pc, c)
        for h in self.hooks:
            if hasattr(h, 'enter_branch'): h.enter_branch(self, c)
        a1 = self.exec(s[3], st, fr)
        for h in self.hooks:
            if hasattr(h, 'exit_branch'): h.exit_branch(self)
        d1 = (not a1) and st.cells.get(ASSUME) is FALSE
        if s[4] is not None:
            for h in self.hooks:
                if hasattr(h, 'enter_branch'): h.enter_branch(self, not_(c))
            a2 = self.exec(s[4], s2, fr)
            for h in self.hooks:
                if hasattr(h, 'exit_branch'): h.exit_branch(self)
        else: a2 = True
        d2 = (not a2) and s2.cells.get(ASSUME) is FALSE
        if a1 and a2:
            npc = pc if (st.pc is and_(pc, c) and s2.pc is and_(pc, not_(c))) else or_(st.pc, s2.pc)
            st.cells = self.merge_cells(c, st.cells, s2.cells)
            st.pc = npc
            return True
        if a1:
            if d2:      # else branch aborts: assume c; not a selector condition
                st.pc = pc if st.pc is and_(pc, c) else st.pc
                st.cells[ASSUME] = and_(st.cells.get(ASSUME, TRUE), or_(not_(pc), c) if pc is not TRUE else c)
            return True
        if a2:
            st.cells = s2.cells; st.pc = s2.pc
            if d1:
                st.pc = pc if s2.pc is and_(pc, not_(c)) else s2.pc
                st.cells[ASSUME] = and_(st.cells.get(ASSUME, TRUE), not_(c))
            return True
        if d1 and not d2: pass
        return False

    def switch(self, s, st, fr):
        v = self.eval(s[2], st, fr)
        cases = s[3]
        # require each case body to end in break/return (no fallthrough with content)
        sv = fr.brk
        pending = []
        conds = []
        allc = []
        res = []     # (cond, state)
        remaining = TRUE
        dflt = None
        outstates = []
        pc = st.pc
        for k, (labels, body) in enumerate(cases):
            cs = [eq(v, self.eval(x, st, fr)) for x in labels if x != 'default']
            if 'default' in labels: dflt = k
            if cs:
                c = or_(*cs); allc.append(c)
                if 'default' not in labels: res.append((c, k))
        nd = not_(or_(*allc)) if allc else TRUE
        if dflt is not None: res.append((nd, dflt))
        cells_list = []
        anyalive = False
        for c, k in res:
            if c is FALSE: continue
            z = State(dict(st.cells), and_(pc, c))
            fr.brk = []
            al = True
            for x in [x for _, body in cases[k:] for x in body]:      # without a break control falls through
                if not self.exec(x, z, fr): al = False; break
            for (bp, bc) in fr.brk: cells_list.append((c, bc)); anyalive = True
            if al: cells_list.append((c, z.cells)); anyalive = True
        fr.brk = sv
        if dflt is None and nd is not FALSE:
            cells_list.append((nd, st.cells)); anyalive = True
        if not anyalive: return False
        cells = cells_list[-1][1]
        for c, cc in reversed(cells_list[:-1]): cells = self.merge_cells(c, cc, cells)
        st.cells = cells
        return True

    # ------------------------------------------------------------ loops
    def diff(self, a, b, path, out):
        if a is b: return
        if b.op == 'rec' or a.op == 'rec':
            ba = a.a[0] if a.op == 'rec' else a
            bb = b.a[0] if b.op == 'rec' else b
            if ba is bb:
                fs = set()
                if a.op == 'rec': fs |= {k for k, _ in a.a[1]}
                if b.op == 'rec': fs |= {k for k, _ in b.a[1]}
                for f in sorted(fs): self.diff(fld(a, f), fld(b, f), path + (('f', f),), out)
                return
        out.append((path, b))

    def loop(self, st, fr, cond, body, inc, ln):
        L = LoopSolver(self, st, fr, cond, body, inc, ln)
        return L.run()

EFFECTFUL_STOPS = set()

class LoopSolver:
    def __init__(self, I, st, fr, cond, body, inc, ln):
        self.I = I; self.st = st; self.fr = fr; self.cond = cond; self.body = body; self.inc = inc; self.ln = ln
        self.pre = st.cells

    def once(self, vals, it):
        """run cond+body+inc once from pre-state with modified leaves := vals.
        returns (cond term, post cells or None, breaks, rets, start cells)"""
        I, fr = self.I, self.fr
        z = State(dict(self.pre), TRUE)
        for (root, path), v in vals.items():
            z.cells[root] = I._put(z.cells.get(root) if root in z.cells else I.cell(z, root), path, 0, v)
        start = dict(z.cells)
        sv = (fr.brk, fr.cont, fr.rets)
        fr.brk = []; fr.cont = []; fr.rets = []
        I.loopvars.append(it)
        try:
            c = self.cond(z)
            self.after_cond = dict(z.cells)
            al = self.body(z)
            outs = list(fr.cont)
            if al: outs.append((z.pc, z.cells))
            brk, rets = fr.brk, fr.rets
        except Dead:
            outs = []; brk = fr.brk; rets = fr.rets
            c = locals().get('c', TRUE)
        finally:
            I.loopvars.pop()
            fr.brk, fr.cont, fr.rets = sv
        cells = None
        if outs:
            cells = outs[-1][1]
            for p2, c2 in reversed(outs[:-1]): cells = I.merge_cells(p2, c2, cells)
            if self.inc is not None:
                z2 = State(cells, TRUE)
                I.loopvars.append(it)
                try: self.inc(z2)
                finally: I.loopvars.pop()
                cells = z2.cells
        return c, cells, brk, rets, start

    def leaves(self, start, cells):
        out = []
        for r, v in cells.items():
            o = start.get(r)
            if o is None:
                if r in self.pre: continue
                if r[0] == 'L' or r[0] == 'H': continue     # born inside the body
                o = self.I.initial(r, State(dict(self.pre), TRUE))
                self.pre[r] = o
                if o is v: continue
            if o is v: continue
            d = []
            self.I.diff(o, v, (), d)
            for path, _ in d: out.append((r, path))
        return out

    def get(self, cells, leaf):
        root, path = leaf
        v = cells.get(root)
        if v is None: v = self.I.cell(State(cells, TRUE), root)
        for k, x in path: v = fld(v, x)
        return v

    def run_direct(self, limit):
        """iterate while the condition is decided: used where a check fixes the loop's inputs"""
        I, st, fr = self.I, self.st, self.fr
        cells = dict(self.pre)
        for k in range(limit):
            z = State(cells, TRUE)
            c = self.cond(z)
            if c is FALSE:
                st.cells = z.cells; return True
            if c is not TRUE: raise Unsupported('loop condition not decided in direct mode')
            sv = (fr.brk, fr.cont); fr.brk = []; fr.cont = []
            try:
                al = self.body(z)
                outs = list(fr.cont); brk = list(fr.brk)
            finally: fr.brk, fr.cont = sv
            if al: outs.append((z.pc, z.cells))
            if brk and outs: raise Unsupported('conditional break in direct mode')
            if brk: outs = brk
            if not outs: return False
            cells = outs[-1][1]
            for p2, c2 in reversed(outs[:-1]): cells = I.merge_cells(p2, c2, cells)
            if brk:
                st.cells = cells; return True
            if self.inc is not None:
                z2 = State(cells, TRUE); self.inc(z2); cells = z2.cells
        raise Unsupported('loop longer than the direct limit')

    def run(self):
        I, st, fr = self.I, self.st, self.fr
        # trivially false condition
        z = State(dict(self.pre), TRUE)
        try: c0 = self.cond(z)
        except Dead: return I.dead(st, fr)
        if c0 is FALSE:
            st.cells = z.cells; return True
        if c0 is TRUE and getattr(I, 'direct', 0): return self.run_direct(I.direct)
        # tiny constant loops are unrolled by the summariser only if needed
        lid = uid()
        it = T_('lv', uid(), T_('cnt?', lid))
        mods = []
        vals = {}
        for rnd in range(12):
            c, cells, brk, rets, start = self.once(vals, it)
            new = []
            for cs in ([cells] if cells is not None else []) + [b[1] for b in brk]:
                for lf in self.leaves(start, cs):
                    if lf not in vals and lf not in new: new.append(lf)
            if not new: break
            # a new leaf may be a prefix of an existing one (or vice versa)
            for lf in new:
                for ex_ in list(vals):
                    if ex_[0] == lf[0] and (ex_[1][:len(lf[1])] == lf[1]): del vals[ex_]
                vals[lf] = T_('phi', lid, len(mods)); mods.append(lf)
            vals = {lf: v for lf, v in vals.items()
                    if not any(o is not lf and o != lf and o[0] == lf[0] and lf[1][:len(o[1])] == o[1] for o in vals)}
        else:
            raise Unsupported('loop: modified set does not stabilise')
        if cells is None and not brk and not rets:
            return I.dead(st, fr)
        phis = dict(vals)
        init = {lf: self.get(self.pre, lf) for lf in phis}
        # sizes of sequences that the body only overwrites in place are invariant
        if cells is not None:
            for lf, ph in phis.items():
                b = init[lf]
                if b.op in ('map', 'vec', 'cat', 'buf', 'upd', 'lupd', 'resize', 'slice', 'powers', 'fld', 'sel', 'in') : tm.PHISIZE[ph] = size(b)
            for rnd in range(6):
                if not any(ph in tm.PHISIZE for ph in phis.values()): break
                c, cells, brk, rets, start = self.once(vals, it)
                bad = False
                for lf, ph in phis.items():
                    if ph in tm.PHISIZE:
                        for cs in ([cells] if cells is not None else []) + [b_[1] for b_ in brk]:
                            if size(self.get(cs, lf)) is not tm.PHISIZE[ph]:
                                tm.PHISIZE.pop(ph, None); bad = True; break
                if not bad: break
            else:
                for ph in phis.values(): tm.PHISIZE.pop(ph, None)
                c, cells, brk, rets, start = self.once(vals, it)
            if not any(ph in tm.PHISIZE for ph in phis.values()):
                c, cells, brk, rets, start = self.once(vals, it)
        known = {}     # leaf -> value at start of iteration `it`
        final = {}     # leaf -> f(n) value after n iterations  (callable)
        # ---- phase B: inductions on integers & invariants
        def hasphi(t): return contains(t, lambda x: x.op == 'phi' and x.a[0] == lid)
        def hasit(t): return it.a[0] in t.fv
        def rerun():
            v = {lf: known.get(lf, phis[lf]) for lf in phis}
            return self.once(v, it)
        if cells is not None:
            for rnd in range(10):
                prog = False
                for lf, ph in phis.items():
                    if lf in known: continue
                    post = self.get(cells, lf)
                    if post is ph:
                        known[lf] = init[lf]; final[lf] = (lambda n, v=init[lf]: v); prog = True; continue
                    base = init[lf]
                    if post.op == 'ite' : continue
                    if post.op in ('poly', 'phi') and not base.op in ('pt', 'undefpt', 'cat', 'map', 'vec'):
                        d = sub(post, ph)
                        if not hasphi(d) and not hasit(d):
                            known[lf] = add(base, mul(d, it)); final[lf] = (lambda n, b=base, d=d: add(b, mul(d, n))); prog = True; continue
                    if post.op in ('ptr', 'it') and ph.op == 'phi': pass
                # iterators / pointers: phi used as opaque pointer
                for lf, ph in phis.items():
                    if lf in known: continue
                    b = init[lf]
                    if b.op in ('ptr', 'it'):
                        # try assuming unit stride
                        for d in (ONE, C(-1)):
                            trial = dict(known); 
                            v = {q: known.get(q, phis[q]) for q in phis}
                            v[lf] = I.ptr_add(b, mul(d, it))
                            c2, cells2, *_ = self.once(v, it)
                            if cells2 is not None and self.get(cells2, lf) is I.ptr_add(b, add(mul(d, it), d)):
                                known[lf] = v[lf]; final[lf] = (lambda n, b=b, d=d: I.ptr_add(b, mul(d, n))); prog = True
                                break
                if not prog: break
                c, cells, brk, rets, start = rerun()
                if cells is None: break
        # ---- trip count
        n = None
        if cells is not None:
            n = self.count(c, it)
        extra = None
        if n is None and cells is not None and c.op == 'and':
            # counted loop with an additional exit condition
            for x in c.a[0]:
                k = self.count(x, it)
                if k is not None:
                    n = None; break
        if n is not None and (hasphi(n) or hasit(n)): n = None
        if n is not None and not brk:
            if isc(n) and n.a[0] <= 0:
                return True
            return self.counted(n, it, lid, phis, init, known, final, rets)
        if (n is None or isc(n)) and (brk or rets or n is None):
            r = self.try_unroll(phis, init)
            if r is not None: return r
        if n is not None and brk:
            return self.counted_break(n, it, lid, phis, init, known, final)
        return self.generic(c, cells, brk, rets, it, lid, phis, init, known)

    def count(self, c, it):
        if c.op == 'lt':
            d = sub(c.a[1], c.a[0])        # d > 0 while looping
        elif c.op == 'not' and c.a[0].op == 'eq' and c.a[0].a[1] is ZERO:
            d = c.a[0].a[0]
        elif c.op == 'not' and c.a[0].op == 'eq':
            d = sub(c.a[0].a[0], c.a[0].a[1])
        else: return None
        p = as_poly(d)
        co = None
        for m, k in p.items():
            if any(x is it for x, e in m):
                if m != ((it, 1),): return None
                co = k
            elif any(it.a[0] in x.fv for x, e in m): return None
        if co is None: return None
        K = sub(d, mul(C(co), it))
        if c.op != 'lt':
            if co in (1,): return neg(K)
            if co == -1: return K
            return None
        if co == -1: return K
        if co < -1: return div(add(K, C(-co - 1)), C(-co))
        return None

    def counted(self, n, it, lid, phis, init, known, final, rets):
        I, st, fr = self.I, self.st, self.fr
        v = T_('lv', uid(), n)
        known = {lf: subst1(t, it, v) for lf, t in known.items()}
        hooks = I.hooks
        def hasphi(t): return contains(t, lambda x: x.op == 'phi' and x.a[0] == lid)
        cells = None
        for rnd in range(8):
            vals = {lf: known.get(lf, phis[lf]) for lf in phis}
            c, cells, brk, rets, start = self.once(vals, v)
            if cells is None: break
            prog = False
            for lf, ph in phis.items():
                if lf in known: continue
                post = self.get(cells, lf)
                others = contains(post, lambda x: x.op == 'phi' and x.a[0] == lid and x is not ph)
                if others: continue
                r = self.solve(post, ph, init[lf], v, n)
                if r is None: continue
                known[lf], final[lf] = r
                prog = True
            if all(lf in known for lf in phis):
                # final evaluation with everything closed (records events, checks stability)
                if prog:
                    vals = {lf: known[lf] for lf in phis}
                    c, cells, brk, rets, start = self.once(vals, v)
                break
            if not prog: break
        left = [lf for lf in phis if lf not in known]
        if left and cells is not None and isc(n) and n.a[0] <= 32:
            return self.unroll(n.a[0], phis, init)
        if left and cells is not None:
            # generic recurrence over the unsolved leaves
            posts = tuple(self.get(cells, lf) for lf in left)
            ini = tuple(init[lf] for lf in left)
            h = 1 + max([p.h for p in posts] + [0])
            mp = {phis[lf]: T_('pv', h, j) for j, lf in enumerate(left)}
            mp[v] = bv(h)
            body = tuple(T_('cl', h, subst(p, mp)) for p in posts)
            for j, lf in enumerate(left):
                final[lf] = (lambda m, j=j: T_('loop', m, ini, body, j))
                known[lf] = None
        newcells = dict(self.pre)
        for lf in phis:
            root, path = lf
            if lf not in final: continue
            val = final[lf](n)
            if root not in newcells: I.cell(State(newcells, TRUE), root)
            newcells[root] = I._put(newcells[root], path, 0, val)
        self.assume_from(cells, newcells, v, n)
        if rets:
            self.do_rets(rets, v, n, newcells, lid, known, phis)
            if st.pc is FALSE: return False
        st.cells = newcells
        if cells is None and not rets:
            # body always aborts: only reached if n == 0
            return True
        return True

    def unroll(self, n, phis, init):
        """constant trip count without closed form: iterate the transfer function"""
        I, st, fr = self.I, self.st, self.fr
        cur = dict(init); alive = TRUE; exits = []; last = dict(self.pre)
        for k in range(n):
            c, cells, brk, rets, start = self.once(cur, C(k))
            for p, cs in brk: exits.append((and_(alive, p), cs))
            for p, cs, rv in rets: fr.rets.append((and_(st.pc, alive, p), cs, rv))
            alive = and_(alive, not_(or_(*([p for p, _ in brk] + [p for p, _, _ in rets]))))
            if cells is None: alive = FALSE; break
            cur = {lf: self.get(cells, lf) for lf in phis}; last = cells
        acc = dict(self.pre)
        if alive is not FALSE:
            for (root, path), val in cur.items():
                if root not in acc: I.cell(State(acc, TRUE), root)
                acc[root] = I._put(acc[root], path, 0, val)
        elif exits: acc = exits[-1][1]
        else: return I.dead(st, fr)
        for p, cs in reversed(exits): acc = I.merge_cells(p, cs, acc)
        live = or_(alive, *[p for p, _ in exits])
        st.pc = and_(st.pc, live)
        st.cells = acc
        return True

    def try_unroll(self, phis, init, limit=40):
        """iterate while the loop condition is decided by constants; None if it is not"""
        I, st, fr = self.I, self.st, self.fr
        cur = dict(init); alive = TRUE; exits = []; rr = []
        c, *_ = self.once(cur, ZERO)
        if c is not TRUE: return None
        k = 0
        while True:
            if k > limit: return None
            try: c, cells, brk, rets, start = self.once(cur, C(k))
            except Unsupported: return None
            if c is FALSE: break
            if c is not TRUE: return None
            for p, cs in brk: exits.append((and_(alive, p), cs))
            for p, cs, rv in rets: rr.append((and_(alive, p), cs, rv))
            alive = and_(alive, not_(or_(*([p for p, _ in brk] + [p for p, _, _ in rets]))))
            if cells is None: alive = FALSE
            if alive is FALSE: break
            cur = {lf: self.get(cells, lf) for lf in phis}
            k += 1
        for p, cs, rv in rr: fr.rets.append((and_(st.pc, p), cs, rv))
        exits = [x for x in exits if x[0] is not FALSE]
        acc = dict(self.pre)
        if alive is not FALSE:
            for (root, path), val in cur.items():
                if root not in acc: I.cell(State(acc, TRUE), root)
                acc[root] = I._put(acc[root], path, 0, val)
        elif exits: acc = exits.pop()[1] if len(exits) == 1 else exits[-1][1]
        else:
            st.pc = FALSE
            return False
        for p, cs in reversed(exits): acc = I.merge_cells(p, cs, acc)
        live = not_(or_(*[p for p, _, _ in rr])) if rr else TRUE
        st.pc = and_(st.pc, live)
        st.cells = acc
        return True

    def assume_from(self, cells, newcells, v, n):
        pass

    def do_rets(self, rets, v, n, newcells, lid, known, phis):
        """early returns inside a counted loop"""
        st, fr, I = self.st, self.fr, self.I
        E = FALSE
        pcs = or_(*[p for p, _, _ in rets])
        def ok(t): return t is None or (v.a[0] not in t.fv and not contains(t, lambda x: x.op == 'phi' and x.a[0] == lid))
        hit = bind('any', n, v, pcs)
        rvs = [r for _, _, r in rets]
        same = all(r is rvs[0] for r in rvs)
        if same and ok(rvs[0]): rv = rvs[0]
        else:
            val = rvs[-1]
            for p, _, r in reversed(rets[:-1]):
                val = ite(p, r, val) if r is not None else val
            rv = T_('first', n, close(pcs, v), close(val, v)) if val is not None else None
        rcells = dict(newcells)
        for lf in phis:
            root, path = lf
            if known.get(lf) is not None and known[lf] is not None and not (v.a[0] in known[lf].fv): continue
            if root[0] == 'L' and root[1] == fr.id: continue
            rcells[root] = I._put(rcells[root], path, 0, T_('atexit', n, close(pcs, v), self.get(newcells, lf)))
        pc = st.pc
        fr.rets.append((and_(pc, hit), rcells, rv))
        st.pc = and_(pc, not_(hit))

    def solve(self, post, ph, init, v, n):
        """closed form of x_{k+1} = post(x_k, k).  returns (value at iteration v, n -> final)"""
        op = post.op
        def free(t): return not contains(t, lambda x: x is ph)
        if post is ph: return init, (lambda m: init)
        if free(post) and v.a[0] not in post.fv:
            # assigned a loop-invariant value each iteration
            return ite(eq(v, ZERO), init, post), (lambda m: ite(lt(ZERO, m), post, init))
        if free(post):
            return ite(eq(v, ZERO), init, subst1(post, v, sub(v, ONE))), (lambda m: ite(lt(ZERO, m), subst1(post, v, sub(m, ONE)), init))
        if op == 'cat' and post.a[0][0] is ph:
            g = cat(*post.a[0][1:])
            if free(g):
                def mk(m):
                    w = T_('lv', uid(), m)
                    return cat(init, seqbind(m, w, subst1(g, v, w)))
                return mk(v), mk
        if op == 'cat' and post.a[0][-1] is ph:
            g = cat(*post.a[0][:-1])
            if free(g):
                def mk(m):
                    w = T_('lv', uid(), m)
                    return cat(seqbind(m, w, subst1(subst1(g, v, w), w, sub(sub(m, ONE), w))), init)
                return mk(v), mk
        if op in ('and', 'or'):
            if ph_bool(ph) in post.a[0] or ph in post.a[0] or T_('not', T_('eq', *sorted((ph, ZERO), key=lambda t: t.id))) in post.a[0]:
                pass
        # boolean flags: the phi shows up through boolv
        pb = boolv(ph)
        if op in ('and', 'or') and (isbool(init) or isc(init)):
            xs = [x for x in post.a[0] if x is not pb and x is not ph]
            if len(xs) < len(post.a[0]):
                g = and_(*xs) if op == 'and' else or_(*xs)
                if free(g):
                    bo = 'all' if op == 'and' else 'any'
                    def mk(m):
                        w = T_('lv', uid(), m)
                        x = bind(bo, m, w, subst1(g, v, w))
                        return and_(boolv(init), x) if op == 'and' else or_(boolv(init), x)
                    return mk(v), mk
        if op == 'ite' and (isbool(init) or isc(init)) and not isbool(post):
            # ite(c, const, phi) : sticky flag
            c, a, b = post.a
            for (val, rest, cc) in ((a, b, c), (b, a, not_(c))):
                if rest is ph and free(val) and v.a[0] not in val.fv and free(cc):
                    def mk(m, val=val, cc=cc):
                        w = T_('lv', uid(), m)
                        return ite(bind('any', m, w, subst1(cc, v, w)), val, init)
                    return mk(v), mk
                if rest is ph and free(cc) and init.op in ('c',) and val.op == 'poly' and False: pass
            # conditional count: ite(c, phi + d, phi)
            for (val, rest, cc) in ((a, b, c), (b, a, not_(c))):
                if rest is ph and free(cc):
                    d = sub(val, ph)
                    if free(d):
                        def mk(m, d=d, cc=cc):
                            w = T_('lv', uid(), m)
                            return add(init, bind('sum', m, w, subst1(ite(cc, d, ZERO), v, w)))
                        return mk(v), mk
        if op in ('pt',):
            g = pt_add(post, ph, -1)
            if free(g):
                def mk(m):
                    w = T_('lv', uid(), m)
                    return pt_add(init, bind('psum', m, w, subst1(g, v, w)))
                return mk(v), mk
        if op == 'poly':
            g = sub(post, ph)
            if free(g):
                def mk(m):
                    w = T_('lv', uid(), m)
                    return add(init, bind('sum', m, w, subst1(g, v, w)))
                return mk(v), mk
        if op in ('mod', 'poly'):
            m_ = post.a[0] if op == 'mod' else tm.NOMOD
            p = flat(m_, post)
            # additive
            if p.get(((ph, 1),)) == 1:
                g = {k: c for k, c in p.items() if k != ((ph, 1),)}
                gt = from_poly(g)
                if free(gt):
                    def mk(m):
                        w = T_('lv', uid(), m)
                        return mod(m_, add(init, bind('sum', m, w, subst1(gt, v, w))))
                    return mk(v), mk
            # multiplicative by an invariant
            if len(p) == 1:
                (mono, co), = p.items()
                e = dict(mono).get(ph)
                if e == 1:
                    g = from_poly({tuple((x, q) for x, q in mono if x is not ph): co})
                    if free(g) and v.a[0] not in g.fv:
                        def mk(m): return mod(m_, mul(init, sel(T_('powers', m_, from_poly(flat(m_, g)), ZERO), m)))
                        return mk(v), mk
                    if free(g):
                        def mk(m):
                            w = T_('lv', uid(), m)
                            return mod(m_, mul(init, bind('prodl', m, w, subst1(g, v, w))))
                        return mk(v), mk
        if op == 'xor' and ph in post.a[0]:
            g = xor(*[x for x in post.a[0] if x is not ph])
            if free(g):
                def mk(m):
                    w = T_('lv', uid(), m)
                    return xor(init, bind('xsum', m, w, subst1(g, v, w)))
                return mk(v), mk
        if op == 'upd':
            r = self.solve_upd(post, ph, init, v, n)
            if r is not None: return r
        if op in ('upd', 'lupd', 'buf'):
            r = self.solve_blocks(post, ph, init, v, n)
            if r is not None: return r
        return None

    def solve_blocks(self, post, ph, init, v, n):
        """iteration v rewrites the block [m*v, m*v+m) of a sequence, reading no other block of it"""
        ws = []; t = post
        while t is not ph:
            if t.op == 'upd': ws.append((t.a[1], ONE, T_('vec', (t.a[2],)))); t = t.a[0]
            elif t.op == 'lupd':
                tt = t; ws.append((t.a[2], t.a[1], mkbind('map', t.a[1], lambda i: tm.inst(tt, i)))); t = t.a[0]
            elif t.op == 'buf':
                for o, l, val in reversed(t.a[2]): ws.append((o, l, val))
                t = t.a[1]
            else: return None
        ws.reverse()
        if not ws or any(contains(o, lambda x: x is ph) or contains(l, lambda x: x is ph) or v.a[0] in l.fv for o, l, _ in ws): return None
        o0 = ws[0][0]
        step = sub(subst1(o0, v, add(v, ONE)), o0)
        if v.a[0] in step.fv or step is ZERO: return None
        m = step
        base = subst1(o0, v, ZERO)           # may not be the lowest offset of the block
        # block start m*v
        start = mul(m, v)
        rel = []
        for o, l, val in ws:
            d = sub(o, start)
            if v.a[0] in d.fv: return None
            hi = sub(m, add(d, l))
            if not (tm._nn(d) and (hi is ZERO or tm._nn(hi))): return None
            rel.append((d, l, val))
        # reads of the sequence inside the values: own block only
        mp = {}
        for _, _, val in rel:
            for x in subterms(val):
                if x.op in ('sel', 'slice') and x.a[0] is ph:
                    mp[x] = None
        def fix(val):
            # open binders so that indices carry their ranges
            if val.op == 'map':
                w = tm.lv(val.a[0]); b = fix(tm.inst(val, w))
                return None if b is None else bind('map', val.a[0], w, b)
            q = {}
            for x in subterms(val):
                if x.op == 'sel' and x.a[0] is ph:
                    d = sub(x.a[1], start)
                    if not tm.in_range(d, ZERO, m) : return None
                    q[x] = sel(init, x.a[1])
                elif x.op == 'slice' and x.a[0] is ph:
                    d = sub(x.a[1], start); hi = sub(m, add(d, x.a[2]))
                    if not (tm._nn(d) and (hi is ZERO or tm._nn(hi))): return None
                    q[x] = slice_(init, x.a[1], x.a[2])
            r = subst(val, q) if q else val
            return None if contains(r, lambda x: x is ph) else r
        blk = None
        for d, l, val in rel:
            val = fix(val)
            if val is None: return None
            if d is ZERO and l is m: blk = val; continue
            if blk is None:
                blk = slice_(init, start, m)
                if isc(m) and m.a[0] <= 64: blk = T_('vec', tuple(sel(init, add(start, C(k))) for k in range(m.a[0])))
            if l is ONE and val.op == 'vec': blk = upd(blk, d, val.a[0][0])
            elif isc(d) and isc(l) and blk.op == 'vec' and isc(m):
                xs = list(blk.a[0])
                for k in range(l.a[0]): xs[d.a[0] + k] = sel(val, C(k))
                blk = T_('vec', tuple(xs))
            else: return None
        def mk(k):
            w = T_('lv', uid(), k)
            body = subst1(blk, v, w)
            cov = mul(m, k); rest = sub(size(init), cov)
            out = seqbind(k, w, body)
            return out if rest is ZERO else cat(out, slice_(init, cov, rest))
        return mk(v), mk

    def solve_upd(self, post, ph, init, v, n):
        ups = []
        t = post
        while t.op == 'upd':
            ups.append((t.a[1], t.a[2])); t = t.a[0]
        if t is not ph: return None
        if len(ups) == 1:
            idx, val = ups[0]
            if contains(idx, lambda x: x is ph): return None
            # self reads at idx only -> previous contents
            selfread = T_('sel', ph, idx)
            if v.a[0] not in idx.fv:
                # a single cell is updated every iteration: scalar recurrence on it
                sc = T_('phi', 'cell', uid())
                mp = {selfread: sc}
                for x in subterms(val):
                    if x.op == 'sel' and x.a[0] is ph and x.a[1] is not idx:
                        d = sub(x.a[1], idx)
                        if (isc(d) and d.a[0]) or (d.op == 'poly' and as_poly(d).get((), 0) > 0 and tm._nn(d)): mp[x] = sel(init, x.a[1])
                val2 = subst(val, mp)
                if contains(val2, lambda x: x is ph): return None
                r = self.solve(val2, sc, sel(init, idx), v, n)
                if r is None: return None
                return upd(init, idx, r[0]), (lambda m, f=r[1]: upd(init, idx, f(m)))
            off = sub(idx, v)
            rev = add(idx, v)
            if v.a[0] not in off.fv:
                val2 = subst1(val, selfread, sel(init, idx)) if contains(val, lambda x: x is selfread) else val
                if not contains(val2, lambda x: x is ph):
                    def mk(m):
                        w = T_('lv', uid(), m)
                        return lupd(init, m, off, w, subst1(val2, v, w))
                    return mk(v), mk
                # recurrence on previous element
                prev = T_('sel', ph, sub(idx, ONE))
                if val.op in ('mod', 'poly'):
                    m_ = val.a[0] if val.op == 'mod' else tm.NOMOD; p = flat(m_, val)
                    if len(p) == 1:
                        (mono, co), = p.items()
                        if dict(mono).get(prev) == 1 and co == 1:
                            g = from_poly({tuple((x, q) for x, q in mono if x is not prev): 1})
                            first = sel(init, sub(off, ONE))
                            if not contains(g, lambda x: x is ph) and v.a[0] not in g.fv and off is ONE and first is ONE:
                                def mk(m): 
                                    tot = add(m, ONE)
                                    pw = T_('powers', m_, g, tot)
                                    if eq(tot, size(init)) is TRUE: return pw
                                    return cat(pw, slice_(init, tot, sub(size(init), tot)))
                                return mk(v), mk
                            if not contains(g, lambda x: x is ph) and v.a[0] not in g.fv:
                                # geometric from first
                                def mk(m):
                                    w = T_('lv', uid(), m)
                                    return lupd(init, m, off, w, mod(m_, mul(first, sel(T_('powers', m_, g, ZERO), add(w, ONE)))))
                                return mk(v), mk
            elif v.a[0] not in rev.fv:
                # idx = rev - v : descending; final contents reindexed ascending
                val2 = subst1(val, selfread, sel(init, idx)) if contains(val, lambda x: x is selfread) else val
                if not contains(val2, lambda x: x is ph):
                    def mk(m):
                        w = T_('lv', uid(), m)
                        lo = sub(rev, sub(m, ONE))
                        # element lo+w is written at iteration v = m-1-w
                        return lupd(init, m, lo, w, subst1(val2, v, sub(sub(m, ONE), w)))
                    return mk(v), mk
            else:
                # stride s: idx = s*v + c   (strided single write)
                pass
            return None
        # several writes: strided s*v + c_j covering s consecutive slots
        s = len(ups)
        offs = []
        for idx, val in ups:
            o = sub(idx, mul(C(s), v))
            if v.a[0] in o.fv or contains(val, lambda x: x is ph): return None
            offs.append((o, val))
        base = None
        for o, val in offs:
            if all(isc(sub(o2, o)) and 0 <= sub(o2, o).a[0] < s for o2, _ in offs): base = o
        if base is None: return None
        tab = {sub(o, base).a[0]: val for o, val in offs}
        if len(tab) != s: return None
        def mk(m):
            w = T_('lv', uid(), m)
            blk_ = T_('vec', tuple(subst1(tab[k], v, w) for k in range(s)))
            tot = mul(C(s), m)
            seq_ = seqbind(m, w, blk_)
            if base is ZERO and eq(size(init), tot) is TRUE: return seq_
            return cat(slice_(init, ZERO, base), seq_, slice_(init, add(base, tot), sub(size(init), add(base, tot))))
        return mk(v), mk

    def counted_break(self, n, it, lid, phis, init, known, final):
        """counted loop whose body may break"""
        I, st, fr = self.I, self.st, self.fr
        v = T_('lv', uid(), n)
        known = {lf: subst1(t, it, v) for lf, t in known.items()}
        vals = {lf: known.get(lf, phis[lf]) for lf in phis}
        c, cells, brk, rets, start = self.once(vals, v)
        def hasphi(t): return contains(t, lambda x: x.op == 'phi' and x.a[0] == lid)
        bc = or_(*[p for p, _ in brk])
        newcells = dict(self.pre)
        simple = cells is None or True
        if hasphi(bc): 
            return self.generic(c, cells, brk, rets, v, lid, phis, init, {})
        E = bind('any', n, v, bc)
        bcells = brk[-1][1]
        for p2, c2 in reversed(brk[:-1]): bcells = I.merge_cells(p2, c2, bcells)
        for lf, ph in phis.items():
            root, path = lf
            bval = self.get(bcells, lf)
            post = self.get(cells, lf) if cells is not None else ph
            cur = known.get(lf, ph)
            k = known.get(lf)
            if k is not None and bval is k and not contains(k, lambda x: x is v) :
                val = init[lf]
            elif lf not in known and post is ph and not hasphi(bval) and v.a[0] not in bval.fv:
                val = ite(E, bval, init[lf])
            elif k is not None and bval is k:
                # induction variable: index of first hit, or n
                val = subst1(k, v, ite(E, T_('firstidx', n, close(bc, v)), n))
            elif lf not in known and post is ph and not hasphi(bval):
                val = ite(E, subst1(bval, v, T_('firstidx', n, close(bc, v))), init[lf])
            else:
                h = 1 + max(post.h, bval.h, bc.h)
                mp = {ph: T_('pv', h, 0), v: bv(h)}
                val = T_('brkloop', n, init[lf], T_('cl', h, subst(bc, mp)), T_('cl', h, subst(post, mp)), T_('cl', h, subst(bval, mp)))
            if root not in newcells: I.cell(State(newcells, TRUE), root)
            newcells[root] = I._put(newcells[root], path, 0, val)
        if rets: self.do_rets(rets, v, n, newcells, lid, known, phis)
        st.cells = newcells
        return True

    def generic(self, c, cells, brk, rets, it, lid, phis, init, known):
        """uncounted loop: opaque but canonical fixpoint term per leaf"""
        I, st, fr = self.I, self.st, self.fr
        vals = dict(phis)
        if known:
            c, cells, brk, rets, start = self.once(vals, it)
        left = list(phis)
        posts = tuple(self.get(cells, lf) for lf in left) if cells is not None else ()
        bpost = tuple((p,) + tuple(self.get(bc_, lf) for lf in left) for p, bc_ in brk)
        ini = tuple(init[lf] for lf in left)
        h = 1 + max([p.h for p in posts] + [x.h for b in bpost for x in b] + [c.h])
        mp = {phis[lf]: T_('pv', h, j) for j, lf in enumerate(left)}
        mp[it] = bv(h)
        body = T_('wbody', T_('cl', h, subst(c, mp)), tuple(T_('cl', h, subst(p, mp)) for p in posts),
                  tuple(tuple(T_('cl', h, subst(x, mp)) for x in b) for b in bpost))
        newcells = dict(self.pre)
        for j, lf in enumerate(left):
            root, path = lf
            if root not in newcells: I.cell(State(newcells, TRUE), root)
            newcells[root] = I._put(newcells[root], path, 0, T_('while', ini, body, j))
        if rets:
            rvs = [r for _, _, r in rets]
            hitc = T_('qbool', 'while-ret', ini, body, tuple(T_('cl', h, subst(p, mp)) for p, _, _ in rets))
            rv = rvs[0] if all(r is rvs[0] for r in rvs) else (T_('whileret', ini, body, tuple(T_('cl', h, subst(r, mp)) for r in rvs)) if all(isinstance(r, T) for r in rvs) else None)
            rc = dict(newcells)
            fr.rets.append((and_(st.pc, hitc), rc, rv))
            if c is TRUE and not brk:
                return False
            st.pc = and_(st.pc, not_(hitc))
        st.cells = newcells
        return True

def ph_bool(p): return p

def seqbind(n, w, g):
    """concatenation over w<n of sequence g(w)"""
    if g.op == 'vec' and len(g.a[0]) == 1:
        return bind('map', n, w, g.a[0][0])
    return bind('catmap', n, w, g)

# ---------------------------------------------------------------- byte regions
def region_read(v, off, n):
    if off is ZERO and n is size(v): return v
    if v.op in ('c',) or v.op == 'undef': return T_('bytesof', v, n)
    return slice_(v, off, n)

def region_write(v, off, n, val):
    if n is ZERO: return v
    sz = size(v)
    if off is ZERO and (n is sz): return val
    if v.op in ('undef', 'P') and off is ZERO:
        return val
    if v.op == 'buf':
        total, base, regs = v.a
        out = []
        for (o, l, x) in regs:
            if o is off and l is n: continue
            # constant overlap resolution
            if isc(o) and isc(l) and isc(off) and isc(n):
                a0, a1, b0, b1 = o.a[0], o.a[0] + l.a[0], off.a[0], off.a[0] + n.a[0]
                if b0 <= a0 and a1 <= b1: continue
                if a0 < b1 and b0 < a1:
                    if a0 < b0: out.append((o, C(b0 - a0), slice_(x, ZERO, C(b0 - a0))))
                    if b1 < a1: out.append((C(b1), C(a1 - b1), slice_(x, C(b1 - a0), C(a1 - b1))))
                    continue
            out.append((o, l, x))
        out.append((off, n, val))
        # order contiguous regions
        srt = []
        pos = ZERO; rest = list(out)
        ok = True
        while rest:
            nx = [r for r in rest if r[0] is pos]
            if not nx: ok = False; break
            srt.append(nx[0]); rest.remove(nx[0]); pos = add(pos, nx[0][1])
        if ok and pos is total: return cat(*[r[2] for r in srt])
        if ok: out = srt
        else: out.sort(key=lambda r: (r[0].a[0] if isc(r[0]) else 1 << 60, r[0].id))
        return T_('buf', total, base, tuple(out))
    if v.op == 'cat' or v.op in ('map', 'vec', 'slice', 's', 'bytesof', 'ser', 'sel', 'fld', 'in', 'rd', 'call', 'catmap'):
        if v.op == 'map' or v.op == 'cat':
            return region_write(T_('buf', sz, v, ()), off, n, val)
        return region_write(T_('buf', sz, v, ()), off, n, val)
    return region_write(T_('buf', sz, v, ()), off, n, val)

tm.register('buf', lambda total, base, regs: _rebuf(total, base, regs))
def _rebuf(total, base, regs):
    v = T_('buf', total, base, ())
    for o, l, x in regs: v = region_write(v, o, l, x)
    return v

PRIMS = {}
def prim(*names):
    def d(f):
        for n in names: PRIMS[n] = f
        return f
    return d
import stdmodel  # noqa  (registers primitives)
