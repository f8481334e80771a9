"""Check harness: run the interpreter on a named function with symbolic inputs,
record obligations, write evidence, report violations and known findings."""
import json, os, sys, time
import extract
from interp import *
import interp, terms as tm, stdmodel

VERIF = extract.VERIF
RESIDUAL = {'opaque', 'phi', 'while', 'loop', 'brkloop', 'undecided'}

_progs = {}
def prog(cfg='x25519'):
    if cfg not in _progs:
        _progs[cfg] = Prog(extract.extract(cfg)); _progs[cfg].cfg = cfg
    return _progs[cfg]

class Missing(Exception): pass

def fn(P, q, nparams=None, **pt):
    """the function named q (optionally selected by parameter types p0='std::vector' ...)"""
    c = P.find(q, nparams=nparams, ptypes={int(k[1:]): v for k, v in pt.items()} or None)
    if not c: raise Missing('%s not found in the analysed tree' % q)
    return c[0]

class Res: pass

def run(P, f, args=None, this=None, stops=(), prims=None, cells=None, budget=400_000, interp_cls=Interp, hooks=(), sizes=None, maxrec=2, direct=0, arrays=(), words=False):
    """Interpret f with symbolic inputs in(0), in(1), ...; returns final values."""
    I = interp_cls(P, stops, prims)
    I.budget = budget; I.maxrec = maxrec
    I.hooks = list(hooks); I.direct = direct; I.words = words
    tm.UPDLIM = 4096 if direct else 64
    st = State(dict(cells or {}), TRUE)
    fr = Frame(f, 0)
    av = []; roots = []
    args = args or {}
    for i, p in enumerate(f['params']):
        v = args.get(i, T_('in', i))
        r = ('A', i); st.cells[r] = v; roots.append(r)
        if p['ref']: av.append((r, ()))
        elif i in arrays: av.append(I.ptr((r, (('i', ZERO),))))
        elif p['ptr']: av.append(v if v.op in ('ptr', 'null') else I.ptr((r, ())))
        else: av.append(v)
    th = (('A', 'this'), ())
    st.cells[th[0]] = this if this is not None else T_('in', 'this')
    R = Res(); R.I = I; R.f = f
    rv = I.invoke(f, th, av, st, fr, 0)
    if isinstance(rv, tuple): rv = I.load(st, rv)
    R.ret = rv; R.st = st; R.arg = [st.cells[r] for r in roots]; R.this = st.cells[th[0]]
    R.assume = st.cells.get(ASSUME, TRUE)
    return R

def residual(t):
    if not isinstance(t, T): return None
    for x in subterms(t):
        if x.op in RESIDUAL: return x
    return None

class Check:
    def __init__(self, pid, tier, level='other'):
        self.pid = pid; self.tier = tier; self.level = level
        self.obs = []; self.t0 = time.time(); self.notes = []
        self.known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))['findings'] if k['property'] == pid]
        self.fns = set()
        self.assumptions = []
        self.counts = {}

    def note_fn(self, f):
        self.fns.add('%s (%s:%d)' % (f['q'], os.path.relpath(f['file'], extract.REPO), f['line']))
    def loc(self, f): return '%s:%d %s' % (os.path.relpath(f['file'], extract.REPO), f['line'], f['q']) if f else '?'

    def ob(self, inst, rule, ok, f=None, detail='', key=None):
        """ok: True discharged / False violated / None undecided"""
        if f: self.note_fn(f)
        self.obs.append(dict(inst=inst, rule=rule, ok=ok, where=self.loc(f), detail=str(detail)[:6000], key=key or '%s | %s' % (inst, rule)))
        return ok

    def equal(self, inst, rule, got, want, f=None, key=None, detail='', small=False):
        if got is want: return self.ob(inst, rule, True, f, key=key)
        import evalterm
        same = evalterm.same(got, want, small=small)
        if same: return self.ob(inst, rule, True, f, key=key)
        if same is None or residual(got) is not None:
            return self.ob(inst, rule, None, f, detail='cannot decide: %s vs %s %s' % (short(got), short(want), detail), key=key)
        return self.ob(inst, rule, False, f, detail='%s\n   computed: %s\n   required: %s' % (detail, short(got), short(want)), key=key)

    def holds(self, inst, rule, t, f=None, key=None, detail=''):
        """boolean term must be TRUE"""
        return self.equal(inst, rule, t, TRUE, f, key, detail)

    def guard(self, inst, rule, f, body):
        """run body(); interpretation failures make the obligation undecided"""
        try:
            return body()
        except (Unsupported, Dead, RecursionError) as e:
            self.ob(inst, rule, None, f, detail='%s: %s' % (type(e).__name__, e))
        except Missing as e:
            self.ob(inst, rule, None, f, detail=str(e))
        except Exception as e:
            import traceback
            self.ob(inst, rule, None, f, detail='analysis error: ' + traceback.format_exc()[-1500:])

    def par(self, jobs, workers=8):
        """run guarded bodies in forked children (terms are hash-consed per process); merge their obligations"""
        import pickle
        jobs = list(jobs)
        pend = list(range(len(jobs))); live = {}; res = {}
        while pend or live:
            while pend and len(live) < workers:
                k = pend.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    n0 = len(self.obs)
                    try:
                        inst, rule, f, body = jobs[k]
                        t1 = time.time()
                        self.guard(inst, rule, f, body)
                        if os.environ.get('KAI_TIME'): sys.stderr.write('%.1fs %s\n' % (time.time() - t1, inst))
                        out = (self.obs[n0:], self.fns, self.counts)
                    except BaseException as e:
                        import traceback
                        out = ('ERR', traceback.format_exc(), None)
                    with os.fdopen(w, 'wb') as fo: pickle.dump(out, fo)
                    os._exit(0)
                os.close(w); live[k] = (pid, r)
            import select
            rd, _, _ = select.select([r for _, r in live.values()], [], [])
            for k in [k for k, (p, r) in live.items() if r in rd]:
                pid, r = live.pop(k)
                with os.fdopen(r, 'rb') as fi: data = fi.read()
                os.waitpid(pid, 0)
                res[k] = pickle.loads(data) if data else ('ERR', 'child died', None)
        for k in sorted(res):
            o, fns, cnt = res[k]
            if o == 'ERR':
                self.ob(jobs[k][0], jobs[k][1], None, jobs[k][2], detail='analysis error: ' + str(fns)[-1500:]); continue
            self.obs += o; self.fns |= fns
            for c, v in (cnt or {}).items(): self.counts[c] = max(v, self.counts.get(c, 0)) if isinstance(v, int) else v

    def finish(self):
        pid = self.pid
        keys = {k['key']: k for k in self.known if k.get('status') != 'fixed'}
        bad = [o for o in self.obs if o['ok'] is False]
        und = [o for o in self.obs if o['ok'] is None]
        good = [o for o in self.obs if o['ok'] is True]
        new = [o for o in bad if o['key'] not in keys]
        hit = {}
        for o in bad:
            if o['key'] in keys: hit[o['key']] = o
        ev = dict(property=pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=self.level,
                  coverage=dict(explanation='Static value-flow analysis of the clang-resolved program: each obligation compares or queries the value term '
                                'the analysis derives for all inputs (no execution, no solver).',
                                obligations=len(self.obs), discharged=len(good), undecided=len(und), violated=len(bad), known=len(hit),
                                functions_analysed=len(self.fns), rules=sorted({o['rule'] for o in self.obs}),
                                functions=sorted(self.fns), counts=self.counts,
                                undecided_list=[dict(inst=o['inst'], rule=o['rule'], where=o['where'], why=o['detail'][:300]) for o in und][:60],
                                samples=[dict(inst=o['inst'], rule=o['rule'], where=o['where']) for o in good][:400]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=[dict(where=o['where'], rule=o['rule'], inst=o['inst'], detail=o['detail'][:3000]) for o in new])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d known findings, %d new violations; %d functions analysed; %.1fs'
              % (pid, len(self.obs), len(good), len(und), len(hit), len(new), len(self.fns), time.time() - self.t0))
        for o in und: print('UNDECIDED %s [%s] at %s: %s' % (o['inst'], o['rule'], o['where'], o['detail'][:300]))
        for k, o in sorted(hit.items()): print('KNOWN-FINDING: property=%s %s' % (pid, keys[k]['what']))
        if new:
            rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
            with open(rp, 'w') as fo:
                for o in new: fo.write('%s\n rule: %s\n instance: %s\n key: %s\n %s\n\n' % (o['where'], o['rule'], o['inst'], o['key'], o['detail']))
            for o in new[:20]: print('  %s: [%s] %s: %s' % (o['where'], o['rule'], o['inst'], o['detail'][:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        if not good:
            print('ERROR: no obligation could be decided'); return 2
        return 0

def short(t, n=1500):
    s = repr(t)
    return s if len(s) <= n else s[:n] + '…'
