"""Network channel: what is sent is what arrives - framing of every Send/Receive pair, and the byte pump under every split of the stream."""
from spec import *
import stdmodel, itertools
def vec(*x): return T_('vec', x)
ST, RP, OPS = ('NET', 'stream'), ('NET', 'rpos'), ('NET', 'ops')

def _bytearr(I, p, st, fr):
    """(array lvalue, offset, is byte buffer)"""
    root, path = I.deref(p, st, fr)
    if path and path[-1][0] == 'i':
        v = I.load(st, (root, path[:-1])); return (root, path[:-1]), path[-1][1], v
    return (root, path), None, I.load(st, (root, path))
def isbuf(v, root=None): return v.op in ('buf', 'bnbytes', 'ptbytes', 'cat', 'catmap', 'bytesof', 'rep') or (v.op == 'map')
def p_send(I, e, a, st, fr):
    p = I.eval(a[1], st, fr); n = I.eval(a[2], st, fr)
    l, off, v = _bytearr(I, p, st, fr)
    if off is not None and l[0][0] != 'A' and isbuf(v): b = slice_(v, off, n) if not (off is ZERO and n is size(v)) else v
    elif off is None or off is ZERO: b = T_('bytesof', v, n)
    else: raise Unsupported('send from the middle of an array')
    I.store(st, (ST, ()), cat(st.cells[ST], b)); return T_('void')
def p_recv(I, e, a, st, fr):
    p = I.eval(a[1], st, fr); n = I.eval(a[2], st, fr)
    l, off, v = _bytearr(I, p, st, fr)
    o = st.cells[RP]; I.store(st, (RP, ()), add(o, n))
    part = slice_(st.cells[ST], o, n)
    if off is None or (off is ZERO and (l[0][0] == 'A' or not isbuf(v) and v.op != 'undef')):
        I.store(st, l, stdmodel.frombytes(part))
    else: I.write_region(p, n, part, st, fr)
    return T_('void')
PR = {'NetIO::SendDataInternal': p_send, 'NetIO::ReceiveDataInternal': p_recv}

def go(ck, tier):
    ck.assumptions += ['stdio fwrite/fread transfer a prefix of what they are asked for and report its length; TCP delivers the flushed bytes in order',
                       'points sent are not the point at infinity (its encoding is one byte)', 'byte-string vectors are rectangular, as the wire format states']
    for cfg in ('x25519', 'p256'):
        P = prog(cfg)
        def pair(nm, sarg, rarg, want, width=None, np=None, pt=None, extra='', cfg=cfg, P=P):
            inst = 'NetIO::Send%s/Receive%s%s[%s]' % (nm, nm, extra, cfg)
            def body():
                def pick(q):
                    c = [f for f in P.find(q) if (np is None or len(f['params']) == np) and (pt is None or pt in f['params'][0]['ty'])]
                    if not c: raise Missing(q)
                    return c[0]
                fs, fr_ = pick('NetIO::Send' + nm), pick('NetIO::Receive' + nm)
                S = run(P, fs, sarg, prims=PR, cells={ST: EMPTY, RP: ZERO}, this=IN('io'))
                stream = S.st.cells[ST]
                R = run(P, fr_, rarg, prims=PR, cells={ST: stream if stream is EMPTY else cat(stream, T_('bytesof', IN('later'), C(99))), RP: ZERO}, this=IN('io'))
                ck.equal(inst, 'receiver consumes exactly the bytes sent', R.st.cells[RP], size(stream), fr_)
                if width is not None: ck.equal(inst, 'the whole value goes on the wire', size(stream), width, fs)
                got = R.arg[0]
                ck.equal(inst, 'value received = value sent', got, want, fr_)
                ck.equal(inst, 'value sent is unchanged', S.arg[0], sarg[0], fs)
            ck.guard(inst, 'framing', None, body)
        n, L, v = IN('n'), IN('L'), IN('v')
        pair('Bytes', {0: v, 1: n}, {0: IN('b'), 1: n}, v, n)
        pair('Blocks', {0: v, 1: n}, {0: IN('b'), 1: n}, v, mul(C(16), n))
        pair('Bits', {0: v, 1: n}, {0: IN('b'), 1: n}, v, n)
        pair('String', {0: v, 1: n}, {0: IN('b'), 1: n}, v, n, np=2, extra='(char*)')
        pair('Block', {0: v}, {0: IN('b')}, v, C(16))
        pair('Integer', {0: v}, {0: IN('b')}, v, C(8))
        pair('BigInt', {0: v}, {0: IN('b')}, v, np=1)
        pair('BigInt', {0: v, 1: n}, {0: IN('b'), 1: n}, v, n, np=2, extra='(len)')
        pair('ECPoint', {0: v}, {0: IN('b')}, v)
        for k in (1, 3):
            pts = vec(*[IN('p%d' % i) for i in range(k)]); old = vec(*[IN('q%d' % i) for i in range(k)])
            pair('ECPoints', {0: pts, 1: C(k)}, {0: old, 1: C(k)}, pts, extra='(%d)' % k)
        pts = mkbind('map', n, lambda i: T_('pick', v, i))
        pair('ECPoints', {0: pts, 1: n}, {0: mkbind('map', n, lambda i: T_('pick', IN('old'), i)), 1: n}, pts, extra='(n)')
        def e25(x, k): return mkbind('map', k, lambda i: mkbind('map', C(32), lambda j: T_('byteat', sel(x, i), j)))
        pair('EC25519Points', {0: e25(v, n), 1: n}, {0: e25(IN('old'), n), 1: n}, e25(v, n), mul(C(32), n), extra='(n)')
        pair('EC25519Points', {0: e25(v, C(3)), 1: C(3)}, {0: e25(IN('old'), C(3)), 1: C(3)}, e25(v, C(3)), C(96), extra='(3)')
        row = lambda i: mkbind('map', L, lambda j: T_('byteat', sel(v, i), j))
        rows = mkbind('map', n, row)
        pair('BytesVector', {0: rows}, {0: EMPTY}, rows, add(C(16), mul(n, L)))
        pair('BytesVector', {0: EMPTY}, {0: EMPTY}, EMPTY, C(16), extra='(empty)')
        pair('StringVector', {0: rows, 1: L}, {0: EMPTY, 1: L}, rows, add(C(8), mul(n, L)))
        if tier == 'never': break
    pump(ck, prog('x25519'), 5 if tier == 'quick' else 8)

SCR, POSN = ('NET', 'script'), ('NET', 'n')
def pump(ck, P, LEN):
    """SendDataInternal / ReceiveDataInternal against every way stdio can split LEN bytes into partial transfers,
    and against a stream that stops after any prefix"""
    data = vec(*[IN('d%d' % i) for i in range(LEN)]); old = vec(*[IN('o%d' % i) for i in range(LEN)])
    def compositions(n):
        if n == 0: yield (); return
        for k in range(1, n + 1):
            for r in compositions(n - k): yield (k,) + r
    class Hang(Exception): pass
    def xfer(script, writing):
        """fwrite/fread transferring script[i] bytes on the i-th call (never more than asked); 0 after the script: closed/failed"""
        def g(I, e, a, st, fr):
            p = I.eval(a[0], st, fr); es = I.eval(a[1], st, fr); n = I.eval(a[2], st, fr)
            if not (isc(n) and isc(es)): raise Unsupported('transfer length not concrete')
            k = st.cells[SCR].a[0]; I.store(st, (SCR, ()), C(k + 1))
            if k > len(script) + 4: raise Hang()
            want = n.a[0] * es.a[0]
            t = min(script[k] if k < len(script) else 0, want)
            t -= t % es.a[0] if es.a[0] else 0
            if want > LEN * 4: raise Unsupported('asks for more than remains')
            root, path = I.deref(p, st, fr)
            if not path: path = (('i', ZERO),)
            if not (path[-1][0] == 'i' and isc(path[-1][1])): raise Unsupported('transfer pointer')
            off = path[-1][1].a[0]
            for j in range(t):
                c = (root, path[:-1] + (('i', C(off + j)),))
                if writing: I.store(st, (ST, ()), cat(st.cells[ST], vec(I.load(st, c))))
                else:
                    pos = st.cells[RP].a[0]; I.store(st, (RP, ()), C(pos + 1)); I.store(st, c, sel(data, C(pos)) if pos < LEN else IN('beyond'))
            if writing: I.store(st, (OPS, ()), FALSE)
            return C(t // es.a[0] if es.a[0] else 0)
        return g
    def flush(I, e, a, st, fr): I.store(st, (OPS, ()), TRUE); return ZERO
    for q, writing in (('NetIO::SendDataInternal', True), ('NetIO::ReceiveDataInternal', False)):
        try: f = fn(P, q)
        except Missing as ex: ck.ob(q, 'byte pump', None, None, str(ex)); continue
        def go1(script, total):
            fw = 'fwrite' if writing else 'fread'
            prims = {fw: xfer(script, writing), 'fflush': flush}
            return run(P, f, {0: data if writing else old, 1: C(LEN)}, prims=prims, cells={ST: vec(), RP: ZERO, OPS: FALSE, SCR: ZERO}, this=IN('io'), budget=40000, direct=200)
        def full():
            nseq = 0
            for script in compositions(LEN):
                nseq += 1
                try: R = go1(script, LEN)
                except Hang: ck.ob(q, 'all bytes, in order, under every partial transfer', False, f, 'transfers %s: keeps calling after everything was transferred' % (script,)); continue
                if writing:
                    ck.equal(q, 'all bytes, in order, under every partial transfer', R.st.cells[ST], data, f, detail='transfers %s' % (script,))
                    ck.equal(q, 'flushed after the last write', R.st.cells[OPS], TRUE, f, detail='transfers %s' % (script,))
                else:
                    ck.equal(q, 'all bytes, in order, under every partial transfer', R.arg[0], data, f, detail='transfers %s' % (script,))
                    ck.equal(q, 'takes exactly the requested bytes', R.st.cells[RP], C(LEN), f, detail='transfers %s' % (script,))
            ck.counts['splits of a %d-byte message' % LEN] = nseq
        ck.guard(q, 'byte pump', f, full)
        def zero():
            R = go1((), 0) if False else run(P, f, {0: data if writing else old, 1: ZERO}, prims={'fwrite': xfer((), True), 'fread': xfer((), False), 'fflush': flush}, cells={ST: vec(), RP: ZERO, OPS: FALSE, SCR: ZERO}, this=IN('io'))
            ck.equal(q, 'an empty message transfers nothing', R.st.cells[ST] if writing else R.st.cells[RP], vec() if writing else ZERO, f)
        ck.guard(q, 'empty message', f, zero)
        def closed():
            for script in ((), (2,), (1, 1)):
                rule = 'a connection that closes mid-message is reported, not waited on for ever'
                try: go1(script, LEN)
                except Hang: ck.ob(q, rule, False, f, 'stream delivers %d of %d bytes and then ends: the loop never terminates' % (sum(script), LEN)); continue
                except Dead: ck.ob(q, rule, True, f); continue
                ck.ob(q, rule, False, f, 'stream delivers %d of %d bytes and then ends: the call returns as if all had arrived' % (sum(script), LEN))
        ck.guard(q, 'closed connection', f, closed)
