"""Two-party runs: each party is interpreted alone against a symbolic inbox, its sends recorded in order;
afterwards each inbox is replaced by the peer's outbox."""
from core import *
import interp, stdmodel
from stdmodel import sizeof

OUT, POS, EXP = ('NET', 'out'), ('NET', 'pos'), ('NET', 'exp')
def inbox(): return T_('in', '@inbox')
def cells(): return {OUT: T_('vec', ()), POS: ZERO, EXP: T_('vec', ())}

def payload(m): return m.a[2] if m.op == 'msg' else (ite(m.a[0], payload(m.a[1]), payload(m.a[2])) if m.op == 'ite' else T_('payload', m))
def msgkind(m): return T_('s', m.a[0]) if m.op == 'msg' else T_('msgkind', m)
tm.register('payload', payload)

def emit(I, st, kind, n, val):
    I.store(st, (OUT, ()), cat(st.cells[OUT], T_('vec', (T_('msg', kind, n, val),))))
def take(I, st, kind, n):
    p = st.cells[POS]
    I.store(st, (POS, ()), add(p, ONE))
    I.store(st, (EXP, ()), cat(st.cells[EXP], T_('vec', (T_('exp', kind, n),))))
    return payload(sel(inbox(), p))

def elems(I, p, n, st, fr):
    """the n elements starting at pointer p"""
    root, path = I.deref(p, st, fr)
    if path and path[-1][0] == 'i':
        off = path[-1][1]; base = I.load(st, (root, path[:-1]))
        if off is ZERO and size(base) is n: return base
        return slice_(base, off, n)
    if isc(n) and n.a[0] == 1: return T_('vec', (I.load(st, (root, path)),))
    raise Unsupported('send from scalar pointer')
def setelems(I, p, n, v, st, fr):
    root, path = I.deref(p, st, fr)
    if path and path[-1][0] == 'i':
        off = path[-1][1]; bl = (root, path[:-1]); base = I.load(st, bl)
        if off is ZERO and size(base) is n:
            I.store(st, bl, v); return
        I.store(st, bl, stdmodel.region_write_seq(base, off, n, v)); return
    if isc(n) and n.a[0] == 1: I.store(st, (root, path), sel(v, ZERO)); return
    raise Unsupported('receive into scalar pointer')

def sendp(kind):
    def g(I, e, a, st, fr):
        p = I.eval(a[1], st, fr); n = I.eval(a[2], st, fr)
        emit(I, st, kind, n, elems(I, p, n, st, fr)); return T_('void')
    return g
def recvp(kind):
    def g(I, e, a, st, fr):
        p = I.eval(a[1], st, fr); n = I.eval(a[2], st, fr)
        v = take(I, st, kind, n)
        setelems(I, p, n, v if size(v) is n else mkbind('map', n, lambda i: sel(v, i)), st, fr); return T_('void')
    return g
def send1(kind):
    def g(I, e, a, st, fr):
        v = I.load(st, I.lval(a[1], st, fr)) if True else None
        n = I.eval(a[2], st, fr) if len(a) > 2 else ONE
        emit(I, st, kind, n, v); return T_('void')
    return g
def recv1(kind):
    def g(I, e, a, st, fr):
        l = I.lval(a[1], st, fr); n = I.eval(a[2], st, fr) if len(a) > 2 else ONE
        I.store(st, l, take(I, st, kind, n)); return T_('void')
    return g
PR = {}
for k in ('ECPoints', 'EC25519Points', 'Blocks', 'Bits'):
    PR['NetIO::Send' + k] = sendp(k); PR['NetIO::Receive' + k] = recvp(k)
for k in ('ECPoint', 'BigInt', 'Integer', 'Block', 'BytesVector', 'StringVector'):
    PR['NetIO::Send' + k] = send1(k); PR['NetIO::Receive' + k] = recv1(k)

def bytes_send(I, e, a, st, fr):
    p = I.eval(a[1], st, fr); n = I.eval(a[2], st, fr)
    emit(I, st, 'Bytes', n, elems(I, p, n, st, fr)); return T_('void')
PR['NetIO::SendBytes'] = bytes_send; PR['NetIO::ReceiveBytes'] = recvp('Bytes')

class Party:
    pass
def party(R, name):
    p = Party(); p.R = R
    # freshness of the two parties is independent: tokens already unique
    return p

def connect(RA, RB, rounds=12):
    """substitute each inbox by the peer's outbox until nothing changes; returns a function resolving any term of A or B"""
    A, B = RA.st.cells[OUT], RB.st.cells[OUT]
    ia, ib = T_('in', '@inboxA'), T_('in', '@inboxB')
    A = tm.subst(A, {inbox(): ia}); B = tm.subst(B, {inbox(): ib})
    mp = {ia: B, ib: A}
    def res(t, me):
        t = tm.subst(t, {inbox(): me})
        for _ in range(rounds):
            t2 = tm.subst(t, mp)
            if t2 is t: break
            t = t2
        return t
    return (lambda t: res(t, ia)), (lambda t: res(t, ib)), res(A, ia), res(B, ib)

def shape(out):
    """kinds and lengths of an outbox, comparable with the peer's expectations"""
    return out
