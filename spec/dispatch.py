"""Which sockets BaseSocket::select watches and serves: a monitor over its waits and the handlers it calls.

The sockets are any number of distinct objects.  The condition is stated for one of them, chosen arbitrarily (index K), so what is
proved holds for each."""
from .lib import *
from .sockets import BS
from .waiting import SELECT
import z3
from engine import models
from engine.monitor import Monitor, Inv, cell, set_cell, valid
from engine.loops import loc_get
from engine.vals import Ptr

PENDING, READY, FAILED = 0, 8, 16                   # ghost state: must socket K still be served; had it data at the last wait; has a wait failed
OTHER = ZeroExt(22, z3.BitVec('other_descriptor', 10))     # any descriptor that is none of the sockets'
WORDS = 16                              # of an fd_set


def bit_of(words, fd):
    """bit fd of a set, the set as words"""
    return Or(*[And(z3.LShR(fd, bv(6, 32)) == bv(i, 32), on(w, fd)) for i, w in enumerate(words)])


def on(word, fd):
    return Extract(0, 0, z3.LShR(word, ZeroExt(32, fd & bv(63, 32)))) == bv(1, 1)


def field(eng, st, p, name):
    return eng.getobj(st, p.add(eng.prog.field(BS, name)[0])) if name == '_beginReceiveHandler' else eng.load_bytes(st, p.add(eng.prog.field(BS, name)[0]), 4)


def descriptor(eng, st, p):
    """a descriptor select(2) can wait for: 0 .. 1023"""
    o = eng.prog.field(BS, '_sockedFd')[0]
    fd = eng.load_bytes(st, p.add(o), 4)
    fd = simp(ZeroExt(22, Extract(9, 0, fd)))
    eng.store_bytes(st, p.add(o), fd, 4)
    st.pc.append(fd != OTHER)


def ghost(eng, st, args):
    m = eng.monitor_self
    eng.pointee_hooks[BS] = descriptor
    v = eng.vseq(st, args[0])
    m.len = v.len
    m.k = z3.BitVec('some_socket', 64)
    st.pc.append(ULT(m.k, m.len))
    m.sock = v.at(m.k)
    m.fd = field(eng, st, m.sock, '_sockedFd')
    set_cell(eng, st, PENDING, bv(0, 8), 1)
    set_cell(eng, st, READY, bv(0, 8), 1)
    set_cell(eng, st, FAILED, bv(0, 8), 1)


class Dispatch(Monitor):
    batch = True
    exact = False       # the result of select(2) also counts the descriptors that are ready

    def verify(self, eng):
        eng.monitor_self = self
        Monitor.verify(self, eng)

    def on(self, eng, st, kind, i, args):
        if kind == 'sys:select':
            self.seen.add(kind)
            return self.waits(eng, st, i, args)
        if kind.startswith('call:'):
            self.seen.add(kind)
            return self.serves(eng, st, kind, args)
        return Monitor.on(self, eng, st, kind, i, args)

    def waits(self, eng, st, i, args):
        n, r = args[0], args[1]
        self.check(eng, st, cell(eng, st, FAILED, 1) == 0, 'waits again after a wait has failed')
        self.check(eng, st, cell(eng, st, PENDING, 1) == 0, 'waits again before a socket with data has been served')
        self.check(eng, st, n > self.fd, 'a socket lies outside the range of descriptors waited for')
        if not isinstance(r, tuple):
            self.check(eng, st, BoolVal(False), 'waits without the sockets')
            return
        self.check(eng, st, bit_of(r, self.fd), 'a socket is not among those waited for')
        self.check(eng, st, Not(bit_of(r, OTHER)), 'waits for a descriptor that is none of the sockets')
        res = evf('select', i, 32)
        out = [Function('env_fdset_r%d' % (8 * o), BitVecSort(64), BitVecSort(64))(i) for o in range(WORDS)]
        # select(2): on a timeout the sets are empty
        st.pc.append(z3.Implies(res == 0, And(*[w == 0 for w in out])))
        b = simp(If(And(res > 0, bit_of(out, self.fd)), bv(1, 8), bv(0, 8)))
        set_cell(eng, st, PENDING, b, 1)
        set_cell(eng, st, READY, b, 1)
        set_cell(eng, st, FAILED, simp(If(res < 0, bv(1, 8), bv(0, 8))), 1)

    def serves(self, eng, st, kind, args):
        p = args[0] if args else None
        info = eng.pointees.get(p.r) if isinstance(p, Ptr) else None
        mine = eng.pointees.get(self.sock.r)
        if info is None or info[1] != mine[1]:
            self.check(eng, st, BoolVal(False), 'a handler is called with another socket')
            return
        own = field(eng, st, p, '_beginReceiveHandler')
        self.check(eng, st, BoolVal(kind == 'call:%s' % (own.v[1],)), 'a socket is given to the handler of another')
        is_k = info[2][0] == self.k
        self.check(eng, st, z3.Implies(is_k, cell(eng, st, PENDING, 1) == 1), 'a socket is served without data or more than once')
        set_cell(eng, st, PENDING, simp(If(is_k, bv(0, 8), cell(eng, st, PENDING, 1))), 1)

    def ends(self, eng, st):
        self.check(eng, st, cell(eng, st, PENDING, 1) == 0, 'returns before a socket with data has been served')
        self.check(eng, st, cell(eng, st, FAILED, 1) == 0, 'returns normally after a wait has failed')


def position(eng, s, l):
    """where in the sockets a loop stands, by one of the locations it changes"""
    v = loc_get(eng, s, l)
    if isinstance(v, Ptr):
        try:
            r, k = models.idx_of(eng, s, v, None)
        except Exception:
            return None
        return None if k is None else k.bv()
    if isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() in (32, 64):
        return v if v.size() == 64 else ZeroExt(32, v)
    return None


def loop_templates(mon, eng, st, locs):
    pend = lambda s: cell(eng, s, PENDING, 1)
    pos, data = [], [(lambda s: pend(s) == 0, 'served'), (lambda s: pend(s) == cell(eng, s, READY, 1), 'to be served if ready')]
    for l in locs:
        if l[0] != 'cell' or l[1] == 'g:%ghost':
            continue
        if l[3] in (4, 8) and (st.mem[l[1]].size or 0) <= 16 and position(eng, st, l) is not None:
            pos.append(l)
        if l[3] == 8 and st.mem[l[1]].size == 8 * WORDS:
            data.append((lambda s, l=l: Or(z3.LShR(mon.fd, bv(6, 32)) != bv(l[2] // 8, 32), on(loc_get(eng, s, l), mon.fd)), 'in the set'))
            data.append((lambda s, l=l: Or(z3.LShR(OTHER, bv(6, 32)) != bv(l[2] // 8, 32), Not(on(loc_get(eng, s, l), OTHER))), 'nothing else'))
        if l[3] == 4:
            data.append((lambda s, l=l: loc_get(eng, s, l) >= mon.fd, 'cell >= fd'))
            data.append((lambda s, l=l: loc_get(eng, s, l) > mon.fd, 'cell > fd'))
    out = [Inv(f, n) for f, n in data] + [Inv(lambda s: cell(eng, s, FAILED, 1) == 0, 'no wait has failed')]
    for p in pos:
        here = lambda s, p=p: position(eng, s, p)
        for f, n in data:
            out.append(Inv(lambda s, f=f, here=here: Or(ULE(here(s), mon.k), f(s)), 'beyond => ' + n))
            out.append(Inv(lambda s, f=f, here=here: Or(Not(ULE(here(s), mon.k)), f(s)), 'before => ' + n))
    return out


DISPATCH = SELECT + ' (serves)'
CONTRACTS[DISPATCH] = Dispatch(DISPATCH, None, of=SELECT, ghost=ghost, templates=lambda eng: [], cell_templates=lambda eng, l: [], allow=('now',))
CONTRACTS[DISPATCH].loop_templates = loop_templates
