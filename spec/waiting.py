"""How long handling the connections waits: a monitor over the clock readings and waits of BaseSocket::select."""
from .lib import *
from .buffer import *
from . import manager
from engine import maps
from .ioconn import IO
from .sockets import BS, MS
from engine.monitor import Monitor, Inv, cell, set_cell

SELECT = full('%s::select(vec<std::shared_ptr<%s>>, %s)' % (BS, BS, MS))
NOW, STOP, WAITED, TIMED_OUT = 0, 8, 16, 40     # ghost state: last clock reading, first reading + timeout, has it waited, did the last wait see no data
CLOCK = (bv(0), bv(1 << 62))
WEEKS = 1 << 40                         # ms


def timeout_of(args):
    return args[-1]


def ghost(eng, st, args):
    eng.wait_timeout = timeout_of(args)
    eng.wait_read = False
    set_cell(eng, st, NOW, bv(0))
    set_cell(eng, st, STOP, bv(0))
    set_cell(eng, st, WAITED, bv(0, 8), 1)
    set_cell(eng, st, 24, bv(0, 8), 1)  # has the clock been read
    set_cell(eng, st, 32, bv(1, 8), 1)  # has it been read since the last wait
    set_cell(eng, st, TIMED_OUT, bv(0, 8), 1)


def on_now(mon, eng, st, i, args):
    v = evf('now', i, 64)
    st.pc.append(And(v >= CLOCK[0], v <= CLOCK[1]))
    if const_of(cell(eng, st, 24, 1)) == 0:
        set_cell(eng, st, STOP, simp(v + eng.wait_timeout * bv(1000000)))
        set_cell(eng, st, 24, bv(1, 8), 1)
    set_cell(eng, st, NOW, v)
    set_cell(eng, st, 32, bv(1, 8), 1)


def left(eng, st):
    """time left by the last reading of the clock"""
    return simp(cell(eng, st, STOP) - cell(eng, st, NOW))


def before(eng, st):
    return Or(cell(eng, st, WAITED, 1) == 0, cell(eng, st, NOW) < cell(eng, st, STOP))


def on_select(mon, eng, st, i, args):
    tv = args[-1]
    if not isinstance(tv, tuple):
        mon.check(eng, st, BoolVal(False), 'waits without a limit')
        return
    sec, usec = tv
    lim = bv(1 << 42)
    mon.check(eng, st, And(sec <= lim, usec <= lim, sec >= -lim, usec >= -lim), 'the time to wait fits')
    if const_of(cell(eng, st, 24, 1)) == 0:
        rest = simp(eng.wait_timeout * bv(1000000))
    else:
        rest = left(eng, st)
    rest = simp(If(rest > 0, rest, bv(0)))
    ns = simp(sec * bv(1000000000) + usec * bv(1000))
    # the kernel's unit is coarser than the clock's: up to a millisecond of rounding
    mon.check(eng, st, ns <= rest + bv(1000000), 'waits longer than the time left')
    mon.check(eng, st, ns >= rest - bv(1000000), 'waits less than the time left')
    mon.check(eng, st, before(eng, st), 'waits again although the time has passed')
    mon.check(eng, st, cell(eng, st, 32, 1) == 1, 'waits again without reading the clock')
    set_cell(eng, st, WAITED, bv(1, 8), 1)
    set_cell(eng, st, 32, bv(0, 8), 1)
    set_cell(eng, st, TIMED_OUT, simp(If(evf('select', i, 32) == 0, bv(1, 8), bv(0, 8))), 1)


class Waits(Monitor):
    def ends(self, eng, st):
        self.check(eng, st, Or(cell(eng, st, TIMED_OUT, 1) == 1, And(cell(eng, st, 24, 1) == 1, cell(eng, st, NOW) >= cell(eng, st, STOP))),
                   'returns although the time has not passed')


class Turn(Monitor):
    def ends(self, eng, st):
        own = eng.wait_timeout
        self.check(eng, st, cell(eng, st, 0) == If(own > 0, own, bv(0)), 'does not wait for the time given')


def templates(eng):
    return [Inv(lambda s: And(cell(eng, s, NOW) >= CLOCK[0], cell(eng, s, NOW) <= CLOCK[1]), 'clock', True),
            Inv(lambda s: before(eng, s), 'waited => before stop'),
            Inv(lambda s: cell(eng, s, WAITED, 1) == 0, 'not waited'),
            Inv(lambda s: cell(eng, s, 32, 1) == 1, 'clock read since the last wait'),
            Inv(lambda s: Or(cell(eng, s, WAITED, 1) == 0, cell(eng, s, 32, 1) == 1), 'waited => clock read since'),
            Inv(lambda s: cell(eng, s, TIMED_OUT, 1) == 0, 'no wait without data'),
            Inv(lambda s: cell(eng, s, 24, 1) == 1, 'clock read')]


def cell_templates(eng, l):
    n = l[3]
    v = lambda s: loc(eng, s, l)
    out = []
    if n == 8:
        def num(f):
            def g(s):
                x = v(s)
                return f(s, x) if isinstance(x, z3.ExprRef) else BoolVal(False)
            return g
        out.append(Inv(num(lambda s, x: x == cell(eng, s, NOW)), 'cell == last reading'))
        out.append(Inv(num(lambda s, x: x == left(eng, s)), 'cell == time left'))
        for u in (1, 1000, 1000000):
            def f(s, x, u=u):
                r = left(eng, s)
                return And(x >= -bv(1 << 60) / bv(u) - 1, x <= If(r > 0, r, bv(0)) / bv(u))
            out.append(Inv(num(f), 'cell <= time left in units of %d ns' % u))
            out.append(Inv(num(lambda s, x, u=u: Or(x <= 0, before(eng, s))), 'cell > 0 => before stop'))
    if n in (1, 4):
        out.append(Inv(lambda s: Or(v(s) == 0, before(eng, s)), 'cell != 0 => before stop'))
        out.append(Inv(lambda s: Or(v(s) <= 0, before(eng, s)), 'cell > 0 => before stop'))
        out.append(Inv(lambda s: Or(v(s) != 0, cell(eng, s, TIMED_OUT, 1) == 1), 'cell == 0 => no data'))
        out.append(Inv(lambda s: Or(v(s) != 0, before(eng, s)), 'cell == 0 => before stop'))
    return out


def loc(eng, s, l):
    from engine.loops import loc_get
    return loc_get(eng, s, l)


def short_timeout(s, *args):
    t = timeout_of(args)
    return [(And(t >= -bv(WEEKS), t <= bv(WEEKS)), 'a timeout of at most 2^40 ms')]


def select(s, v, t):
    """at call sites: one wait of the given length; what the handlers of the sockets do is theirs"""
    i = s.event('BaseSocket::select', s.vec(v), t)
    s.env_throw('select_sockets', i)


CONTRACTS[SELECT] = Waits(SELECT, select, pre=short_timeout, ghost=ghost, hooks={'now': on_now, 'sys:select': on_select},
                            templates=templates, cell_templates=cell_templates)


# ------------------------------------------------------------------ the connection manager's turn
HANDLE = full('eipScanner::ConnectionManager::handleConnections(%s)' % MS)


def turn_ghost(eng, st, args):
    eng.wait_timeout = timeout_of(args)
    set_cell(eng, st, 0, bv(0))         # time it may have waited so far, ms


def on_wait(mon, eng, st, i, args):
    t, own = args[-1], eng.wait_timeout
    w = simp(cell(eng, st, 0) + If(t > 0, t, bv(0)))
    lim = bv(1 << 42)
    mon.check(eng, st, And(t <= lim, cell(eng, st, 0) <= lim, w <= If(own > 0, own, bv(0))), 'waits longer than the time given')
    set_cell(eng, st, 0, w)


def on_bare_wait(mon, eng, st, i, args):
    raise Unsupported('a wait outside BaseSocket::select')


def turn_templates(eng):
    own = lambda: If(eng.wait_timeout > 0, eng.wait_timeout, bv(0))
    return [Inv(lambda s: And(cell(eng, s, 0) >= 0, cell(eng, s, 0) <= own()), 'waited at most the time given', True),
            Inv(lambda s: cell(eng, s, 0) == 0, 'not waited'), Inv(lambda s: cell(eng, s, 0) == own(), 'waited')]


def tick(s, p):
    """notifyTick as one effect; its own contract (C14) lists what it does, no wait among it"""
    i = s.event('tick', p)
    s.env_throw('tick', i)
    return evf('tick_result', i, 1) == bv(1, 1)


TICK = {IO + '::notifyTick()': tick}


@contract(HANDLE, coarse=TICK, pre=short_timeout)
def _(s, p, t):
    """waits once, for all bound sockets; then every connection is given its turn, and those that report their end are dropped"""
    o = s.obj(p, manager.CM)
    cm = o.at('_connectionMap')
    bound = maps.walk(s, o.at('_socketMap'))
    X = s.loop('sockets', accs={'v': EMPTY}, step=lambda X, k: {'v': Lit([s.fld(bound.at(k), 'second')])}, stop=lambda X, k: k == bound.len, count=bound.len,
               salt=(bound,), one=('v',))
    v = s.eng.alloc(s.st, 24, 'sockets')
    s.set_vec(v, X['v'], 'std::shared_ptr<%s>' % BS)
    s.call(SELECT, [v, t])
    conns = maps.walk(s, cm)
    n = conns.len
    fails = lambda i: evf('tick_fails', i, 1) == bv(1, 1)
    lives = lambda i: evf('tick_result', i, 1) == bv(1, 1)
    value = lambda k: s.fld(conns.at(k), 'second')
    X = s.loop('ticks', accs={'done': EMPTY}, step=lambda X, k: {'done': slice_(Lit([s.fld(conns.at(k), 'first')]), bv(0), simp(If(lives(X['%evt']), bv(0), bv(1))))},
               stop=lambda X, k: Or(k == n, fails(X['%evt'])), events=lambda X, k: [Event('tick', value(k))], evts=1, salt=(conns,), bits={'done': 32}, inv=lambda X, k: [ULE(k, n)])
    if s.br(X['k'] != n):
        tick(s, value(X['k']))
        raise DeadPath()
    done = X['done']
    m = s.eng.getobj(s.st, cm)
    Y = s.loop('drop', funs={'map': lambda X, k: maps.without(m, done, k)}, stop=lambda X, k: k == done.len, count=done.len, step=lambda X, k: {})
    s.eng.setobj(s.st, cm, Y['map'])


CONTRACTS[HANDLE + ' (waits)'] = Turn(HANDLE + ' (waits)', None, of=HANDLE, pre=short_timeout, ghost=turn_ghost,
                                         hooks={'BaseSocket::select': on_wait, 'sys:select': on_bare_wait}, templates=turn_templates,
                                         cell_templates=lambda eng, l: [], coarse=TICK, allow=('tick', 'now', 'random', 'sys:*', 'receive', 'sendRequest'))
