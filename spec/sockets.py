"""Sockets: every system call with its arguments, every answer of the system."""
from .lib import *
from .buffer import *
from . import cip
from .cip import EP as EPT, set_ep_from_addr, ep_eq
from engine.models import recv_data, evf, Event

BS, TS, US, UB = ['eipScanner::sockets::' + x for x in ('BaseSocket', 'TCPSocket', 'UDPSocket', 'UDPBoundSocket')]
MS = 'std::chrono::duration<long, std::ratio<1l, 1000l> >'
EPF = ['_host', '_port', '_addr.sin_family', '_addr.sin_port', '_addr.sin_addr.s_addr'] + ['_addr.sin_zero[%d]' % i for i in range(8)]
NOSIGNAL = bv(0x4000, 32)
M1, EINTR, EINPROGRESS, ETIMEDOUT = bv(-1 & 0xffffffff, 32), bv(4, 32), bv(115, 32), bv(110, 32)


def syserr(s, code):
    s.throw('std::system_error', code=code)


def copy_ep(dst, src, pre='', spre=''):
    for f in EPF:
        dst[pre + f] = src[spre + f]


# ------------------------------------------------------------------ base
def init_base(s, o, pre=''):
    o[pre + '_sockedFd'] = 0
    o[pre + '_recvTimeout.__r'] = 0
    o[pre + '_beginReceiveHandler'] = FnObj(('none',))


@contract(BS + '::BaseSocket($E::sockets::EndPoint)')
def _(s, p, e):
    o = s.obj(p, BS)
    init_base(s, o)
    copy_ep(o, s.obj(e, EPT), '_remoteEndPoint.')
    s.havoc_members(s.obj(e, EPT), '_host')


def ep_named(s, o, host, port, pre=''):
    """an endpoint made from a host name and a port"""
    t = s.new(EPT)
    s.call(full(EPT + '::EndPoint(string, int)'), [t, host, port])
    copy_ep(o, s.obj(t, EPT), pre)


@contract(BS + '::~BaseSocket()')
def _(s, p):
    pass


@contract(BS + '::Shutdown()')
def _(s, p):
    s.syscall('shutdown', 32, s.obj(p, BS)._sockedFd, bv(2, 32))


@contract(BS + '::Close()')
def _(s, p):
    s.syscall('close', 32, s.obj(p, BS)._sockedFd)


@contract(BS + '::getSocketFd() const')
def _(s, p):
    return s.obj(p, BS)._sockedFd


@contract(BS + '::getRecvTimeout() const')
def _(s, p):
    return s.obj(p, BS).at('_recvTimeout.__r')


@contract(BS + '::getRemoteEndPoint() const')
def _(s, p):
    return s.obj(p, BS).at('_remoteEndPoint._host')


@contract(BS + '::setRecvTimeout(%s const&)' % MS)
def _(s, p, t):
    o = s.obj(p, BS)
    o['_recvTimeout.__r'] = s.bv(t, 64)
    s.syscall('setsockopt', 32, o._sockedFd, bv(1, 32), bv(20, 32), interval(s.bv(t, 64)))


# ------------------------------------------------------------------ stream
@contract(TS + '::Send(vec<u8> const&) const')
def _(s, p, d):
    x = s.vec(d)
    i, r, err = s.syscall('send', 64, s.obj(p, BS)._sockedFd, x, NOSIGNAL)
    s.assume(Or(r == bv(-1), And(r >= bv(0), r <= x.len)))
    if s.br(r != x.len):
        syserr(s, err if s.br(r == bv(-1)) else HAVOC)


def stream(s, fd, size):
    """the bytes received until size bytes are there or the peer closes"""
    res = lambda i: evf('recv', i, 64)
    cnt = lambda i: simp(If(res(i) == bv(-1), bv(0), res(i)))
    bad = lambda i: And(res(i) == bv(-1), evf('errno', i, 32) != EINTR)
    H = []

    def buf(X, k):
        out = s.L.acc('out', k) if not H else H[0].acc('out', k)
        return cat(out, fill(simp(size - X['pos']), bv(0, 8)))

    def inv(X, k):
        return [H[0].acc('out', k).len == X['pos'], ULE(X['pos'], size)] if H else []

    def mk(L):
        H.append(L)

    X = s.loop('receive', bvs={'pos': bv(0)}, accs={'out': EMPTY}, funs={'buf': buf},
               step=lambda X, k: {'pos': simp(X['pos'] + cnt(X['%evt'])), 'out': recv_data('recv', X['%evt'], cnt(X['%evt']))},
               stop=lambda X, k: Or(UGE(X['pos'], size), bad(X['%evt']), res(X['%evt']) == bv(0)), inv=inv,
               events=lambda X, k: [Event('sys:recv', fd, simp(size - X['pos']), bv(0, 32))], evts=1, salt=(fd, size), made=mk)
    if s.br(ULT(X['pos'], size)):
        i, r, err = s.syscall('recv', 64, fd, simp(size - X['pos']), bv(0, 32))
        s.assume(Or(r == bv(-1), r == bv(0)))
        if s.br(r == bv(-1)):
            syserr(s, err)
    return X['out'], X['pos']


@contract(TS + '::Receive(unsigned long) const')
def _(s, p, size):
    if s.br(UGT(size, bv(MAXLEN))):
        s.throw('std::exception')
    out, pos = stream(s, s.obj(p, BS)._sockedFd, size)
    s.set_vec(s.sret, out)


# ------------------------------------------------------------------ datagrams
def ep_addr(o, pre='_remoteEndPoint.'):
    return Rec('sockaddr_in', {0: o[pre + '_addr.sin_family'], 2: o[pre + '_addr.sin_port'], 4: o[pre + '_addr.sin_addr.s_addr']})


@contract(US + '::Send(vec<u8> const&) const')
def _(s, p, d):
    o = s.obj(p, BS)
    x = s.vec(d)
    i, r, err = s.syscall('sendto', 64, o._sockedFd, x, NOSIGNAL, ep_addr(o))
    s.assume(Or(r == bv(-1), r == x.len))
    if s.br(r != x.len):
        syserr(s, err)


def datagram(s, fd, size):
    if s.br(UGT(size, bv(MAXLEN))):
        s.throw('std::exception')
    i, r, err = s.syscall('recvfrom', 64, fd, size, bv(0, 32))
    s.assume(Or(r == bv(-1), And(r >= bv(0), r <= size)))
    if s.br(r == bv(-1)):
        syserr(s, err)
    return i, recv_data('recvfrom', i, r)


@contract(US + '::Receive(unsigned long) const')
def _(s, p, size):
    i, x = datagram(s, s.obj(p, BS)._sockedFd, size)
    s.set_vec(s.sret, x)


@contract(US + '::ReceiveFrom(unsigned long, $E::sockets::EndPoint&) const')
def _(s, p, size, e):
    i, x = datagram(s, s.obj(p, BS)._sockedFd, size)
    set_ep_from_addr(s, s.obj(e, EPT), evf('from0', i, 16), evf('from2', i, 16), evf('from4', i, 32), [evf('fromz%d' % k, i, 8) for k in range(8, 16)])
    s.set_vec(s.sret, x)


# ------------------------------------------------------------------ opening and closing
def fd_bits(fds):
    """the words of a descriptor set holding these descriptors"""
    out = []
    for j in range(16):
        w = bv(0)
        for fd in fds:
            q = sx(fd, 64)
            w = w | If(z3.UDiv(q, bv(64)) == bv(j), bv(1) << z3.URem(q, bv(64)), bv(0))
        out.append(simp(w))
    return tuple(out)


def interval(ms):
    """a time span in milliseconds as seconds and microseconds, never negative"""
    c = lambda x: simp(If(x < 0, bv(0), x))
    q, r = ms / bv(1000), z3.SRem(ms, bv(1000))
    return c(q), c(r * bv(1000))


@contract(BS + '::makePortableInterval(%s const&)' % MS)
def _(s, t):
    return interval(s.bv(t, 64))


@contract(BS + '::setBeginReceiveHandler(std::function<void ($E::sockets::BaseSocket&)>)')
def _(s, p, f):
    s.obj(p, BS)._beginReceiveHandler = s.eng.getobj(s.st, f)
    s.put(f, ('fn',), HAVOC)


@contract(BS + '::BeginReceive()')
def _(s, p):
    s.call_handler(s.obj(p, BS)._beginReceiveHandler, p)


@contract(BS + '::BaseSocket(string, int)')
def _(s, p, h, port):
    o = s.obj(p, BS)
    init_base(s, o)
    ep_named(s, o, h, port, '_remoteEndPoint.')


def shut(s, o):
    s.syscall('shutdown', 32, o._sockedFd, bv(2, 32))
    s.syscall('close', 32, o._sockedFd)


@contract(TS + '::~TCPSocket()')
def _(s, p):
    shut(s, s.obj(p, BS))


@contract(US + '::~UDPSocket()')
def _(s, p):
    shut(s, s.obj(p, BS))


@contract(UB + '::~UDPBoundSocket()')
def _(s, p):
    shut(s, s.obj(p, BS))


def open_socket(s, o, kind, proto):
    i, fd, err = s.syscall('socket', 32, bv(2, 32), bv(kind, 32), bv(proto, 32))
    s.assume(And(fd >= M1, fd < 1024))
    o._sockedFd = fd
    if s.br(fd < 0):
        syserr(s, err)
    return fd


def udp_open(s, o):
    return open_socket(s, o, 2, 17)


@contract(US + '::UDPSocket($E::sockets::EndPoint)')
def _(s, p, e):
    o = s.obj(p, BS)
    init_base(s, o)
    copy_ep(o, s.obj(e, EPT), '_remoteEndPoint.')
    s.havoc_members(s.obj(e, EPT), '_host')
    udp_open(s, o)


@contract(US + '::UDPSocket(string, int)')
def _(s, p, h, port):
    o = s.obj(p, BS)
    init_base(s, o)
    ep_named(s, o, h, port, '_remoteEndPoint.')
    udp_open(s, o)


def bind_any(s, o):
    """listens on the endpoint's port on every interface; a failure closes the socket again"""
    i, r, err = s.syscall('setsockopt', 32, o._sockedFd, bv(1, 32), bv(2, 32), (bv(1, 32),))
    s.assume(Or(r == 0, r == M1))
    if s.br(r != 0):
        shut(s, o)
        syserr(s, err)
    a = ep_addr(o)
    a.f[4] = bv(0, 32)
    i, r, err = s.syscall('bind', 32, o._sockedFd, a)
    s.assume(Or(r == 0, r == M1))
    if s.br(r != 0):
        shut(s, o)
        syserr(s, err)


@contract(UB + '::UDPBoundSocket($E::sockets::EndPoint)')
def _(s, p, e):
    o = s.obj(p, BS)
    init_base(s, o)
    copy_ep(o, s.obj(e, EPT), '_remoteEndPoint.')
    s.havoc_members(s.obj(e, EPT), '_host')
    udp_open(s, o)
    bind_any(s, o)


@contract(UB + '::UDPBoundSocket(string, int)')
def _(s, p, h, port):
    o = s.obj(p, BS)
    init_base(s, o)
    ep_named(s, o, h, port, '_remoteEndPoint.')
    udp_open(s, o)
    bind_any(s, o)


def fcntl(s, fd, cmd, arg):
    i, r, err = s.syscall('fcntl', 32, fd, bv(cmd, 32), *([arg] if arg is not None else []))
    s.assume(r >= M1)
    return r, err


def connect_tcp(s, o, ms):
    fd = open_socket(s, o, 1, 0)
    r, err = fcntl(s, fd, 3, None)
    if s.br(r < 0):
        syserr(s, err)
    r, err = fcntl(s, fd, 4, simp(r | bv(0x800, 32)))
    if s.br(r < 0):
        syserr(s, err)

    def fail(code):
        s.syscall('close', 32, fd)
        syserr(s, code)

    i, r, err = s.syscall('connect', 32, fd, ep_addr(o))
    s.assume(Or(r == 0, r == M1))
    if s.br(r != 0):
        if s.br(err != EINPROGRESS):
            fail(err)
        # wait until the socket can be written, again when a signal interrupts the wait
        F = BoolVal(False)
        ev = [simp(fd + 1), F, fd_bits([fd]), F, interval(ms)]
        intr = lambda i: And(evf('select', i, 32) < 0, evf('errno', i, 32) == EINTR)
        s.loop('connect', step=lambda X, k: {}, stop=lambda X, k: Not(intr(X['%evt'])),
               events=lambda X, k: [Event('sys:select', *ev)], evts=1, salt=(fd, ms))
        i, r, err = s.syscall('select', 32, *ev)
        s.assume(r >= M1)
        if s.br(r < 0):
            fail(err)
        if s.br(r == 0):
            fail(ETIMEDOUT)
        i, r, err = s.syscall('getsockopt', 32, fd, bv(1, 32), bv(4, 32))
        s.assume(Or(r == 0, r == M1))
        if s.br(r != 0):
            fail(err)
        v = evf('so_value', i, 32)
        if s.br(v != 0):
            fail(v)
    r, err = fcntl(s, fd, 3, None)
    if s.br(r < 0):
        fail(err)
    r, err = fcntl(s, fd, 4, simp(r & bv(~0x800 & 0xffffffff, 32)))
    if s.br(r < 0):
        fail(err)


@contract(TS + '::TCPSocket($E::sockets::EndPoint, %s)' % MS)
def _(s, p, e, ms):
    o = s.obj(p, BS)
    init_base(s, o)
    copy_ep(o, s.obj(e, EPT), '_remoteEndPoint.')
    s.havoc_members(s.obj(e, EPT), '_host')
    connect_tcp(s, o, ms)


@contract(TS + '::TCPSocket($E::sockets::EndPoint)')
def _(s, p, e):
    o = s.obj(p, BS)
    init_base(s, o)
    copy_ep(o, s.obj(e, EPT), '_remoteEndPoint.')
    s.havoc_members(s.obj(e, EPT), '_host')
    connect_tcp(s, o, bv(1000))


@contract(TS + '::TCPSocket(string, int)')
def _(s, p, h, port):
    o = s.obj(p, BS)
    init_base(s, o)
    ep_named(s, o, h, port, '_remoteEndPoint.')
    connect_tcp(s, o, bv(1000))
