"""A session: one packet out, one complete packet back."""
from .lib import *
from .buffer import *
from . import eip, sockets
from .eip import EN, init_packet, packed, context_size, REGISTER, UNREGISTER
from .sockets import BS, TS, EPT, EPF, MS, copy_ep, stream, interval, shut, connect_tcp, ep_named, init_base

SS = 'eipScanner::SessionInfo'


def sock(s, p):
    return s.obj(p, SS).at('_socket._sockedFd').add(-8)


def exchange(s, p, data, handle):
    """send the packet, receive a complete one; -> packet bytes"""
    so = sock(s, p)
    v = s.eng.alloc(s.st, 24, 'data')
    s.set_vec(v, data)
    s.call(full(TS + '::Send(vec<u8> const&) const'), [so, v])
    rx = full(TS + '::Receive(unsigned long) const')
    h, d = s.eng.alloc(s.st, 24, 'header'), s.eng.alloc(s.st, 24, 'data')
    s.call(rx, [h, so, bv(24)])
    hd = s.vec(h)
    if s.br(ULT(hd.len, bv(4))):
        s.throw()
    s.call(rx, [d, so, zx(rd(hd, 2, 2), 64)])
    x = cat(hd, s.vec(d))
    q = s.new(EN)
    o = s.obj(q, EN)
    init_packet(o)
    s.call(full(EN + '::expand(vec<u8> const&)'), [q, tmpvec(s, x)])
    if s.br(o._statusCode != 0):
        s.throw()
    if s.br(And(handle != 0, o._sessionHandle != handle)):
        s.throw()
    return o


def tmpvec(s, x):
    v = s.eng.alloc(s.st, 24, 'bytes')
    s.set_vec(v, x)
    return v


PK = ('_command', '_length', '_sessionHandle', '_statusCode', '_options', '_context', '_data')


@contract(SS + '::sendAndReceive($E::eip::EncapsPacket const&) const')
def _(s, p, q):
    r = exchange(s, p, packed(s.obj(q, EN)), s.obj(p, SS)._sessionHandle)
    o = s.obj(s.sret, EN)
    for f in PK:
        o[f] = r[f]


@contract(SS + '::getSessionHandle() const')
def _(s, p):
    return s.obj(p, SS)._sessionHandle


@contract(SS + '::getRemoteEndPoint() const')
def _(s, p):
    copy_ep(s.obj(s.sret, EPT), s.obj(p, SS), '', '_socket._remoteEndPoint.')


def open_session(s, p, host, port, ms):
    """connect, register, adopt the handle of the reply; the socket does not stay open when this fails"""
    o = s.obj(p, SS)
    so = s.obj(sock(s, p), BS)
    init_base(s, so)
    ep_named(s, so, host, port, '_remoteEndPoint.')
    connect_tcp(s, so, ms)
    o._sessionHandle = 0
    so['_recvTimeout.__r'] = ms
    s.syscall('setsockopt', 32, so._sockedFd, bv(1, 32), bv(20, 32), interval(ms))
    t = s.new(EN)
    init_packet(s.obj(t, EN), REGISTER, 0, bytes_(1, 0, 0, 0))
    try:
        r = exchange(s, p, packed(s.obj(t, EN)), bv(0, 32))
    except SpecThrow:
        shut(s, so)
        raise
    o._sessionHandle = r._sessionHandle


@contract(SS + '::SessionInfo(string const&, int, %s const&)' % MS)
def _(s, p, host, port, ms):
    open_session(s, p, host, port, s.bv(ms, 64))


@contract(SS + '::SessionInfo(string const&, int)')
def _(s, p, host, port):
    open_session(s, p, host, port, bv(1000))


@contract(SS + '::~SessionInfo()')
def _(s, p):
    t = s.new(EN)
    init_packet(s.obj(t, EN), UNREGISTER, s.obj(p, SS)._sessionHandle)
    so = sock(s, p)
    try:
        s.call(full(TS + '::Send(vec<u8> const&) const'), [so, tmpvec(s, packed(s.obj(t, EN)))])
    except SpecThrow:
        pass
    shut(s, s.obj(so, BS))
