"""An implicit (class 0/1/3) connection: data received, ticks of the clock."""
from .lib import *
from .buffer import *
from . import eip, sockets
from .eip import item_bytes, SEQ_ADDR_ITEM, CONNECTED_ITEM
from .sockets import BS, US
from engine.models import env_seq

IO = 'eipScanner::IOConnection'
US_SEND = full(US + '::Send(vec<u8> const&) const')


def tclass(o):
    return simp(o._transportTypeTrigger & 15)


def known_class(s, p, *a):
    c = tclass(s.obj(p, IO))
    return [(Or(c == 0, c == 1, c == 3), 'transport class 0, 1 or 3')]


def counted(s, o):
    c = tclass(o)
    return s.br(Or(c == 1, c == 3))


def flag(s, v):
    return s.br(v != 0)


def w64(v):
    return zx(v, 64)


@contract(IO + '::setDataToSend(vec<u8> const&)')
def _(s, p, d):
    s.obj(p, IO)._outputData = s.vec(d)


for m, f, t in (('setReceiveDataListener', '_receiveDataHandle', 'void (unsigned int, unsigned short, vec<u8> const&)'),
                ('setSendDataListener', '_sendDataHandle', 'void (vec<u8>&)'), ('setCloseListener', '_closeHandle', 'void ()')):
    @contract('%s::%s(std::function<%s>)' % (IO, m, t))
    def _(s, p, h, f=f):
        s.obj(p, IO)[f] = s.eng.getobj(s.st, h)
        s.put(h, ('fn',), HAVOC)


@contract(IO + '::notifyReceiveData(vec<u8> const&)', pre=known_class)
def _(s, p, d):
    receive(s, p, s.vec(d))


def receive(s, p, x):
    o = s.obj(p, IO)
    n = 0
    run = bv(0, 32)
    seq = bv(0, 16)
    if flag(s, o._t2oRealTimeFormat):
        run, n = rd(x, 0, 4), 4
    if counted(s, o):
        seq, n = rd(x, n, 2), n + 2
    if s.br(ULT(x.len, bv(n))):
        return
    y = slice_(x, n, simp(x.len - n))
    if flag(s, o._t2oFixedSize) and s.br(y.len != o._t2oDataSize):
        return
    o._connectionTimeoutCount = 0
    s.call_handler(o._receiveDataHandle, run, seq, y)


@contract(IO + '::notifyTick()', pre=known_class)
def _(s, p):
    return tick(s, p)


def tick(s, p):
    o = s.obj(p, IO)
    now = evf('now', s.event('now'), 64)
    us = (now - o['_lastHandleTime.__d.__r']) / bv(1000)
    n = simp(w64(o._connectionTimeoutCount) + us)
    o._connectionTimeoutCount = n
    if s.br(UGT(n, w64(o._connectionTimeoutMultiplier) * w64(o._t2oAPI))):
        s.call_handler(o._closeHandle)
        return BoolVal(False)
    o['_lastHandleTime.__d.__r'] = now
    t = simp(w64(o._o2tTimer) + us)
    o._o2tTimer = t
    if s.br(ULT(t, w64(o._o2tAPI))):
        return BoolVal(True)
    o._o2tTimer = 0
    o._o2tSequenceNumber = o._o2tSequenceNumber + 1
    head = EMPTY
    if counted(s, o):
        o._sequenceValueCount = o._sequenceValueCount + 1
        head = le(o._sequenceValueCount)
    if flag(s, o._o2tRealTimeFormat):
        head = cat(head, le(bv(1, 32)))
    i = s.call_handler(o._sendDataHandle, o._outputData)
    o._outputData = env_seq('handler_out', i, 'unsigned char', s.eng)
    out = o._outputData
    if flag(s, o._o2tFixedSize) and s.br(out.len != o._o2tDataSize):
        return BoolVal(True)
    data = cat(head, out)
    pk = cat(bytes_(2, 0), item_bytes(bv(SEQ_ADDR_ITEM, 16), bv(8, 16), cat(le(o._o2tNetworkConnectionId), le(o._o2tSequenceNumber))),
             item_bytes(bv(CONNECTED_ITEM, 16), lo(data.len, 16), data))
    v = s.eng.alloc(s.st, 24, 'datagram')
    s.set_vec(v, pk)
    s.call(US_SEND, [o._socket, v])
    return BoolVal(True)


ZERO = ('_o2tNetworkConnectionId', '_t2oNetworkConnectionId', '_o2tAPI', '_t2oAPI', '_o2tDataSize', '_t2oDataSize', '_o2tTimer', '_connectionTimeoutMultiplier',
        '_connectionTimeoutCount', '_o2tSequenceNumber', '_t2oSequenceNumber', '_serialNumber', '_transportTypeTrigger', '_o2tRealTimeFormat', '_t2oRealTimeFormat',
        '_sequenceValueCount', '_originatorVendorId', '_originatorSerialNumber')


def fresh(s, p):
    o = s.obj(p, IO)
    for f in ZERO:
        o[f] = 0
    o._o2tFixedSize = 1
    o._t2oFixedSize = 1
    o._connectionPath = EMPTY
    o._outputData = EMPTY
    o._socket = NULL
    for f in ('_receiveDataHandle', '_closeHandle', '_sendDataHandle'):
        o[f] = FnObj(('default',))
    o['_lastHandleTime.__d.__r'] = evf('now', s.event('now'), 64)


@contract(IO + '::IOConnection()')
def _(s, p):
    fresh(s, p)
