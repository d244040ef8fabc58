"""Discovery: one list-identity request, one entry per identity item of every datagram until the receive timeout."""
from .lib import *
from .buffer import *
from . import cip, eip, objects, sockets
from .cip import set_ep_from_addr, swap16
from .eip import HEADER, CI, EN, init_packet, packed, items_iter
from .objects import ID_FIELDS, Reader, read_identity
from .sockets import BS, US, EPT, MS, NOSIGNAL, init_base, copy_ep, ep_named, interval, shut, syserr, ep_addr

DM, II = 'eipScanner::DiscoveryManager', 'eipScanner::IdentityItem'
ROOM = 504
TYPE_IDENTITY = 0x000C
AGAIN = 11
PRE = '_broadCastAddress.'


class Fields(dict):
    def __setattr__(self, k, v):
        self[k] = v


@contract('%s::DiscoveryManager(string const&, int, %s)' % (DM, MS[:-6] if MS.endswith('const&') else MS))
def _(s, p, host, port, ms):
    o = s.obj(p, DM)
    ep_named(s, o, host, port, PRE)
    o['_receiveTimout.__r'] = ms


@contract(DM + '::~DiscoveryManager()')
def _(s, p):
    pass


def open_socket(s, o):
    """a datagram socket to the broadcast address"""
    q = s.new(US)
    t = s.new(EPT)
    copy_ep(s.obj(t, EPT), o, '', PRE)
    s.call(full(US + '::UDPSocket($E::sockets::EndPoint)'), [q, t])
    so = s.obj(q, BS)
    ms = o['_receiveTimout.__r']
    so['_recvTimeout.__r'] = ms
    s.syscall('setsockopt', 32, so._sockedFd, bv(1, 32), bv(20, 32), interval(ms))
    i, r, err = s.syscall('setsockopt', 32, so._sockedFd, bv(1, 32), bv(6, 32), (bv(1, 32),))
    if s.br(r < 0):
        syserr(s, err)
    return q, so


@contract(DM + '::makeSocket() const')
def _(s, p):
    q, so = open_socket(s, s.obj(p, DM))
    s.set_ptr(s.sret, q)


def identity_entry(s, it, k):
    """what an item of a datagram adds to the list"""
    r = Reader(s, s.fld(it, '_data'))
    r.num(2)
    fam, port, addr = r.num(2), r.num(2), r.num(4)
    r.blob(8)
    vals, ln, name = read_identity(s, r)
    f = Fields()
    a = Fields()
    set_ep_from_addr(s, a, swap16(fam), port, addr, [bv(0, 8)] * 8)
    f.update({'socketAddress.' + n: v for n, v in a.items()})
    f['identityObject._classId'] = bv(1, 16)
    f['identityObject._instanceId'] = lo(k, 16)
    for (n, _), v in zip(ID_FIELDS, vals):
        f['identityObject.' + n] = v
    f['identityObject._productName._length'] = ln
    f['identityObject._productName._data'] = name
    used = And(s.fld(it, '_typeId') == bv(TYPE_IDENTITY, 16), ULE(r.p, r.x.len))
    return sif(used, Lit([s.mkrec(II, **f)]), EMPTY)


def entries(s, x):
    """the entries one datagram adds"""
    d = slice_(x, bv(HEADER), simp(x.len - HEADER))
    count, step, stop = items_iter(s, d)
    X = s.nested('items', bvs={'pos': bv(2)}, accs={'items': EMPTY}, step=step, stop=stop, salt=(d,), one=('items',))
    items = X['items']
    bad = Or(ULT(x.len, bv(HEADER)), And(ULT(X['k'], count), ULT(X['pos'], d.len)))
    n = simp(If(bad, bv(0), items.len))
    return s.nested('entries', accs={'list': EMPTY}, step=lambda X, k: {'list': identity_entry(s, items.at(k), k)}, stop=lambda X, k: k == n,
                    count=n, salt=(items, n), wide=('list',), inv=lambda X, k: [ULE(k, n)])['list']


@contract(DM + '::discover() const')
def _(s, p):
    q, so = open_socket(s, s.obj(p, DM))
    t = s.new(EN)
    init_packet(s.obj(t, EN), eip.LIST_IDENTITY)
    x = packed(s.obj(t, EN))
    fd = so._sockedFd
    i, r, err = s.syscall('sendto', 64, fd, x, NOSIGNAL, ep_addr(so))
    s.assume(Or(r == bv(-1), r == x.len))
    if s.br(r != x.len):
        syserr(s, err)
    res = lambda i: evf('recvfrom', i, 64)
    X = s.loop('discover', accs={'devices': EMPTY}, step=lambda X, k: {'devices': entries(s, recv_data('recvfrom', X['%evt'], res(X['%evt'])))},
               stop=lambda X, k: res(X['%evt']) == bv(-1), evts=1, events=lambda X, k: [Event('sys:recvfrom', fd, bv(ROOM), bv(0, 32))],
               salt=(fd,), wide=('devices',), nests=True)
    i, r, err = s.syscall('recvfrom', 64, fd, bv(ROOM), bv(0, 32))
    s.assume(r == bv(-1))
    if s.br(err != bv(AGAIN, 32)):
        syserr(s, err)
    s.set_vec(s.sret, X['devices'], II)
