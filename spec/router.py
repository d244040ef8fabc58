"""Explicit messaging: requests, replies, message routers."""
from .lib import *
from .buffer import *
from .buffer import words
from . import eip, epath
from .eip import EN, CI, CP, init_item, init_packet, packed, rec_item, items_of, NULL_ADDR, UNCONNECTED_ITEM, SEND_RR
from .epath import EP, YP, path_image

RQ = 'eipScanner::cip::MessageRouterRequest'
YRQ = 'eipScanner::cip::Yaskawa_MessageRouterRequest'
RS = 'eipScanner::cip::MessageRouterResponse'
MR = 'eipScanner::MessageRouter'
YMR = 'eipScanner::Yaskawa_MessageRouter'
SI = 'eipScanner::SessionInfoIf'
SPTR = 'std::shared_ptr<eipScanner::SessionInfoIf>'


# ------------------------------------------------------------------ requests
def path_size(s, o, use8):
    n = o._size
    return n if use8 else simp(n * 2)


def request_bytes(s, service, po, use8, data):
    """service, path size in words, path, data"""
    img = path_image(s, po, use8)
    return cat(le(service), le(path_size(s, po, use8)), img, data)


@contract(RQ + '::MessageRouterRequest(unsigned char, $E::cip::EPath const&, vec<u8>, bool)')
def _(s, p, service, path, data, use8):
    o = s.obj(p, RQ)
    o._serviceCode = service
    copy_path(s, o.at('_ePath._classId'), path, EP)
    o._data = s.vec(data)
    o._use_8_bit_path_segments = use8


def copy_path(s, dst, src, C):
    a, b = s.obj(dst, C), s.obj(src, C)
    for f in ('_classId', '_objectId', '_attributeId', '_size'):
        a[f] = b[f]


@contract(YRQ + '::Yaskawa_MessageRouterRequest(unsigned char, $E::cip::Yaskawa_EPath const&, vec<u8>)')
def _(s, p, service, path, data):
    o = s.obj(p, YRQ)
    o._serviceCode = service
    copy_path(s, o.at('_ePath._classId'), path, YP)
    o._data = s.vec(data)


for C in (RQ, YRQ):
    @contract('%s::~%s()' % (C, C.split('::')[-1]))
    def _(s, p):
        pass


@contract(RQ + '::pack() const')
def _(s, p):
    o = s.obj(p, RQ)
    use8 = s.br(o._use_8_bit_path_segments != 0)
    s.set_vec(s.sret, request_bytes(s, o._serviceCode, s.obj(o.at('_ePath._classId'), EP), use8, o._data))


@contract(YRQ + '::pack() const')
def _(s, p):
    o = s.obj(p, YRQ)
    s.set_vec(s.sret, request_bytes(s, o._serviceCode, s.obj(o.at('_ePath._classId'), YP), True, o._data))


# ------------------------------------------------------------------ replies
def init_reply(o):
    o._serviceCode = 1
    o._generalStatusCode = 0
    o._additionalStatus = EMPTY
    o._data = EMPTY
    o._additionalPacketItems = EMPTY


@contract(RS + '::MessageRouterResponse()')
def _(s, p):
    init_reply(s.obj(p, RS))


@contract(RS + '::~MessageRouterResponse()')
def _(s, p):
    pass


def reply_words(x, n):
    """n little-endian words at offset 4"""
    def f(i):
        return rdz(x, simp(bv(4) + i + i), 2)
    return mapseq('statuswords', n, f, x)


def expand_reply(s, o, x):
    """decode the reply bytes x into o, or raise"""
    if s.br(ULT(x.len, bv(4))):
        s.havoc_members(o, '_serviceCode', '_generalStatusCode', '_additionalStatus', '_data')
        s.throw()
    n = zx(rd(x, 3, 1), 64)
    if s.br(UGT(n + n, x.len - 4)):
        s.havoc_members(o, '_serviceCode', '_generalStatusCode', '_additionalStatus', '_data')
        s.throw()
    o._serviceCode = rd(x, 0, 1)
    o._generalStatusCode = rd(x, 2, 1)
    o._additionalStatus = reply_words(x, n)
    off = simp(4 + n + n)
    o._data = slice_(x, off, simp(x.len - off))


@contract(RS + '::expand(vec<u8> const&)')
def _(s, p, d):
    expand_reply(s, s.obj(p, RS), s.vec(d))


for m, f, r in (('getServiceCode', '_serviceCode', 0), ('getGeneralStatusCode', '_generalStatusCode', 0), ('getAdditionalStatus', '_additionalStatus', 1),
                ('getData', '_data', 1), ('getAdditionalPacketItems', '_additionalPacketItems', 1)):
    eip.getter(RS, m, f, r)
eip.setter(RS, 'setGeneralStatusCode', '$E::cip::GeneralStatusCodes', '_generalStatusCode')


@contract(RS + '::setData(vec<u8> const&)')
def _(s, p, d):
    s.obj(p, RS)._data = s.vec(d)


@contract(RS + '::setAdditionalPacketItems(vec<$E::eip::CommonPacketItem> const&)')
def _(s, p, d):
    s.obj(p, RS)._additionalPacketItems = s.vec(d)


@contract('$E::cip::logGeneralAndAdditionalStatus($E::cip::MessageRouterResponse const&)', note='logging only')
def _(s, p):
    pass


# ------------------------------------------------------------------ the session interface (any implementation)
def packet_args(o):
    return [o[f] for f in ('_command', '_length', '_sessionHandle', '_statusCode', '_context', '_options', '_data')]


@contract('virt ' + SI + '::sendAndReceive($E::eip::EncapsPacket const&) const', trusted=True, sret=True)
def _(s, p, pk):
    exchange(s, p, s.obj(pk, EN))


def exchange(s, p, o):
    i = s.event('sendAndReceive', p, *packet_args(o))
    s.env_throw('sendAndReceive', i)
    r = s.env_value('sendAndReceive', i, EN)
    if s.sret is not None:
        s.wr(s.sret, EN, r)
    return r


def session_handle(s, p):
    return BitVec('sessionHandle!%s!%s' % (p.r, p.o), 32)


@contract('virt ' + SI + '::getSessionHandle() const', trusted=True)
def _(s, p):
    return session_handle(s, p)


# ------------------------------------------------------------------ message router
@contract(MR + '::MessageRouter(bool)')
def _(s, p, use8):
    s.obj(p, MR)._use_8_bit_path_segments = use8


def item_rec(s, tid, data):
    return s.mkrec(CI, _typeId=bv(tid, 16), _length=lo(data.len, 16), _data=data)


def pack_items(s, items):
    """bytes of a common packet (same iteration as CommonPacket::pack)"""
    n = items.clen()
    head = le(lo(items.len, 16))
    if n is not None:
        return cat(head, *[rec_item(s, items.at(bv(i))) for i in range(n)])
    X = s.loop('packitems', accs={'out': head}, step=lambda X, k: {'out': rec_item(s, items.at(k))}, stop=lambda X, k: k == items.len, count=items.len, salt=(items,))
    return X['out']


def send_request(s, si, msg, add):
    """frame the message, exchange packets, decode the reply into the result"""
    sess = s.ptr(si)
    two = Lit([item_rec(s, NULL_ADDR, EMPTY), item_rec(s, UNCONNECTED_ITEM, msg)])
    if add.clen() == 0:
        items = two
    else:
        X = s.loop('additems', funs={'items': lambda X, k: cat(two, slice_(add, bv(0), k))}, stop=lambda X, k: k == add.len, count=add.len, step=lambda X, k: {},
                   salt=(two, add))
        items = X['items']
    data = cat(bytes_(0, 0, 0, 0, 0, 0), pack_items(s, items))
    i = s.event('sendAndReceive', sess, bv(SEND_RR, 16), lo(data.len, 16), session_handle(s, sess), bv(0, 32), Lit([bv(0, 8)] * 8), bv(0, 32), data)
    s.env_throw('sendAndReceive', i)
    x = s.fld(s.env_value('sendAndReceive', i, EN), '_data')
    if s.br(ULT(x.len, bv(6))):
        s.throw('std::exception')
    y = sub(x, 6, simp(x.len - 6))
    X, count = items_of(s, y)
    if s.br(And(ULT(X['k'], count), ULT(X['pos'], y.len))):
        s.throw('std::exception')
    its = X['items']
    if s.br(ULT(its.len, bv(2))):
        s.throw('std::exception')
    o = s.obj(s.sret, RS)
    init_reply(o)
    try:
        expand_reply(s, o, s.fld(its.at(bv(1)), '_data'))
    except SpecThrow:
        s.throw('std::exception')
    if s.br(UGT(its.len, bv(2))):
        o._additionalPacketItems = slice_(its, bv(2), simp(its.len - 2))


def req_pre(s, p, si, service, path, data, *a):
    return [(ULE(s.vec(data).len, bv(65000)), 'the request fits into one item')]


ITEMS = 'vec<$E::eip::CommonPacketItem> const&'
for C, PT in ((MR, EP), (YMR, YP)):
    def framed(s, p, si, service, path, data, add, C, PT):
        use8 = True if C == YMR else s.br(s.obj(p, MR)._use_8_bit_path_segments != 0)
        msg = request_bytes(s, service, s.obj(path, PT), use8, data)
        send_request(s, si, msg, add)

    @contract('%s::sendRequest(%s, unsigned char, %s const&, vec<u8> const&, %s) const' % (C, SPTR, PT, ITEMS), pre=req_pre)
    def _(s, p, si, service, path, data, add, C=C, PT=PT):
        framed(s, p, si, service, path, s.vec(data), s.vec(add), C, PT)

    @contract('%s::sendRequest(%s, unsigned char, %s const&, vec<u8> const&) const' % (C, SPTR, PT), pre=req_pre)
    def _(s, p, si, service, path, data, C=C, PT=PT):
        framed(s, p, si, service, path, s.vec(data), EMPTY, C, PT)

    @contract('%s::sendRequest(%s, unsigned char, %s const&) const' % (C, SPTR, PT))
    def _(s, p, si, service, path, C=C, PT=PT):
        framed(s, p, si, service, path, EMPTY, EMPTY, C, PT)


# ------------------------------------------------------------------ a router as seen by its callers (any implementation)
def sent_request(s, rt, si, service, path, data, items):
    """one request through the router; the reply is the environment's"""
    o = s.obj(path, EP)
    i = s.event('sendRequest', rt, s.ptr(si), service, o._classId, o._objectId, o._attributeId, o._size, data, items)
    s.env_throw('sendRequest', i)
    s.wr(s.sret, RS, s.env_value('sendRequest', i, RS))


for suffix, n in ((', vec<u8> const&, ' + ITEMS, 2), (', vec<u8> const&', 1), ('', 0)):
    @contract('virt %s::sendRequest(%s, unsigned char, %s const&%s) const' % (MR, SPTR, EP, suffix), trusted=True, sret=True)
    def _(s, rt, si, service, path, *a, n=n):
        sent_request(s, rt, si, service, path, s.vec(a[0]) if n else EMPTY, s.vec(a[1]) if n > 1 else EMPTY)
