"""Encapsulation packets and common packets."""
from .lib import *
from .buffer import *

EN = 'eipScanner::eip::EncapsPacket'
CI = 'eipScanner::eip::CommonPacketItem'
CP = 'eipScanner::eip::CommonPacket'
FA = 'eipScanner::eip::EncapsPacketFactory'
CF = 'eipScanner::eip::CommonPacketItemFactory'
NOP, REGISTER, UNREGISTER, SEND_RR, LIST_IDENTITY = 0, 0x65, 0x66, 0x6f, 0x63
NULL_ADDR, CONNECTED_ITEM, UNCONNECTED_ITEM, SEQ_ADDR_ITEM = 0, 0xb1, 0xb2, 0x8002
HEADER = 24


# ------------------------------------------------------------------ encapsulation packet
def init_packet(o, command=NOP, handle=0, data=EMPTY):
    o._command = command
    o._length = lo(data.len, 16)
    o._sessionHandle = handle
    o._statusCode = 0
    o._context = Lit([bv(0, 8)] * 8)
    o._options = 0
    o._data = data


@contract(EN + '::EncapsPacket()')
def _(s, p):
    init_packet(s.obj(p, EN))


@contract(EN + '::~EncapsPacket()')
def _(s, p):
    pass


def packed(o):
    return cat(le(o._command), le(o._length), le(o._sessionHandle), le(o._statusCode), o._context, le(o._options), o._data)


@contract(EN + '::pack() const')
def _(s, p):
    s.set_vec(s.sret, packed(s.obj(p, EN)))


def context_size(s, p, *a):
    return [(s.obj(p, EN)._context.len == bv(8), 'the context of a packet has eight bytes')]


@contract(EN + '::expand(vec<u8> const&)', pre=context_size)
def _(s, p, d):
    o = s.obj(p, EN)
    x = s.vec(d)
    if s.br(ULT(x.len, bv(HEADER))):
        s.havoc_members(o, '_command', '_length', '_sessionHandle', '_statusCode', '_options', '_data')
        s.throw()
    ln = rd(x, 2, 2)
    if s.br(zx(ln, 64) != x.len - HEADER):
        s.havoc_members(o, '_command', '_length', '_sessionHandle', '_statusCode', '_options', '_context', '_data')
        s.throw()
    o._command = rd(x, 0, 2)
    o._length = ln
    o._sessionHandle = rd(x, 4, 4)
    o._statusCode = rd(x, 8, 4)
    o._context = Lit([x.at(bv(12 + i)) for i in range(8)])
    o._options = rd(x, 20, 4)
    o._data = slice_(x, 24, simp(x.len - 24))


def getter(cls, meth, fld, ref=False):
    @contract('%s::%s() const' % (cls, meth))
    def _(s, p):
        o = s.obj(p, cls)
        return o.at(fld) if ref else o[fld]


def setter(cls, meth, t, fld):
    @contract('%s::%s(%s)' % (cls, meth, t))
    def _(s, p, v):
        s.obj(p, cls)[fld] = v


for m, f, r in (('getCommand', '_command', 0), ('getLength', '_length', 0), ('getSessionHandle', '_sessionHandle', 0), ('getStatusCode', '_statusCode', 0), ('getData', '_data', 1)):
    getter(EN, m, f, r)
for m, t, f in (('setCommand', '$E::eip::EncapsCommands', '_command'), ('setSessionHandle', 'unsigned int', '_sessionHandle'), ('setStatusCode', '$E::eip::EncapsStatusCodes', '_statusCode')):
    setter(EN, m, t, f)


@contract(EN + '::setData(vec<u8> const&)')
def _(s, p, d):
    o = s.obj(p, EN)
    x = s.vec(d)
    o._data = x
    o._length = lo(x.len, 16)


@contract(EN + '::getLengthFromHeader(vec<u8> const&)')
def _(s, d):
    x = s.vec(d)
    if s.br(ULT(x.len, bv(4))):
        s.throw()
    return zx(rd(x, 2, 2), 64)


def seqeq(s, a, b):
    c, ax = seq_eq_atom(a, b)
    for x in ax:
        s.assume(x)
    return c


def en_eq(s, a, b):
    return simplify(And([a[f] == b[f] for f in ('_command', '_length', '_sessionHandle', '_statusCode', '_options')] +
                        [seqeq(s, a._context, b._context), seqeq(s, a._data, b._data)]))


@contract(EN + '::operator==($E::eip::EncapsPacket const&) const')
def _(s, p, q):
    return en_eq(s, s.obj(p, EN), s.obj(q, EN))


@contract(EN + '::operator!=($E::eip::EncapsPacket const&) const')
def _(s, p, q):
    return simplify(Not(en_eq(s, s.obj(p, EN), s.obj(q, EN))))


# ------------------------------------------------------------------ factory
@contract(FA + '::createRegisterSessionPacket() const')
def _(s, p):
    init_packet(s.obj(s.sret, EN), REGISTER, 0, bytes_(1, 0, 0, 0))


@contract(FA + '::createUnRegisterSessionPacket(unsigned int) const')
def _(s, p, h):
    init_packet(s.obj(s.sret, EN), UNREGISTER, h)


@contract(FA + '::createSendRRDataPacket(unsigned int, unsigned short, vec<u8>) const',
          pre=lambda s, p, h, t, d: [(ULE(s.vec(d).len, bv(MAXLEN - 64)), 'size')])
def _(s, p, h, t, d):
    x = s.vec(d)
    init_packet(s.obj(s.sret, EN), SEND_RR, h, cat(bytes_(0, 0, 0, 0), le(t), x))


@contract(FA + '::createListIdentityPacket() const')
def _(s, p):
    init_packet(s.obj(s.sret, EN), LIST_IDENTITY, 0)


# ------------------------------------------------------------------ common packet items
def init_item(o, tid, data):
    o._typeId = tid
    o._length = lo(data.len, 16)
    o._data = data


@contract(CI + '::CommonPacketItem()')
def _(s, p):
    init_item(s.obj(p, CI), NULL_ADDR, EMPTY)


@contract(CI + '::CommonPacketItem($E::eip::CommonPacketItemIds, vec<u8> const&)')
def _(s, p, t, d):
    init_item(s.obj(p, CI), t, s.vec(d))


@contract(CI + '::~CommonPacketItem()')
def _(s, p):
    pass


def item_bytes(tid, ln, data):
    """wire image of one item: an item with length 0 has no data"""
    return cat(le(tid), le(ln), sif(simplify(ln == bv(0, 16)), EMPTY, data))


@contract(CI + '::pack() const')
def _(s, p):
    o = s.obj(p, CI)
    z = s.br(o._length == bv(0, 16))
    s.set_vec(s.sret, cat(le(o._typeId), le(o._length), EMPTY if z else o._data))


getter(CI, 'getTypeId', '_typeId')
getter(CI, 'getLength', '_length')
getter(CI, 'getData', '_data', True)


def ci_eq(s, a, b):
    return simplify(And(a._typeId == b._typeId, a._length == b._length, seqeq(s, a._data, b._data)))


@contract(CI + '::operator==($E::eip::CommonPacketItem const&) const')
def _(s, p, q):
    return ci_eq(s, s.obj(p, CI), s.obj(q, CI))


@contract(CI + '::operator!=($E::eip::CommonPacketItem const&) const')
def _(s, p, q):
    return simplify(Not(ci_eq(s, s.obj(p, CI), s.obj(q, CI))))


@contract(CF + '::createNullAddressItem() const')
def _(s, p):
    init_item(s.obj(s.sret, CI), NULL_ADDR, EMPTY)


@contract(CF + '::createUnconnectedDataItem(vec<u8> const&) const')
def _(s, p, d):
    init_item(s.obj(s.sret, CI), UNCONNECTED_ITEM, s.vec(d))


@contract(CF + '::createConnectedDataItem(vec<u8> const&) const')
def _(s, p, d):
    init_item(s.obj(s.sret, CI), CONNECTED_ITEM, s.vec(d))


@contract(CF + '::createSequenceAddressItem(unsigned int, unsigned int) const')
def _(s, p, c, n):
    init_item(s.obj(s.sret, CI), SEQ_ADDR_ITEM, cat(le(c), le(n)))


# ------------------------------------------------------------------ common packet
@contract(CP + '::CommonPacket()')
def _(s, p):
    s.obj(p, CP)._items = EMPTY


@contract(CP + '::~CommonPacket()')
def _(s, p):
    pass


@contract(CP + '::operator<<($E::eip::CommonPacketItem const&)')
def _(s, p, i):
    o = s.obj(p, CP)
    o._items = cat(o._items, Lit([s.rec(i, CI)]))
    return p


def rec_item(s, r):
    return item_bytes(s.fld(r, '_typeId'), s.fld(r, '_length'), s.fld(r, '_data'))


@contract(CP + '::pack() const')
def _(s, p):
    items = s.obj(p, CP)._items
    n = items.clen()
    head = le(lo(items.len, 16))
    if n is not None:
        s.set_vec(s.sret, cat(head, *[rec_item(s, items.at(bv(i))) for i in range(n)]))
        return
    X = s.loop('packitems', accs={'out': head}, step=lambda X, k: {'out': rec_item(s, items.at(k))}, stop=lambda X, k: k == items.len, count=items.len, salt=(items,))
    s.set_vec(s.sret, X['out'])


def mkitem(s, t, d):
    return s.mkrec(CI, _typeId=t, _length=lo(d.len, 16), _data=d)


def items_iter(s, x):
    """one step of reading items from the bytes x, and when reading stops"""
    count = zx(rdz(x, 0, 2), 64)

    def step(X, k):
        q = X['pos']
        ln = rdz(x, simp(q + 2), 2)
        return {'pos': simp(q + 4 + zx(ln, 64)), 'items': Lit([mkitem(s, rdz(x, q, 2), sub(x, simp(q + 4), zx(ln, 64)))])}

    return count, step, lambda X, k: Or(UGE(k, count), UGE(X['pos'], x.len),
                                        UGT(X['pos'] + 4 + zx(rdz(x, simp(X['pos'] + 2), 2), 64), x.len))


def items_of(s, x, name='items'):
    """the items present in the bytes x, as an iteration"""
    count, step, stop = items_iter(s, x)
    # each processed item lies inside the bytes
    return s.loop(name, bvs={'pos': bv(2)}, accs={'items': EMPTY}, step=step, stop=stop,
                  inv=lambda X, k: [ULE(k, count), Or(k == 0, ULE(X['pos'], x.len))], salt=(x,), one=('items',)), count


@contract(CP + '::expand(vec<u8> const&)')
def _(s, p, d):
    o = s.obj(p, CP)
    x = s.vec(d)
    X, count = items_of(s, x)
    if s.br(And(ULT(X['k'], count), ULT(X['pos'], x.len))):
        s.havoc_members(o, '_items')
        s.throw()
    o._items = X['items']


@contract(CP + '::getItems()')
def _(s, p):
    return s.obj(p, CP).at('_items')
