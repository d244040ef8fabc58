"""cip::CipBaseString, cip::CipRevision, sockets::EndPoint and their Buffer operators."""
from .lib import *
from .buffer import *
from engine.models import str_cmp_term, str_cmp_axioms, inet_terms

REV = 'eipScanner::cip::CipRevision'
EP = 'eipScanner::sockets::EndPoint'
AF_INET = 2


# ------------------------------------------------------------------ strings
def _string(t, n):
    C = 'eipScanner::cip::CipBaseString<%s>' % t

    @contract(C + '::CipBaseString()')
    def _(s, p):
        o = s.obj(p, C)
        o._length = 0
        o._data = EMPTY

    @contract(C + '::CipBaseString(string const&)')
    def _(s, p, x):
        o = s.obj(p, C)
        q = s.string(x)
        o._length = lo(q.len, n)
        o._data = q

    @contract(C + '::CipBaseString(vec<u8> const&)')
    def _(s, p, x):
        o = s.obj(p, C)
        q = s.vec(x)
        o._length = lo(q.len, n)
        o._data = q

    @contract(C + '::toStdString[abi:cxx11]() const')
    def _(s, p):
        s.set_str(s.sret, s.obj(p, C)._data)

    @contract(C + '::getLength() const')
    def _(s, p):
        return s.obj(p, C)._length

    @contract(C + '::getData() const')
    def _(s, p):
        return s.obj(p, C).at('_data')

    @contract('$E::utils::Buffer& $E::utils::Buffer::operator<< <%s>(%s const&)' % (t, C))
    def _(s, b, p):
        o = s.obj(p, C)
        return put(s, b, cat(le(o._length, n // 8), o._data))

    @contract('$E::utils::Buffer& $E::utils::Buffer::operator>><%s>(%s&)' % (t, C))
    def _(s, b, p):
        o = s.obj(p, C)
        ln = get(s, b, n // 8)
        o._length = ln
        o._data = getseq(s, b, zx(ln, 64))
        return b


_string('unsigned char', 8)
_string('unsigned short', 16)


# ------------------------------------------------------------------ revision
@contract(REV + '::CipRevision()')
def _(s, p):
    o = s.obj(p, REV)
    o._majorRevision = 0
    o._minorRevision = 0


@contract(REV + '::CipRevision(unsigned char, unsigned char)')
def _(s, p, a, b):
    o = s.obj(p, REV)
    o._majorRevision = a
    o._minorRevision = b


@contract(REV + '::operator==($E::cip::CipRevision const&) const')
def _(s, p, q):
    a, b = s.obj(p, REV), s.obj(q, REV)
    return And(a._majorRevision == b._majorRevision, a._minorRevision == b._minorRevision)


@contract(REV + '::getMajorRevision() const')
def _(s, p):
    return s.obj(p, REV)._majorRevision


@contract(REV + '::getMinorRevision() const')
def _(s, p):
    return s.obj(p, REV)._minorRevision


def revarg(x):
    """a revision passed by value travels as one 16-bit word"""
    return Extract(7, 0, x), Extract(15, 8, x)


@contract('$E::utils::Buffer::operator<<($E::cip::CipRevision)')
def _(s, b, r):
    if isinstance(r, Ptr):
        o = s.obj(r, REV)
        mj, mn = o._majorRevision, o._minorRevision
    else:
        mj, mn = revarg(r)
    return put(s, b, Lit([simp(mj), simp(mn)]))


@contract('$E::utils::Buffer::operator>>($E::cip::CipRevision&)')
def _(s, b, p):
    v = get(s, b, 2)
    o = s.obj(p, REV)
    o._majorRevision = Extract(7, 0, v)
    o._minorRevision = Extract(15, 8, v)
    return b


# ------------------------------------------------------------------ socket addresses
def swap16(v):
    return simp(z3.Concat(Extract(7, 0, v), Extract(15, 8, v)))


def ntoa(a):
    """dotted text of a binary address: a function of the address (libc)"""
    i = simp(ZeroExt(32, a))
    lf = Function('inet_ntoa_len', BitVecSort(64), BitVecSort(4))
    f = Function('inet_ntoa', BitVecSort(64), BitVecSort(64), BitVecSort(8))
    return Sym('inet_ntoa', ZeroExt(60, lf(i)), lambda j: f(i, j), ('inet_ntoa', vkey(i)))


def set_ep_from_addr(s, o, fam, port, addr, zero):
    o._host = ntoa(addr)
    o._port = zx(swap16(port), 32)
    o['_addr.sin_family'] = fam
    o['_addr.sin_port'] = port
    o['_addr.sin_addr.s_addr'] = addr
    for i in range(8):
        o['_addr.sin_zero[%d]' % i] = zero[i]


@contract(EP + '::EndPoint(sockaddr_in&)')
def _(s, p, a):
    o = s.obj(p, EP)
    set_ep_from_addr(s, o, s.bv(a, 16), s.bv(a.add(2), 16), s.bv(a.add(4), 32), [s.bv(a.add(8 + i), 8) for i in range(8)])


@contract(EP + '::EndPoint(string, int)')
def _(s, p, h, port):
    o = s.obj(p, EP)
    q = s.string(h)
    if s.mode == 'check' or s.mode == 'collect':
        s.set_str(h, EMPTY if False else q)
    ok, v = inet_terms(q)
    o._host = q
    o._port = port
    o['_addr.sin_family'] = AF_INET
    o['_addr.sin_port'] = swap16(lo(port, 16))
    o['_addr.sin_addr.s_addr'] = If(ok, v, bv(0, 32))
    for i in range(8):
        o['_addr.sin_zero[%d]' % i] = 0
    s.put(h, ('str',), HAVOC)          # the argument may be moved from


@contract(EP + '::getHost[abi:cxx11]() const')
def _(s, p):
    return s.obj(p, EP).at('_host')


@contract(EP + '::getPort() const')
def _(s, p):
    return s.obj(p, EP)._port


@contract(EP + '::getAddr() const')
def _(s, p):
    return s.obj(p, EP).at('_addr.sin_family')


def ep_eq(s, a, b):
    c, ax = seq_eq_atom(a._host, b._host)
    for x in ax:
        s.assume(x)
    return simplify(And(c, a._port == b._port, a['_addr.sin_addr.s_addr'] == b['_addr.sin_addr.s_addr'],
                        a['_addr.sin_port'] == b['_addr.sin_port'], a['_addr.sin_family'] == b['_addr.sin_family']))


@contract(EP + '::operator==($E::sockets::EndPoint const&) const')
def _(s, p, q):
    return ep_eq(s, s.obj(p, EP), s.obj(q, EP))


@contract(EP + '::operator!=($E::sockets::EndPoint const&) const')
def _(s, p, q):
    return simplify(Not(ep_eq(s, s.obj(p, EP), s.obj(q, EP))))


@contract(EP + '::operator<($E::sockets::EndPoint const&) const')
def _(s, p, q):
    a, b = s.obj(p, EP), s.obj(q, EP)
    for x in str_cmp_axioms(a._host, b._host):
        s.assume(x)
    c = str_cmp_term(a._host, b._host)
    return simplify(Or(c < 0, And(c == 0, a._port < b._port)))


@contract('$E::utils::Buffer::operator<<($E::sockets::EndPoint)')
def _(s, b, p):
    o = s.obj(p, EP)
    fam = o['_addr.sin_family']
    return put(s, b, cat(le(swap16(fam)), le(o['_addr.sin_port']), le(o['_addr.sin_addr.s_addr']), Lit([bv(0, 8)] * 8)))


@contract('$E::utils::Buffer::operator>>($E::sockets::EndPoint&)')
def _(s, b, p):
    fam = get(s, b, 2)
    port = get(s, b, 2)
    addr = get(s, b, 4)
    getseq(s, b, 8)
    o = s.obj(p, EP)
    set_ep_from_addr(s, o, swap16(fam), port, addr, [bv(0, 8)] * 8)
    return b
