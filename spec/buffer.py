"""utils::Buffer - little-endian codec over a growing byte vector with a read position."""
from .lib import *

B = '$E::utils::Buffer'
POSMAX = 1 << 62


def bufobj(s, b):
    o = s.obj(b, 'eipScanner::utils::Buffer')
    s.assume(ULE(o._position, bv(POSMAX)))      # a position is bounded by the number of bytes ever requested
    return o


def put(s, b, seq):
    o = bufobj(s, b)
    o._buffer = cat(o._buffer, seq)
    return b


def get(s, b, n):
    o = bufobj(s, b)
    v = rdz(o._buffer, o._position, n)
    o._position = simp(o._position + n)
    return v


def getseq(s, b, n):
    o = bufobj(s, b)
    v = sub(o._buffer, o._position, n)
    o._position = simp(o._position + n)
    return v


@contract(B + '::Buffer()')
def _(s, b):
    o = s.obj(b, 'eipScanner::utils::Buffer')
    o._buffer = EMPTY
    o._position = 0


@contract(B + '::Buffer(unsigned long)', pre=lambda s, b, n: [(ULE(n, bv(MAXLEN)), 'capacity')])
def _(s, b, n):
    o = s.obj(b, 'eipScanner::utils::Buffer')
    o._buffer = EMPTY
    o._position = 0


@contract(B + '::Buffer(vec<u8> const&)')
def _(s, b, v):
    o = s.obj(b, 'eipScanner::utils::Buffer')
    o._buffer = s.vec(v)
    o._position = 0


@contract(B + '::data() const')
def _(s, b):
    s.set_vec(s.sret, s.obj(b, 'eipScanner::utils::Buffer')._buffer)


@contract(B + '::size() const')
def _(s, b):
    return s.obj(b, 'eipScanner::utils::Buffer')._buffer.len


@contract(B + '::pos() const')
def _(s, b):
    return s.obj(b, 'eipScanner::utils::Buffer')._position


@contract(B + '::isValid() const')
def _(s, b):
    o = bufobj(s, b)
    return ULE(o._position, o._buffer.len)


@contract(B + '::empty() const')
def _(s, b):
    o = bufobj(s, b)
    return UGE(o._position, o._buffer.len)


def _scalar(t, n):
    @contract('%s::operator<<(%s)' % (B, t))
    def w(s, b, v):
        return put(s, b, le(v, n))

    @contract('%s::operator>>(%s&)' % (B, t))
    def r(s, b, p):
        v = get(s, b, n)
        s.set_bv(p, v)
        return b


for _t, _n in (('unsigned char', 1), ('signed char', 1), ('unsigned short', 2), ('short', 2), ('unsigned int', 4), ('int', 4),
               ('unsigned long', 8), ('long', 8), ('float', 4), ('double', 8)):
    _scalar(_t, _n)


@contract(B + '::operator<<(vec<u8> const&)')
def _(s, b, v):
    return put(s, b, s.vec(v))


@contract(B + '::operator>>(vec<u8>&)')
def _(s, b, v):
    n = s.vec(v).len
    s.set_vec(v, getseq(s, b, n))
    return b


def words(seq, n):
    """little-endian bytes of the first n 16-bit elements"""
    def f(j):
        w = seq.at(simp(z3.LShR(j, bv(1))))
        return simp(If(Extract(0, 0, j) == bv(0, 1), Extract(7, 0, w), Extract(15, 8, w)))
    return mapseq('words', simp(n + n), f, seq)


@contract(B + '::operator<<(vec<u16> const&)')
def _(s, b, v):
    o = bufobj(s, b)
    seq = s.vec(v)
    d0 = o._buffer
    X = s.loop('putwords', funs={'data': lambda X, k: cat(d0, words(seq, k))}, stop=lambda X, k: k == seq.len, count=seq.len,
               step=lambda X, k: {}, salt=(d0, seq))
    o._buffer = X['data']
    return b


@contract(B + '::operator>>(vec<u16>&)')
def _(s, b, v):
    o = bufobj(s, b)
    seq = s.vec(v)
    d0, p0 = o._buffer, o._position
    X = s.loop('getwords', funs={'vals': lambda X, k: Prefixed('words', k, lambda i: rdz(d0, simp(p0 + i + i), 2), seq, (d0, p0)),
                                 'pos': lambda X, k: simp(p0 + k + k)},
               stop=lambda X, k: k == seq.len, count=seq.len, step=lambda X, k: {}, salt=(d0, seq, p0))
    s.set_vec(v, X['vals'], 'unsigned short')
    o._position = X['pos']
    return b
