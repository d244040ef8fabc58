"""Lemmas: client programs over the contracts (round trips, order laws)."""
from .lib import *
from . import buffer, cip, eip, epath
from .eip import EN, CP, CI, items_iter, en_eq
from .epath import EP as PATH, YP
from .cip import str_cmp_term, str_cmp_axioms

BUF = 'eipScanner::utils::Buffer'
EPT = 'eipScanner::sockets::EndPoint'
VB = full('vec<u8> const&')


def newbuf(s):
    """a buffer with arbitrary contents, read to the end"""
    b = s.sym('Buffer', 'buf')
    b._position = b._buffer.len
    return b


# ------------------------------------------------------------------ C01
for _t, _n in (('unsigned char', 8), ('signed char', 8), ('unsigned short', 16), ('short', 16), ('unsigned int', 32), ('int', 32),
               ('unsigned long', 64), ('long', 64), ('float', 32), ('double', 64)):
    @lemma('roundtrip ' + _t)
    def _(s, t=_t, n=_n):
        b = newbuf(s)
        n0 = b._buffer.len
        v = s.var('v', n)
        s.call('%s::operator<<(%s)' % (BUF, t), [b.ptr(), v])
        p = s.eng.alloc(s.st, n // 8, 'out')
        s.call('%s::operator>>(%s&)' % (BUF, t), [b.ptr(), p])
        s.prove_eq(s.bv(p, n), v, 'the decoded value is the encoded one')
        s.prove_eq(b._position, n0 + n // 8, 'the read position moved over the image')
        s.prove(ULE(b._position, b._buffer.len), 'still valid')


@lemma('roundtrip bytes')
def _(s):
    b = newbuf(s)
    v = s.symvec('v')
    x = s.vec(v)
    s.call(full(BUF + '::operator<<(vec<u8> const&)'), [b.ptr(), v])
    w = s.symvec('w')
    s.assume(s.vec(w).len == x.len)
    s.call(full(BUF + '::operator>>(vec<u8>&)'), [b.ptr(), w])
    s.prove_eq(s.vec(w), x, 'the decoded bytes are the encoded ones')


@lemma('roundtrip words')
def _(s):
    b = newbuf(s)
    v = s.symvec('v', 'unsigned short')
    x = s.vec(v)
    s.call(full(BUF + '::operator<<(vec<u16> const&)'), [b.ptr(), v])
    w = s.symvec('w', 'unsigned short')
    s.assume(s.vec(w).len == x.len)
    s.call(full(BUF + '::operator>>(vec<u16>&)'), [b.ptr(), w])
    s.prove_eq(s.vec(w), x, 'the decoded words are the encoded ones')


for _T, _n in (('unsigned char', 8), ('unsigned short', 16)):
    @lemma('roundtrip string<%s>' % _T)
    def _(s, T=_T, n=_n):
        b = newbuf(s)
        C = 'eipScanner::cip::CipBaseString<%s>' % T
        x = s.sym(C, 'x')
        s.assume(ULE(x._data.len, bv((1 << n) - 1)))
        s.assume(zx(x._length, 64) == x._data.len)
        y = s.sym(C, 'y')
        s.call('eipScanner::utils::Buffer& %s::operator<< <%s>(%s const&)' % (BUF, T, C), [b.ptr(), x.ptr()])
        s.call('eipScanner::utils::Buffer& %s::operator>><%s>(%s&)' % (BUF, T, C), [b.ptr(), y.ptr()])
        s.prove_eq(y._length, x._length, 'length')
        s.prove_eq(y._data, x._data, 'text')
        s.prove_eq(b._position, b._buffer.len, 'position')


@lemma('roundtrip revision')
def _(s):
    b = newbuf(s)
    v = s.var('rev', 16)
    s.call(BUF + '::operator<<(eipScanner::cip::CipRevision)', [b.ptr(), v])
    y = s.sym('eipScanner::cip::CipRevision', 'y')
    s.call(BUF + '::operator>>(eipScanner::cip::CipRevision&)', [b.ptr(), y.ptr()])
    s.prove_eq(y._majorRevision, lo(v, 8), 'major')
    s.prove_eq(y._minorRevision, simp(Extract(15, 8, v)), 'minor')


@lemma('roundtrip socket address')
def _(s):
    b = newbuf(s)
    x = s.sym(EPT, 'x')
    y = s.sym(EPT, 'y')
    s.call(BUF + '::operator<<(eipScanner::sockets::EndPoint)', [b.ptr(), x.ptr()])
    s.call(BUF + '::operator>>(eipScanner::sockets::EndPoint&)', [b.ptr(), y.ptr()])
    for f in ('_addr.sin_family', '_addr.sin_port', '_addr.sin_addr.s_addr'):
        s.prove_eq(y[f], x[f], f)
    s.prove_eq(y._port, zx(cip.swap16(x['_addr.sin_port']), 32), 'port')
    s.prove_eq(b._position, b._buffer.len, 'position')


# ------------------------------------------------------------------ C03
@lemma('packet round trip')
def _(s):
    p = s.sym(EN, 'p')
    s.assume(p._context.len == bv(8))
    s.assume(ULE(p._data.len, bv(0xffff)))
    s.assume(p._length == lo(p._data.len, 16))
    d = s.vecbuf()
    s.call(EN + '::pack() const', [d, p.ptr()])
    q = s.sym(EN, 'q')
    s.assume(q._context.len == bv(8))
    o = s.try_(EN + '::expand(%s)' % VB, [q.ptr(), d])
    s.prove(BoolVal(o[0] == 'ret'), 'a packed packet is accepted')
    if o[0] != 'ret':
        return
    for f in ('_command', '_length', '_sessionHandle', '_statusCode', '_options', '_context', '_data'):
        s.prove_eq(q[f], p[f], 'field ' + f)
    r = s.call(EN + '::operator==(eipScanner::eip::EncapsPacket const&) const', [q.ptr(), p.ptr()])
    for x in str_eqs(s, q._context, p._context) + str_eqs(s, q._data, p._data):
        s.assume(x)
    s.prove(as_bool(r), 'the packets compare equal')


def as_bool(r):
    return r if z3.is_bool(r) else r != 0


def str_eqs(s, a, b):
    """reflexivity of content equality, after the contents were proved equal"""
    c, ax = seq_eq_atom(a, b)
    return list(ax) + [c]


# ------------------------------------------------------------------ C04
@lemma('common packet round trip')
def _(s):
    """induction over the items: expanding the packed bytes reads item k at the offset where it was written"""
    p = s.sym(CP, 'p')
    items = p._items
    d = s.vecbuf()
    s.assume(ULE(items.len, bv(0xffff)))
    s.call(CP + '::pack() const', [d, p.ptr()])
    s.eng.used_contracts.add(full(CP + '::expand(vec<u8> const&)'))
    x = s.vec(d)
    flat = [q for q in x.parts() if isinstance(q, Flat)]
    if not flat:
        raise Unsupported('packed bytes are not a concatenation')
    flat = flat[0]
    k = s.var('k', 64)
    s.assume(ULE(k, items.len))
    lf = Function('flatlen!%s' % (flat.uid,), BitVecSort(64), BitVecSort(64))
    at = Function('flatat!%s' % (flat.uid,), BitVecSort(64), BitVecSort(64), BitVecSort(8))
    # meaning of concatenation: item k occupies [len(k), len(k+1))
    s.assume(lf(bv(0)) == 0)
    count, step, stop = items_iter(s, x)
    if s.br(k == items.len):
        s.assume(x.len == lf(k) + 2)
        s.prove(stop({'pos': simp(lf(k) + 2), 'items': None}, k), 'expansion stops after the last item')
        s.prove(Or(UGE(k, count), UGE(lf(k) + 2, x.len)), 'and does not report a malformed packet')
        return
    it = items.at(k)
    tid, ln, data = [s.fld(it, f) for f in ('_typeId', '_length', '_data')]
    s.assume(ULE(data.len, bv(0xffff)))
    s.assume(ln == lo(data.len, 16))
    img = flat.item(k)
    s.assume(lf(simp(k + 1)) == lf(k) + img.len)
    s.assume(ULE(lf(simp(k + 1)), lf(items.len)))
    s.assume(ULE(lf(k), lf(simp(k + 1))))
    for j in range(4):
        s.assume(at(items.len, simp(lf(k) + j)) == img.at(bv(j)))
    j = s.var('j', 64)
    s.assume(ULT(j, zx(ln, 64)))
    s.assume(at(items.len, simp(lf(k) + 4 + j)) == img.at(simp(j + 4)))
    X = {'pos': simp(lf(k) + 2), 'items': None}
    s.prove(Not(stop(X, k)), 'item k is read')
    n = step(X, k)
    s.prove_eq(n['pos'], simp(lf(simp(k + 1)) + 2), 'the next item starts where it was written')
    got = n['items'].els[0]
    s.prove_eq(s.fld(got, '_typeId'), tid, 'type')
    s.prove_eq(s.fld(got, '_length'), ln, 'length')
    gd = s.fld(got, '_data')
    s.prove_eq(gd.len, data.len, 'data size')
    s.prove_eq(gd.at(j), data.at(j), 'data byte')


# ------------------------------------------------------------------ C05
for _C, _t, _w in ((PATH, 'unsigned short', 16), (YP, 'unsigned char', 8)):
    for _k in (1, 2, 3):
        for _u8 in ((False, True) if _C == PATH else (True,)):
            @lemma('%s of %d segments, %d-bit form' % (_C.split('::')[-1], _k, 8 if _u8 else 16), unroll=8)
            def _(s, C=_C, t=_t, w=_w, k=_k, u8=_u8):
                ids = [s.var('id%d' % i, w) for i in range(k)]
                if u8:
                    for v in ids:
                        s.assume(ULE(v, bv(255, w)))
                p, q = s.raw(C, 'p'), s.sym(C, 'q')
                s.call('%s::%s(%s)' % (C, C.split('::')[-1], ', '.join([t] * k)), [p.ptr()] + ids)
                d = s.vecbuf()
                pk, sz, ex = '%s::packPaddedPath(%s) const', '%s::getSizeInWords(%s) const', '%s::expandPaddedPath(' + VB + ')'
                arg = [BoolVal(u8)] if C == PATH else []
                b = 'bool' if C == PATH else ''
                s.call(pk % (C, b), [d, p.ptr()] + arg)
                x = s.vec(d)
                want = cat(*[bytes_(0x20 + [0, 4, 16][i], lo(v, 8)) if u8 else cat(bytes_(0x21 + [0, 4, 16][i], 0), le(v)) for i, v in enumerate(ids)])
                s.prove_eq(x, want, 'packed segments')
                n = s.call(sz % (C, b), [p.ptr()] + arg)
                s.prove(zx(n, 64) * 2 == x.len, 'the size in words is half the packed size')
                o = s.try_(ex % C, [q.ptr(), d])
                s.prove(BoolVal(o[0] == 'ret'), 'a packed path is accepted')
                if o[0] == 'ret':
                    r = s.call('%s::operator==(%s const&) const' % (C, C), [q.ptr(), p.ptr()])
                    s.prove(as_bool(r), 'the expanded path equals the packed one')


# ------------------------------------------------------------------ C20
LT = EPT + '::operator<(eipScanner::sockets::EndPoint const&) const'
EQ = EPT + '::operator==(eipScanner::sockets::EndPoint const&) const'
NE = EPT + '::operator!=(eipScanner::sockets::EndPoint const&) const'


def order_axioms(s, *hs):
    """std::string comparison is a total order consistent with equality (assumed)"""
    for a in hs:
        for b in hs:
            for x in str_cmp_axioms(a, b):
                s.assume(x)
            for c in hs:
                x, y, z = str_cmp_term(a, b), str_cmp_term(b, c), str_cmp_term(a, c)
                s.assume(Or(Not(And(x <= 0, y <= 0)), And(z <= 0, Or(z != 0, And(x == 0, y == 0)))))


@lemma('endpoint order')
def _(s):
    a, b, c = (s.sym(EPT, n) for n in 'abc')
    order_axioms(s, a._host, b._host, c._host)
    lt = lambda x, y: as_bool(s.call(LT, [x.ptr(), y.ptr()]))
    ab, ba, bc, cb, ac, ca, aa = lt(a, b), lt(b, a), lt(b, c), lt(c, b), lt(a, c), lt(c, a), lt(a, a)
    s.prove(Not(aa), 'irreflexive')
    s.prove(Not(And(ab, ba)), 'asymmetric')
    s.prove(Or(Not(And(ab, bc)), ac), 'transitive')
    eqab, eqbc = And(Not(ab), Not(ba)), And(Not(bc), Not(cb))
    s.prove(Or(Not(And(eqab, eqbc)), And(Not(ac), Not(ca))), 'incomparability is transitive')
    same = And(str_cmp_term(a._host, b._host) == 0, a._port == b._port)
    s.prove(eqab == same, 'endpoints are equivalent exactly when host and port agree')


@lemma('endpoint equality')
def _(s):
    a, b = s.sym(EPT, 'a'), s.sym(EPT, 'b')
    eq = as_bool(s.call(EQ, [a.ptr(), b.ptr()]))
    ne = as_bool(s.call(NE, [a.ptr(), b.ptr()]))
    s.prove(ne == Not(eq), 'inequality is the negation of equality')
    c, ax = seq_eq_atom(a._host, b._host)
    for x in ax:
        s.assume(x)
    s.prove(eq == And(c, a._port == b._port, a['_addr.sin_addr.s_addr'] == b['_addr.sin_addr.s_addr'], a['_addr.sin_port'] == b['_addr.sin_port'],
                      a['_addr.sin_family'] == b['_addr.sin_family']), 'equality')


@lemma('endpoint reports host and port')
def _(s):
    p = s.raw(EPT, 'e')
    h = s.eng.alloc(s.st, 32, 'host', 'std::string')
    t = s.eng.sym_seq(s.st, 'host', 'char')
    s.set_str(h, t)
    port = s.var('port', 32)
    s.call(full(EPT + '::EndPoint(string, int)'), [p.ptr(), h, port])
    r = s.call(EPT + '::getHost[abi:cxx11]() const', [p.ptr()])
    s.prove_eq(s.string(r), t, 'host')
    s.prove_eq(s.call(EPT + '::getPort() const', [p.ptr()]), port, 'port')
