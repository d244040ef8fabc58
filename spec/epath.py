"""Padded paths."""
from .lib import *
from .buffer import *

EP = 'eipScanner::cip::EPath'
YP = 'eipScanner::cip::Yaskawa_EPath'
CLS8, CLS16, INS8, INS16, ATT8, ATT16 = 0x20, 0x21, 0x24, 0x25, 0x30, 0x31


def init_path(o, *ids):
    w = o['_classId'].size() if False else None
    for f, v in zip(('_classId', '_objectId', '_attributeId'), list(ids) + [0, 0, 0]):
        o[f] = v
    o._size = len(ids)


for C, t in ((EP, 'unsigned short'), (YP, 'unsigned char')):
    for n in range(4):
        @contract('%s::%s(%s)' % (C, C.split('::')[-1], ', '.join([t] * n)))
        def _(s, p, *ids, C=C):
            init_path(s.obj(p, C), *ids)


def path_image(s, o, use8):
    """segments of a path: always the class, then instance and attribute when present"""
    segs = []
    size = o._size
    for i, (f, t8) in enumerate((('_classId', CLS8), ('_objectId', INS8), ('_attributeId', ATT8))):
        if i and not s.br(UGT(size, bv(i, 8))):
            break
        v = o[f]
        segs.append(bytes_(t8, lo(v, 8)) if use8 else cat(bytes_(t8 + 1, 0), le(zx(v, 16))))
    return cat(*segs)


def well_formed(s, p, *a, C=EP):
    return [(ULE(s.obj(p, C)._size, bv(3, 8)), 'a path has at most three segments')]


@contract(EP + '::packPaddedPath(bool) const')
def _(s, p, use8):
    s.set_vec(s.sret, path_image(s, s.obj(p, EP), s.br(use8)))


@contract(YP + '::packPaddedPath() const')
def _(s, p):
    s.set_vec(s.sret, path_image(s, s.obj(p, YP), True))


@contract(EP + '::getSizeInWords(bool) const')
def _(s, p, use8):
    n = s.obj(p, EP)._size
    return n if s.br(use8) else simp(n * 2)


@contract(YP + '::getSizeInWords() const')
def _(s, p):
    return s.obj(p, YP)._size


for C in (EP, YP):
    for m, f in (('getClassId', '_classId'), ('getObjectId', '_objectId'), ('getAttributeId', '_attributeId')):
        @contract('%s::%s() const' % (C, m))
        def _(s, p, C=C, f=f):
            return s.obj(p, C)[f]

    @contract('%s::operator==(%s const&) const' % (C, C))
    def _(s, p, q, C=C):
        a, b = s.obj(p, C), s.obj(q, C)
        return simplify(And([a[f] == b[f] for f in ('_classId', '_objectId', '_attributeId', '_size')]))

    @contract('%s::expandPaddedPath(vec<u8> const&)' % C, pre=lambda s, p, d: [(ULE(s.vec(d).len, bv(1 << 31)), 'a path is shorter than 2 GiB')])
    def _(s, p, d, C=C):
        o = s.obj(p, C)
        x = s.vec(d)
        w = 16 if C == EP else 8

        def step(X, k):
            q = X['pos']
            t = rdz(x, q, 1)
            b = zx(rdz(x, simp(q + 1), 1), w)
            v = lo(rdz(x, simp(q + 2), 2), w)
            is8 = Or(t == CLS8, t == INS8, t == ATT8)
            n = {'pos': simp(If(is8, q + 2, q + 4))}
            for f, h, a, c in (('cid', 'hc', CLS8, CLS16), ('oid', 'ho', INS8, INS16), ('aid', 'ha', ATT8, ATT16)):
                n[f] = simp(If(t == a, b, If(t == c, v, X[f])))
                n[h] = simp(If(Or(t == a, t == c), bv(1, 8), X[h]))
            return n

        def unknown(q):
            t = rdz(x, q, 1)
            return Not(Or([t == c for c in (CLS8, CLS16, INS8, INS16, ATT8, ATT16)]))
        z = bv(0, w)
        X = s.loop('path', bvs={'pos': bv(0), 'cid': z, 'oid': z, 'aid': z, 'hc': bv(0, 8), 'ho': bv(0, 8), 'ha': bv(0, 8)}, step=step,
                   stop=lambda X, k: Or(UGE(X['pos'], x.len), unknown(X['pos'])),
                   inv=lambda X, k: [ULE(k + k, X['pos']), ULE(X['pos'], x.len + 2)] + [ULE(X[h], bv(1, 8)) for h in ('hc', 'ho', 'ha')], salt=(x,))
        if s.br(X['pos'] != x.len):
            # an unknown segment or one that runs past the end
            s.havoc_members(o, '_classId', '_objectId', '_attributeId', '_size')
            s.throw()
        o._classId = X['cid']
        o._objectId = X['oid']
        o._attributeId = X['aid']
        one = bv(1, 8)
        o._size = simp(If(X['hc'] == 0, bv(0, 8), If(X['ho'] == 0, one, If(X['ha'] == 0, bv(2, 8), bv(3, 8)))))
