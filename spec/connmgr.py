"""Connection manager requests and replies, network connection parameters."""
from .lib import *
from .buffer import *

NS = 'eipScanner::cip::connectionManager::'
FO, LO, FC, FR, NB = [NS + x for x in ('ForwardOpenRequest', 'LargeForwardOpenRequest', 'ForwardCloseRequest', 'ForwardOpenResponse', 'NetworkConnectionParametersBuilder')]
PA = NS + 'ConnectionParameters'

PARAMS = ['priorityTimeTick', 'timeoutTicks', 'o2tNetworkConnectionId', 't2oNetworkConnectionId', 'connectionSerialNumber', 'originatorVendorId', 'originatorSerialNumber',
          'connectionTimeoutMultiplier', 'o2tRPI', 'o2tNetworkConnectionParams', 't2oRPI', 't2oNetworkConnectionParams', 'transportTypeTrigger', 'connectionPathSize',
          'o2tRealTimeFormat', 't2oRealTimeFormat', 'connectionPath']


def open_bytes(p, large):
    """wire image of a (large) forward open; p: parameter name -> value"""
    ncp = (lambda v: le(v)) if large else (lambda v: le(lo(v, 16)))
    return cat(le(p['priorityTimeTick']), le(p['timeoutTicks']), le(p['o2tNetworkConnectionId']), le(p['t2oNetworkConnectionId']), le(p['connectionSerialNumber']),
               le(p['originatorVendorId']), le(p['originatorSerialNumber']), le(p['connectionTimeoutMultiplier']), bytes_(0, 0, 0),
               le(p['o2tRPI']), ncp(p['o2tNetworkConnectionParams']), le(p['t2oRPI']), ncp(p['t2oNetworkConnectionParams']),
               le(p['transportTypeTrigger']), le(p['connectionPathSize']), p['connectionPath'])


def params(s, o, pre=''):
    return {f: o[pre + f] for f in PARAMS}


for C, large in ((FO, False), (LO, True)):
    n = C.split('::')[-1]

    @contract('%s::%s(%s)' % (C, n, PA))
    def _(s, p, q, C=C):
        o = s.obj(p, C)
        for f, v in params(s, s.obj(q, PA)).items():
            o['_connectionParameters.' + f] = v
        s.havoc_members(s.obj(q, PA), 'connectionPath')

    @contract('%s::~%s()' % (C, n))
    def _(s, p):
        pass

    @contract('%s::pack() const' % C)
    def _(s, p, C=C, large=large):
        s.set_vec(s.sret, open_bytes(params(s, s.obj(p, C), '_connectionParameters.'), large))


@contract(PA + '::ConnectionParameters(%s const&)' % PA)
def _(s, p, q):
    a, b = s.obj(p, PA), s.obj(q, PA)
    for f in PARAMS:
        a[f] = b[f]


@contract(FC + '::ForwardCloseRequest()')
def _(s, p):
    o = s.obj(p, FC)
    for f in ('_connectionSerialNumber', '_originatorVendorID', '_originatorSerialNumber'):
        o[f] = 0
    o._connectionPath = EMPTY


@contract(FC + '::~ForwardCloseRequest()')
def _(s, p):
    pass


for m, t, f in (('ConnectionSerialNumber', 'unsigned short', '_connectionSerialNumber'), ('OriginatorVendorId', 'unsigned short', '_originatorVendorID'),
                ('OriginatorSerialNumber', 'unsigned int', '_originatorSerialNumber')):
    @contract('%s::set%s(%s)' % (FC, m, t))
    def _(s, p, v, f=f):
        s.obj(p, FC)[f] = v


@contract(FC + '::setConnectionPath(vec<u8> const&)')
def _(s, p, d):
    s.obj(p, FC)._connectionPath = s.vec(d)


def close_bytes(serial, vendor, osn, path):
    words = lo(simp(z3.LShR(path.len, bv(1))), 8)
    return cat(bytes_(0, 0), le(serial), le(vendor), le(osn), le(words), bytes_(0), path)


@contract(FC + '::pack() const')
def _(s, p):
    o = s.obj(p, FC)
    s.set_vec(s.sret, close_bytes(o._connectionSerialNumber, o._originatorVendorID, o._originatorSerialNumber, o._connectionPath))


# ------------------------------------------------------------------ reply
REPLY = [('_o2tNetworkConnectionId', 0, 4), ('_t2oNetworkConnectionId', 4, 4), ('_connectionSerialNumber', 8, 2), ('_originatorVendorId', 10, 2),
         ('_originatorSerialNumber', 12, 4), ('_o2tAPI', 16, 4), ('_t2oAPI', 20, 4), ('_applicationReplaySize', 24, 1)]


@contract(FR + '::ForwardOpenResponse()')
def _(s, p):
    o = s.obj(p, FR)
    for f, off, n in REPLY:
        o[f] = 0


@contract(FR + '::~ForwardOpenResponse()')
def _(s, p):
    pass


@contract(FR + '::expand(vec<u8> const&)')
def _(s, p, d):
    o = s.obj(p, FR)
    x = s.vec(d)
    for f, off, n in REPLY:
        o[f] = rdz(x, off, n)
    w = zx(o._applicationReplaySize, 64)
    o._applicationReplay = sub(x, 26, simp(w + w))


for m, f in (('O2TNetworkConnectionId', '_o2tNetworkConnectionId'), ('T2ONetworkConnectionId', '_t2oNetworkConnectionId'), ('ConnectionSerialNumber', '_connectionSerialNumber'),
             ('OriginatorVendorId', '_originatorVendorId'), ('OriginatorSerialNumber', '_originatorSerialNumber'), ('O2TApi', '_o2tAPI'), ('T2OApi', '_t2oAPI'),
             ('ApplicationReplaySize', '_applicationReplaySize'), ('ApplicationReplay', None)):
    @contract('%s::get%s() const' % (FR, m))
    def _(s, p, f=f):
        o = s.obj(p, FR)
        return o.at('_applicationReplay') if f is None else o[f]


# ------------------------------------------------------------------ network connection parameters
# field: first bit and number of bits in the 16-bit and in the 32-bit layout
FIELDS = {'RedundantOwner': ((15, 1), (31, 1)), 'ConnectionType': ((13, 2), (29, 2)), 'Priority': ((10, 2), (26, 2)), 'Type': ((9, 1), (25, 1)), 'ConnectionSize': ((0, 9), (0, 16))}


def word_field(w, lfo, name):
    """value of a field of the parameter word w, as a 32-bit number"""
    (a, n), (b, m) = FIELDS[name]
    return simp(If(lfo, z3.LShR(w, bv(b, 32)) & bv((1 << m) - 1, 32), z3.LShR(w, bv(a, 32)) & bv((1 << n) - 1, 32)))


def with_field(w, lfo, name, v):
    (a, n), (b, m) = FIELDS[name]
    v = zx(v, 32)
    return simp(If(lfo, w | ((v & bv((1 << m) - 1, 32)) << b), w | ((v & bv((1 << n) - 1, 32)) << a)))


@contract(NB + '::NetworkConnectionParametersBuilder(unsigned int, bool)')
def _(s, p, v, l):
    o = s.obj(p, NB)
    o._value = v
    o._lfo = l


@contract(NB + '::~NetworkConnectionParametersBuilder()')
def _(s, p):
    pass


@contract(NB + '::build()')
def _(s, p):
    return s.obj(p, NB)._value


for F in FIELDS:
    T = 'unsigned short' if F == 'ConnectionSize' else '%s::%s' % (NB, F)

    def inrange(s, p, v, F=F):
        return [] if F == 'ConnectionSize' else [(ULE(v, bv((1 << FIELDS[F][0][1]) - 1, v.size())), 'enumerator')]

    @contract('%s::set%s(%s)' % (NB, F, T), pre=inrange)
    def _(s, p, v, F=F):
        o = s.obj(p, NB)
        o._value = with_field(o._value, o._lfo != 0, F, v)
        return p

    @contract('%s::get%s() const' % (NB, F))
    def _(s, p, F=F):
        o = s.obj(p, NB)
        r = word_field(o._value, o._lfo != 0, F)
        return lo(r, 16) if F == 'ConnectionSize' else r


def _indep(s, F):
    """a word whose field F is still zero: setting F sets F, leaves every other field and acts on the same object"""
    b = s.sym(NB, 'builder')
    w = b._value
    l = b._lfo != 0
    s.assume(word_field(w, l, F) == 0)
    v = s.var('v', 16 if F == 'ConnectionSize' else 32)
    if F != 'ConnectionSize':
        s.assume(ULE(v, bv((1 << FIELDS[F][0][1]) - 1, 32)))
    T = 'unsigned short' if F == 'ConnectionSize' else '%s::%s' % (NB, F)
    r = s.call('%s::set%s(%s)' % (NB, F, T), [b.ptr(), v])
    s.prove(eq_goal(r, b.ptr()), 'the setter returns its own object')
    for G in FIELDS:
        g = s.call('%s::get%s() const' % (NB, G), [b.ptr()])
        if G == F:
            lim = zx(v, 32) & If(l, bv((1 << FIELDS[F][1][1]) - 1, 32), bv((1 << FIELDS[F][0][1]) - 1, 32))
            s.prove(zx(g, 32) == lim, 'get%s returns what was set' % G)
        else:
            s.prove(zx(g, 32) == word_field(w, l, G), 'set%s leaves %s' % (F, G))
    # the bits: the word built differs from the old one only in the field's own bits
    (a, n), (c, m) = FIELDS[F]
    mask = If(l, bv(((1 << m) - 1) << c, 32), bv(((1 << n) - 1) << a, 32))
    nw = s.call(NB + '::build()', [b.ptr()])
    s.prove((nw & ~mask) == (w & ~mask), 'only the bits of %s change' % F)


for F in FIELDS:
    lemma('connection parameter %s is independent of the others' % F)(lambda s, F=F: _indep(s, F))


@lemma('connection parameter word starts empty')
def _(s):
    b = s.raw(NB)
    s.call(NB + '::NetworkConnectionParametersBuilder(unsigned int, bool)', [b.ptr(), bv(0, 32), z3.Bool('large')])
    for G in FIELDS:
        s.prove(zx(s.call('%s::get%s() const' % (NB, G), [b.ptr()]), 32) == 0, G)
