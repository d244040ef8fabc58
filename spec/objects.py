"""Identity and parameter objects."""
from .lib import *
from .buffer import *
from . import eip, cip, epath, router
from .cip import REV
from .epath import EP
from .router import RS, MR, SPTR

IDO = 'eipScanner::IdentityObject'
PO = 'eipScanner::ParameterObject'
BO = 'eipScanner::BaseObject'
RPTR = 'std::shared_ptr<eipScanner::MessageRouter>'
GET_ALL, GET_ONE, SET_ONE = 1, 0x0E, 0x10


@contract(BO + '::BaseObject(unsigned short, unsigned short)')
def _(s, p, c, i):
    init_base(s.obj(p, BO), c, i)


def init_base(o, c, i):
    o._classId = c
    o._instanceId = i


eip.getter(BO, 'getClassId', '_classId', 0)
eip.getter(BO, 'getInstanceId', '_instanceId', 0)


def ask(s, rt, si, service, cls, inst, attr=None, data=EMPTY):
    """one request through the router -> (general status, data)"""
    n = 2 if attr is None else 3
    i = s.event('sendRequest', rt, si, bv(service, 8), bv(cls, 16), inst, attr if attr is not None else bv(0, 16), bv(n, 8), data, EMPTY)
    s.env_throw('sendRequest', i)
    r = s.env_value('sendRequest', i, RS)
    return s.fld(r, '_generalStatusCode'), s.fld(r, '_data')


def ask_ok(s, *a, **kw):
    st, d = ask(s, *a, **kw)
    if s.br(st != 0):
        s.throw()
    return d


class Reader:
    """decodes fields one after the other; the caller asks at the end whether everything was there"""
    def __init__(self, s, x):
        self.s = s; self.x = x; self.p = bv(0)

    def num(self, n):
        v = rdz(self.x, self.p, n)
        self.p = simp(self.p + n)
        return v

    def blob(self, n):
        n = n if not isinstance(n, int) else bv(n)
        v = sub(self.x, self.p, n)
        self.p = simp(self.p + n)
        return v

    def text(self):
        return self.blob(zx(self.num(1), 64))

    def short(self):
        return self.s.br(UGT(self.p, self.x.len))


# ------------------------------------------------------------------ identity
ID_FIELDS = (('_vendorId', 2), ('_deviceType', 2), ('_productCode', 2), ('_revision._majorRevision', 1), ('_revision._minorRevision', 1), ('_status', 2), ('_serialNumber', 4))


def empty_identity(s, p, inst):
    o = s.obj(p, IDO)
    init_base(o, 1, inst)
    for f, n in ID_FIELDS:
        o[f] = 0
    o['_productName._length'] = 0
    o['_productName._data'] = EMPTY
    return o


def read_identity(s, rd_):
    vals = [rd_.num(n) for f, n in ID_FIELDS]
    ln = rd_.num(1)
    return vals, ln, rd_.blob(zx(ln, 64))


def put_identity(o, vals, ln, name):
    for (f, n), v in zip(ID_FIELDS, vals):
        o[f] = v
    o['_productName._length'] = ln
    o['_productName._data'] = name


@contract(IDO + '::IdentityObject(unsigned short)')
def _(s, p, inst):
    empty_identity(s, p, inst)


def load_identity(s, p, inst, si, rt):
    o = empty_identity(s, p, inst)
    x = ask_ok(s, rt, si, GET_ALL, 1, inst)
    r = Reader(s, x)
    v = read_identity(s, r)
    if r.short():
        s.throw()
    put_identity(o, *v)


@contract('%s::IdentityObject(unsigned short, %s const&, %s const&)' % (IDO, SPTR, RPTR))
def _(s, p, inst, si, rt):
    load_identity(s, p, inst, s.ptr(si), s.ptr(rt))


def new_router(s):
    q = s.new(MR)
    s.obj(q, MR)._use_8_bit_path_segments = 0
    return q


@contract('%s::IdentityObject(unsigned short, %s const&)' % (IDO, SPTR))
def _(s, p, inst, si):
    load_identity(s, p, inst, s.ptr(si), new_router(s))


for m, f, t in (('VendorId', '_vendorId', 'unsigned short'), ('DeviceType', '_deviceType', 'unsigned short'), ('ProductCode', '_productCode', 'unsigned short'),
                ('Status', '_status', 'unsigned short'), ('SerialNumber', '_serialNumber', 'unsigned int')):
    eip.getter(IDO, 'get' + m, f, 0)
    eip.setter(IDO, 'set' + m, t, f)

eip.getter(IDO, 'getRevision', '_revision._majorRevision', 1)


@contract(IDO + '::setRevision($E::cip::CipRevision const&)')
def _(s, p, r):
    o, q = s.obj(p, IDO), s.obj(r, REV)
    o['_revision._majorRevision'] = q._majorRevision
    o['_revision._minorRevision'] = q._minorRevision


@contract(IDO + '::getProductName[abi:cxx11]() const')
def _(s, p):
    s.set_str(s.sret, s.obj(p, IDO)['_productName._data'])


@contract(IDO + '::setProductName(string const&)')
def _(s, p, n):
    o = s.obj(p, IDO)
    x = s.string(n)
    o['_productName._length'] = lo(x.len, 8)
    o['_productName._data'] = x


# ------------------------------------------------------------------ parameter object
from engine.sx import fop, int2fp, fp_const
DBL = ('double',)


def f_(op, a, b):
    return fop(op, DBL, a, b)


def num2d(v, sgn=False):
    return int2fp('sitofp' if sgn else 'uitofp', v, DBL)


def pow10(p):
    return Function('pow', BitVecSort(64), BitVecSort(64), BitVecSort(64))(fp_const('10.0', DBL), num2d(p))


def to_eng(s, o, v):
    if s.br(o._isScalable == 0):
        return v
    m, d, b, f, p = o._scalingMultiplier, o._scalingDivisor, o._scalingBase, o._scalingOffset, o._precision
    return f_('fdiv', f_('fmul', f_('fmul', f_('fadd', v, num2d(f, True)), num2d(m)), num2d(b)), f_('fmul', num2d(d), pow10(p)))


def to_actual(s, o, v):
    if s.br(o._isScalable == 0):
        return v
    m, d, b, f, p = o._scalingMultiplier, o._scalingDivisor, o._scalingBase, o._scalingOffset, o._precision
    return f_('fsub', f_('fdiv', f_('fmul', f_('fmul', v, num2d(d)), pow10(p)), f_('fmul', num2d(m), num2d(b))), num2d(f, True))


@contract(PO + '::actualToEngValue(double) const')
def _(s, p, v):
    return to_eng(s, s.obj(p, PO), v)


@contract(PO + '::engToActualValue(double) const')
def _(s, p, v):
    return to_actual(s, s.obj(p, PO), v)


SCALING = (('ScalingMultiplier', '_scalingMultiplier', 'unsigned short'), ('ScalingDivisor', '_scalingDivisor', 'unsigned short'),
           ('ScalingBase', '_scalingBase', 'unsigned short'), ('ScalingOffset', '_scalingOffset', 'short'), ('Precision', '_precision', 'unsigned char'))
for m, f, t in SCALING:
    eip.getter(PO, 'get' + m, f, 0)
    eip.setter(PO, 'set' + m, t, f)
eip.getter(PO, 'getType', '_type', 0)
eip.setter(PO, 'setType', '$E::cip::CipDataTypes', '_type')
eip.getter(PO, 'getParameter', '_parameter', 1)
for m, f in (('isScalable', '_isScalable'), ('isReadOnly', '_isReadOnly'), ('hasFullAttributes', '_hasFullAttributes')):
    @contract('%s::%s() const' % (PO, m))
    def _(s, p, f=f):
        return s.obj(p, PO)[f] != 0
for m, f in (('setScalable', '_isScalable'), ('setReadOnly', '_isReadOnly')):
    eip.setter(PO, m, 'bool', f)
for m, f in (('Name', '_name'), ('Units', '_units'), ('Help', '_help')):
    eip.getter(PO, 'get%s[abi:cxx11]' % m, f, 1)

    @contract('%s::set%s(string const&)' % (PO, m))
    def _(s, p, n, f=f):
        s.obj(p, PO)[f] = s.string(n)


def empty_parameter(s, p, inst, fullattr, n):
    o = s.obj(p, PO)
    init_base(o, 0x0F, inst)
    o._hasFullAttributes = fullattr
    for f in ('_isScalable', '_isReadOnly', '_parameter', '_scalingOffset', '_precision'):
        o[f] = 0
    for f in ('_scalingMultiplier', '_scalingDivisor', '_scalingBase'):
        o[f] = 1
    for f in ('_name', '_units', '_help'):
        o[f] = EMPTY
    for f in ('_value', '_minValue', '_maxValue', '_defaultValue'):
        o[f] = fill(n, bv(0, 8))
    o._type = 0
    o._messageRouter = NULL
    return o


@contract(PO + '::ParameterObject(unsigned short, bool, unsigned long)', pre=lambda s, p, i, f, n: [(ULE(n, bv(1 << 16)), 'size of a value')])
def _(s, p, inst, fullattr, n):
    empty_parameter(s, p, inst, fullattr, n)


def load_parameter(s, p, inst, fullattr, si, rt):
    o = empty_parameter(s, p, inst, fullattr, bv(0))
    o._messageRouter = rt
    x = ask_ok(s, rt, si, GET_ONE, 0x0F, inst, bv(6, 16))
    if s.br(x.len == 0):
        s.throw()
    n = zx(rd(x, 0, 1), 64)
    x = ask_ok(s, rt, si, GET_ALL, 0x0F, inst)
    r = Reader(s, x)
    val = r.blob(n)
    r.blob(zx(r.num(1), 64))        # link path
    desc = r.num(2)
    typ = r.num(1)
    blobs = {'_value': val, '_minValue': fill(n, bv(0, 8)), '_maxValue': fill(n, bv(0, 8)), '_defaultValue': fill(n, bv(0, 8))}
    text = {}
    scal = None
    scalable = Extract(2, 2, desc)
    if s.br(fullattr):
        r.num(1)                    # data size, again
        for f in ('_name', '_units', '_help'):
            text[f] = r.text()
        for f in ('_minValue', '_maxValue', '_defaultValue'):
            blobs[f] = r.blob(n)
        if s.br(scalable == 1):
            r.blob(16)              # scaling attributes are read separately
            prec = r.num(1)
            if r.short():
                s.throw()
            scal = []
            for a in (13, 14, 15, 16):
                y = ask_ok(s, rt, si, GET_ONE, 0x0F, inst, bv(a, 16))
                if s.br(ULT(y.len, bv(2))):
                    s.throw()
                scal.append(rd(y, 0, 2))
    if scal is None and r.short():
        s.throw()
    o._parameter = inst
    o._isScalable = zx(scalable, 8)
    o._isReadOnly = zx(Extract(4, 4, desc), 8)
    o._type = typ
    for f, v in list(blobs.items()) + list(text.items()):
        o[f] = v
    if scal is not None:
        o._precision = prec
        for f, v in zip(('_scalingMultiplier', '_scalingDivisor', '_scalingBase', '_scalingOffset'), scal):
            o[f] = v


@contract('%s::ParameterObject(unsigned short, bool, %s const&, %s const&)' % (PO, SPTR, RPTR))
def _(s, p, inst, fullattr, si, rt):
    load_parameter(s, p, inst, fullattr, s.ptr(si), s.ptr(rt))


@contract('%s::ParameterObject(unsigned short, bool, %s const&)' % (PO, SPTR))
def _(s, p, inst, fullattr, si):
    load_parameter(s, p, inst, fullattr, s.ptr(si), new_router(s))


@contract('%s::updateValue(%s const&)' % (PO, SPTR))
def _(s, p, si):
    o = s.obj(p, PO)
    x = ask_ok(s, o._messageRouter, s.ptr(si), GET_ONE, 0x0F, o._instanceId, bv(1, 16))
    n = o._value.len
    if s.br(ULT(x.len, n)):
        s.throw()
    o._value = slice_(x, bv(0), n)


# the value of a parameter as a number of type T (explicit instantiations in instances.cpp)
def as_double(v, t):
    if t == 'double':
        return v
    if t == 'float':
        return Function('fpext_double', BitVecSort(32), BitVecSort(64))(v)
    return num2d(v, not t.startswith('unsigned'))


def from_double(v, t, bits):
    if t == 'double':
        return v
    if t == 'float':
        return Function('fptrunc_float', BitVecSort(64), BitVecSort(32))(v)
    return Function('%s_double_%d' % ('fptoui' if t.startswith('unsigned') else 'fptosi', bits), BitVecSort(64), BitVecSort(bits))(v)


for t, n in (('unsigned char', 1), ('signed char', 1), ('unsigned short', 2), ('short', 2), ('unsigned int', 4), ('int', 4), ('unsigned long', 8), ('long', 8),
             ('float', 4), ('double', 8)):
    for m, f in (('Actual', '_value'), ('Min', '_minValue'), ('Max', '_maxValue'), ('Default', '_defaultValue')):
        @contract('%s %s::get%sValue<%s>() const' % (t, PO, m, t))
        def _(s, p, f=f, n=n):
            return rdz(s.obj(p, PO)[f], 0, n)

        e = '' if m == 'Actual' else m

        @contract('double %s::getEng%sValue<%s>() const' % (PO, e, t))
        def _(s, p, f=f, n=n, t=t):
            o = s.obj(p, PO)
            return to_eng(s, o, as_double(rdz(o[f], 0, n), t))

        if e:
            @contract('void %s::setEng%sValue<%s>(double)' % (PO, e, t))
            def _(s, p, v, f=f, n=n, t=t):
                o = s.obj(p, PO)
                o[f] = le(from_double(to_actual(s, o, v), t, 8 * n))
