"""PowerFlex 525 faults: fault parameters, the fault queue, the fault object."""
from .lib import *
from .buffer import *
from . import eip, objects
from .objects import ask, ask_ok, init_base, new_router, num2d, f_, pow10, Reader, RPTR, GET_ONE, SET_ONE
from .router import SPTR
from engine.sx import fp_const
from engine import maps
from engine.spec import Contract, Ctx
from .faults import CODES

NS = 'eipScanner::vendor::ra::powerFlex525::'
FP, FM, FC, FOB, FD = [NS + n for n in ('DPIFaultParameter', 'DPIFaultManager', 'DPIFaultCode', 'DPIFaultObject', 'DPIFaultCode::FaultDescriptions')]
CMD = NS + 'DPIFaultManagerCommands'
DET = '_fullInformation.faultDetails.'
DESC = '_fullInformation.faultDescription.'
CODE_PARAM = (7, 8, 9, 604, 605, 606, 607, 608, 609, 610)
FAULT_CLASS, PARAM_CLASS = 0x97, 0x0F
CLEAR_QUEUE = 2


# ------------------------------------------------------------------ the table of fault codes
def known(code):
    """is the code in the drive's table: opaque to callers"""
    return Function('fault_known', BitVecSort(32), z3.BoolSort())(code)


def description(s, code):
    """what the table says about a code: which words it uses is left open"""
    return [s.eng.sym_val('fault_' + n, t, (ZeroExt(32, code),)) for n, t in (('type', 'int'), ('text', STR), ('description', STR))]


def table(s, p, entry):
    """the fault table as a map: code -> entry(code)"""
    m = maps.MapObj(None, 'int', FD)
    s.eng.setobj(s.st, p, maps.MapObj(None, 'int', FD, [(bv(k, 32), entry(m, bv(k, 32))) for k in CODES]))


def with_table(con, eng, st):
    """a fault code object holds the table its constructor made"""
    m, args = Contract.setup(con, eng, st)
    s = Ctx(eng, st, [], 'pre', con)

    def entry(m, k):
        q = maps.new_entry(s, m, k)
        o = s.obj(q.add(maps.value_off(eng, m)), FD)
        o.faultType, o.faultText, o.faultDescription = description(s, k)
        return q
    table(s, s.obj(args[-1], FC).at('_faultMap'), entry)
    return m, args


def own(s):
    """is this the proof of the contract itself, or its use?"""
    return s.eng.verifying is s.contract


@contract(FC + '::DPIFaultCode(int)')
def _(s, p, c):
    o = s.obj(p, FC)
    o._faultCode = c
    if own(s):
        table(s, o.at('_faultMap'), lambda m, k: maps.ANY)
    else:
        s.havoc_members(o, '_faultMap')


@contract(FC + '::~DPIFaultCode()')
def _(s, p):
    pass


@contract(FC + '::getFaultDescription()', setup=with_table)
def _(s, p):
    c = s.obj(p, FC)._faultCode
    if s.br(Not(Or([c == k for k in CODES]) if own(s) else known(c))):
        s.throw()
    o = s.obj(s.sret, FD)
    o.faultType, o.faultText, o.faultDescription = description(s, c)


# ------------------------------------------------------------------ one fault
def put_details(o, n, code, volts, current, freq):
    o[DET + 'faultNumber'] = n
    o[DET + 'faultCode'] = code
    o[DET + 'busVoltage'] = volts
    o[DET + 'current'] = current
    o[DET + 'frequency'] = freq


def ask_value(s, rt, si, param):
    x = ask_ok(s, rt, si, GET_ONE, PARAM_CLASS, param, bv(1, 16))
    if s.br(ULT(x.len, bv(2))):
        s.throw()
    return rd(x, 0, 2)


def eng_value(v, digits):
    """the value in engineering units, given its number of decimals"""
    one = num2d(bv(1, 16))
    v = f_('fadd', num2d(v), num2d(bv(0, 16), True))
    return f_('fdiv', f_('fmul', f_('fmul', v, one), one), f_('fmul', one, pow10(bv(digits, 8))))


def read_fault(s, rt, si, number, details):
    """number: an int from 1 to 10 -> (code, volts, current, frequency)"""
    zero = fp_const('0.0', ('double',))
    code = ask_value(s, rt, si, bv(CODE_PARAM[number - 1], 16))
    if s.br(Or(code == 0, Not(details))):
        return code, zero, zero, zero
    vals = [ask_value(s, rt, si, bv(base + number, 16)) for base in (650, 640, 630)]
    return (code,) + tuple(eng_value(v, d) for v, d in zip(vals, (0, 2, 2)))


@contract('%s::DPIFaultParameter(%s const&, %s const&, int, bool)' % (FP, SPTR, RPTR))
def _(s, p, si, rt, number, details):
    for n in range(1, 11):
        if s.br(number == bv(n, 32)):
            break
    else:
        s.throw()
    v = read_fault(s, s.ptr(rt), s.ptr(si), n, details)
    o = s.obj(p, FP)
    put_details(o, bv(n, 32), *v)
    o[DESC + 'faultType'] = 0
    o[DESC + 'faultText'] = EMPTY
    o[DESC + 'faultDescription'] = EMPTY


@contract(FP + '::DPIFaultParameter()')
def _(s, p):
    o = s.obj(p, FP)
    z = fp_const('0.0', ('double',))
    put_details(o, bv(0, 32), bv(0, 16), z, z, z)
    o[DESC + 'faultType'] = 0
    o[DESC + 'faultText'] = EMPTY
    o[DESC + 'faultDescription'] = EMPTY


eip.getter(FP, 'getFullInformation', DET + 'faultNumber', 1)
eip.getter(FP, 'getFaultDetails', DET + 'faultNumber', 1)


@contract('%s::setFaultDetails(%s::FaultDetails)' % (FP, FP))
def _(s, p, d):
    o, q = s.obj(p, FP), s.obj(d, FP + '::FaultDetails')
    put_details(o, q.faultNumber, q.faultCode, q.busVoltage, q.current, q.frequency)


@contract('%s::setFaultDescription(%s)' % (FP, FD))
def _(s, p, d):
    o, q = s.obj(p, FP), s.obj(d, FD)
    for f in ('faultType', 'faultText', 'faultDescription'):
        o[DESC + f] = q[f]
    s.havoc_members(q, 'faultText', 'faultDescription')


# ------------------------------------------------------------------ the queue
@contract('%s::DPIFaultManager(bool, bool, bool)' % FM)
def _(s, p, clear, reset, details):
    o = s.obj(p, FM)
    o._newFaultHandler = FnObj(('default',))
    o._trippedDeviceHandler = FnObj(('default',))
    o._clearFaultsQueue = If(clear, bv(1, 8), bv(0, 8))
    o._resetFault = If(reset, bv(1, 8), bv(0, 8))
    o._getFaultDetails = If(details, bv(1, 8), bv(0, 8))
    o._lastTrippedState = 255


@contract('%s::DPIFaultManager()' % FM)
def _(s, p):
    o = s.obj(p, FM)
    o._newFaultHandler = FnObj(('default',))
    o._trippedDeviceHandler = FnObj(('default',))
    o._clearFaultsQueue = 1
    o._resetFault = 0
    o._getFaultDetails = 0
    o._lastTrippedState = 255


for m, f, t in (('setNewFaultListener', '_newFaultHandler', 'void (%s const&)' % FP), ('setTrippedDeviceListener', '_trippedDeviceHandler', 'void (bool)')):
    @contract('%s::%s(std::function<%s>)' % (FM, m, t))
    def _(s, p, h, f=f):
        s.obj(p, FM)[f] = s.eng.getobj(s.st, h)
        s.put(h, ('fn',), HAVOC)


def write_command(s, rt, si, c):
    st, d = ask(s, rt, si, SET_ONE, FAULT_CLASS, bv(0, 16), bv(3, 16), Lit([c]))
    if s.br(st != 0):
        s.throw()


@contract('%s::writeCommand(%s, %s const&, %s const&) const' % (FM, CMD, SPTR, RPTR))
def _(s, p, c, si, rt):
    write_command(s, s.ptr(rt), s.ptr(si), c)


@contract('%s::writeCommand(%s, %s const&) const' % (FM, CMD, SPTR))
def _(s, p, c, si):
    write_command(s, new_router(s), s.ptr(si), c)


def read_queue(s, o, si, rt):
    found = False
    for n in range(1, 11):
        code, volts, cur, freq = read_fault(s, rt, si, n, o._getFaultDetails != 0)
        if s.br(code == 0):
            break
        c32 = zx(code, 32)
        if s.br(Not(known(c32))):
            s.throw()
        ft, tx, ds = description(s, c32)
        vals = dict(zip([DET + x for x in ('faultNumber', 'faultCode', 'busVoltage', 'current', 'frequency')], (bv(n, 32), code, volts, cur, freq)))
        vals.update({DESC + 'faultType': ft, DESC + 'faultText': tx, DESC + 'faultDescription': ds})
        s.call_handler(o._newFaultHandler, s.mkrec(FP, **vals))
        found = True
    if found and s.br(o._clearFaultsQueue != 0):
        write_command(s, rt, si, bv(CLEAR_QUEUE, 8))


@contract('%s::handleFaultParameters(%s const&, %s const&)' % (FM, SPTR, RPTR))
def _(s, p, si, rt):
    read_queue(s, s.obj(p, FM), s.ptr(si), s.ptr(rt))


@contract('%s::handleFaultParameters(%s const&)' % (FM, SPTR))
def _(s, p, si):
    read_queue(s, s.obj(p, FM), s.ptr(si), new_router(s))


# ------------------------------------------------------------------ the fault object
FI = (('faultCode', 2), ('dsiPort', 1), ('dsiDeviceObject', 1))


def load_fault(s, p, inst, si, rt):
    o = s.obj(p, FOB)
    init_base(o, FAULT_CLASS, inst)
    r = Reader(s, ask_ok(s, rt, si, GET_ONE, FAULT_CLASS, inst, bv(0, 16)))
    for f, n in FI:
        o['_fullInformation.' + f] = r.num(n)
    o['_fullInformation.faultText._length'] = 16
    o['_fullInformation.faultText._data'] = r.blob(16)
    o['_fullInformation.timerValue'] = r.num(8)
    fl = r.num(2)
    if r.short():
        s.throw()
    o['_fullInformation.isValidData'] = zx(Extract(0, 0, fl), 8)
    o['_fullInformation.isRealTime'] = zx(Extract(1, 1, fl), 8)


@contract('%s::DPIFaultObject(unsigned short, %s const&, %s const&)' % (FOB, SPTR, RPTR))
def _(s, p, inst, si, rt):
    load_fault(s, p, inst, s.ptr(si), s.ptr(rt))


@contract('%s::DPIFaultObject(unsigned short, %s const&)' % (FOB, SPTR))
def _(s, p, inst, si):
    load_fault(s, p, inst, s.ptr(si), new_router(s))


eip.getter(FOB, 'getFullInformation', '_fullInformation.faultCode', 1)
