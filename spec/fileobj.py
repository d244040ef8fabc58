"""File object: its state machine and the upload of a file."""
from .lib import *
from .buffer import *
from . import eip, router, objects
from .router import RS, MR, SPTR
from .objects import BO, RPTR, ask, ask_ok, init_base, new_router, GET_ONE

FO = 'eipScanner::FileObject'
NS = 'eipScanner::fileObject::'
FS, LS, ES, NX, UP = [NS + 'FileObject%sState' % n for n in ('', 'Loaded', 'Empty', 'NonExistent', 'UploadInProgress')]
CLASS = 0x37
NONEXISTENT, EMPTY_, LOADED, UP_INIT, UP_PROGRESS, UNKNOWN = 0, 1, 2, 3, 5, 255
INVALID_PARAMETER = 0x20
HND = 'std::function<void ($E::cip::GeneralStatusCodes, vec<u8> const&)>'
CODES = '$E::FileObjectStateCodes'


@contract(FS + '::getStateName[abi:cxx11]() const', trusted=True, sret=True, note='logging only')
def _(s, p):
    s.set_str(s.sret, EMPTY)


@contract(FS + '::logWithStateName($E::utils::LogLevel, string const&) const', note='logging only')
def _(s, p, lvl, msg):
    pass


def init_state(s, o, code, owner, inst, rt):
    o._messageRouter = rt
    o._objectId = inst
    o._stateCode = code
    o._owner = owner


@contract('%s::FileObjectState(%s, $E::FileObject&, unsigned short, %s)' % (FS, CODES, RPTR))
def _(s, p, code, owner, inst, rt):
    init_state(s, s.obj(p, FS), code, owner, inst, s.ptr(rt))


for C, code in ((LS, LOADED), (ES, EMPTY_), (NX, NONEXISTENT)):
    @contract('%s::%s($E::FileObject&, unsigned short, %s)' % (C, C.split('::')[-1], RPTR))
    def _(s, p, owner, inst, rt, C=C, code=code):
        init_state(s, s.obj(p, C), code, owner, inst, s.ptr(rt))


def init_upload(s, p, owner, inst, rt, size, chunk, h):
    o = s.obj(p, UP)
    init_state(s, o, UP_PROGRESS, owner, inst, rt)
    o._fileSize = size
    o._transferSize = chunk
    o._fileContent = EMPTY
    o._transferNumber = 0
    o._handler = h


@contract('%s::FileObjectUploadInProgressState($E::FileObject&, unsigned short, %s, unsigned int, unsigned char, %s)' % (UP, RPTR, HND))
def _(s, p, owner, inst, rt, size, chunk, h):
    init_upload(s, p, owner, inst, s.ptr(rt), size, chunk, s.eng.getobj(s.st, h))
    s.put(h, ('fn',), HAVOC)


eip.getter(FS, 'getStateCode', '_stateCode', 0)


def enter(s, o, C, *a):
    """replace the state of the owner by a new one"""
    q = s.new(C)
    if C == UP:
        init_upload(s, q, o._owner, o._objectId, o._messageRouter, *a)
    else:
        init_state(s, s.obj(q, C), {LS: LOADED, ES: EMPTY_, NX: NONEXISTENT}[C], o._owner, o._objectId, o._messageRouter)
    f = s.obj(o._owner, FO)
    old = f._state
    f._state = q
    s.free(old)


def sync(s, o, si):
    x = ask_ok(s, o._messageRouter, si, GET_ONE, CLASS, o._objectId, bv(1, 16))
    if s.br(x.len == 0):
        s.throw()
    c = rd(x, 0, 1)
    if s.br(c == NONEXISTENT):
        enter(s, o, NX)
    elif s.br(c == EMPTY_):
        enter(s, o, ES)
    elif s.br(Or(c == LOADED, c == UP_INIT, c == UP_PROGRESS)):
        enter(s, o, LS)
    else:
        s.throw()


@contract('%s::SyncState(%s)' % (FS, SPTR))
def _(s, p, si):
    sync(s, s.obj(p, FS), s.ptr(si))


# ------------------------------------------------------------------ upload
for C in (FS, ES, NX, UP):
    @contract('%s::initiateUpload(%s, %s)' % (C, SPTR, HND))
    def _(s, p, si, h):
        pass

for C in (FS, ES, NX, LS):
    @contract('%s::transfer(%s)' % (C, SPTR))
    def _(s, p, si):
        return BoolVal(False)


@contract('%s::initiateUpload(%s, %s)' % (LS, SPTR, HND))
def _(s, p, si, h):
    o = s.obj(p, LS)
    f = s.eng.getobj(s.st, h)
    st, x = ask(s, o._messageRouter, s.ptr(si), 0x4B, CLASS, o._objectId, data=bytes_(255))
    if s.br(st != 0):
        s.call_handler(f, st, EMPTY)
        return
    if s.br(ULT(x.len, bv(5))):
        s.call_handler(f, bv(INVALID_PARAMETER, 8), EMPTY)
        return
    enter(s, o, UP, rd(x, 0, 4), rd(x, 4, 1), f)


@contract('%s::transfer(%s)' % (UP, SPTR))
def _(s, p, si):
    o = s.obj(p, UP)
    n = o._transferNumber
    end = BoolVal(False)

    def fail(status):
        s.call_handler(o._handler, status, EMPTY)
        return end
    st, x = ask(s, o._messageRouter, s.ptr(si), 0x4F, CLASS, o._objectId, data=le(n))
    if s.br(st != 0):
        return fail(st)
    if s.br(rdz(x, 0, 1) != n):
        return fail(bv(INVALID_PARAMETER, 8))
    typ = rdz(x, 1, 1)
    last = s.br(Or(typ == 2, typ == 4))
    if not last and not s.br(Or(typ == 0, typ == 1)):
        s.throw()                   # an abort or an unknown kind of packet
    size = zx(o._transferSize, 64)
    if s.br(ULT(x.len, bv(4) if last else simp(size + 2))):
        return fail(bv(INVALID_PARAMETER, 8))
    if not last:
        o._fileContent = cat(o._fileContent, slice_(x, bv(2), size))
        o._transferNumber = simp(n + 1)
        return BoolVal(True)
    data = cat(o._fileContent, slice_(x, bv(2), simp(x.len - 4)))
    o._fileContent = data
    if s.br(data.len == zx(o._fileSize, 64)):
        s.call_handler(o._handler, bv(0, 8), data)
        return end
    return fail(bv(INVALID_PARAMETER, 8))


# ------------------------------------------------------------------ the file object
def load_file(s, p, inst, si, rt):
    o = s.obj(p, FO)
    init_base(o, CLASS, inst)
    q = s.new(FS)
    f = s.obj(q, FS)
    init_state(s, f, UNKNOWN, p, inst, rt)
    o._state = q
    sync(s, f, si)


@contract('%s::FileObject(unsigned short, %s const&, %s const&)' % (FO, SPTR, RPTR))
def _(s, p, inst, si, rt):
    load_file(s, p, inst, s.ptr(si), s.ptr(rt))


@contract('%s::FileObject(unsigned short, %s const&)' % (FO, SPTR))
def _(s, p, inst, si):
    load_file(s, p, inst, s.ptr(si), new_router(s))


@contract(FO + '::getState()')
def _(s, p):
    return s.obj(p, FO).at('_state')


@contract('virt %s::initiateUpload(%s, %s)' % (FS, SPTR, HND), trusted=True)
def _(s, p, si, h):
    s.event('initiateUpload', p, s.ptr(si))


@contract('virt %s::transfer(%s)' % (FS, SPTR), trusted=True)
def _(s, p, si):
    i = s.event('transfer', p, s.ptr(si))
    s.env_throw('transfer', i)
    return s.env_value('transfer', i, 'bool') != 0


@contract('%s::beginUpload(%s, %s)' % (FO, SPTR, HND))
def _(s, p, si, h):
    s.event('initiateUpload', s.obj(p, FO)._state, s.ptr(si))


@contract('%s::handleTransfers(%s)' % (FO, SPTR))
def _(s, p, si):
    i = s.event('transfer', s.obj(p, FO)._state, s.ptr(si))
    s.env_throw('transfer', i)
    return s.env_value('transfer', i, 'bool') != 0
