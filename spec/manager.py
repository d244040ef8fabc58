"""The connection manager: opening, routing and closing implicit connections."""
from .lib import *
from .buffer import *
from . import cip, connmgr, eip, epath, ioconn, router, sockets
from engine import maps
from engine.models import env_seq
from engine.sx import POINTEE_HOOKS
from .connmgr import PA, params, open_bytes, close_bytes, word_field, REPLY
from .eip import CP, CI, seqeq
from .epath import EP as EPATH
from .ioconn import IO, tclass
from .router import MR, RS, SI, SPTR, ITEMS, session_handle
from .sockets import BS, US, UB, EPT

CM = 'eipScanner::ConnectionManager'
OPEN, LARGE_OPEN, CLOSE = 0x54, 0x5B, 0x4E
MULTICAST, P2P = 1, 2
PORT = 2222
O2T_SOCKADDR = 0x8000
ROOM = 8192
WP = 'std::weak_ptr<%s>' % IO


def known(eng, st, q):
    """what the manager's invariant says about a registered connection"""
    s = Ctx(eng, st, [], 'pre', None)
    c = tclass(s.obj(q, IO))
    st.pc.append(simplify(Or(c == 0, c == 1, c == 3)))


POINTEE_HOOKS[IO] = known


# ------------------------------------------------------------------ the session
@contract('virt ' + SI + '::getRemoteEndPoint() const', trusted=True, sret=True)
def _(s, p):
    s.wr(s.sret, EPT, s.eng.sym_val('remoteEndPoint!%s!%s' % (p.r, p.o), EPT, ()))


def remote_host(s, si):
    t = s.new(EPT)
    s.call('virt ' + SI + '::getRemoteEndPoint() const', [t, s.ptr(si)])
    return s.obj(t, EPT)._host


# ------------------------------------------------------------------ construction, emptiness
@contract('%s::ConnectionManager(std::shared_ptr<%s> const&)' % (CM, MR))
def _(s, p, rt):
    o = s.obj(p, CM)
    o._messageRouter = s.ptr(rt)
    for f in ('_connectionMap', '_socketMap'):
        q = o.at(f)
        k = find_field(s.eng.prog, CM, f)[1]
        s.eng.setobj(s.st, q, maps.MapObj(None, *maps.types_of(k[1])))
    s.event('random')
    s.havoc_members(o, '_incarnationId')


@contract('%s::~ConnectionManager()' % CM)
def _(s, p):
    pass


@contract(CM + '::hasOpenConnections() const')
def _(s, p):
    return Not(maps.empty(s, s.obj(p, CM).at('_connectionMap')))


# ------------------------------------------------------------------ sockets
class Routes:
    """the handler of a bound socket: one that satisfies the contract of routing, for this manager"""
    def __init__(self, mgr):
        self.v = ('routes', mgr)

    def key(self):
        return ('routes', self.v[1].key())

    def accepts(self, con, eng, bst, bo):
        if isinstance(bo, Routes):
            return bo.key() == self.key()
        if not isinstance(bo, FnObj) or bo.v[0] != 'lam':
            return False
        want = CONTRACTS[ROUTING].mangled(eng)
        if want is None or eng.prog.function(want) is None:
            return False
        clo = bo.v[3]
        return bo.v[2] == eng.ir_dem(want) and isinstance(clo, Ptr) and eng.load_bytes(bst, clo, 8).key() == self.v[1].key()


def find_socket(s, p, key, ep):
    sm = s.obj(p, CM).at('_socketMap')
    v = maps.get(s, sm, key)
    if v is None:
        v = s.new(UB)
        t = s.new(EPT)
        s.wr(t, EPT, s.rec(ep, EPT))
        s.call(full(UB + '::UDPBoundSocket($E::sockets::EndPoint)'), [v, t])
        maps.set_(s, sm, key, v)
        w = s.st.wr(v.r)
        w.objs[find_field(s.eng.prog, BS, '_beginReceiveHandler')[0]] = Routes(p)
    return v


@contract('%s::findOrCreateSocket(%s const&)' % (CM, EPT))
def _(s, p, e):
    s.set_ptr(s.sret, find_socket(s, p, s.rec(e, EPT), e))


# ------------------------------------------------------------------ routing
@contract('virt ' + BS + '::Receive(unsigned long) const', trusted=True, sret=True)
def _(s, p, n):
    i = s.event('receive', p, n)
    s.env_throw('receive', i)
    x = s.env_value('receive', i, 'std::vector<unsigned char>')
    s.assume(ULE(x.len, n))
    s.set_vec(s.sret, x)


class Routing(Contract):
    """the closure of findOrCreateSocket that handles arrived datagrams"""
    def mangled(self, eng):
        pat = re.compile(re.escape(CM + '::findOrCreateSocket(' + EPT + ' const&)') + r'::\$_(\d+)::operator\(\)\(' + re.escape(BS) + r'&\) const$')
        best = None
        for d, l in eng.prog.bydem.items():
            m = pat.match(d)
            if m and (best is None or int(m.group(1)) > best[0]):
                best = (int(m.group(1)), l)
        if best is None:
            return None
        for n in best[1]:
            if eng.prog.function(n) is not None:
                return n
        return None


def routing_setup(con, eng, st):
    m = con.mangled(eng)
    if m is None:
        raise Unsupported('no handler for arrived datagrams')
    clo = eng.alloc(st, 8, 'closure')
    mgr = eng.alloc(st, eng.prog.layouts[CM][0], 'manager', CM)
    eng.sym_obj(st, mgr, CM, 'manager')
    eng.store_bytes(st, clo, mgr, 8)
    sock = eng.alloc(st, eng.prog.layouts[BS][0], 'sock', BS)
    eng.sym_obj(st, sock, BS, 'sock')
    return m, [clo, sock]


def routing(s, clo, sock):
    o = s.obj(s.ptr(clo), CM)
    t = s.eng.alloc(s.st, 24, 'datagram')
    s.call('virt ' + BS + '::Receive(unsigned long) const', [t, sock, bv(ROOM)])
    pk = s.new(CP)
    s.call(CP + '::CommonPacket()', [pk])
    try:
        s.call(full(CP + '::expand(vec<u8> const&)'), [pk, t])
    except SpecThrow as e:
        if not exc_isa(e.exc.cls, 'std::runtime_error'):
            raise
        return
    items = s.obj(pk, CP)._items
    if s.br(ULT(items.len, bv(2))):
        return
    addr, data = (s.fld(items.at(bv(i)), '_data') for i in (0, 1))
    if s.br(ULT(addr.len, bv(4))):
        return
    v = maps.get(s, o.at('_connectionMap'), rd(addr, 0, 4))
    if v is not None:
        d = s.eng.alloc(s.st, 24, 'data')
        s.set_vec(d, data)
        s.call(full(IO + '::notifyReceiveData(vec<u8> const&)'), [v, d])


ROUTING = CM + '::findOrCreateSocket::routing'
CONTRACTS[ROUTING] = Routing(ROUTING, routing, setup=routing_setup, sret=False)


# ------------------------------------------------------------------ opening
def chosen(s):
    """the ids and the serial number are the manager's own choice: whatever the request it sends carries"""
    names = (('o2t', 2, 4), ('t2o', 6, 4), ('serial', 10, 2))
    b = s.contract.body if s.mode == 'check' and s.contract is not None else None
    if b is not None:
        for e in b.trace:
            if e.kind == 'sendRequest':
                return [rdz(e.args[-2], off, n) for _, off, n in names]
    return [BitVec(fresh_name('chosen_' + m), 8 * n) for m, _, n in names]


def distinct(s, v, cond, what):
    """a number counted in static storage: the next call must choose another one"""
    if s.mode != 'check' or s.contract is None or s.contract.body is None:
        return
    b, eng = s.contract.body, s.eng
    todo, sub, seen = [v], [], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        todo.extend(e.children())
        m = re.match(r'(g:.*)\[(\d+)\]$', e.decl().name()) if z3.is_app(e) and e.num_args() == 0 else None
        if m and m.group(1) in b.mem:
            sub.append((e, eng.load_bytes(b, Ptr(m.group(1), int(m.group(2))), 1)))
    if sub:
        s.contract.goal(eng, s.st.pc + [cond], [z3.substitute(v, *sub) != v], 'post', 'successive connections get different ' + what)


def send(s, rt, si, service, data):
    ep = s.new(EPATH)
    s.call(EPATH + '::EPath(unsigned short, unsigned short)', [ep, bv(6, 16), bv(1, 16)])
    d = s.eng.alloc(s.st, 24, 'request data')
    s.set_vec(d, data)
    r = s.new(RS)
    s.call(full('virt %s::sendRequest(%s, unsigned char, %s const&, vec<u8> const&) const' % (MR, SPTR, EPATH)), [r, rt, si, bv(service, 8), ep, d])
    return s.obj(r, RS)


def open_params(s, v, large, ids):
    """the parameters as they go into the request"""
    v = dict(v)
    o2t, t2o, serial = ids
    v['connectionSerialNumber'] = serial
    v['o2tNetworkConnectionId'] = simp(If(word_field(v['o2tNetworkConnectionParams'], large, 'ConnectionType') == MULTICAST, o2t, v['o2tNetworkConnectionId']))
    v['t2oNetworkConnectionId'] = simp(If(word_field(v['t2oNetworkConnectionParams'], large, 'ConnectionType') == P2P, t2o, v['t2oNetworkConnectionId']))
    n = v['connectionPath'].len
    v['connectionPathSize'] = lo(simp(z3.LShR(n + bv(1), bv(1))), 8)
    c = v['transportTypeTrigger'] & 15
    for d in ('o2t', 't2o'):
        w = v[d + 'NetworkConnectionParams'] + If(Or(c == 1, c == 3), bv(2, 32), bv(0, 32))
        v[d + 'NetworkConnectionParams'] = simp(w + If(v[d + 'RealTimeFormat'] != 0, bv(4, 32), bv(0, 32)))
    return v


def data_socket(s, si, reply):
    """the socket data is sent through: the address in the reply, the device's own where it says none"""
    q = s.new(US)
    items = reply._additionalPacketItems
    X = s.loop('sockaddr', stop=lambda X, k: Or(k == items.len, s.fld(items.at(k), '_typeId') == bv(O2T_SOCKADDR, 16)), count=None, salt=(items,), inv=lambda X, k: [ULE(k, items.len)])
    k = X['k']
    ep = s.new(EPT)
    if s.br(k == items.len):
        host = remote_host(s, si)
        port = bv(PORT, 32)
    else:
        b = s.new('eipScanner::utils::Buffer')
        d = s.eng.alloc(s.st, 24, 'address')
        s.set_vec(d, s.fld(items.at(k), '_data'))
        s.call(full('eipScanner::utils::Buffer::Buffer(vec<u8> const&)'), [b, d])
        s.call(full('$E::utils::Buffer::operator>>($E::sockets::EndPoint&)'), [b, ep])
        e = s.obj(ep, EPT)
        if not s.br(seqeq(s, e._host, Lit([bv(c, 8) for c in b'0.0.0.0']))):
            s.call(full(US + '::UDPSocket($E::sockets::EndPoint)'), [q, ep])
            return q
        host = remote_host(s, si)
        port = e._port
    h = s.eng.alloc(s.st, 32, 'host')
    s.set_str(h, host)
    s.call(full(US + '::UDPSocket(string, int)'), [q, h, port])
    return q


def forward_open(s, p, si, q, large):
    o = s.obj(p, CM)
    v = params(s, s.obj(q, PA))
    s.havoc(q, PA)
    ids = chosen(s)
    distinct(s, ids[2], BoolVal(True), 'serial numbers')
    distinct(s, ids[1], word_field(v['t2oNetworkConnectionParams'], large, 'ConnectionType') == P2P, 'ids')
    big = s.br(large)
    w = open_params(s, v, BoolVal(big), ids)
    reply = send(s, o._messageRouter, si, LARGE_OPEN if big else OPEN, open_bytes(w, big))
    if s.br(reply._generalStatusCode != 0):
        s.set_ptr(s.sret, NULL)
        return
    x = reply._data
    rep = {f: rdz(x, off, n) for f, off, n in REPLY}
    c = s.new(IO)
    ioconn.fresh(s, c)
    i = s.obj(c, IO)
    i._o2tNetworkConnectionId = rep['_o2tNetworkConnectionId']
    i._t2oNetworkConnectionId = rep['_t2oNetworkConnectionId']
    i._o2tAPI = rep['_o2tAPI']
    i._t2oAPI = rep['_t2oAPI']
    i._connectionTimeoutMultiplier = bv(4) << zx(v['connectionTimeoutMultiplier'], 64)
    i._serialNumber = zx(rep['_connectionSerialNumber'], find_field(s.eng.prog, IO, '_serialNumber')[1][1])
    for f in ('transportTypeTrigger', 'o2tRealTimeFormat', 't2oRealTimeFormat', 'connectionPath', 'originatorVendorId', 'originatorSerialNumber'):
        i['_' + f] = v[f]
    for d in ('o2t', 't2o'):
        word = v[d + 'NetworkConnectionParams']
        k = find_field(s.eng.prog, IO, '_%sDataSize' % d)[1][1]
        i['_%sDataSize' % d] = zx(word_field(word, BoolVal(big), 'ConnectionSize'), k)
        i['_%sFixedSize' % d] = simp(If(word_field(word, BoolVal(big), 'Type') == 0, bv(1, 8), bv(0, 8)))
    i._socket = data_socket(s, si, reply)
    e = s.new(EPT)
    h = s.eng.alloc(s.st, 32, 'host')
    s.set_str(h, remote_host(s, si))
    s.call(full(EPT + '::EndPoint(string, int)'), [e, h, bv(PORT, 32)])
    find_socket(s, p, s.rec(e, EPT), e)
    maps.insert(s, o.at('_connectionMap'), rep['_t2oNetworkConnectionId'], c)
    s.set_ptr(s.sret, c)


def openable(s, p, si, q, *a):
    a = s.obj(q, PA)
    c = a.transportTypeTrigger & 15
    return [(Or(c == 0, c == 1, c == 3), 'transport class 0, 1 or 3'), (ULE(a.connectionTimeoutMultiplier, bv(7, 8)), 'timeout multiplier at most 7')]


@contract('%s::forwardOpen(%s const&, %s, bool)' % (CM, SPTR, PA), pre=openable, merge=True)
def _(s, p, si, q, large):
    forward_open(s, p, si, q, large)


@contract('%s::largeForwardOpen(%s const&, %s)' % (CM, SPTR, PA), pre=openable)
def _(s, p, si, q):
    forward_open(s, p, si, q, BoolVal(True))


# ------------------------------------------------------------------ closing
def registered(con, eng, st):
    """the connection to close is one this manager has registered (or is gone)"""
    m, args = Contract.setup(con, eng, st)
    p, w = args[0], args[2]
    s = Ctx(eng, st, [], 'pre', con)
    c = eng.load_bytes(st, w, 8)
    known(eng, st, c)
    maps.set_(s, s.obj(p, CM).at('_connectionMap'), s.obj(c, IO)._t2oNetworkConnectionId, c)
    return m, args


@contract('%s::forwardClose(%s const&, %s const&)' % (CM, SPTR, WP), setup=registered)
def _(s, p, si, w):
    c = s.ptr(w)
    if s.br(z3.Bool('expired(%s)' % s.st.mem[c.r].name)):
        return
    o, i = s.obj(p, CM), s.obj(c, IO)
    send(s, o._messageRouter, si, CLOSE, close_bytes(lo(i._serialNumber, 16), i._originatorVendorId, i._originatorSerialNumber, i._connectionPath))
    maps.erase(s, o.at('_connectionMap'), i._t2oNetworkConnectionId)
