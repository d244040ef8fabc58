"""Which contracts and lemmas decide which property."""
import re, importlib
from .lib import CONTRACTS, LEMMAS, full

MODULES = ['buffer', 'cip', 'eip', 'epath', 'router', 'connmgr', 'sockets', 'session', 'ioconn', 'objects', 'fileobj', 'dpi', 'discovery', 'manager', 'waiting', 'dispatch', 'lemmas']


def load():
    for m in MODULES:
        importlib.import_module('spec.' + m)


PROPS = {}


def prop(pid, roots, lemmas=(), native=None, note='', assume=()):
    PROPS[pid] = dict(roots=roots, lemmas=lemmas, native=native, note=note, assume=list(assume))


def roots_of(pid):
    """root contracts: regular expressions (prefix match on the demangled name, $E = eipScanner)"""
    out = []
    for rx in PROPS[pid]['roots']:
        r = re.compile(rx.replace('$E', 'eipScanner'))
        m = [d for d in CONTRACTS if r.match(d)]
        if not m:
            raise Exception('no contract matches %s' % rx)
        out += [d for d in m if d not in out]
    return out


def lemmas_of(pid):
    out = []
    for rx in PROPS[pid]['lemmas']:
        m = [n for n in LEMMAS if re.match(rx, n)]
        if not m:
            raise Exception('no lemma matches %s' % rx)
        out += m
    return out


BUF = r'\$E::utils::Buffer'.replace('\\$', '$')
prop('C01', [r'$E::utils::Buffer::', r'$E::utils::Buffer& ', r'$E::cip::CipBaseString', r'$E::cip::CipRevision', r'$E::sockets::EndPoint::(EndPoint|get)'],
     ['roundtrip'], 'codec')
prop('C02', [r'$E::utils::Buffer::(operator>>|isValid|empty|pos)', r'$E::utils::Buffer& .*operator>>', r'$E::eip::EncapsPacket::(expand|getLengthFromHeader)', r'$E::eip::CommonPacket::expand',
             r'$E::cip::(Yaskawa_)?EPath::expand', r'$E::cip::MessageRouterResponse::expand', r'$E::cip::connectionManager::ForwardOpenResponse::expand'], [], 'codec')
prop('C03', [r'$E::eip::EncapsPacket::', r'$E::eip::EncapsPacketFactory::'], ['packet round trip'], 'codec')
prop('C04', [r'$E::eip::CommonPacket'], ['common packet round trip'], 'codec')
prop('C05', [r'$E::cip::(Yaskawa_)?EPath::'], [r'(Yaskawa_)?EPath of'], 'codec')
prop('C20', [r'$E::sockets::EndPoint::'], ['endpoint'], 'codec',
     assume=['std::string comparison (operator<=>, compare, ==) is a total order consistent with content equality', 'inet_aton and inet_ntoa are functions of their argument'])
SR = r'$E::(Yaskawa_)?MessageRouter::'
prop('C06', [SR, r'$E::cip::(Yaskawa_)?MessageRouterRequest::'], [], 'router', assume=['the session is any object behind SessionInfoIf: its handle is a function of the object, its answers are arbitrary'])
prop('C07', [SR, r'$E::cip::MessageRouterResponse::'], [], 'router', assume=['the session is any object behind SessionInfoIf: its handle is a function of the object, its answers are arbitrary'])
CMN = r'$E::cip::connectionManager::'
prop('C10', [CMN + r'(Large)?ForwardOpenRe', CMN + 'ForwardCloseRequest'], [], 'layout')
prop('C11', [CMN + 'NetworkConnectionParametersBuilder'], ['connection parameter'], 'layout')
SK = r'$E::sockets::'
OS = ['socket calls behave as POSIX says: results in range, received bytes inside the offered room, errno set on failure, a datagram is sent whole or not at all, descriptors below FD_SETSIZE']
prop('C08', [r'$E::SessionInfo::'], [], 'net', assume=OS)
prop('C09', [SK + r'(Base|TCP|UDP|UDPBound)Socket::(?!select.*serves)'], [], 'net', assume=OS)

IOA = ['the transport class of a connection is 0, 1 or 3', 'a registered connection has its socket']
CMA = ['the session and the router are any objects behind their interfaces: their answers are arbitrary',
       'std::map orders by a strict weak order that agrees with key equality (for socket addresses: C20)', 'each registered connection is an object of its own; when objects owned by shared pointers end is not modelled',
       'the timeout multiplier is at most 7 (the defined range of CIP)', 'fewer than 2^31 connections are opened per process',
       'listeners do not re-enter the connection manager', 'forwardClose is given a connection that has ended or is registered']
prop('C12', [r'$E::ConnectionManager::(ConnectionManager|~ConnectionManager|hasOpenConnections|findOrCreateSocket|forwardOpen|largeForwardOpen|forwardClose|handleConnections\([^()]*\)$)'], [], 'conn',
     assume=IOA + OS + CMA)
prop('C13', [r'$E::IOConnection::(notifyReceiveData|setReceiveDataListener|IOConnection)'], [], 'conn', assume=IOA)
prop('C14', [r'$E::IOConnection::(notifyTick|setDataToSend|setSendDataListener|setCloseListener|IOConnection)', r'$E::ConnectionManager::handleConnections\([^()]*\)$'], [], 'conn',
     assume=IOA + OS + ['every registered connection is an object of its own', 'listeners do not re-enter the connection manager'])

RTA = ['the router is any object behind MessageRouter: its answers are arbitrary', 'the session passed by the caller is not null']
FOB = r'$E::fileObject::FileObject'
prop('C15', [FOB + '(UploadInProgress|Loaded|Empty|NonExistent)?State::(initiateUpload|transfer)', FOB + '(UploadInProgress|Loaded)State::FileObject', r'$E::FileObject::(beginUpload|handleTransfers)'], [], 'objects', assume=RTA)
prop('C16', [r'$E::IdentityObject::', FOB + 'State::SyncState', FOB + '(Empty|NonExistent|Loaded)?State::(FileObject|getStateCode)', r'$E::FileObject::(FileObject|getState)'], [], 'objects', assume=RTA)
PAR = r'.*\$E::ParameterObject::'.replace('\\$', '$')
prop('C17', [PAR + '(actualToEngValue|engToActualValue|[gs]etEng|[gs]etScaling|[gs]etPrecision|(is|set)(Scalable|ReadOnly)|[gs]et(Type|Name|Units|Help))', PAR + r'ParameterObject\(unsigned short, bool, unsigned long'], [], 'objects')
prop('C18', [PAR + '(ParameterObject|updateValue|get(Actual|Min|Max|Default)Value|get(Type|Name|Units|Help|Parameter|Scaling|Precision)|is|has)'], [], 'objects', assume=RTA)
prop('C21', [r'$E::vendor::ra::powerFlex525::DPIFault(Manager|Parameter|Object|Code)::'], [], 'objects', assume=RTA)
prop('C19', [r'$E::DiscoveryManager::'], [], 'objects', assume=OS + ['inet_aton and inet_ntoa are functions of their argument', 'when objects owned by shared pointers end is not modelled'])

prop('C23', [r'$E::sockets::BaseSocket::select\(.*\) \(serves\)$', r'$E::sockets::BaseSocket::(BeginReceive|setBeginReceiveHandler|getSocketFd)', r'$E::ConnectionManager::handleConnections\([^()]*\)$'], [], 'conn',
     assume=OS + ['the sockets given are distinct objects, alive during the call', 'on a timeout select(2) leaves the sets empty', 'handlers do not change the sockets and do not throw'])
prop('C22', [r'$E::sockets::BaseSocket::select\([^()]*\)$', r'$E::ConnectionManager::handleConnections\(.*\) \(waits\)$'], [], 'conn', assume=OS + ['clock readings are between 0 and 2^62 ns', 'the timeout is at most 2^40 ms in either direction',
     'the wait itself (select(2)) lasts no longer than the timeout it is given', 'receiving and handling an arrived datagram takes no time: only waiting is bounded'])
