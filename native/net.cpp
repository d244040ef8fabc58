// C08, C09: sockets and sessions over recorded socket calls
// wrap: socket close shutdown fcntl connect bind select getsockopt setsockopt send sendto recv recvfrom
#include "fakenet.h"
#include "sockets/TCPSocket.h"
#include "sockets/UDPSocket.h"
#include "sockets/UDPBoundSocket.h"
#include "SessionInfo.h"
using namespace nv;
using namespace eipScanner;
using namespace eipScanner::sockets;
using fn::Ans; using fn::Call;
#define R g_rng
static const int ERR[] = {EPIPE, ECONNRESET, EAGAIN, ENETUNREACH, EMSGSIZE, ETIMEDOUT, EBADF, ENOBUFS};
static int err() { return ERR[R.below(8)]; }
static std::string serr(int e) { return "system_error " + std::to_string(e); }
static Ans plain(const Call& c) {
	if (c.name == "socket") return {7, 0};
	if (c.name == "send" || c.name == "sendto") return {(long)c.size, 0};
	return {0, 0};
}
static std::string ip(const sockaddr_in& a) { auto v = ntohl(a.sin_addr.s_addr); char b[32]; snprintf(b, 32, "%u.%u.%u.%u", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255); return b; }
static std::string host(uint32_t v) { sockaddr_in a{}; a.sin_addr.s_addr = htonl(v); return ip(a); }

static void tcpSend() {
	fn::log.clear(); fn::answer = plain;
	TCPSocket s(EndPoint("10.1.2.3", 44818));
	Bytes d = R.blob(40, 70000);
	int mode = R.below(4), e = err(); long r = mode < 2 ? (long)d.size() : mode == 2 ? -1 : (long)R.below(d.size() + 1);
	note("data", d); note("send answers", r); note("errno", e);
	fn::log.clear();
	fn::answer = [&](const Call& c) { return c.name == "send" ? Ans{r, r < 0 ? e : 0} : plain(c); };
	auto o = outcome([&] { s.Send(d); });
	note("outcome", o);
	check(fn::count("send") == 1 && fn::log[0].data == d && fn::log[0].fd == 7, "the transport was not handed exactly the caller's bytes");
	if (r < 0) check(o == serr(e), "a failed send is not reported with its error code");
	else if (r < (long)d.size()) check(o.substr(0, 6) == "system", "a short send is not reported");
	else check(o == "ok", "a complete send is reported as a failure");
	fn::answer = plain;
}
static void tcpRecv() {
	fn::log.clear(); fn::answer = plain;
	TCPSocket s(EndPoint("10.1.2.3", 44818));
	Bytes d = R.blob(40, 70000);
	size_t want = R.coin(3) ? R.below(d.size() + 20) : d.size(); int end = R.below(3), e = err(); size_t pos = 0; bool bad = false; unsigned asked = 0;
	note("stream", d); note("requested", want); note("end", end);
	fn::log.clear();
	fn::answer = [&](const Call& c) -> Ans {
		if (c.name != "recv") return plain(c);
		if (++asked > 30000) fail("receiving does not end");
		if (c.size > want - pos) bad = true;
		if (R.coin(5)) return {-1, EINTR};
		if (pos >= d.size()) return end == 0 ? Ans{-1, e} : Ans{0, 0};
		size_t n = std::min(c.size, std::min(d.size() - pos, R.coin() ? R.len(30, 70000) + 1 : (size_t)70000));
		Ans a{(long)n, R.coin() ? EINTR : 0}; a.data = sub(d, pos, n); pos += n; return a;
	};
	Bytes got;
	auto o = outcome([&] { got = s.Receive(want); });
	note("got", got); note("outcome", o);
	check(!bad, "the transport was offered more room than is left in the receive buffer");
	if (want <= d.size()) check(o == "ok" && got == sub(d, 0, want), "not exactly the requested bytes were returned");
	else if (end == 0) check(o == serr(e), "a receive error is not reported with its code");
	else check(o == "ok" && got == d, "after the peer closed, not exactly the bytes received were returned");
	fn::answer = plain;
}
static void tcpOpen() {
	// one failure at a chosen point of the connection, or none
	fn::log.clear();
	int at = R.below(12), e = err(), intr = R.below(4), seen = 0, fc = 0; uint32_t a = R.u32(); uint16_t port = R.u16(); long ms = R.coin() ? R.below(5000) : R.below(1000000); int flags = R.below(4096);
	if (e == EINPROGRESS || e == EINTR) e = EPIPE;
	bool wait = at >= 4 && at <= 8;
	if (!wait && R.coin()) wait = at == 11;
	note("failure at step", at); note("errno", e); note("interrupted waits", intr); note("address", host(a)); note("port", port); note("ms", ms);
	int cur = flags;
	fn::answer = [&](const Call& c) -> Ans {
		if (c.name == "socket") return at == 0 ? Ans{-1, e} : Ans{7, 0};
		if (c.name == "fcntl") {
			fc++;
			if ((at == 1 && fc == 1) || (at == 2 && fc == 2) || (at == 9 && fc == 3) || (at == 10 && fc == 4)) return {-1, e};
			if (c.a == F_SETFL) { cur = c.b; return {0, 0}; }
			return {cur, 0};
		}
		if (c.name == "connect") return at == 3 ? Ans{-1, e} : wait ? Ans{-1, EINPROGRESS} : Ans{0, 0};
		if (c.name == "select") {
			if (++seen > 100) fail("waiting for the connection does not end");
			if (seen <= intr) return {-1, EINTR};
			if (at == 4) return {-1, e};
			if (at == 5) return {0, 0};
			Ans x{1, 0}; x.ready = {7}; return x;
		}
		if (c.name == "getsockopt") { Ans x{at == 6 ? -1 : 0, at == 6 ? e : 0}; x.value = at == 7 ? e : 0; return x; }
		return plain(c);
	};
	std::string want = "ok";
	if (at == 5) want = serr(ETIMEDOUT);
	else if (at <= 4 || at == 6 || at == 7 || at == 9 || at == 10) want = serr(e);
	size_t opened = 0;
	auto o = outcome([&] { TCPSocket s(EndPoint(host(a), port), std::chrono::milliseconds(ms)); opened = fn::log.size(); note("calls", fn::names()); check(s.getSocketFd() == 7, "descriptor"); });
	note("outcome", o); note("all calls", fn::names()); note("expected", want);
	check(o == want, "the outcome of connecting is wrong");
	for (auto& c : fn::log) {
		if (c.name == "connect") check(ip(c.addr) == host(a) && ntohs(c.addr.sin_port) == port && c.addr.sin_family == AF_INET && c.fd == 7, "connected to another address");
		if (c.name == "select") check(c.a == 8 && c.wset == std::set<int>{7} && c.rset.empty() && c.sec == ms / 1000 && c.usec == ms % 1000 * 1000, "waiting with wrong arguments");
	}
	if (o == "ok") { check(cur == (flags & ~O_NONBLOCK), "the socket is left in another mode"); check(fn::count("close") == 1, "the socket is not closed once"); }
	fn::answer = plain;
}
static void udp() {
	fn::log.clear(); fn::answer = plain;
	uint32_t a = R.u32(); uint16_t port = R.u16();
	UDPSocket s(EndPoint(host(a), port));
	Bytes d = R.blob(40, 70000); int e = err(), mode = R.below(4);
	note("data", d); note("mode", mode); note("errno", e); note("peer", host(a)); note("port", port);
	fn::log.clear();
	if (mode == 0) {
		bool bad = R.coin();
		fn::answer = [&](const Call& c) { return c.name == "sendto" && bad ? Ans{-1, e} : plain(c); };
		auto o = outcome([&] { s.Send(d); });
		note("outcome", o);
		check(fn::count("sendto") == 1 && fn::log[0].data == d && fn::log[0].fd == 7 && ip(fn::log[0].addr) == host(a) && ntohs(fn::log[0].addr.sin_port) == port, "the datagram or its address is wrong");
		check(o == (bad ? serr(e) : "ok"), "the outcome of sending a datagram is wrong");
	} else {
		size_t want = R.coin() ? 3500 : R.below(d.size() + 5); bool bad = mode == 1 && R.coin(); sockaddr_in from{}; from.sin_family = AF_INET; from.sin_port = R.u16(); from.sin_addr.s_addr = R.u32();
		fn::answer = [&](const Call& c) -> Ans { if (c.name != "recvfrom") return plain(c); if (bad) return {-1, e}; Ans x{(long)std::min(c.size, d.size()), 0}; x.data = d; x.from = from; return x; };
		Bytes got; EndPoint ep("1.1.1.1", 1);
		auto o = outcome([&] { got = mode == 3 ? s.ReceiveFrom(want, ep) : s.Receive(want); });
		note("requested", want); note("got", got); note("outcome", o);
		check(o == (bad ? serr(e) : "ok"), "the outcome of receiving a datagram is wrong");
		check(bad || got == sub(d, 0, want), "not exactly the bytes of the datagram");
		check(fn::count("recvfrom") == 1 && fn::log[0].size == want, "room offered to the transport");
		if (mode == 3 && !bad) check(ep.getHost() == ip(from) && ep.getPort() == ntohs(from.sin_port) && ep.getAddr().sin_addr.s_addr == from.sin_addr.s_addr, "sender's address");
	}
	fn::answer = plain;
}
static void udpOpen() {
	fn::log.clear();
	int at = R.below(5), e = err(); uint32_t a = R.u32(); uint16_t port = R.u16(); bool bound = at > 0 || R.coin();
	note("failure at step", at); note("errno", e);
	fn::answer = [&](const Call& c) -> Ans {
		if (c.name == "socket" && at == 0) return {-1, e};
		if (c.name == "setsockopt" && at == 1) return {-1, e};
		if (c.name == "bind" && at == 2) return {-1, e};
		return plain(c);
	};
	auto o = outcome([&] { if (bound) UDPBoundSocket s(EndPoint(host(a), port)); else UDPSocket s(EndPoint(host(a), port)); });
	note("outcome", o); note("calls", fn::names());
	check(o == (at <= 2 ? serr(e) : "ok"), "the outcome of opening a datagram socket is wrong");
	for (auto& c : fn::log) if (c.name == "bind") check(c.addr.sin_addr.s_addr == 0 && ntohs(c.addr.sin_port) == port && c.addr.sin_family == AF_INET, "bound to another address");
	fn::answer = plain;
}
static void timeouts() {
	fn::log.clear(); fn::answer = plain;
	long ms = R.coin() ? R.below(100000) : R.below(1ull << 40);
	note("ms", ms);
	UDPSocket s(EndPoint("1.2.3.4", 5));
	fn::log.clear();
	s.setRecvTimeout(std::chrono::milliseconds(ms));
	long tv[2] = {ms / 1000, ms % 1000 * 1000};
	check(fn::count("setsockopt") == 1 && fn::log[0].val == fn::mem(tv, 16) && fn::log[0].b == SO_RCVTIMEO && s.getRecvTimeout().count() == ms, "receive timeout");
}
// ------------------------------------------------------------------ sessions
struct Dev { Bytes out; size_t pos = 0; std::vector<Bytes> in; int failSend = -1, e = EPIPE; };
static Bytes packet(uint16_t cmd, uint16_t len, uint32_t h, uint32_t st, const Bytes& d) {
	Bytes b; le(b, cmd, 2); le(b, len, 2); le(b, h, 4); le(b, st, 4); le(b, R.next(), 8); le(b, 0, 4); return cat(b, d);
}
static void session() {
	fn::log.clear();
	Dev dev; uint32_t h = R.coin(6) ? 0 : R.u32();
	// the answer to the registration
	auto reply = [&](uint32_t hs, bool& ok, Bytes& raw, uint16_t cmd) {
		Bytes d = R.blob(30, 65535); uint32_t st = R.coin(5) ? R.u32() : 0, hh = R.coin(5) ? R.u32() : hs; uint16_t len = d.size();
		int k = R.below(8); if (k == 0) len = R.u16(); 
		raw = packet(cmd, len, hh, st, d);
		if (k == 1) raw.resize(R.below(raw.size() + 1));
		ok = st == 0 && raw.size() >= 24u + len && (hs == 0 || hh == hs);
		raw = sub(raw, 0, 24 + (raw.size() >= 4 ? (size_t)len : 0));
		return hh;
	};
	bool ok; Bytes raw;
	uint32_t got = reply(0, ok, raw, 0x65);
	if (R.coin(2)) { raw = packet(0x65, 4, h, 0, {1, 0, 0, 0}); ok = true; got = h; }
	dev.out = raw;
	fn::answer = [&](const Call& c) -> Ans {
		if (c.name == "send") { dev.in.push_back(c.data); if (dev.failSend == 0) return {-1, dev.e}; if (dev.failSend > 0) dev.failSend--; return {(long)c.size, 0}; }
		if (c.name != "recv") return plain(c);
		size_t n = std::min(c.size, dev.out.size() - dev.pos); Ans a{(long)n, 0}; a.data = sub(dev.out, dev.pos, n); dev.pos += n; return a;
	};
	note("reply to the registration", raw);
	Bytes reg = {0x65, 0, 4, 0}; reg = cat(cat(reg, Bytes(20, 0)), {1, 0, 0, 0});
	std::unique_ptr<SessionInfo> si;
	auto o = outcome([&] { si = std::make_unique<SessionInfo>("10.0.0.1", 44818); });
	note("outcome", o);
	check(dev.in.size() == 1 && dev.in[0] == reg, "not exactly one register request");
	check((o == "ok") == ok, ok ? "a good registration is rejected" : "a bad registration is accepted");
	if (!ok) { check(fn::count("close") == 1, "the connection of a failed session stays open"); return; }
	h = got; check(si->getSessionHandle() == h, "the handle of the reply is not adopted");
	for (int k = R.below(3); k >= 0; k--) {
		dev.in.clear(); dev.pos = 0;
		reply(h, ok, dev.out, 0x6f);
		eip::EncapsPacket p; p.setCommand(eip::EncapsCommands::SEND_RR_DATA); p.setSessionHandle(h); p.setData(R.blob(40, 65535));
		note("reply", dev.out); eip::EncapsPacket r;
		o = outcome([&] { r = si->sendAndReceive(p); });
		note("outcome", o);
		check(dev.in.size() == 1 && dev.in[0] == p.pack(), "the request is not sent once and unchanged");
		check((o == "ok") == ok, ok ? "a complete, successful reply is rejected" : "an unusable reply is returned");
		if (ok) check(r.pack() == dev.out, "the packet returned is not the one received");
	}
	dev.in.clear(); bool bad = R.coin(3); if (bad) dev.failSend = 0;
	note("unregistering fails", bad);
	si.reset();
	Bytes un = {0x66, 0, 0, 0}; le(un, h, 4); un = cat(un, Bytes(16, 0));
	check(dev.in.size() == 1 && dev.in[0] == un, "not exactly one unregister request with the session's handle");
	check(fn::count("close") == 1, "the connection is not closed once");
}
int main(int c, char** v) { return run(c, v, {{"C08", {session}}, {"C09", {tcpSend, tcpRecv, tcpOpen, udp, udpOpen, timeouts}}}); }
