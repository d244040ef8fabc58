// C12, C13, C14, C22, C23: implicit connections driven through ConnectionManager over recorded socket calls and a clock under the driver's control
// wrap: socket close shutdown fcntl connect bind select getsockopt setsockopt send sendto recv recvfrom _ZNSt6chrono3_V212steady_clock3nowEv
#include "fakenet.h"
#include "ConnectionManager.h"
#include "cip/connectionManager/NetworkConnectionParams.h"
#include "eip/CommonPacket.h"
using namespace nv;
using namespace eipScanner;
using eip::EncapsPacket;
using cip::connectionManager::ConnectionParameters;
using fn::Ans; using fn::Call;
#define R g_rng
static int64_t g_now = 1000000000;
extern "C" int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return g_now; }
static Bytes items(const std::vector<std::pair<uint16_t, Bytes>>& v) {
	Bytes b; le(b, v.size(), 2);
	for (auto& i : v) { le(b, i.first, 2); le(b, i.second.size(), 2); b = cat(b, i.second); }
	return b;
}
struct Sess : SessionInfoIf {
	mutable std::vector<Bytes> sent; Bytes reply; std::string host = "10.9.8.7";
	EncapsPacket sendAndReceive(const EncapsPacket& p) const override { sent.push_back(p.pack()); EncapsPacket r; r.setCommand(eip::EncapsCommands::SEND_RR_DATA); r.setData(reply); return r; }
	cip::CipUdint getSessionHandle() const override { return 77; }
	sockets::EndPoint getRemoteEndPoint() const override { return sockets::EndPoint(host, 44818); }
	void answer(uint8_t svc, uint8_t st, const Bytes& data, const std::vector<std::pair<uint16_t, Bytes>>& extra = {}) {
		Bytes m = {(uint8_t)(svc | 0x80), 0, st, 0};
		std::vector<std::pair<uint16_t, Bytes>> v = {{0, {}}, {0xb2, cat(m, data)}};
		v.insert(v.end(), extra.begin(), extra.end());
		reply = cat(Bytes(6, 0), items(v));
	}
};
// the request inside a sent packet: service, path, data
static void request(const Bytes& pk, uint8_t svc, const Bytes& data, const char* what) {
	Bytes m = {svc, 4 / 2 * 2, 0x21, 0, 6, 0, 0x25, 0, 1, 0};
	m[1] = 4;
	Bytes w; le(w, 0x6f, 2);
	Bytes body = cat(Bytes(6, 0), items({{0, {}}, {0xb2, cat(m, data)}}));
	le(w, body.size(), 2); le(w, 77, 4); w = cat(w, Bytes(16, 0)); w = cat(w, body);
	note("packet sent", pk); note("packet expected", w);
	check(pk == w, what);
}
struct Conn {
	ConnectionParameters p; uint32_t o2t = 0, t2o = 0, oapi = 0, tapi = 0; uint16_t serial = 0; uint16_t osz = 0, tsz = 0; bool ofix = 0, tfix = 0; bool c13 = 0; Bytes path;
	std::string dhost; int dport = 0; int fd = 0;
	IOConnection::WPtr w; int closes = 0; std::vector<std::tuple<uint32_t, uint16_t, Bytes>> got; int sends = 0; bool hasSend = false; Bytes out; Bytes next; bool alive = false;
	uint64_t idle = 0, timer = 0; uint32_t seq = 0; uint16_t cnt = 0; int64_t last = 0;
};
static bool timed() { return g_prop == "C22"; }
static int g_fd;
struct Rig {
	std::shared_ptr<Sess> si = std::make_shared<Sess>(); ConnectionManager m; std::vector<std::unique_ptr<Conn>> cs; int rfd = 0; std::deque<Bytes> in; bool forever = false, quiet = false; int rounds = 0; int64_t perRound = 0; int64_t deadline = 0; std::set<int> bound;
	std::vector<Call> sent;
	Rig() {
		g_now = 1000000000 + R.below(1000000000000ull); g_fd = 10; fn::log.clear();
		fn::answer = [this](const Call& c) { return ans(c); };
	}
	~Rig() { fn::answer = [](const Call& c) -> Ans { return {0, 0}; }; }
	Ans ans(const Call& c) {
		if (c.name == "socket") return {g_fd++, 0};
		if (c.name == "bind") { bound.insert(c.fd); return {0, 0}; }
		if (c.name == "sendto") { sent.push_back(c); return {(long)c.size, 0}; }
		if (c.name == "select") {
			rounds++;
			if (rounds > 3000) fail("handling connections does not return");
			if (timed() && deadline && g_now >= deadline && rounds > 1) fail("the manager waits again after its time has passed");
			if (timed() && deadline && (!c.tv || c.sec * 1000000 + c.usec > (deadline - g_now) / 1000 + 1000)) fail("the manager waits longer than the time that is left");
			for (int f : bound) if (deadline && g_prop == "C23") check(c.rset.count(f) && c.a > f, "a socket of the connections is not waited for");
			quiet = in.empty(); if (timed() && deadline) check(c.tv && c.sec * 1000000 + c.usec >= (deadline - g_now) / 1000 - 1000, "the manager waits less than the time that is left");
			if (in.empty()) { g_now += perRound; return {0, 0}; }
			Ans a{1, 0}; if (c.rset.empty()) { quiet = true; return {0, 0}; } int f = R.coin(4) ? *c.rset.begin() : *c.rset.rbegin(); a.ready = {f}; return a;
		}
		if (c.name == "recv" || c.name == "recvfrom") {
			g_now += perRound;
			if (in.empty()) return {-1, EAGAIN};
			Ans a{(long)in.front().size(), 0}; a.data = in.front(); if (!forever) in.pop_front(); return a;
		}
		return {0, 0};
	}
	// opens a connection with parameters the driver chooses; ok: the device accepts
	Conn& open(int mode) {
		cs.emplace_back(new Conn); Conn& c = *cs.back(); auto& p = c.p; bool large = R.coin();
		p.priorityTimeTick = R.u8(); p.timeoutTicks = R.u8(); p.o2tNetworkConnectionId = R.u32(); p.t2oNetworkConnectionId = R.u32(); p.connectionSerialNumber = R.u16();
		p.originatorVendorId = R.u16(); p.originatorSerialNumber = R.u32(); p.connectionTimeoutMultiplier = R.below(8); p.o2tRPI = R.u32(); p.t2oRPI = R.u32();
		p.transportTypeTrigger = (R.below(16) << 4) | (R.coin(3) ? 0 : R.coin(3) ? 3 : 1); p.o2tRealTimeFormat = R.coin(); p.t2oRealTimeFormat = R.coin();
		p.connectionPath = R.bytes(20); if (R.coin(4)) p.connectionPath = R.bytes(300); if (p.connectionPath.size() & 1) p.connectionPath.pop_back();
		p.connectionPathSize = R.u8();
		c.path = p.connectionPath;
		c.osz = R.below(R.coin() ? 9 : 480); c.tsz = R.below(R.coin() ? 9 : 480);
		if (large && R.coin(3)) { c.osz = R.below(60000); c.tsz = R.below(60000); }
		c.ofix = R.coin(); c.tfix = R.coin(); unsigned oty = R.below(3), tty = R.below(3);
		int sh = large ? 16 : 0;
		auto word = [&](unsigned ty, bool fix, uint16_t sz) { return (uint32_t)(((R.below(2) << 15) | (ty << 13) | (R.below(4) << 10) | (fix ? 0 : 1 << 9)) << sh) | sz; };
		p.o2tNetworkConnectionParams = word(oty, c.ofix, c.osz); p.t2oNetworkConnectionParams = word(tty, c.tfix, c.tsz);
		if (!large) { p.o2tNetworkConnectionParams &= 0xffff; p.t2oNetworkConnectionParams &= 0xffff; }
		int cl = p.transportTypeTrigger & 15; c.c13 = cl == 1 || cl == 3;
		c.o2t = R.u32(); c.oapi = R.coin() ? R.below(20000) : R.u32(); c.tapi = R.coin() ? R.below(20000) : R.u32(); c.serial = R.u16();
		for (;;) {
			c.t2o = R.coin() && cs.size() > 1 ? cs[R.below(cs.size() - 1)]->t2o ^ (R.coin() ? 1u << R.below(32) : 0x10000u) : R.u32();
			bool dup = false; for (auto& x : cs) if (x.get() != &c && x->t2o == c.t2o) dup = true;
			if (!dup) break;
		}
		bool ok = mode != 1;
		Bytes rep; le(rep, c.o2t, 4); le(rep, c.t2o, 4); le(rep, c.serial, 2); le(rep, p.originatorVendorId, 2); le(rep, p.originatorSerialNumber, 4); le(rep, c.oapi, 4); le(rep, c.tapi, 4); le(rep, 0, 2);
		std::vector<std::pair<uint16_t, Bytes>> extra; c.dhost = si->host; c.dport = 2222;
		if (R.coin(3)) { Bytes t = {0, 2, 9, 9, 1, 2, 3, 4}; t.resize(16); extra.push_back({0x8001, t}); }
		if (R.coin()) {
			int port = R.u16(); uint32_t a = R.coin() ? 0 : (R.u32() | 0x01000000);
			Bytes s = {0, 2, (uint8_t)(port >> 8), (uint8_t)port, (uint8_t)(a >> 24), (uint8_t)(a >> 16), (uint8_t)(a >> 8), (uint8_t)a}; s.resize(16);
			extra.push_back({0x8000, s}); c.dport = port;
			if (a) { char b[32]; snprintf(b, 32, "%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255); c.dhost = b; }
			if (R.coin(3)) { s[3] ^= 1; extra.push_back({0x8000, s}); }
		}
		uint8_t st = ok ? 0 : R.below(255) + 1;
		si->sent.clear(); si->answer(large ? 0x5b : 0x54, st, ok || R.coin() ? rep : Bytes(), extra);
		note("large", large); note("status", (int)st); note("t2o id", c.t2o); note("class/trigger", (int)p.transportTypeTrigger); note("o2t size", c.osz); note("t2o size", c.tsz); note("path", c.path);
		note("run header o2t/t2o", std::to_string(p.o2tRealTimeFormat) + "/" + std::to_string(p.t2oRealTimeFormat));
		auto before = si->sent.size();
		c.w = large && R.coin() ? m.largeForwardOpen(si, p) : m.forwardOpen(si, p, large);
		check(si->sent.size() == before + 1, "opening a connection does not send exactly one request");
		// the ids and the serial number are the manager's own choice: read them from the request
		Bytes pk = si->sent.back(); size_t off = 24 + 6 + 2 + 4 + 4 + 10;
		uint32_t so = rd(pk, off + 2, 4), stt = rd(pk, off + 6, 4); uint16_t sn = rd(pk, off + 10, 2);
		int n = large ? 4 : 2; uint32_t add = c.c13 ? 2 : 0;
		Bytes w; le(w, p.priorityTimeTick, 1); le(w, p.timeoutTicks, 1); le(w, oty == 1 ? so : p.o2tNetworkConnectionId, 4); le(w, tty == 2 ? stt : p.t2oNetworkConnectionId, 4); le(w, sn, 2);
		le(w, p.originatorVendorId, 2); le(w, p.originatorSerialNumber, 4); le(w, p.connectionTimeoutMultiplier, 1); le(w, 0, 3); le(w, p.o2tRPI, 4); le(w, p.o2tNetworkConnectionParams + add + (p.o2tRealTimeFormat ? 4 : 0), n);
		le(w, p.t2oRPI, 4); le(w, p.t2oNetworkConnectionParams + add + (p.t2oRealTimeFormat ? 4 : 0), n); le(w, p.transportTypeTrigger, 1); le(w, c.path.size() / 2, 1);
		request(pk, large ? 0x5b : 0x54, cat(w, c.path), "the forward open request");
		c.alive = ok; c.last = g_now;
		check(!c.w.expired() == ok, ok ? "an accepted connection is not registered" : "a refused connection is registered");
		if (ok) {
			c.fd = g_fd - 1; while (bound.count(c.fd)) c.fd--;
			auto sp = c.w.lock(); Conn* pc = &c;
			sp->setReceiveDataListener([pc](cip::CipUdint a, cip::CipUint b, const std::vector<uint8_t>& d) { pc->got.push_back({a, b, d}); });
			sp->setCloseListener([pc]() { pc->closes++; });
			if (R.coin()) { c.hasSend = true; sp->setSendDataListener([pc](std::vector<uint8_t>& d) { pc->sends++; d = pc->next; }); }
			if (c.ofix && R.coin(3)) { Bytes x = R.bytes(c.osz); x.resize(c.osz); c.out = x; sp->setDataToSend(x); }
			else if (R.coin()) { c.out = R.bytes(20); sp->setDataToSend(c.out); }
		}
		return c;
	}
	// one call of handleConnections; ms: its timeout, step: nanoseconds that pass
	void handle(int64_t ms, int64_t step) {
		sent.clear(); fn::log.clear(); rounds = 0; perRound = step; deadline = g_now + ms * 1000000;
		quiet = false; m.handleConnections(std::chrono::milliseconds(ms));
		check(!timed() || quiet || g_now >= deadline, "the manager returns although the time has not passed");
		deadline = 0;
		// what each connection must have done at its tick
		size_t k = 0; std::vector<Call> want;
		std::vector<Conn*> order; for (auto& c : cs) if (c->alive) order.push_back(c.get());
		std::sort(order.begin(), order.end(), [](Conn* a, Conn* b) { return a->t2o < b->t2o; });
		for (auto* c : order) {
			uint64_t us = (g_now - c->last) / 1000; c->idle += us;
			note("tick of", c->t2o); note("elapsed us", us); note("o2t interval", c->oapi); note("t2o interval", c->tapi); note("timeout multiplier", (int)c->p.connectionTimeoutMultiplier);
			if (c->idle > ((uint64_t)4 << c->p.connectionTimeoutMultiplier) * c->tapi) {
				check(c->closes == 1, "a timed out connection does not call its close listener once");
				check(c->w.expired(), "a timed out connection is still registered");
				c->alive = false; continue;
			}
			check(c->closes == 0, "a connection is closed before its timeout"); check(!c->w.expired(), "a connection disappeared");
			c->last = g_now; c->timer += us;
			if (c->timer < c->oapi) { check(c->sends == 0, "the send listener is called before the interval has passed"); continue; }
			c->timer = 0; c->seq++;
			check(c->sends == (c->hasSend ? 1 : 0), "the send listener is not called exactly once"); c->sends = 0;
			if (c->hasSend) c->out = c->next;
			if (c->c13) c->cnt++;
			if (c->ofix && c->out.size() != c->osz) continue;
			Bytes h, d; le(h, c->o2t, 4); le(h, c->seq, 4);
			if (c->c13) le(d, c->cnt, 2);
			if (c->p.o2tRealTimeFormat) le(d, 1, 4);
			d = cat(d, c->out);
			Bytes w = items({{0x8002, h}, {0xb1, d}});
			if (k >= sent.size()) fail("a datagram is not sent when its interval has passed");
			note("datagram", sent[k].data); note("expected", w);
			check(sent[k].data == w, "the datagram sent"); check(sent[k].fd == c->fd, "the datagram is sent on another connection's socket");
			char ip[32]; auto v = ntohl(sent[k].addr.sin_addr.s_addr); snprintf(ip, 32, "%u.%u.%u.%u", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255);
			note("destination", std::string(ip) + ":" + std::to_string(ntohs(sent[k].addr.sin_port))); note("destination expected", c->dhost + ":" + std::to_string(c->dport));
			check(ip == c->dhost && ntohs(sent[k].addr.sin_port) == c->dport, "the datagram goes to another address");
			k++;
		}
		check(k == sent.size(), "more datagrams are sent than intervals have passed");
		check(m.hasOpenConnections() == std::any_of(cs.begin(), cs.end(), [](auto& c) { return c->alive; }), "hasOpenConnections");
	}
	// a datagram arrives
	void datagram() {
		std::vector<Conn*> al; for (auto& c : cs) if (c->alive) al.push_back(c.get());
		Conn* c = al.empty() || R.coin(6) ? nullptr : al[R.below(al.size())];
		uint32_t id = c ? c->t2o : R.u32();
		if (c && R.coin(5)) id ^= R.coin() ? 1u << R.below(32) : 0x10000u;
		Conn* hit = nullptr; for (auto* x : al) if (x->t2o == id) hit = x;
		Bytes a; le(a, id, 4); if (R.coin(4)) a.clear(), le(a, id, 4); else le(a, R.u32(), 4);
		Bytes d; size_t n = 0; uint32_t run = 0; uint16_t seq = 0;
		bool sized = c && R.coin(3) == false;
		size_t body = sized ? c->tsz : R.below(20);
		if (hit && hit->p.t2oRealTimeFormat) { run = R.u32(); le(d, run, 4); }
		if (hit && hit->c13) { seq = R.u16(); le(d, seq, 2); }
		n = d.size();
		Bytes x = R.bytes(body); if (sized) x.resize(body); d = cat(d, x);
		bool tooshort = false;
		if (R.coin(6) && n) { d.resize(R.below(n)); tooshort = true; }
		Bytes pk = items({{0x8002, a}, {0xb1, d}});
		bool bad = pk.size() > 8192;
		switch (R.below(12)) {
			case 0: pk.resize(R.below(pk.size())); bad = true; break;              // truncated
			case 1: pk = items({{0x8002, a}}); bad = true; break;                   // no data item
			case 2: { Bytes s = sub(a, 0, R.below(4)); pk = items({{0x8002, s}, {0xb1, d}}); bad = true; break; } // short address
			case 3: pk = R.bytes(12); bad = true; break;
			default: break;
		}
		in.clear(); in.push_back(pk);
		note("datagram received", pk); note("for id", id); note("registered", hit != nullptr); note("malformed", bad);
		for (auto& y : cs) y->got.clear();
		bool hitok = hit && !bad && !tooshort && !(hit->tfix && x.size() != hit->tsz);
		if (hitok) hit->idle = 0;
		handle(1 + R.below(50), R.below(R.coin() ? 60000000 : 2000));
		for (auto* y : al) {
			size_t w = y == hit && hitok;
			note("listener calls", y->got.size());
			check(y->got.size() == w, w ? "the data does not reach the connection with its id exactly once" : "data reaches a connection it does not belong to, or although it is malformed");
			if (w) {
				note("data", std::get<2>(y->got[0])); note("data expected", x);
				check(std::get<0>(y->got[0]) == run, "the run header given to the listener"); check(std::get<1>(y->got[0]) == seq, "the sequence count given to the listener");
				check(std::get<2>(y->got[0]) == x, "the data given to the listener");
			}
		}
	}
	// a tick at the very moment an interval or a timeout is reached, or a microsecond off
	void edge() {
		std::vector<Conn*> al; for (auto& c : cs) if (c->alive) al.push_back(c.get());
		if (al.empty()) return;
		Conn* c = al[R.below(al.size())];
		int64_t us = (R.coin() ? (int64_t)c->oapi - (int64_t)c->timer : (int64_t)(((uint64_t)4 << c->p.connectionTimeoutMultiplier) * c->tapi - c->idle)) + (int64_t)R.below(3) - 1;
		int64_t step = c->last + us * 1000 + R.below(1000) - g_now;
		if (us < 0 || step < 0) return;
		in.clear(); handle(R.below(30), step);
	}
	void close() {
		std::vector<Conn*> al; for (auto& c : cs) if (c->alive) al.push_back(c.get());
		if (al.empty()) return;
		Conn* c = al[R.below(al.size())]; bool okst = R.coin();
		si->sent.clear(); si->answer(0x4e, okst ? 0 : R.below(255) + 1, {});
		m.forwardClose(si, c->w);
		check(si->sent.size() == 1, "closing does not send exactly one request");
		Bytes w; le(w, 0, 2); le(w, c->serial, 2); le(w, c->p.originatorVendorId, 2); le(w, c->p.originatorSerialNumber, 4); le(w, c->path.size() / 2, 1); le(w, 0, 1);
		request(si->sent[0], 0x4e, cat(w, c->path), "the forward close request");
		check(c->w.expired(), "a closed connection is still registered");
		c->alive = false;
		for (auto* y : al) if (y != c) check(!y->w.expired(), "closing a connection unregisters another one");
		si->sent.clear(); m.forwardClose(si, c->w);
		check(si->sent.empty(), "closing a connection that is closed already sends a request");
	}
};
static void scenario() {
	Rig r;
	int n = 1 + R.below(5);
	bool several = R.coin(3);
	for (int i = 0; i < n; i++) { if (several) r.si->host = "10.9.8." + std::to_string(7 + R.below(3)); r.open(R.coin(5) ? 1 : 0); }
	int steps = 1 + R.below(12);
	for (int i = 0; i < steps; i++) {
		for (auto& c : r.cs) { c->next = c->ofix && !R.coin(4) ? Bytes(c->osz, R.u8()) : R.bytes(20); }
		switch (R.below(6)) {
			case 0: case 1: case 2: r.datagram(); break;
			case 3: r.handle(R.below(30), R.coin(8) ? R.below(10000000000000ull) : R.below(40000000)); break;
			case 4: if (R.coin()) r.edge(); else r.handle(R.below(30), R.below(3000)); break;
			default: if (R.coin()) r.close(); else if (r.cs.size() < 8) r.open(R.coin(5)); 
		}
	}
}
static void traffic() {
	Rig r;
	int n = R.coin(6) ? 0 : 1 + R.below(4);
	for (int i = 0; i < n; i++) { r.si->host = "10.9.8." + std::to_string(7 + R.below(3)); r.open(0); }
	r.forever = true; r.in.push_back(R.bytes(20));
	if (R.coin(4)) r.in.clear();
	r.handle(R.below(200), 100000 + R.below(20000000));
}
// sockets with descriptors of the driver's choice, waited for directly
struct Plain : sockets::BaseSocket {
	explicit Plain(int fd) : BaseSocket(sockets::EndPoint("1.2.3.4", 5)) { _sockedFd = fd; }
	void Send(const std::vector<uint8_t>&) const override {}
	std::vector<uint8_t> Receive(size_t) const override { return {}; }
};
static void serving() {
	g_now = 1000000000 + R.below(1000000000000ull); fn::log.clear();
	int n = R.coin(8) ? 0 : 1 + R.below(R.coin(4) ? 60 : 5);
	int64_t step = R.below(R.coin() ? 100000000 : 20000000) + 1000000;
	std::vector<sockets::BaseSocket::SPtr> ss; std::map<int, int> served; std::set<int> all, due; std::string order;
	while ((int)ss.size() < n) {
		int fd = R.coin() ? R.below(70) : R.coin() ? R.below(1024) : 64 * R.below(16) + (R.coin() ? 63 : 0);
		if (!all.insert(fd).second) continue;
		ss.push_back(std::make_shared<Plain>(fd));
		ss.back()->setBeginReceiveHandler([&served, &due, &step, fd](sockets::BaseSocket& b) {
			check(b.getSocketFd() == fd, "a socket is given to the handler of another");
			check(due.count(fd), "a socket without data is served");
			check(++served[fd] == 1, "a socket is served twice for one wait");
			if (R.coin(3)) g_now += R.below(step);
		});
	}
	bool failed = false, thrown = false;
	int rounds = 0; int64_t ms = R.coin(6) ? 0 : R.below(100);
	auto paid = [&] { for (int f : due) { note("socket with data", f); check(served[f] == 1, "a socket with data is not served"); } };
	fn::answer = [&](const Call& c) -> Ans {
		if (c.name != "select") return {0, 0};
		if (++rounds > 3000) fail("waiting for sockets does not return");
		paid(); served.clear(); due.clear();
		note("sockets", n); note("range of the wait", c.a); if (!all.empty()) note("largest descriptor", *all.rbegin());
		check(c.rset == all, "the descriptors waited for are not those of the sockets");
		check(all.empty() || c.a > *all.rbegin(), "a socket lies outside the range of descriptors waited for");
		g_now += R.below(step);
		check(!failed, "waits again after a wait has failed");
		if (!R.below(20)) { failed = true; return {-1, R.coin() ? EINTR : EBADF}; }
		if (R.coin(4)) return {0, 0};
		for (int f : all) if (R.coin(3)) due.insert(f);
		Ans a{(long)due.size(), 0}; a.ready = due; return a;
	};
	try { sockets::BaseSocket::select(ss, std::chrono::milliseconds(ms)); } catch (const std::system_error&) { thrown = true; }
	paid(); check(failed == thrown, "a failed wait is not reported, or one that did not fail is");
	fn::answer = [](const Call& c) -> Ans { return {0, 0}; };
}
int main(int c, char** v) { return run(c, v, {{"C12", {scenario}}, {"C13", {scenario}}, {"C14", {scenario}}, {"C22", {traffic}}, {"C23", {serving, serving, serving, scenario}}}); }
