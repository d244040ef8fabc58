// C15-C19, C21: CIP objects over a router that records requests and answers with chosen replies; discovery over a stand-in socket
#include "nv.h"
#include "MessageRouter.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "FileObject.h"
#include "fileObject/FileObjectState.h"
#include "DiscoveryManager.h"
#include "sockets/BaseSocket.h"
#include "eip/CommonPacketItem.h"
#include "cip/MessageRouterResponse.h"
#include <set>
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/ra/powerFlex525/DPIFaultCode.h"
#include "vendor/ra/powerFlex525/DPIFaultObject.h"
#include <cerrno>
#include <cmath>
#include <deque>
using namespace nv;
using namespace eipScanner;
namespace pf = eipScanner::vendor::ra::powerFlex525;
#define R g_rng

struct Req { SessionInfoIf* si; uint8_t svc; Bytes path, data; size_t extra; };
struct Rep { uint8_t st = 0; Bytes data; int boom = 0; };
struct Rt : MessageRouter {
	mutable std::vector<Req> sent; std::function<Rep(const Req&)> answer;
	cip::MessageRouterResponse sendRequest(SessionInfoIf::SPtr si, cip::CipUsint svc, const cip::EPath& p, const Bytes& d, const std::vector<eip::CommonPacketItem>& x) const override {
		Req q{si.get(), svc, p.packPaddedPath(), d, x.size()};
		sent.push_back(q);
		Rep r = answer(q);
		if (r.boom) throw std::runtime_error("x");
		cip::MessageRouterResponse m; m.setGeneralStatusCode((cip::GeneralStatusCodes)r.st); m.setData(r.data); return m;
	}
	cip::MessageRouterResponse sendRequest(SessionInfoIf::SPtr si, cip::CipUsint svc, const cip::EPath& p, const Bytes& d) const override { return sendRequest(si, svc, p, d, {}); }
	cip::MessageRouterResponse sendRequest(SessionInfoIf::SPtr si, cip::CipUsint svc, const cip::EPath& p) const override { return sendRequest(si, svc, p, {}, {}); }
};
struct NoSession : SessionInfoIf {
	eip::EncapsPacket sendAndReceive(const eip::EncapsPacket&) const override { fail("a request bypasses the router"); }
	cip::CipUdint getSessionHandle() const override { return 0; }
	sockets::EndPoint getRemoteEndPoint() const override { return sockets::EndPoint("127.0.0.1", 1); }
};
static Bytes path(uint16_t c, uint16_t i, int a = -1) {
	Bytes b = {0x21, 0}; le(b, c, 2); b.push_back(0x25); b.push_back(0); le(b, i, 2);
	if (a >= 0) { b.push_back(0x31); b.push_back(0); le(b, a, 2); }
	return b;
}
static void checkReq(const Req& q, SessionInfoIf* si, uint8_t svc, const Bytes& p, const Bytes& data = {}) {
	note("request service", (int)q.svc); note("request path", q.path); note("request data", q.data);
	check(q.si == si, "request on another session"); check(q.svc == svc, "wrong service code"); check(q.path == p, "wrong path"); check(q.data == data, "wrong request data"); check(q.extra == 0, "unexpected additional items");
}
static uint8_t bad() { uint8_t s = R.u8(); return s ? s : 1; }
static Bytes text(const std::string& s) { Bytes b = {(uint8_t)s.size()}; b.insert(b.end(), s.begin(), s.end()); return b; }
struct World { Rt* rt = new Rt; std::shared_ptr<MessageRouter> mr{rt}; std::shared_ptr<SessionInfoIf> si{new NoSession}; };

// ---------------------------------------------------------------- C15
static void upload() {
	World w; uint16_t inst = R.u16();
	Rep next;
	w.rt->answer = [&](const Req&) { return next; };
	next.data = {2};
	FileObject f(inst, w.si, w.mr);
	w.rt->sent.clear();
	struct Done { uint8_t st; Bytes data; };
	std::vector<Done> done;
	auto h = [&](cip::GeneralStatusCodes s, const Bytes& d) { done.push_back({(uint8_t)s, d}); };
	bool big = R.coin(16);
	uint8_t chunk = big ? R.below(4) : R.u8();
	uint32_t size = R.u32();
	int steps = big ? R.below(700) : R.below(5);
	Bytes tail = R.bytes(R.coin(8) ? 300 : 10);
	if (!R.coin(6)) size = (uint32_t)chunk * steps + tail.size();
	next.data.clear(); le(next.data, size, 4); next.data.push_back(chunk); if (R.coin(4)) next.data = cat(next.data, R.bytes(3));
	int mode = R.below(20);
	if (mode == 0) next.st = bad();
	if (mode == 1) next.data.resize(R.below(5));
	note("initiate reply status", (int)next.st); note("initiate reply", next.data);
	std::string o = outcome([&] { f.beginUpload(w.si, h); });
	check(w.rt->sent.size() == 1, "one request to start an upload");
	checkReq(w.rt->sent[0], w.si.get(), 0x4b, path(0x37, inst), {0xff});
	check(o == "ok", "starting an upload throws");
	if (next.st) { check(done.size() == 1 && done[0].st == next.st && done[0].data.empty(), "an error status at the start must reach the handler once"); return; }
	if (next.data.size() < 5) { check(done.size() == 1 && done[0].st == 0x20 && done[0].data.empty(), "a truncated start must reach the handler once"); return; }
	check(done.empty(), "the handler is called before the end");
	Bytes content; uint8_t num = 0;
	int at = R.coin() ? R.below(steps + 1) : -1;	// the step that goes wrong, if any
	for (int i = 0; i <= steps; i++) {
		bool last = i == steps;
		uint8_t type = last ? (i == 0 && R.coin() ? 2 : 4 - 2 * R.below(2)) : (i == 0 ? 0 : 1);
		if (!last && R.coin(6)) type = R.below(2);
		Bytes body = last ? tail : R.bytes(0); if (!last) { body.resize(chunk); for (auto& x : body) x = R.next(); if (R.coin(6)) body = cat(body, R.bytes(4)); }
		next = Rep(); next.data = {num, type}; next.data = cat(next.data, body); if (last) next.data = cat(next.data, Bytes(2, 0xcc));
		int what = -1;
		if (i == at) {
			what = R.below(5);
			if (what == 0) next.st = bad();
			if (what == 1) next.data[0] += 1 + R.below(255);
			if (what == 2) next.data[1] = R.coin() ? 3 : 5 + R.below(250);
			if (what == 3) next.data.resize(R.below(next.data.size()));
			if (what == 4) next.boom = 1;
		}
		w.rt->sent.clear();
		note("transfer status", (int)next.st); note("transfer reply", next.data);
		bool more = false;
		o = outcome([&] { more = f.handleTransfers(w.si); });
		note("outcome", o); note("goes on", more); note("handler calls", done.size());
		check(w.rt->sent.size() == 1, "one request per transfer");
		checkReq(w.rt->sent[0], w.si.get(), 0x4f, path(0x37, inst), {num});
		if (next.boom) { check(o == "runtime_error" && done.empty(), "a failed request must be reported by its exception"); return; }
		auto ended = [&](uint8_t st, const Bytes& d) {
			check(o == "ok" && !more, "the upload must end here without an exception");
			check(done.size() == 1, "the handler must be called exactly once");
			note("handler status", (int)done[0].st); note("handler content", done[0].data);
			check(done[0].st == st, "status given to the handler"); check(done[0].data == d, "content given to the handler");
		};
		const Bytes& x = next.data;
		if (next.st) return ended(next.st, {});
		if ((x.empty() ? 0 : x[0]) != num) return ended(0x20, {});
		uint8_t t = x.size() < 2 ? 0 : x[1];
		bool isLast = t == 2 || t == 4, isChunk = t < 2;
		if (x.size() < 2 ) return ended(0x20, {});
		if (!isLast && !isChunk) { check(o == "runtime_error" && done.empty(), "an unexpected kind of packet must raise a runtime error"); return; }
		if (x.size() < (isLast ? 4u : 2u + chunk)) return ended(0x20, {});
		if (isLast) { content = cat(content, sub(x, 2, x.size() - 4)); return ended(content.size() == size ? 0 : 0x20, content.size() == size ? content : Bytes()); }
		content = cat(content, sub(x, 2, chunk));
		check(o == "ok" && more && done.empty(), "the upload must go on");
		num++;
	}
}
// ---------------------------------------------------------------- C16
static void ident() {
	World w; uint16_t inst = R.u16(); Rep rep;
	uint16_t v[4] = {R.u16(), R.u16(), R.u16(), R.u16()}; uint8_t a = R.u8(), b = R.u8(); uint32_t ser = R.u32();
	std::string name = R.coin(10) ? R.str(255) : R.str(20);
	for (int i : {0, 1, 2}) le(rep.data, v[i], 2);
	rep.data.push_back(a); rep.data.push_back(b); le(rep.data, v[3], 2); le(rep.data, ser, 4); rep.data = cat(rep.data, text(name));
	bool ok = true;
	switch (R.below(6)) {
		case 0: rep.st = bad(); ok = false; break;
		case 1: rep.data.resize(R.below(rep.data.size())); ok = false; break;
		case 2: rep.data = cat(rep.data, R.bytes(5)); break;
	}
	w.rt->answer = [&](const Req&) { return rep; };
	note("instance", inst); note("status", (int)rep.st); note("reply", rep.data);
	std::shared_ptr<IdentityObject> o;
	std::string out = outcome([&] { o.reset(new IdentityObject(inst, w.si, w.mr)); });
	note("outcome", out);
	check(w.rt->sent.size() == 1, "one request for an identity");
	checkReq(w.rt->sent[0], w.si.get(), 1, path(1, inst));
	if (!ok) { check(out == "runtime_error", "an unusable identity must raise a runtime error"); return; }
	check(out == "ok", "a good identity is rejected");
	check(o->getClassId() == 1 && o->getInstanceId() == inst, "class and instance");
	check(o->getVendorId() == v[0] && o->getDeviceType() == v[1] && o->getProductCode() == v[2] && o->getStatus() == v[3] && o->getSerialNumber() == ser, "identity numbers");
	check(o->getRevision().getMajorRevision() == a && o->getRevision().getMinorRevision() == b, "identity revision");
	check(o->getProductName() == name, "identity product name");
}
static void filestate() {
	World w; uint16_t inst = R.u16(); Rep rep;
	auto shot = [&] { rep = Rep(); rep.data = {(uint8_t)(R.coin(8) ? R.u8() : R.below(8))}; if (R.coin(8)) rep.st = bad(); if (R.coin(12)) rep.data.clear(); if (R.coin(8)) rep.data = cat(rep.data, R.bytes(3)); };
	auto want = [&]() -> int { if (rep.st || rep.data.empty()) return -1; switch (rep.data[0]) { case 0: return 0; case 1: return 1; case 2: case 3: case 5: return 2; } return -1; };
	w.rt->answer = [&](const Req&) { return rep; };
	shot();
	note("status", (int)rep.st); note("reply", rep.data);
	std::shared_ptr<FileObject> f;
	std::string o = outcome([&] { f.reset(new FileObject(inst, w.si, w.mr)); });
	check(w.rt->sent.size() == 1, "one request for the state"); checkReq(w.rt->sent[0], w.si.get(), 0xe, path(0x37, inst, 1));
	note("outcome", o);
	if (want() < 0) { check(o == "runtime_error", "an unusable state must raise a runtime error"); return; }
	check(o == "ok", "a good state is rejected");
	int now = want();
	for (int i = 0; i < 4; i++) {
		check((int)f->getState()->getStateCode() == now, "state entered");
		shot(); w.rt->sent.clear();
		note("next status", (int)rep.st); note("next reply", rep.data);
		o = outcome([&] { f->getState()->SyncState(w.si); });
		note("outcome", o);
		check(w.rt->sent.size() == 1, "one request for the state"); checkReq(w.rt->sent[0], w.si.get(), 0xe, path(0x37, inst, 1));
		if (want() < 0) check(o == "runtime_error", "an unusable state must raise a runtime error");
		else { check(o == "ok", "a good state is rejected"); now = want(); }
		check((int)f->getState()->getStateCode() == now, "state after synchronisation");
	}
}
// ---------------------------------------------------------------- C17, C18
static bool near(double a, double b) {
	if (std::isnan(a) || std::isnan(b)) return std::isnan(a) == std::isnan(b);
	if (std::isinf(a) || std::isinf(b)) return a == b;
	return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) + 1e-300;
}
static void scaling() {
	ParameterObject p(R.u16(), true, 4);
	uint16_t m = R.u16(), d = R.u16(), b = R.u16(); int16_t f = R.u16(); uint8_t pr = R.coin() ? R.below(6) : R.u8(); bool sc = !R.coin(4), ro = R.coin();
	if (!R.coin(4)) { if (!m) m = 1; if (!d) d = 1; if (!b) b = 1; }
	p.setScalingMultiplier(m); p.setScalingDivisor(d); p.setScalingBase(b); p.setScalingOffset(f); p.setPrecision(pr); p.setScalable(sc); p.setReadOnly(ro);
	p.setType((cip::CipDataTypes)R.u8()); p.setName("a"); p.setUnits("b"); p.setHelp("c");
	double v = (int32_t)R.u32() / (R.coin() ? 1.0 : 64.0);
	note("multiplier", m); note("divisor", d); note("base", b); note("offset", f); note("precision", (int)pr); note("scalable", sc); note("value", v);
	check(p.getScalingMultiplier() == m && p.getScalingDivisor() == d && p.getScalingBase() == b && p.getScalingOffset() == f && p.getPrecision() == pr && p.isScalable() == sc && p.isReadOnly() == ro, "scaling attributes");
	check(p.getName() == "a" && p.getUnits() == "b" && p.getHelp() == "c", "texts");
	double e = sc ? ((v + f) * m * b) / (d * std::pow(10.0, pr)) : v, a = sc ? (v * d * std::pow(10.0, pr)) / ((double)m * b) - f : v;
	double ge = p.actualToEngValue(v), ga = p.engToActualValue(v);
	note("engineering value", ge); note("expected engineering value", e); note("actual value", ga); note("expected actual value", a);
	check(near(ge, e), "engineering value"); check(near(ga + f, a + f) || near(ga, a), "actual value");
}
static void parameter() {
	World w; uint16_t inst = R.u16(); bool full = R.coin();
	uint8_t n = R.coin(8) ? R.u8() : 1 << R.below(4);
	uint16_t desc = R.u16(); bool sc = desc & 4;
	Bytes val(n), mn(n), mx(n), df(n); for (auto* b : {&val, &mn, &mx, &df}) for (auto& x : *b) x = R.next();
	std::string nm = R.str(16), un = R.str(6), he = R.str(60); uint8_t type = R.u8(), prec = R.u8(); uint16_t s[4] = {R.u16(), R.u16(), R.u16(), R.u16()};
	std::vector<Rep> reps(2); reps.reserve(8);
	reps[0].data = {n}; if (R.coin(8)) reps[0].data = cat(reps[0].data, R.bytes(2));
	Bytes& d = reps[1].data;
	d = val; d = cat(d, text(R.str(8))); le(d, desc, 2); d.push_back(type);
	if (full) { d.push_back(n); for (auto* t : {&nm, &un, &he}) d = cat(d, text(*t)); for (auto* b : {&mn, &mx, &df}) d = cat(d, *b); if (sc) { for (int i = 0; i < 16; i++) d.push_back(R.next()); d.push_back(prec); } }
	if (full && sc) for (int i = 0; i < 4; i++) { Rep r; le(r.data, s[i], 2); if (R.coin(8)) r.data = cat(r.data, R.bytes(2)); reps.push_back(r); }
	int fails = -1; size_t k = R.below(reps.size());
	switch (R.below(5)) {
		case 0: reps[k].st = bad(); fails = k; break;
		case 1: if (k == 0) reps[k].data.clear(); else { size_t need = k == 1 ? d.size() : 2; reps[k].data.resize(R.below(need)); } fails = k; break;
		case 2: d = cat(d, R.bytes(4)); break;
	}
	size_t at = 0;
	w.rt->answer = [&](const Req&) { check(at < reps.size(), "too many requests"); return reps[at++]; };
	note("instance", inst); note("all attributes", full); for (auto& r : reps) { note("reply status", (int)r.st); note("reply", r.data); }
	std::shared_ptr<ParameterObject> p;
	std::string o = outcome([&] { p.reset(new ParameterObject(inst, full, w.si, w.mr)); });
	note("outcome", o);
	for (size_t i = 0; i < w.rt->sent.size(); i++) checkReq(w.rt->sent[i], w.si.get(), i == 1 ? 1 : 0xe, i == 1 ? path(0xf, inst) : path(0xf, inst, i == 0 ? 6 : 11 + i));
	check(w.rt->sent.size() == (fails < 0 ? reps.size() : (size_t)fails + 1), "number of requests");
	if (fails >= 0) { check(o == "runtime_error", "an unusable reply must raise a runtime error"); return; }
	check(o == "ok", "good replies are rejected");
	auto same = [&](const Bytes& b, uint64_t v, int z) { return rd(b, 0, std::min<size_t>(n, z)) == v; };
	check(p->getInstanceId() == inst && p->getClassId() == 0xf && p->getParameter() == inst, "ids"); check(p->hasFullAttributes() == full, "full attributes"); check(p->isScalable() == sc, "scalable"); check(p->isReadOnly() == bool(desc & 16), "read only");
	check((uint8_t)p->getType() == type, "data type");
	check(same(val, p->getActualValue<uint64_t>(), 8) && same(val, p->getActualValue<uint8_t>(), 1) && same(val, p->getActualValue<uint16_t>(), 2) && same(val, p->getActualValue<uint32_t>(), 4), "value");
	if (full) {
		check(p->getName() == nm && p->getUnits() == un && p->getHelp() == he, "texts");
		check(same(mn, p->getMinValue<uint64_t>(), 8), "minimum"); check(same(mx, p->getMaxValue<uint64_t>(), 8), "maximum"); check(same(df, p->getDefaultValue<uint64_t>(), 8), "default");
		if (sc) { check(p->getPrecision() == prec, "precision"); check(p->getScalingMultiplier() == s[0] && p->getScalingDivisor() == s[1] && p->getScalingBase() == s[2] && p->getScalingOffset() == (int16_t)s[3], "scaling attributes"); }
	}
	// refresh
	Bytes nv(n); for (auto& x : nv) x = R.next();
	reps = {Rep()}; reps[0].data = nv; at = 0; bool ok = true;
	switch (R.below(5)) { case 0: reps[0].st = bad(); ok = false; break; case 1: if (n) { reps[0].data.resize(R.below(n)); ok = false; } break; case 2: reps[0].data = cat(nv, R.bytes(3)); }
	w.rt->sent.clear();
	note("refresh status", (int)reps[0].st); note("refresh reply", reps[0].data);
	o = outcome([&] { p->updateValue(w.si); });
	note("outcome", o);
	check(w.rt->sent.size() == 1, "one request to refresh the value"); checkReq(w.rt->sent[0], w.si.get(), 0xe, path(0xf, inst, 1));
	check(o == (ok ? "ok" : "runtime_error"), "outcome of refreshing the value");
	check(same(ok ? nv : val, p->getActualValue<uint64_t>(), 8), "value after refreshing");
	check((uint8_t)p->getType() == type && p->isScalable() == sc && (!full || (same(mn, p->getMinValue<uint64_t>(), 8) && same(mx, p->getMaxValue<uint64_t>(), 8) && same(df, p->getDefaultValue<uint64_t>(), 8) && p->getName() == nm)), "another attribute changed");
}
// ---------------------------------------------------------------- C19
struct FakeSock : sockets::BaseSocket {
	std::deque<Bytes>* in; std::vector<Bytes>* out; int err;
	FakeSock() : BaseSocket("127.0.0.1", 1) { _sockedFd = -1; }
	void Send(const Bytes& d) const override { out->push_back(d); }
	Bytes Receive(size_t n) const override {
		check(n >= 504, "room for a datagram");
		if (in->empty()) throw std::system_error(err, std::generic_category());
		Bytes b = in->front(); in->pop_front(); if (b.size() > n) b.resize(n); return b;
	}
};
struct Disc : DiscoveryManager {
	std::shared_ptr<FakeSock> s{new FakeSock};
	Disc() : DiscoveryManager("127.0.0.1", 44818, std::chrono::milliseconds(1)) {}
	sockets::BaseSocket::SPtr makeSocket() const override { return s; }
};
struct Dev { int port; std::string ip; uint16_t v[4]; uint8_t a, b; uint32_t ser; std::string name; };
static void discovery() {
	Disc m; std::deque<Bytes> in; std::vector<Bytes> out; m.s->in = &in; m.s->out = &out; m.s->err = R.coin(4) ? (R.coin() ? ECONNREFUSED : R.below(120) + 12) : EAGAIN;
	std::vector<Dev> want;
	int n = R.below(5);
	for (int i = 0; i < n; i++) {
		Bytes d; bool keep = true;
		int items = R.below(4);
		Bytes head = {0x63, 0}; Bytes body; le(body, items, 2);
		std::vector<Dev> mine; std::vector<size_t> ends;
		for (int j = 0; j < items; j++) {
			Dev v; v.port = R.u16(); uint32_t ip = R.u32(); char t[32]; snprintf(t, 32, "%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255); v.ip = t;
			for (auto& x : v.v) x = R.u16();
			v.a = R.u8(); v.b = R.u8(); v.ser = R.u32(); v.name = R.str(30);
			Bytes x; le(x, 1, 2); x.push_back(0); x.push_back(2); x.push_back(v.port >> 8); x.push_back(v.port); for (int k = 24; k >= 0; k -= 8) x.push_back(ip >> k); x = cat(x, Bytes(8, R.coin() ? 0 : R.u8()));
			for (int k : {0, 1, 2}) le(x, v.v[k], 2);
			x.push_back(v.a); x.push_back(v.b); le(x, v.v[3], 2); le(x, v.ser, 4); x = cat(x, text(v.name)); if (R.coin()) x.push_back(3);
			uint16_t type = 0xc; bool good = true;
			if (R.coin(8)) { size_t cut = 2 + 16 + 14 + 1 + v.name.size(); x.resize(R.below(cut)); good = false; }
			if (R.coin(8)) { type = R.u16(); good = good && type == 0xc; }
			le(body, type, 2); le(body, x.size(), 2); body = cat(body, x);
			if (good) mine.push_back(v);
		}
		if (R.coin(6) && body.size() > 2) {
			// cut the datagram inside an item
			size_t k = 2, prev = 2; std::vector<size_t> ok = {2};
			while (k < body.size()) { k += 4 + rd(body, k + 2, 2); ok.push_back(k); }
			size_t cut = R.below(body.size());
			if (std::find(ok.begin(), ok.end(), cut) == ok.end()) { body.resize(cut); keep = false; }
			(void)prev;
		}
		le(head, body.size(), 2); head = cat(head, R.bytes(0)); head.resize(24, R.u8());
		d = cat(head, body);
		if (R.coin(8)) { d.resize(R.below(24)); keep = false; }
		if (d.size() > 504) continue;
		note("datagram", d);
		if (keep) want.insert(want.end(), mine.begin(), mine.end());
		in.push_back(d);
	}
	note("final receive error", m.s->err);
	IdentityItem::Vec got;
	std::string o = outcome([&] { got = m.discover(); });
	note("outcome", o);
	Bytes req = {0x63, 0}; req.resize(24, 0);
	check(out.size() == 1 && out[0] == req, "one list-identity request is sent");
	if (m.s->err != EAGAIN) { check(o == "system_error " + std::to_string(m.s->err), "a receive error must be reported"); return; }
	check(o == "ok", "discovery fails");
	note("devices", got.size()); note("expected devices", want.size());
	check(got.size() == want.size(), "number of devices");
	for (size_t i = 0; i < got.size(); i++) {
		auto& g = got[i].identityObject; auto& v = want[i];
		check(got[i].socketAddress.getPort() == v.port && got[i].socketAddress.getHost() == v.ip, "socket address of a device");
		check(g.getVendorId() == v.v[0] && g.getDeviceType() == v.v[1] && g.getProductCode() == v.v[2] && g.getStatus() == v.v[3] && g.getSerialNumber() == v.ser, "numbers of a device");
		check(g.getRevision().getMajorRevision() == v.a && g.getRevision().getMinorRevision() == v.b && g.getProductName() == v.name, "revision and name of a device");
	}
}
// ---------------------------------------------------------------- C21
static void faults() {
	World w; bool clear = R.coin(), reset = R.coin(), details = R.coin();
	struct F { uint16_t code, volts, curr, freq; };
	static const uint16_t KNOWN[] = {2, 3, 4, 5, 6, 7, 8, 12, 13, 15, 21, 29, 33, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 59, 63, 64, 71, 72, 73, 80, 81, 82, 83, 84, 94, 100, 101, 105, 106, 107, 109, 110, 114, 122, 125, 126, 127};
	int n = R.coin(4) ? 10 : R.below(11);
	std::vector<F> fs(10);
	for (int i = 0; i < 10; i++) {
		fs[i] = {KNOWN[R.below(sizeof KNOWN / 2)], R.u16(), R.u16(), R.u16()};
		if (i >= n) fs[i].code = i == n ? 0 : fs[i].code;
		if (R.coin(100)) fs[i].code = R.u16();
	}
	int failAt = R.coin(6) ? (int)R.below(42) : -1, failKind = R.below(3);
	// what must happen: the requests in order and the listener calls
	struct Want { Bytes path; Rep rep; };
	std::vector<Want> plan; std::vector<int> told; std::string out = "ok";
	auto step = [&](uint16_t par, uint16_t v) {
		Rep r; le(r.data, v, 2); if (R.coin(8)) r.data = cat(r.data, R.bytes(2));
		bool bad_ = (int)plan.size() == failAt;
		if (bad_) { if (failKind == 0) r.st = bad(); else if (failKind == 1) r.data.resize(R.below(2)); else r.boom = 1; out = "runtime_error"; }
		plan.push_back({path(0xf, par, 1), r});
		return !bad_;
	};
	static const uint16_t CODE[] = {7, 8, 9, 604, 605, 606, 607, 608, 609, 610};
	static const std::set<int> table = {0, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 21, 29, 33, 38, 39, 40, 41, 42, 43, 48, 59, 63, 64, 70, 71, 72, 73, 80, 81, 82, 83, 91, 94, 100, 101, 105, 106, 107, 109, 110, 111, 114, 122, 125, 126, 127};
	auto known = [](int c) { return table.count(c) != 0; };
	for (int c = 0; c < 200; c++) if (R.coin(8)) {
		note("fault code", (uint64_t)c);
		check((outcome([&] { pf::DPIFaultCode(c).getFaultDescription(); }) == "ok") == known(c), "the table of fault codes");
	}
	int count = 0;
	for (int i = 0; i < 10; i++) {
		if (!step(CODE[i], fs[i].code)) goto done;
		if (fs[i].code == 0) break;
		if (details) { if (!step(651 + i, fs[i].volts) || !step(641 + i, fs[i].curr) || !step(631 + i, fs[i].freq)) goto done; }
		if (!known(fs[i].code)) { out = "runtime_error"; goto done; }
		told.push_back(i); count++;
	}
done:
	size_t reads = plan.size(); bool writes = out == "ok" && clear && count > 0;
	uint8_t wst = R.coin(6) ? bad() : 0;
	if (writes && wst) out = "runtime_error";
	size_t at = 0;
	w.rt->answer = [&](const Req& q) { Rep r; if (at < reads) r = plan[at].rep; else r.st = wst; at++; return r; };
	pf::DPIFaultManager m(clear, reset, details);
	std::vector<pf::DPIFaultParameter::FullInformation> heard; size_t sentThen = 0;
	if (!R.coin(10)) m.setNewFaultListener([&](const pf::DPIFaultParameter& p) { heard.push_back(p.getFullInformation()); sentThen = w.rt->sent.size(); });
	else told.clear();
	note("clear", clear); note("details", details); for (auto& p : plan) { note("reply status", (int)p.rep.st); note("reply", p.rep.data); }
	std::string o = outcome([&] { m.handleFaultParameters(w.si, w.mr); });
	note("outcome", o); note("expected outcome", out);
	for (size_t i = 0; i < w.rt->sent.size(); i++) {
		check(i < reads + writes, "too many requests");
		if (i < reads) checkReq(w.rt->sent[i], w.si.get(), 0xe, plan[i].path); else checkReq(w.rt->sent[i], w.si.get(), 0x10, path(0x97, 0, 3), {(uint8_t)pf::DPIFaultManagerCommands::CLEAR_FAULT_QUEUE});
	}
	check(w.rt->sent.size() == reads + writes, "number of requests");
	check(o == out, "outcome");
	note("reported faults", heard.size()); note("expected faults", told.size());
	check(heard.size() == told.size(), "number of reported faults");
	for (size_t k = 0; k < heard.size(); k++) {
		auto& f = fs[told[k]]; auto& d = heard[k].faultDetails;
		check(d.faultNumber == told[k] + 1 && d.faultCode == f.code, "number and code of a fault");
		if (details) check(near(d.busVoltage, f.volts) && near(d.current, f.curr / 100.0) && near(d.frequency, f.freq / 100.0), "details of a fault");
		else check(d.busVoltage == 0 && d.current == 0 && d.frequency == 0, "details not asked for");
		auto e = pf::DPIFaultCode(f.code).getFaultDescription();
		check(heard[k].faultDescription.faultText == e.faultText && heard[k].faultDescription.faultType == e.faultType && heard[k].faultDescription.faultDescription == e.faultDescription, "description of a fault");
	}
}
static void command() {
	World w; Rep r; if (R.coin()) r.st = bad(); r.data = R.bytes(3);
	w.rt->answer = [&](const Req&) { return r; };
	pf::DPIFaultManager m(R.coin(), R.coin(), R.coin());
	uint8_t c = R.u8();
	note("command", (int)c); note("status", (int)r.st);
	std::string o = outcome([&] { m.writeCommand((pf::DPIFaultManagerCommands)c, w.si, w.mr); });
	note("outcome", o);
	check(w.rt->sent.size() == 1, "one request per command"); checkReq(w.rt->sent[0], w.si.get(), 0x10, path(0x97, 0, 3), {c});
	check(o == (r.st ? "runtime_error" : "ok"), "outcome of a command");
}
static void faultObject() {
	World w; Rep r; uint16_t inst = R.u16(), code = R.u16(), flags = R.coin() ? R.below(4) : R.u16(); uint8_t port = R.u8(), dev = R.u8(); Bytes text; for (int q = 0; q < 16; q++) text.push_back(R.u8()); uint64_t timer = R.u64();
	le(r.data, code, 2); le(r.data, port, 1); le(r.data, dev, 1); r.data = cat(r.data, text); le(r.data, timer, 8); le(r.data, flags, 2);
	std::string out = "ok"; int k = R.below(8);
	if (k == 0) { r.st = bad(); out = "runtime_error"; } else if (k == 1) { r.data.resize(R.below(30)); out = "runtime_error"; } else if (k == 2) r.data = cat(r.data, R.bytes(R.below(4)));
	w.rt->answer = [&](const Req&) { return r; };
	note("instance", (int)inst); note("status", (int)r.st); note("reply", r.data);
	std::unique_ptr<pf::DPIFaultObject> f;
	std::string o = outcome([&] { f.reset(new pf::DPIFaultObject(inst, w.si, w.mr)); });
	note("outcome", o); note("expected outcome", out);
	check(w.rt->sent.size() == 1, "one request per fault object"); checkReq(w.rt->sent[0], w.si.get(), 0xe, path(0x97, inst, 0));
	check(o == out, "outcome of reading a fault object");
	if (!f) return;
	auto& i = f->getFullInformation();
	check(f->getInstanceId() == inst && i.faultCode == code && i.dsiPort == port && i.dsiDeviceObject == dev && i.timerValue == timer, "values of a fault object");
	check(i.faultText.toStdString() == std::string(text.begin(), text.end()), "text of a fault object");
	check(i.isValidData == ((flags & 1) != 0) && i.isRealTime == ((flags & 2) != 0), "flags of a fault object");
}
int main(int c, char** v) {
	return run(c, v, {{"C15", {upload}}, {"C16", {ident, filestate}}, {"C17", {scaling}}, {"C18", {parameter}}, {"C19", {discovery}}, {"C21", {faults, faults, command, faultObject}}});
}
