// C06, C07: message routers over a session that records what is sent and answers with chosen bytes
#include "nv.h"
#include "MessageRouter.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_EPath.h"
#include "eip/CommonPacketItem.h"
#include "cip/MessageRouterResponse.h"
#include "cip/MessageRouterRequest.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouterRequest.h"
using namespace nv;
using namespace eipScanner;
using eip::CommonPacketItem;
using eip::EncapsPacket;
#define R g_rng

struct Sess : SessionInfoIf {
	uint32_t h; mutable std::vector<Bytes> sent; Bytes reply; bool boom = false;
	EncapsPacket sendAndReceive(const EncapsPacket& p) const override {
		sent.push_back(p.pack());
		if (boom) throw std::runtime_error("x");
		EncapsPacket r; r.setCommand(eip::EncapsCommands::SEND_RR_DATA); r.setData(reply); return r;
	}
	cip::CipUdint getSessionHandle() const override { return h; }
	sockets::EndPoint getRemoteEndPoint() const override { return sockets::EndPoint("127.0.0.1", 1); }
};
struct It { uint16_t t; Bytes d; };
static Bytes segs(int n, bool narrow, const uint16_t* id) {
	static const uint8_t T8[] = {0x20, 0x24, 0x30};
	Bytes b;
	for (int i = 0; i < n; i++) { b.push_back(T8[i] + (narrow ? 0 : 1)); if (narrow) b.push_back(id[i]); else { b.push_back(0); le(b, id[i], 2); } }
	return b;
}
static Bytes items(const std::vector<It>& v) {
	Bytes b; le(b, v.size(), 2);
	for (auto& i : v) { le(b, i.t, 2); le(b, i.d.size(), 2); b = cat(b, i.d); }
	return b;
}
// a service reply and what it must decode to
struct Rep { Bytes raw; bool ok; uint8_t svc, st; std::vector<uint16_t> add; Bytes data; };
static Rep reply() {
	Rep r;
	if (R.coin(4)) { r.raw = R.bytes(12); }
	else {
		r.raw = {R.u8(), R.u8(), R.u8()};
		int n = R.coin(3) ? 0 : R.coin(20) ? 200 + R.below(56) : R.below(6);
		r.raw.push_back(n);
		r.raw = cat(r.raw, R.blob(2 * n + (R.coin() ? 0 : 10), 60000));
		if (R.coin()) r.raw.resize(4 + 2 * n + R.below(6));
	}
	r.ok = r.raw.size() >= 4 && r.raw.size() >= 4 + 2u * r.raw[3];
	if (r.ok) {
		r.svc = r.raw[0]; r.st = r.raw[2];
		for (int i = 0; i < r.raw[3]; i++) r.add.push_back(rd(r.raw, 4 + 2 * i, 2));
		r.data = sub(r.raw, 4 + 2 * r.raw[3], r.raw.size());
	}
	return r;
}
static void checkReply(const cip::MessageRouterResponse& m, const Rep& r) {
	check((uint8_t)m.getServiceCode() == r.svc, "service code of the reply");
	check((uint8_t)m.getGeneralStatusCode() == r.st, "general status of the reply");
	check(m.getAdditionalStatus() == r.add, "additional status of the reply");
	check(m.getData() == r.data, "data of the reply");
}
static void expand() {
	Rep r = reply();
	note("reply", r.raw);
	cip::MessageRouterResponse m;
	if (R.coin(3)) { m.setData(R.bytes(5)); }
	std::string o = outcome([&] { m.expand(r.raw); });
	note("outcome", o);
	if (r.ok) { check(o == "ok", "a well-formed reply is rejected"); checkReply(m, r); }
	else check(o == "runtime_error", "a malformed reply is not rejected with a runtime error");
}
static void requests() {
	Sess* s = new Sess; std::shared_ptr<SessionInfoIf> si(s);
	s->h = R.u32();
	int n = 1 + R.below(3); bool narrow = R.coin(), yask = R.coin(3); if (yask) narrow = true;
	uint16_t id[3];
	for (auto& x : id) x = narrow ? R.u8() : R.u16();
	uint8_t svc = R.u8(); Bytes data = R.blob(20, 50000);
	std::vector<It> extra(R.len(4, 300)); for (auto& e : extra) { e.t = R.u16(); e.d = R.blob(8, extra.size() < 5 ? 3000 : 8); }
	int form = R.below(3);
	if (form < 2) extra.clear();
	if (form < 1) data.clear();
	std::vector<CommonPacketItem> ex; for (auto& e : extra) ex.push_back(CommonPacketItem((eip::CommonPacketItemIds)e.t, e.d));
	// the answer
	Rep r = reply();
	std::vector<It> ri; bool ok = r.ok;
	ri.push_back({0, R.coin(4) ? R.bytes(4) : Bytes()});
	ri.push_back({0xb2, r.raw});
	int m = R.below(4); for (int i = 0; i < m; i++) ri.push_back({R.u16(), R.bytes(6)});
	switch (R.below(8)) {
		case 0: s->reply = R.bytes(5); ok = false; break;
		case 1: ri.resize(R.below(2)); s->reply = cat(R.bytes(0), cat(Bytes(6, R.u8()), items(ri))); ok = false; break;
		case 2: { s->reply = cat(Bytes(6, R.u8()), items(ri)); Bytes b = s->reply; b.resize(b.size() - 1 - R.below(b.size() - 8)); 
			// cut inside an item (unless the cut falls on an item boundary)
			size_t p = 8; int k = 0; while (p < b.size() && k < (int)ri.size()) { p += 4 + rd(b, p + 2, 2); k++; }
			s->reply = b; if (p > b.size()) ok = false; else { ri.resize(k); if (k < 2) ok = false; } } break;
		default: s->reply = cat(Bytes(6, R.u8()), items(ri));
	}
	s->boom = R.coin(16);
	std::string o; cip::MessageRouterResponse resp;
	note("service", (int)svc); note("segments", n); note("8-bit", narrow); note("vendor", yask); note("ids", std::to_string(id[0]) + " " + std::to_string(id[1]) + " " + std::to_string(id[2]));
	note("data", data); note("extra items", extra.size()); note("handle", s->h); note("received payload", s->reply);
	if (yask) {
		cip::Yaskawa_EPath p = n == 1 ? cip::Yaskawa_EPath((cip::CipUsint)id[0]) : n == 2 ? cip::Yaskawa_EPath((cip::CipUsint)id[0], (cip::CipUsint)id[1]) : cip::Yaskawa_EPath((cip::CipUsint)id[0], (cip::CipUsint)id[1], (cip::CipUsint)id[2]);
		Yaskawa_MessageRouter mr;
		o = outcome([&] { resp = form == 0 ? mr.sendRequest(si, svc, p) : form == 1 ? mr.sendRequest(si, svc, p, data) : mr.sendRequest(si, svc, p, data, ex); });
	} else {
		cip::EPath p = n == 1 ? cip::EPath(id[0]) : n == 2 ? cip::EPath(id[0], id[1]) : cip::EPath(id[0], id[1], id[2]);
		MessageRouter mr(narrow);
		o = outcome([&] { resp = form == 0 ? mr.sendRequest(si, svc, p) : form == 1 ? mr.sendRequest(si, svc, p, data) : mr.sendRequest(si, svc, p, data, ex); });
	}
	Bytes msg = {svc, (uint8_t)(narrow ? n : 2 * n)};
	msg = cat(cat(msg, segs(n, narrow, id)), data);
	std::vector<It> all = {{0, {}}, {0xb2, msg}};
	for (auto& e : extra) all.push_back(e);
	Bytes payload = cat(Bytes(6, 0), items(all)), want;
	le(want, 0x6f, 2); le(want, payload.size(), 2); le(want, s->h, 4); le(want, 0, 4); le(want, 0, 8); le(want, 0, 4); want = cat(want, payload);
	if (s->sent.size()) note("sent", s->sent[0]);
	note("expected", want); note("outcome", o);
	check(s->sent.size() == 1, "exactly one packet per request");
	check(s->sent[0] == want, "the emitted packet is wrong");
	if (s->boom) { check(o == "runtime_error", "a failure of the session is hidden"); return; }
	if (!ok) { check(o != "ok", "an unusable answer is accepted"); return; }
	check(o == "ok", "a usable answer is rejected");
	checkReply(resp, r);
	auto& ai = resp.getAdditionalPacketItems();
	note("additional items", ai.size());
	check(ai.size() == (ri.size() > 2 ? ri.size() - 2 : 0), "number of additional items returned");
	for (size_t i = 0; i < ai.size(); i++) check((uint16_t)ai[i].getTypeId() == ri[i + 2].t && ai[i].getData() == ri[i + 2].d, "additional item");
}
int main(int c, char** v) { return run(c, v, {{"C06", {requests}}, {"C07", {expand, requests}}}); }
