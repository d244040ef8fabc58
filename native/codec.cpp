// C01-C05, C20: codecs and endpoints against an independent oracle
#include "nv.h"
#include <arpa/inet.h>
#include "utils/Buffer.h"
#include "eip/EncapsPacket.h"
#include "eip/EncapsPacketFactory.h"
#include "eip/CommonPacket.h"
#include "eip/CommonPacketItemFactory.h"
#include "cip/EPath.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_EPath.h"
#include "cip/MessageRouterResponse.h"
#include "cip/connectionManager/ForwardOpenResponse.h"
using namespace nv;
using namespace eipScanner;
using utils::Buffer;
using sockets::EndPoint;
#define R g_rng

static Bytes image(const Bytes& b) { return b; }

template <class F> static void encoded(const Bytes& img, const char* what, F put) {
	Bytes pre = R.bytes(6);
	Buffer b(pre);
	put(b);
	note("before", pre); note("result", b.data()); note("expected image", img);
	check(b.data() == cat(pre, img), std::string("encoding of ") + what + " is wrong");
	check(b.size() == pre.size() + img.size(), "size");
}
// decode at some position; returns decoder buffer prepared
template <class F> static void decoded(const Bytes& img, const char* what, F getAndCheck) {
	Bytes pre = R.bytes(5), post = R.bytes(5);
	Bytes all = cat(cat(pre, img), post);
	Buffer b(all);
	uint8_t x;
	for (size_t i = 0; i < pre.size(); i++) b >> x;
	note("bytes", all); note("position", pre.size());
	getAndCheck(b);
	check(b.data() == all, "decoding changed the bytes");
	check(b.pos() == pre.size() + img.size(), std::string("decoding ") + what + " advanced by the wrong number of bytes");
	check(b.isValid() && b.empty() == post.empty(), "validity after decoding");
}
template <class T> static void prim(const char* name) {
	uint64_t raw = R.num();
	T v; memcpy(&v, &raw, sizeof v);
	Bytes img; le(img, raw, sizeof v);
	note("value bits", raw);
	encoded(img, name, [&](Buffer& b) { b << v; });
	decoded(img, name, [&](Buffer& b) { T w; memset(&w, 0x5a, sizeof w); b >> w; check(memcmp(&w, &v, sizeof v) == 0, std::string("decoded value of ") + name); });
}
static void c01_prims() {
	switch (R.below(10)) {
		case 0: prim<uint8_t>("u8"); break; case 1: prim<int8_t>("i8"); break; case 2: prim<uint16_t>("u16"); break; case 3: prim<int16_t>("i16"); break;
		case 4: prim<uint32_t>("u32"); break; case 5: prim<int32_t>("i32"); break; case 6: prim<uint64_t>("u64"); break; case 7: prim<int64_t>("i64"); break;
		case 8: prim<float>("float"); break; default: prim<double>("double");
	}
}
static void c01_arrays() {
	Bytes v = R.blob(40, 70000);
	encoded(v, "byte array", [&](Buffer& b) { b << v; });
	decoded(v, "byte array", [&](Buffer& b) { Bytes w(v.size()); b >> w; check(w == v, "byte array value"); });
	std::vector<uint16_t> u(R.len(40, 70000));
	Bytes img;
	for (auto& x : u) { x = R.u16(); le(img, x, 2); }
	encoded(img, "word array", [&](Buffer& b) { b << u; });
	decoded(img, "word array", [&](Buffer& b) { std::vector<uint16_t> w(u.size()); b >> w; check(w == u, "word array value"); });
}
template <class T> static void strT(size_t max) {
	Bytes d = R.blob(max, sizeof(T) == 1 ? 255 : 65535);
	cip::CipBaseString<T> s = R.coin() ? cip::CipBaseString<T>(d) : cip::CipBaseString<T>(std::string(d.begin(), d.end()));
	check(s.getData() == d && s.getLength() == d.size() && s.toStdString() == std::string(d.begin(), d.end()), "string built from text");
	Bytes img; le(img, d.size(), sizeof(T)); img = cat(img, d);
	encoded(img, "string", [&](Buffer& b) { b << s; });
	decoded(img, "string", [&](Buffer& b) { cip::CipBaseString<T> t; if (R.coin()) t = cip::CipBaseString<T>(R.bytes(9)); b >> t;
		check(t.getLength() == d.size() && t.getData() == d, "string value"); });
	cip::CipBaseString<T> e;
	encoded(Bytes(sizeof(T), 0), "empty string", [&](Buffer& b) { b << e; });
}
static void c01_structs() {
	if (R.coin()) strT<uint8_t>(R.coin() ? 255 : 20); else strT<uint16_t>(R.coin(4) ? 2000 : 300);
	uint8_t a = R.u8(), c = R.u8();
	cip::CipRevision r(a, c);
	check(r.getMajorRevision() == a && r.getMinorRevision() == c && r.toString() == std::to_string(a) + "." + std::to_string(c), "revision");
	encoded({a, c}, "revision", [&](Buffer& b) { b << r; });
	decoded({a, c}, "revision", [&](Buffer& b) { cip::CipRevision q(R.u8(), R.u8()); b >> q; note("major", (int)q.getMajorRevision());
		check(q == r && q.getMajorRevision() == a && q.getMinorRevision() == c, "revision value"); });
	uint32_t ip = R.u32(); uint16_t port = R.u16();
	char host[40]; snprintf(host, 40, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255);
	EndPoint e(host, port);
	Bytes img = {0, 2, (uint8_t)(port >> 8), (uint8_t)port, (uint8_t)(ip >> 24), (uint8_t)(ip >> 16), (uint8_t)(ip >> 8), (uint8_t)ip, 0, 0, 0, 0, 0, 0, 0, 0};
	note("endpoint", e.toString());
	encoded(img, "socket address", [&](Buffer& b) { b << e; });
	for (int i = 8; i < 16; i++) img[i] = R.coin(3) ? R.u8() : 0;
	decoded(img, "socket address", [&](Buffer& b) { EndPoint q("1.2.3.4", 5); b >> q;
		check(q.getHost() == host && q.getPort() == port && q.getAddr().sin_addr.s_addr == htonl(ip) && q.getAddr().sin_port == htons(port) && q.getAddr().sin_family == AF_INET, "socket address value"); });
}

// ------------------------------------------------------------------ C02
template <class T> static void shortPrim(Buffer& b, const Bytes& all, size_t& pos) {
	T w; memset(&w, 0x77, sizeof w);
	b >> w;
	uint64_t raw = 0; memcpy(&raw, &w, sizeof w);
	check(raw == rd(all, pos, sizeof w) , "value of a primitive at the end of the data");
	pos += sizeof w;
}
static void c02_prims() {
	Bytes all = R.blob(20, 2000); all.shrink_to_fit();
	note("bytes", all);
	Buffer b(all);
	size_t pos = 0;
	for (int i = 0; i < 8; i++) {
		int k = R.below(14);
		note("extraction", k);
		switch (k) {
			case 0: shortPrim<uint8_t>(b, all, pos); break; case 1: shortPrim<int8_t>(b, all, pos); break; case 2: shortPrim<uint16_t>(b, all, pos); break;
			case 3: shortPrim<int16_t>(b, all, pos); break; case 4: shortPrim<uint32_t>(b, all, pos); break; case 5: shortPrim<int32_t>(b, all, pos); break;
			case 6: shortPrim<uint64_t>(b, all, pos); break; case 7: shortPrim<int64_t>(b, all, pos); break; case 8: shortPrim<float>(b, all, pos); break;
			case 9: shortPrim<double>(b, all, pos); break;
			case 10: { Bytes w(R.len(30, 70000), 9); b >> w; for (auto x : w) check(x == rd(all, pos++, 1), "bytes past the end are not zero"); break; }
			case 11: { std::vector<uint16_t> w(R.len(20, 70000), 9); b >> w; for (auto x : w) { check(x == rd(all, pos, 2), "words past the end are not zero"); pos += 2; } break; }
			case 12: { cip::CipRevision r(1, 1); b >> r; check(r.getMajorRevision() == rd(all, pos, 1) && r.getMinorRevision() == rd(all, pos + 1, 1), "revision past the end"); pos += 2; break; }
			default: { cip::CipString s; b >> s; size_t n = rd(all, pos, 2); pos += 2; check(s.getData().size() == n, "string length"); for (auto x : s.getData()) check(x == rd(all, pos++, 1), "string past the end"); }
		}
		check(b.pos() == pos, "position");
		check(b.isValid() == (pos <= all.size()) && b.empty() == (pos >= all.size()), "validity");
		check(b.data() == all, "bytes changed");
	}
}
template <class F> static void fuzz(F f) {
	Bytes d = R.blob(R.coin(3) ? 60 : 12, 5000);
	d.shrink_to_fit();
	note("bytes", d);
	outcome([&] { f(d); });
}
static void c02_decoders() {
	switch (R.below(7)) {
		case 0: fuzz([](const Bytes& d) { eip::EncapsPacket p; p.expand(d); }); break;
		case 1: fuzz([](const Bytes& d) { check(eip::EncapsPacket::getLengthFromHeader(d) == rd(d, 2, 2), "length field"); }); break;
		case 2: fuzz([](const Bytes& d) { eip::CommonPacket p; p.expand(d); }); break;
		case 3: fuzz([](const Bytes& d) { cip::EPath p; p.expandPaddedPath(d); }); break;
		case 4: fuzz([](const Bytes& d) { cip::MessageRouterResponse p; p.expand(d); }); break;
		case 5: fuzz([](const Bytes& d) { cip::connectionManager::ForwardOpenResponse p; p.expand(d); }); break;
		default: { Bytes d; le(d, R.below(6), 2); while (R.coin() || R.coin()) { le(d, R.u16(), 2); size_t n = R.below(9); le(d, R.coin(4) ? R.u16() : n, 2); for (; n; n--) d.push_back(R.u8()); }
			if (!d.empty() && R.coin()) d.resize(R.below(d.size())); d.shrink_to_fit(); note("bytes", d); outcome([&] { eip::CommonPacket p; p.expand(d); }); }
	}
}

// ------------------------------------------------------------------ C03
static void c03_pack() {
	eip::EncapsPacket p;
	uint16_t cmd = R.u16(); uint32_t h = R.u32(), st = R.u32();
	Bytes d = R.blob(50, 70000);
	if (R.coin(8)) { cmd = 0; h = 0; st = 0; d.clear(); }
	else { p.setCommand((eip::EncapsCommands)cmd); p.setSessionHandle(h); p.setStatusCode((eip::EncapsStatusCodes)st); if (R.coin(4)) p.setData(R.bytes(9)); p.setData(d); }
	note("command", cmd); note("handle", h); note("status", st); note("data", d);
	Bytes img; le(img, cmd, 2); le(img, d.size(), 2); le(img, h, 4); le(img, st, 4); le(img, 0, 8); le(img, 0, 4); img = cat(img, d);
	auto out = p.pack();
	note("packed", out);
	check(out == img, "packed encapsulation packet");
	check(p.getLength() == (uint16_t)d.size() && p.getData() == d && (uint16_t)p.getCommand() == cmd && p.getSessionHandle() == h && (uint32_t)p.getStatusCode() == st, "getters");
	if (d.size() <= 0xffff) {
		eip::EncapsPacket q;
		if (R.coin()) q.setData(R.bytes(4));
		check(outcome([&] { q.expand(out); }) == "ok", "own packet rejected");
		check(q == p && !(q != p), "round trip");
	}
}
static void c03_expand() {
	Bytes d;
	le(d, R.u16(), 2);
	size_t n = R.len(30, 70000);
	uint16_t len = R.coin() ? n : R.coin() ? R.u16() : n + R.below(3) - 1;
	le(d, len, 2); le(d, R.u32(), 4); le(d, R.u32(), 4); le(d, R.u64(), 8); le(d, R.u32(), 4);
	for (size_t i = 0; i < n; i++) d.push_back(R.u8());
	if (R.coin(3)) d.resize(R.below(d.size() + 1));
	d.shrink_to_fit();
	note("bytes", d);
	bool ok = d.size() >= 24 && rd(d, 2, 2) == d.size() - 24;
	eip::EncapsPacket q;
	auto o = outcome([&] { q.expand(d); });
	check(o == (ok ? "ok" : "runtime_error"), "expand " + o);
	if (ok) {
		check((uint16_t)q.getCommand() == rd(d, 0, 2) && q.getLength() == rd(d, 2, 2) && q.getSessionHandle() == rd(d, 4, 4) && (uint32_t)q.getStatusCode() == rd(d, 8, 4) && q.getData() == sub(d, 24, d.size()), "expanded fields");
		check(q.pack() == d, "packing what was expanded");
		check(eip::EncapsPacket::getLengthFromHeader(d) == rd(d, 2, 2), "length from header");
		// one differing byte means a different packet
		Bytes e = d; size_t i = R.below(e.size()); if (i == 2 || i == 3) i = 0; e[i] ^= 1 << R.below(8);
		eip::EncapsPacket r; r.expand(e);
		note("other", e);
		check(!(r == q) && r != q, "different packets compare equal");
		eip::EncapsPacket s; s.expand(d);
		check(s == q && !(s != q), "equal packets compare different");
	}
}
static void c03_factory() {
	eip::EncapsPacketFactory f;
	uint32_t h = R.u32(); uint16_t t = R.u16(); Bytes d = R.blob(30, 65529);
	Bytes i1; le(i1, 0x65, 2); le(i1, 4, 2); le(i1, 0, 20); le(i1, 0, 0); i1.resize(24); le(i1, 1, 2); le(i1, 0, 2);
	check(f.createRegisterSessionPacket().pack() == i1, "register packet");
	Bytes i2; le(i2, 0x66, 2); le(i2, 0, 2); le(i2, h, 4); i2.resize(24);
	check(f.createUnRegisterSessionPacket(h).pack() == i2, "unregister packet");
	Bytes i3; le(i3, 0x6f, 2); le(i3, d.size() + 6, 2); le(i3, h, 4); i3.resize(24); le(i3, 0, 4); le(i3, t, 2); i3 = cat(i3, d);
	check(f.createSendRRDataPacket(h, t, d).pack() == i3, "send RR data packet");
	Bytes i4; le(i4, 0x63, 2); i4.resize(24);
	check(f.createListIdentityPacket().pack() == i4, "list identity packet");
}

// ------------------------------------------------------------------ C04
static void c04_pack() {
	eip::CommonPacket p;
	size_t n = R.len(6, 3000);
	Bytes img; le(img, n, 2);
	std::vector<std::pair<uint16_t, Bytes>> items;
	for (size_t i = 0; i < n; i++) {
		eip::CommonPacketItemFactory f;
		Bytes d = R.blob(12, n < 20 ? 65535 : 12);
		uint16_t t = R.u16();
		uint32_t a = R.u32(), b = R.u32();
		switch (R.below(6)) {
			case 0: t = 0; d.clear(); p << f.createNullAddressItem(); break;
			case 1: t = 0xb2; p << f.createUnconnectedDataItem(d); break;
			case 2: t = 0xb1; p << f.createConnectedDataItem(d); break;
			case 3: t = 0x8002; d.clear(); le(d, a, 4); le(d, b, 4); p << f.createSequenceAddressItem(a, b); break;
			default: p << eip::CommonPacketItem((eip::CommonPacketItemIds)t, d);
		}
		items.push_back({t, d});
		le(img, t, 2); le(img, d.size(), 2); img = cat(img, d);
	}
	auto out = p.pack();
	note("packed", out); note("expected", img);
	check(out == img, "packed common packet");
	eip::CommonPacket q;
	if (R.coin()) q << eip::CommonPacketItem((eip::CommonPacketItemIds)7, {1, 2});
	check(outcome([&] { q.expand(out); }) == "ok", "own packet rejected");
	check(q.getItems().size() == n, "number of items");
	for (size_t i = 0; i < n; i++) {
		auto& it = q.getItems()[i];
		check((uint16_t)it.getTypeId() == items[i].first && it.getLength() == items[i].second.size() && it.getData() == items[i].second, "item " + std::to_string(i));
		check(it == p.getItems()[i] && !(it != p.getItems()[i]), "item equality");
	}
}
static void c04_expand() {
	Bytes d; 
	size_t n = R.len(5, 3000);
	le(d, R.coin(3) ? R.u16() : n + R.below(3) - (n ? 1 : 0), 2);
	if (n > 20) { size_t c = R.len(300, n); d[0] = c; d[1] = c >> 8; }
	for (size_t i = 0; i < n; i++) { le(d, R.u16(), 2); size_t k = n < 20 ? R.len(7, 65535) : R.below(3); le(d, n < 20 && R.coin(8) ? R.u16() : k, 2); for (; k; k--) d.push_back(R.u8()); }
	if (R.coin(3)) d.resize(R.below(d.size() + 1));
	d.shrink_to_fit();
	note("bytes", d);
	struct It { uint16_t t, l; Bytes d; };
	std::vector<It> items; bool bad = false;
	size_t cnt = rd(d, 0, 2), pos = 2;
	for (size_t i = 0; i < cnt && pos < d.size(); i++) {
		It it; it.t = rd(d, pos, 2); it.l = rd(d, pos + 2, 2);
		if (pos + 4 + it.l > d.size()) { bad = true; break; }
		it.d = sub(d, pos + 4, it.l); pos += 4 + it.l; items.push_back(it);
	}
	eip::CommonPacket p;
	if (R.coin()) p << eip::CommonPacketItem((eip::CommonPacketItemIds)7, {1, 2});
	auto o = outcome([&] { p.expand(d); });
	check(o == (bad ? "runtime_error" : "ok"), "expand " + o);
	if (bad) return;
	check(p.getItems().size() == items.size(), "number of items");
	for (size_t i = 0; i < items.size(); i++) {
		auto& it = p.getItems()[i];
		check((uint16_t)it.getTypeId() == items[i].t && it.getLength() == items[i].l && it.getData() == items[i].d, "item " + std::to_string(i));
	}
}
static void c04_equal() {
	Bytes d = R.bytes(5), e = R.coin() ? d : R.bytes(5);
	uint16_t t = R.below(3), u = R.below(3);
	eip::CommonPacketItem a((eip::CommonPacketItemIds)t, d), b((eip::CommonPacketItemIds)u, e);
	note("a", d); note("b", e);
	check((a == b) == (t == u && d == e) && (a != b) == !(t == u && d == e), "item equality");
}

// ------------------------------------------------------------------ C05
struct Seg { int kind; uint16_t id; bool wide; };
static const uint8_t T8[] = {0x20, 0x24, 0x30};
template <class P> static P mk(int n, const uint16_t* id) { return n == 1 ? P(id[0]) : n == 2 ? P(id[0], id[1]) : P(id[0], id[1], id[2]); }
static void c05_path() {
	int n = 1 + R.below(3);
	uint16_t id[3] = {R.u16(), R.u16(), R.u16()};
	bool small = R.coin();
	if (small) for (auto& x : id) x &= 0xff;
	if (R.coin(4)) id[R.below(3)] = 0;
	auto p = mk<cip::EPath>(n, id);
	for (int i = 0; i < n; i++) note("id", id[i]);
	check(p.getClassId() == id[0] && p.getObjectId() == (n > 1 ? id[1] : 0) && p.getAttributeId() == (n > 2 ? id[2] : 0), "ids of the path");
	for (int w = 0; w < 2; w++) {
		bool use8 = w;
		if (use8 && !(id[0] < 256 && (n < 2 || id[1] < 256) && (n < 3 || id[2] < 256))) continue;
		Bytes img;
		for (int i = 0; i < n; i++) { if (use8) { img.push_back(T8[i]); img.push_back(id[i]); } else { img.push_back(T8[i] + 1); img.push_back(0); le(img, id[i], 2); } }
		auto out = p.packPaddedPath(use8);
		note("packed", out);
		check(out == img, "packed path");
		check(p.getSizeInWords(use8) * 2u == img.size(), "path size");
		cip::EPath q(R.u16(), R.u16(), R.u16());
		check(outcome([&] { q.expandPaddedPath(out); }) == "ok", "own path rejected");
		check(q == p && q.packPaddedPath(use8) == img && q.getSizeInWords(use8) * 2u == img.size(), "path round trip");
	}
	uint16_t jd[3] = {id[0], id[1], id[2]}; int m = R.coin() ? n : 1 + R.below(3);
	if (R.coin()) jd[R.below(3)] ^= 1 << R.below(16);
	auto o = mk<cip::EPath>(m, jd);
	(void)o;
}
static void c05_expand() {
	std::vector<Seg> segs(R.below(5));
	Bytes d; bool bad = false; size_t end = 0;
	uint16_t id[3] = {0, 0, 0};
	for (auto& s : segs) {
		s.kind = R.below(3); s.id = R.coin(4) ? 0 : R.u16(); s.wide = R.coin();
		if (!s.wide) s.id &= 0xff;
		if (s.wide) { d.push_back(T8[s.kind] + 1); d.push_back(R.coin(4) ? R.u8() : 0); le(d, s.id, 2); } else { d.push_back(T8[s.kind]); d.push_back(s.id); }
		if (R.coin(12)) { d[end] = R.u8(); }
		end = d.size();
	}
	if (R.coin(3)) d.resize(R.below(d.size() + 1));
	d.shrink_to_fit();
	note("bytes", d);
	size_t i = 0;
	while (i < d.size()) {
		uint8_t t = d[i]; int k = -1; bool wide = t & 1;
		for (int j = 0; j < 3; j++) if ((t & 0xfe) == T8[j]) k = j;
		size_t w = wide ? 4 : 2;
		if (k < 0 || i + w > d.size()) { bad = true; break; }
		id[k] = wide ? rd(d, i + 2, 2) : d[i + 1];
		i += w;
	}
	cip::EPath p;
	auto o = outcome([&] { p.expandPaddedPath(d); });
	check(o == (bad ? "runtime_error" : "ok"), "expand " + o);
	if (!bad) check(p.getClassId() == id[0] && p.getObjectId() == id[1] && p.getAttributeId() == id[2], "expanded ids");
}

// ------------------------------------------------------------------ C20
static std::string rhost() {
	static const char* H[] = {"", "0", "1", "127.0.0.1", "127.0.0.10", "127.0.0.9", "192.168.0.1", "10.0.0.1", "host", "10.0.0.01", "2130706433"};
	if (R.coin(3)) return H[R.below(11)];
	char t[32]; snprintf(t, 32, "%d.%d.%d.%d", (int)R.below(3), (int)R.below(2), (int)R.below(2), (int)R.below(12)); return t;
}
static EndPoint rend() { return EndPoint(rhost(), R.coin() ? R.below(4) : R.u16()); }
static void c20() {
	EndPoint a = rend(), b = R.coin(4) ? EndPoint(a.getHost(), R.below(4)) : rend(), c = R.coin(4) ? EndPoint(b.getHost(), R.below(4)) : rend();
	note("a", a.toString()); note("b", b.toString()); note("c", c.toString());
	check(!(a < a), "irreflexive");
	check(!(a < b && b < a), "asymmetric");
	if (a < b && b < c) check(a < c, "transitive");
	bool same = a.getHost() == b.getHost() && a.getPort() == b.getPort();
	check((!(a < b) && !(b < a)) == same, "two endpoints with different host or port are equivalent, or equal ones are not");
	if (!(a < b) && !(b < a) && !(b < c) && !(c < b)) check(!(a < c) && !(c < a), "equivalence is transitive");
	bool eq = same && a.getAddr().sin_addr.s_addr == b.getAddr().sin_addr.s_addr && a.getAddr().sin_port == b.getAddr().sin_port && a.getAddr().sin_family == b.getAddr().sin_family;
	check((a == b) == eq && (a != b) == !eq, "equality");
	int port = R.u16(); std::string h = rhost();
	EndPoint e(h, port);
	check(e.getHost() == h && e.getPort() == port && e.getAddr().sin_family == AF_INET && e.getAddr().sin_port == htons(port), "constructed endpoint");
	sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_port = R.u16(); sa.sin_addr.s_addr = R.u32();
	EndPoint f(sa);
	check(f.getPort() == ntohs(sa.sin_port) && f.getHost() == inet_ntoa(sa.sin_addr) && f.getAddr().sin_addr.s_addr == sa.sin_addr.s_addr && f.getAddr().sin_port == sa.sin_port, "endpoint from a socket address");
	check((EndPoint(f.getHost(), f.getPort()) == f), "same endpoint by name");
	// same host and port but another binary address (or family) is another endpoint
	sockaddr_in sb = sa; sb.sin_family = R.coin() ? AF_INET : 7; sb.sin_port = R.coin() ? sa.sin_port : R.u16();
	EndPoint g(sb);
	bool eq2 = f.getHost() == g.getHost() && f.getPort() == g.getPort() && sa.sin_family == sb.sin_family && sa.sin_port == sb.sin_port;
	check((f == g) == eq2 && (g == f) == eq2 && (f != g) == !eq2, "equality 2");
	std::map<EndPoint, int> m; std::map<std::pair<std::string, int>, int> o;
	for (int i = 0; i < 12; i++) { auto x = rend(); m[x] = i; o[{x.getHost(), x.getPort()}] = i; }
	for (auto& kv : o) { auto it = m.find(EndPoint(kv.first.first, kv.first.second)); check(it != m.end() && it->second == kv.second, "table lookup"); }
	check(m.size() == o.size(), "table size");
}
int main(int c, char** v) {
	return run(c, v, {{"C01", {c01_prims, c01_arrays, c01_structs}}, {"C02", {c02_prims, c02_decoders}}, {"C03", {c03_pack, c03_expand, c03_factory}},
		{"C04", {c04_pack, c04_expand, c04_equal}}, {"C05", {c05_path, c05_expand}}, {"C20", {c20}}});
}
