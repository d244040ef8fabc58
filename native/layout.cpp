// C10, C11: connection manager layouts and connection parameter words
#include "nv.h"
#include "cip/connectionManager/ForwardOpenRequest.h"
#include "cip/connectionManager/LargeForwardOpenRequest.h"
#include "cip/connectionManager/ForwardCloseRequest.h"
#include "cip/connectionManager/ForwardOpenResponse.h"
#include "cip/connectionManager/NetworkConnectionParametersBuilder.h"
using namespace nv;
using namespace eipScanner::cip;
using namespace eipScanner::cip::connectionManager;
#define R g_rng
static void opens() {
	ConnectionParameters p;
	p.priorityTimeTick = R.u8(); p.timeoutTicks = R.u8(); p.o2tNetworkConnectionId = R.u32(); p.t2oNetworkConnectionId = R.u32(); p.connectionSerialNumber = R.u16();
	p.originatorVendorId = R.u16(); p.originatorSerialNumber = R.u32(); p.connectionTimeoutMultiplier = R.u8(); p.o2tRPI = R.u32(); p.o2tNetworkConnectionParams = R.u32();
	p.t2oRPI = R.u32(); p.t2oNetworkConnectionParams = R.u32(); p.transportTypeTrigger = R.u8(); p.connectionPathSize = R.u8(); p.o2tRealTimeFormat = R.coin(); p.t2oRealTimeFormat = R.coin();
	p.connectionPath = R.bytes(R.coin(4) ? 510 : 20); if (p.connectionPath.size() & 1) p.connectionPath.pop_back();
	for (int large = 0; large < 2; large++) {
		Bytes w; int n = large ? 4 : 2;
		le(w, p.priorityTimeTick, 1); le(w, p.timeoutTicks, 1); le(w, p.o2tNetworkConnectionId, 4); le(w, p.t2oNetworkConnectionId, 4); le(w, p.connectionSerialNumber, 2);
		le(w, p.originatorVendorId, 2); le(w, p.originatorSerialNumber, 4); le(w, p.connectionTimeoutMultiplier, 1); le(w, 0, 3); le(w, p.o2tRPI, 4); le(w, p.o2tNetworkConnectionParams, n);
		le(w, p.t2oRPI, 4); le(w, p.t2oNetworkConnectionParams, n); le(w, p.transportTypeTrigger, 1); le(w, p.connectionPathSize, 1);
		w = cat(w, p.connectionPath);
		Bytes g = large ? LargeForwardOpenRequest(p).pack() : ForwardOpenRequest(p).pack();
		note("packed", g); note("expected", w);
		check(g == w, large ? "large forward open layout" : "forward open layout");
	}
}
static void closes() {
	ForwardCloseRequest q;
	uint16_t sn = R.u16(), v = R.u16(); uint32_t o = R.u32(); Bytes path = R.bytes(R.coin(4) ? 510 : 20); if (path.size() & 1) path.pop_back();
	q.setConnectionPath(path); q.setConnectionSerialNumber(sn); q.setOriginatorVendorId(v); q.setOriginatorSerialNumber(o);
	Bytes w; le(w, 0, 2); le(w, sn, 2); le(w, v, 2); le(w, o, 4); le(w, path.size() / 2, 1); le(w, 0, 1); w = cat(w, path);
	note("packed", q.pack()); note("expected", w);
	check(q.pack() == w, "forward close layout");
}
static void reply() {
	Bytes d = R.bytes(R.coin(4) ? 600 : 60);
	if (R.coin() && d.size() > 26) { d[24] = R.below((d.size() - 26) / 2 + 2); }
	note("reply", d);
	ForwardOpenResponse r;
	if (R.coin(3)) r.expand(R.bytes(40));
	r.expand(d);
	check(r.getO2TNetworkConnectionId() == rd(d, 0, 4), "o2t id"); check(r.getT2ONetworkConnectionId() == rd(d, 4, 4), "t2o id"); check(r.getConnectionSerialNumber() == rd(d, 8, 2), "serial");
	check(r.getOriginatorVendorId() == rd(d, 10, 2), "vendor"); check(r.getOriginatorSerialNumber() == rd(d, 12, 4), "originator serial"); check(r.getO2TApi() == rd(d, 16, 4), "o2t api");
	check(r.getT2OApi() == rd(d, 20, 4), "t2o api"); check(r.getApplicationReplaySize() == rd(d, 24, 1), "reply size");
	Bytes a = sub(d, 26, 2 * rd(d, 24, 1)); a.resize(2 * rd(d, 24, 1));
	note("application data", r.getApplicationReplay()); note("expected", a);
	check(r.getApplicationReplay() == a, "application reply data");
}
typedef NetworkConnectionParametersBuilder NB;
static void builder() {
	bool l = R.coin();
	NB b(0, l);
	uint32_t w = 0, f[5] = {0, 0, 0, 0, 0}; static const int S[5] = {15, 13, 10, 9, 0}, SL[5] = {31, 29, 26, 25, 0}; uint32_t lim = l ? 0xffff : 0x1ff;
	int order[5] = {0, 1, 2, 3, 4}; for (int i = 4; i > 0; i--) std::swap(order[i], order[R.below(i + 1)]);
	int n = R.below(6); std::string hist;
	for (int i = 0; i < n; i++) {
		uint32_t v = order[i] == 4 ? R.u16() : R.below(order[i] == 0 || order[i] == 3 ? 2 : 4);
		hist += std::to_string(order[i]) + "=" + std::to_string(v) + " ";
		const NB* r = 0;
		switch (order[i]) { case 0: { auto&& x = b.setRedundantOwner((NB::RedundantOwner)v); r = &x; break; } case 1: r = &b.setConnectionType((NB::ConnectionType)v); break;
			case 2: r = &b.setPriority((NB::Priority)v); break; case 3: r = &b.setType((NB::Type)v); break; default: r = &b.setConnectionSize(v); }
		if (order[i] == 4) v &= lim;
		f[order[i]] = v; w |= v << (l ? SL : S)[order[i]];
		note("32-bit", l); note("history (0 owner 1 type 2 priority 3 fixed 4 size)", hist); note("word", b.build()); note("expected", w);
		check(b.build() == w, "parameter word");
		check(r == &b, "a setter does not return its own object");
		check(b.getRedundantOwner() == f[0] && b.getConnectionType() == f[1] && b.getPriority() == f[2] && b.getType() == f[3] && b.getConnectionSize() == f[4], "a getter");
	}
	uint32_t a[5]; for (int i = 0; i < 5; i++) a[i] = i == 4 ? R.u16() : R.below(i == 0 || i == 3 ? 2 : 4);
	w = 0; for (int i = 0; i < 5; i++) w |= (i == 4 ? a[i] & lim : a[i]) << (l ? SL : S)[i];
	NB c(0, l);
	c.setRedundantOwner((NB::RedundantOwner)a[0]).setConnectionType((NB::ConnectionType)a[1]).setPriority((NB::Priority)a[2]).setType((NB::Type)a[3]).setConnectionSize(a[4]);
	check(c.build() == w, "chained setters");
	uint32_t any = R.u32(); NB d(any, l);
	for (int i = 0; i < 5; i++) { uint32_t m = i == 4 ? lim : i == 0 || i == 3 ? 1 : 3, g = i == 0 ? d.getRedundantOwner() : i == 1 ? d.getConnectionType() : i == 2 ? d.getPriority() : i == 3 ? d.getType() : d.getConnectionSize();
		check(g == (any >> (l ? SL : S)[i] & m), "getter of a given word"); }
}
int main(int c, char** v) { return run(c, v, {{"C10", {opens, closes, reply}}, {"C11", {builder}}}); }
