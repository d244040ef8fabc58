// A stand-in for the socket calls: records every call with its arguments and answers from a plan. No real network is touched.
#pragma once
#include "nv.h"
#include <cerrno>
#include <cstdarg>
#include <deque>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
namespace fn {
using nv::Bytes;
struct Call { std::string name; int fd = -1; Bytes data; size_t size = 0; int flags = 0; long a = 0, b = 0, c = 0; sockaddr_in addr{}; Bytes val; std::set<int> rset, wset, eset; bool tv = false; long sec = 0, usec = 0; };
struct Ans { long r; int e; Bytes data; sockaddr_in from{}; int value = 0; std::set<int> ready; };
inline std::vector<Call> log;
inline std::function<Ans(const Call&)> answer;
inline Ans go(Call c) { log.push_back(c); Ans a = answer(c); errno = a.e; return a; }
inline Bytes mem(const void* p, size_t n) { return n ? Bytes((const uint8_t*)p, (const uint8_t*)p + n) : Bytes(); }
inline std::set<int> fds(const fd_set* s) { std::set<int> r; if (s) for (int i = 0; i < FD_SETSIZE; i++) if (FD_ISSET(i, s)) r.insert(i); return r; }
inline size_t count(const char* n) { size_t k = 0; for (auto& c : log) k += c.name == n; return k; }
inline std::string names() { std::string s; for (auto& c : log) s += c.name + " "; return s; }
}
extern "C" {
int __wrap_socket(int d, int t, int p) { fn::Call c; c.name = "socket"; c.a = d; c.b = t; c.c = p; return fn::go(c).r; }
int __wrap_close(int fd) { fn::Call c; c.name = "close"; c.fd = fd; return fn::go(c).r; }
int __wrap_shutdown(int fd, int h) { fn::Call c; c.name = "shutdown"; c.fd = fd; c.a = h; return fn::go(c).r; }
int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); fn::Call c; c.name = "fcntl"; c.fd = fd; c.a = cmd; if (cmd == F_SETFL) c.b = va_arg(ap, int); va_end(ap); return fn::go(c).r; }
static int addrcall(const char* n, int fd, const sockaddr* a, socklen_t l) { fn::Call c; c.name = n; c.fd = fd; memcpy(&c.addr, a, l < sizeof c.addr ? l : sizeof c.addr); c.size = l; return fn::go(c).r; }
int __wrap_connect(int fd, const sockaddr* a, socklen_t l) { return addrcall("connect", fd, a, l); }
int __wrap_bind(int fd, const sockaddr* a, socklen_t l) { return addrcall("bind", fd, a, l); }
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* tv) {
	fn::Call c; c.name = "select"; c.a = n; c.rset = fn::fds(r); c.wset = fn::fds(w); c.eset = fn::fds(e); if (tv) { c.tv = true; c.sec = tv->tv_sec; c.usec = tv->tv_usec; }
	auto a = fn::go(c); int er = errno;
	for (auto* s : {r, w, e}) if (s) { fd_set o = *s; FD_ZERO(s); for (int f : a.ready) if (FD_ISSET(f, &o)) FD_SET(f, s); }
	errno = er; return a.r;
}
int __wrap_getsockopt(int fd, int l, int o, void* p, socklen_t* n) { fn::Call c; c.name = "getsockopt"; c.fd = fd; c.a = l; c.b = o; auto a = fn::go(c); if (a.r == 0) memcpy(p, &a.value, sizeof(int)); return a.r; }
int __wrap_setsockopt(int fd, int l, int o, const void* p, socklen_t n) { fn::Call c; c.name = "setsockopt"; c.fd = fd; c.a = l; c.b = o; c.val = fn::mem(p, n); return fn::go(c).r; }
ssize_t __wrap_send(int fd, const void* p, size_t n, int f) { fn::Call c; c.name = "send"; c.fd = fd; c.data = fn::mem(p, n); c.size = n; c.flags = f; return fn::go(c).r; }
ssize_t __wrap_sendto(int fd, const void* p, size_t n, int f, const sockaddr* a, socklen_t l) { fn::Call c; c.name = "sendto"; c.fd = fd; c.data = fn::mem(p, n); c.size = n; c.flags = f; memcpy(&c.addr, a, sizeof c.addr); return fn::go(c).r; }
static ssize_t recvcall(const char* nm, int fd, void* p, size_t n, int f, sockaddr* from, socklen_t* l) {
	fn::Call c; c.name = nm; c.fd = fd; c.size = n; c.flags = f; auto a = fn::go(c);
	if (a.r > 0) { if ((size_t)a.r > n) a.r = n; memcpy(p, a.data.data(), a.r); }
	if (from && a.r >= 0) { memcpy(from, &a.from, sizeof a.from); if (l) *l = sizeof a.from; }
	return a.r;
}
ssize_t __wrap_recv(int fd, void* p, size_t n, int f) { return recvcall("recv", fd, p, n, f, 0, 0); }
ssize_t __wrap_recvfrom(int fd, void* p, size_t n, int f, sockaddr* a, socklen_t* l) { return recvcall("recvfrom", fd, p, n, f, a, l); }
}
