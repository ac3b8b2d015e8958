// C27: connection probe, datagrams, socket options and the other socket calls.
#include <cy_core.h>
#include <cy_network.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <errno.h>
#include <sys/time.h>
#include <netinet/tcp.h>
#include <deque>
#include "vh.h"
using namespace cyclone;
using vh::Rng;

// ---- failures the kernel may report ------------------------------------------------------------------
static __thread int t_fault = 0; static __thread int t_err = 0; static __thread long t_hit = 0;     // 1 socket 2 fcntl 3 connect
extern "C" {
int __real_socket(int, int, int); int __real_fcntl(int, int, long); int __real_connect(int, const struct sockaddr*, socklen_t); int __real_getsockopt(int, int, int, void*, socklen_t*); int __real_poll(struct pollfd*, nfds_t, int);
int __wrap_getsockopt(int f, int l, int o, void* v, socklen_t* n) { if (l == SOL_SOCKET && o == SO_ERROR && t_fault == 5) { t_hit++; *(int*)v = t_err; *n = sizeof(int); return 0; } if (l == SOL_SOCKET && o == SO_ERROR && t_fault == 6) { t_hit++; errno = t_err; return -1; } return __real_getsockopt(f, l, o, v, n); }
int __wrap_poll(struct pollfd* p, nfds_t n, int t) { if (t_fault == 7) { t_hit++; errno = t_err; return -1; } return __real_poll(p, n, t); }
int __wrap_socket(int d, int t, int p) { if (t_fault == 1) { t_hit++; errno = t_err; return -1; } return __real_socket(d, t, p); }
int __wrap_fcntl(int f, int c, long a) { if ((t_fault == 2 && c == F_GETFL) || (t_fault == 4 && c == F_SETFL)) { t_hit++; errno = t_err; return -1; } return __real_fcntl(f, c, a); }
int __wrap_connect(int f, const struct sockaddr* a, socklen_t n) { if (t_fault == 3) { t_hit++; errno = t_err; return -1; } return __real_connect(f, a, n); }
}
static sockaddr_in local(int fd) { sockaddr_in s; socklen_t n = sizeof s; memset(&s, 0, n); ::getsockname(fd, (sockaddr*)&s, &n); return s; }
static sockaddr_in loop_(Rng& r, uint16_t port = 0) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(0x7F000001 + (uint32_t)r.below(3000)); s.sin_port = htons(port); return s; }
static void sleepms(int ms) { vh::usleep_((unsigned)ms * 1000); }
static std::vector<int> high_;                      // occupied descriptors
static void fill_high(size_t upto) { struct rlimit l; getrlimit(RLIMIT_NOFILE, &l); if (l.rlim_cur < 4096) { l.rlim_cur = l.rlim_max < 4096 ? l.rlim_max : 4096; setrlimit(RLIMIT_NOFILE, &l); } while (high_.size() < upto) { int f = open("/dev/null", O_RDONLY); if (f < 0) break; high_.push_back(f); } if (high_.size() == upto) vh::stat("high_descriptor_rounds"); }
static void drop_high() { for (int f : high_) close(f); high_.clear(); }

struct Signals {        // interrupts the calling thread's system calls
	std::atomic<int> run{ 1 }; std::thread t; pthread_t who;
	Signals(bool on, unsigned us) : who(pthread_self()) { if (on) t = std::thread([this, us] { while (run.load(std::memory_order_relaxed)) { vh::usleep_(us); pthread_kill(who, SIGUSR1); vh::stat("signals"); } }); }
	~Signals() { run = 0; if (t.joinable()) t.join(); }
};
static void probe_case(Rng& r) {
	int kind = (int)r.below(7); bool hi = r.chance(1, 4), sig = r.chance(1, 3); unsigned sigus = (unsigned)r.range(500, 20000);
	int tmo = 0; bool expect = false, judge = true; double minT = 0, maxT = 1e9; int l = -1; std::vector<int> fill; sockaddr_in a = loop_(r);
	if (hi) fill_high(1030 + r.below(30));
	l = __real_socket(AF_INET, SOCK_STREAM, 0); if (::bind(l, (sockaddr*)&a, sizeof a) != 0) { close(l); drop_high(); return; } a = local(l);
	std::thread helper; const char* name = "";
	auto fillq = [&] { ::listen(l, 0); for (int i = 0; i < 8; i++) { int c = __real_socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); fill.push_back(c); __real_connect(c, (sockaddr*)&a, sizeof a); pollfd p = { c, POLLOUT, 0 }; if (__real_poll(&p, 1, 20) == 0) return true; } return false; };
	bool accepted = false; t_fault = 0; t_hit = 0;
	switch (kind) {
	case 0: case 1: name = "open"; ::listen(l, 16); expect = true; tmo = r.chance(1, 3) ? -1 : r.chance(1, 4) ? 2147483 : (int)r.range(10000, 30000); accepted = true; break;
	case 2: name = "closed"; if (r.chance(1, 2)) { close(l); l = -1; } expect = false; tmo = r.chance(1, 3) ? -1 : (int)r.range(5000, 100000); maxT = 4; break;
	case 3: name = "silent"; if (!fillq()) { judge = false; tmo = 10; break; } vh::stat("blocked_peers"); expect = false; tmo = (int)r.below(r.chance(1, 3) ? 400 : 60); minT = tmo / 1000.0 - 0.0004; maxT = tmo / 1000.0 + 8; break;
	case 4: name = "late"; if (r.chance(2, 3) || !fillq()) { name = "open"; ::listen(l, 16); expect = true; tmo = 20000; accepted = true; break; }
		vh::stat("blocked_peers"); expect = true; tmo = r.chance(1, 2) ? -1 : 60000; { int ms = (int)r.range(50, 400); helper = std::thread([=] { sleepms(ms); pollfd p = { l, POLLIN, 0 }; double e = vh::now() + 25; while (vh::now() < e) { if (__real_poll(&p, 1, 100) > 0) { int c = ::accept(l, 0, 0); if (c >= 0) close(c); } int v; if (::read(0, &v, 0) < 0) {} if (t_fault) break; extern std::atomic<int> g_stop_helper; if (g_stop_helper) break; } }); } break;
	case 5: name = "zero"; ::listen(l, 16); tmo = (int)r.below(3); judge = false; maxT = 8; break;
	default: name = "fault"; ::listen(l, 16); expect = false; tmo = 1000; t_fault = (int)r.range(1, 7); { static const std::vector<int> e[8] = { {}, { EMFILE, ENFILE, ENOBUFS, ENOMEM, EACCES, EAGAIN }, { EBADF, EPERM, EINVAL }, { ENETUNREACH, EADDRNOTAVAIL, ECONNREFUSED, EAGAIN, EACCES, EPERM, EHOSTUNREACH, ETIMEDOUT, EAFNOSUPPORT, ENOBUFS, ECONNRESET, EADDRINUSE }, { EINVAL, EPERM, EBADF }, { EHOSTUNREACH, ETIMEDOUT, ECONNRESET, ECONNREFUSED, ENETUNREACH, EACCES, EPIPE, EPROTO, EAGAIN }, { EBADF, ENOBUFS, ENOTSOCK }, { ENOMEM, EINVAL, EFAULT, EAGAIN } }; t_err = e[t_fault][r.below(e[t_fault].size())]; } break;
	}
	extern std::atomic<int> g_stop_helper; g_stop_helper = 0;
	int flt = t_fault, terr = t_err; vh::setcase("probe %s timeout %d fault %d/%d high %d signals %d", name, tmo, flt, terr, (int)high_.size(), sig); vh::tick("check_connect");
	int saved = t_fault; t_fault = 0; int before = helper.joinable() ? -1 : vh::count_fds(); t_fault = saved; bool got; double t0, t1;
	{ Signals s(sig, sigus); t0 = vh::now(); got = socket_api::check_connect(a, tmo); t1 = vh::now(); }
	t_fault = 0; g_stop_helper = 1; if (helper.joinable()) helper.join();
	vh::tick("probe done"); vh::stat("evaluations"); vh::stat((std::string("probe_") + name).c_str()); vh::distinct(vh::mix(vh::mix((uint64_t)kind, (uint64_t)tmo), flt * 16 + hi * 2 + sig)); if (flt && t_hit) vh::stat("injected_faults");
	if (flt && !t_hit) judge = false;
	if (judge) VH_CHECK(got == expect, (std::string("probe-result:") + name).c_str(), "check_connect says %d for a%s peer (timeout %d ms, took %.3f s)", got, expect ? " reachable" : "n unreachable", tmo, t1 - t0);
	VH_CHECK(t1 - t0 >= minT, "probe-early", "gave up after %.4f s of %d ms", t1 - t0, tmo);
	VH_CHECK(t1 - t0 <= maxT, "probe-late", "took %.3f s, timeout %d ms", t1 - t0, tmo);
	if (before >= 0) { int after = vh::count_fds(); VH_CHECK(after == before, "probe-leak", "%d descriptors before the probe, %d after", before, after); }
	if (accepted && got && l >= 0) {            // what the other side sees: one connection that was closed again, no data
		pollfd p = { l, POLLIN, 0 }; if (__real_poll(&p, 1, 8000) > 0) { int c = ::accept(l, 0, 0); pollfd q = { c, POLLIN, 0 }; char b[8]; int ok = __real_poll(&q, 1, 8000); ssize_t n = ok > 0 ? ::recv(c, b, sizeof b, MSG_DONTWAIT) : -2; VH_CHECK(n == 0 || (n < 0 && errno == ECONNRESET), "probe-open", "the probe's connection was not closed (recv %zd)", n); close(c); vh::stat("probe_seen_closed");
			pollfd p2 = { l, POLLIN, 0 }; VH_CHECK(__real_poll(&p2, 1, 0) == 0, "probe-twice", "more than one connection was made"); }
		else vh::viol("probe-phantom", "reported as connectable but no connection arrived");
	}
	for (int f : fill) close(f); if (l >= 0) close(l); drop_high();
}
std::atomic<int> g_stop_helper{ 0 };

// ---- options -------------------------------------------------------------------------------------------
struct Snap { long v[14]; };
static const char* snapName[14] = { "O_NONBLOCK", "other flags", "FD_CLOEXEC", "SO_REUSEADDR", "SO_REUSEPORT", "SO_KEEPALIVE", "TCP_NODELAY", "linger on", "linger time", "SO_TYPE", "SO_BROADCAST", "SO_OOBINLINE", "SO_RCVBUF", "SO_SNDBUF" };
static long gopt(int fd, int lv, int o) { int v = -12345; socklen_t n = sizeof v; if (getsockopt(fd, lv, o, &v, &n) != 0) return -99; return v; }
static Snap snap(int fd) { Snap s; long fl = __real_fcntl(fd, F_GETFL, 0); s.v[0] = (fl & O_NONBLOCK) != 0; s.v[1] = fl & ~O_NONBLOCK; s.v[2] = __real_fcntl(fd, F_GETFD, 0) & FD_CLOEXEC; s.v[3] = gopt(fd, SOL_SOCKET, SO_REUSEADDR) != 0; s.v[4] = gopt(fd, SOL_SOCKET, SO_REUSEPORT) != 0; s.v[5] = gopt(fd, SOL_SOCKET, SO_KEEPALIVE) != 0; s.v[6] = gopt(fd, IPPROTO_TCP, TCP_NODELAY);
	linger l; socklen_t n = sizeof l; memset(&l, 0, n); getsockopt(fd, SOL_SOCKET, SO_LINGER, &l, &n); s.v[7] = l.l_onoff != 0; s.v[8] = l.l_linger; s.v[9] = gopt(fd, SOL_SOCKET, SO_TYPE); s.v[10] = gopt(fd, SOL_SOCKET, SO_BROADCAST); s.v[11] = gopt(fd, SOL_SOCKET, SO_OOBINLINE); s.v[12] = gopt(fd, SOL_SOCKET, SO_RCVBUF); s.v[13] = gopt(fd, SOL_SOCKET, SO_SNDBUF); return s; }
static void option_case(Rng& r) {
	bool udp = r.chance(1, 3); vh::setcase("options udp %d", udp); vh::tick("options");
	socket_t fd = socket_api::create_socket(udp); VH_CHECK(fd >= 0, "create", "no socket"); if (fd < 0) return;
	VH_CHECK(gopt(fd, SOL_SOCKET, SO_TYPE) == (udp ? SOCK_DGRAM : SOCK_STREAM) && gopt(fd, SOL_SOCKET, SO_DOMAIN) == AF_INET && gopt(fd, SOL_SOCKET, SO_PROTOCOL) == (udp ? IPPROTO_UDP : IPPROTO_TCP), "create-type", "wrong kind of socket: type %ld protocol %ld", gopt(fd, SOL_SOCKET, SO_TYPE), gopt(fd, SOL_SOCKET, SO_PROTOCOL));
	if (r.chance(1, 4)) { long fl = __real_fcntl(fd, F_GETFL, 0); __real_fcntl(fd, F_SETFL, fl | O_ASYNC); }      // an unrelated flag that must survive
	int other = __real_socket(AF_INET, SOCK_STREAM, 0); Snap oth = snap(other);
	Snap m = snap(fd);
	for (int i = 0, n = (int)r.range(4, 30); i < n; i++) {
		bool on = r.chance(1, 2), ok = true, want = true; int what = (int)r.below(8); const char* nm = "";
		switch (what) {
		case 0: nm = "set_nonblock"; ok = socket_api::set_nonblock(fd, on); m.v[0] = on; break;
		case 1: nm = "set_close_onexec"; ok = socket_api::set_close_onexec(fd, on); m.v[2] = on ? FD_CLOEXEC : 0; break;
		case 2: nm = "set_reuse_addr"; ok = socket_api::set_reuse_addr(fd, on); m.v[3] = on; break;
		case 3: nm = "set_reuse_port"; ok = socket_api::set_reuse_port(fd, on); m.v[4] = on; break;
		case 4: nm = "set_keep_alive"; ok = socket_api::set_keep_alive(fd, on); m.v[5] = on; break;
		case 5: nm = "set_nodelay"; ok = socket_api::set_nodelay(fd, on); want = !udp; if (!udp) m.v[6] = on; break;
		case 6: { nm = "set_linger"; uint16_t t = (uint16_t)(r.chance(1, 3) ? 0 : r.chance(1, 4) ? 65535 : r.next()); ok = socket_api::set_linger(fd, on, t); m.v[7] = on; m.v[8] = on ? t : 0; if (!on) { m.v[8] = snap(fd).v[8]; } break; }
		default: { nm = "setsockopt"; int v = on; bool bad = r.chance(1, 3); ok = socket_api::setsockopt(fd, SOL_SOCKET, bad ? 9999 : SO_BROADCAST, &v, sizeof v); want = !bad; if (!bad) m.v[10] = on; break; }
		}
		vh::stat("evaluations"); vh::stat("option_calls"); vh::distinct(vh::mix(what * 4 + on * 2 + udp, 77));
		int er = errno; VH_CHECK(ok == want, (std::string("option-result:") + nm).c_str(), "%s(%d) says %d on a %s socket (errno %d)", nm, on, ok, udp ? "udp" : "tcp", er);
		Snap g = snap(fd); for (int k = 0; k < 14; k++) VH_CHECK(g.v[k] == m.v[k], (std::string("option:") + nm + ":" + snapName[k]).substr(0, 60).c_str(), "after %s(%d): %s is %ld, expected %ld", nm, on, snapName[k], g.v[k], m.v[k]);
		m = g; Snap o2 = snap(other); VH_CHECK(memcmp(&o2, &oth, sizeof o2) == 0, "option-other", "%s changed another socket", nm);
	}
	// what cannot be set is not reported as set
	{ int p2[2]; (void)!pipe(p2); int none = __real_socket(AF_INET, SOCK_STREAM, 0); close(none); int bads[3] = { -1, none, p2[0] };
		for (int i = 0; i < 6; i++) { int kind = (int)r.below(3), b = bads[kind]; bool on = r.chance(1, 2), ok = false, want = false; const char* nm = ""; int what = (int)r.below(8);
			switch (what) {
			case 0: nm = "set_nonblock"; ok = socket_api::set_nonblock(b, on); want = kind == 2; if (want) VH_CHECK(!!(__real_fcntl(b, F_GETFL, 0) & O_NONBLOCK) == on, "option-pipe", "%s(%d) on a pipe had no effect", nm, on); break;
			case 1: nm = "set_close_onexec"; ok = socket_api::set_close_onexec(b, on); want = kind == 2; if (want) VH_CHECK(!!(__real_fcntl(b, F_GETFD, 0) & FD_CLOEXEC) == on, "option-pipe", "%s(%d) on a pipe had no effect", nm, on); break;
			case 2: nm = "set_reuse_addr"; ok = socket_api::set_reuse_addr(b, on); break;
			case 3: nm = "set_reuse_port"; ok = socket_api::set_reuse_port(b, on); break;
			case 4: nm = "set_keep_alive"; ok = socket_api::set_keep_alive(b, on); break;
			case 5: nm = "set_nodelay"; ok = socket_api::set_nodelay(b, on); break;
			case 6: nm = "set_linger"; ok = socket_api::set_linger(b, on, (uint16_t)r.below(3)); break;
			default: { nm = "setsockopt"; int v = on; ok = socket_api::setsockopt(b, SOL_SOCKET, SO_BROADCAST, &v, sizeof v); break; }
			}
			vh::stat("option_on_bad"); VH_CHECK(ok == want, (std::string("option-bad:") + nm).c_str(), "%s(%d) says %d on %s", nm, on, ok, kind == 0 ? "descriptor -1" : kind == 1 ? "a closed descriptor" : "a pipe"); }
		close(p2[0]); close(p2[1]); }
	socket_api::close_socket(fd); VH_CHECK(__real_fcntl(fd, F_GETFD, 0) < 0 && __real_fcntl(other, F_GETFD, 0) >= 0, "close", "close_socket: closed %d, other open %d", __real_fcntl(fd, F_GETFD, 0) < 0, __real_fcntl(other, F_GETFD, 0) >= 0);
	VH_CHECK(!socket_api::set_nonblock(fd, true) && !socket_api::set_close_onexec(fd, true) && !socket_api::set_keep_alive(fd, true) && !socket_api::set_linger(fd, true, 1) && !socket_api::set_reuse_addr(fd, true) && !socket_api::listen(fd) && !socket_api::shutdown(fd), "bad-descriptor", "a call on a closed descriptor reports success");
	VH_CHECK(socket_api::get_socket_error(fd) == EBADF, "bad-error", "get_socket_error of a closed descriptor is %d", socket_api::get_socket_error(fd));
	close(other);
}
// ---- datagrams -----------------------------------------------------------------------------------------
static void udp_case(Rng& r) {
	int n = (int)r.range(1, 4); std::vector<socket_t> s; std::vector<sockaddr_in> ad; std::vector<std::deque<std::pair<int, std::string>>> q((size_t)n); std::vector<size_t> bytes((size_t)n, 0);
	vh::setcase("udp %d sockets", n); vh::tick("udp");
	for (int i = 0; i < n; i++) { socket_t f = socket_api::create_socket(true); sockaddr_in a = loop_(r); if (!socket_api::bind(f, a)) { socket_api::close_socket(f); n = i; break; } socket_api::set_nonblock(f, true); s.push_back(f); ad.push_back(local(f)); sockaddr_in g; VH_CHECK(socket_api::getsockname(f, g) && g.sin_port == ad.back().sin_port && g.sin_addr.s_addr == ad.back().sin_addr.s_addr, "udp-name", "wrong local name"); }
	for (int step = 0; step < 60 && n; step++) {
		size_t i = r.below((uint64_t)n);
		if (r.chance(1, 2)) {
			size_t j = r.below((uint64_t)n), len = r.chance(1, 6) ? 0 : r.chance(1, 6) ? 65507 - r.below(2) : r.chance(1, 12) ? 65508 + r.below(100) : r.below(r.chance(1, 2) ? 40 : 3000);
			if (bytes[j] + len > 90000 || q[j].size() > 20) continue;
			char* b = (char*)malloc(len ? len : 1); for (size_t k = 0; k < len; k++) b[k] = (char)r.next(); ssize_t w = socket_api::sendto(s[i], b, len, ad[j]); int e = errno; vh::stat("evaluations"); vh::distinct(vh::mix(len, 5));
			if (len > 65507) { VH_CHECK(w == -1 && e == EMSGSIZE, "udp-oversize", "sendto of %zu bytes gives %zd", len, w); vh::stat("udp_oversize"); }
			else { VH_CHECK(w == (ssize_t)len, "udp-send", "sendto of %zu bytes gives %zd (errno %d)", len, w, e); if (w == (ssize_t)len) { q[j].push_back({ (int)i, std::string(b, len) }); bytes[j] += len; vh::stat("udp_sent"); } }
			free(b);
		} else {
			bool none = q[i].empty(); size_t cap = none ? r.below(100) : r.chance(1, 4) ? r.below(q[i].front().second.size() + 1) : q[i].front().second.size() + r.below(4); char* b = (char*)malloc(cap ? cap : 1); sockaddr_in from; memset(&from, 0xAB, sizeof from); errno = 0;
			ssize_t g = socket_api::recvfrom(s[i], b, cap, from); vh::stat("evaluations");
			if (none) { VH_CHECK(g < 0 && socket_api::is_lasterror_WOULDBLOCK() && socket_api::get_lasterror() == EWOULDBLOCK, "udp-phantom", "recvfrom on an empty socket gives %zd errno %d", g, errno); vh::stat("udp_empty"); }
			else { auto m = q[i].front(); q[i].pop_front(); bytes[i] -= m.second.size(); size_t e = m.second.size() < cap ? m.second.size() : cap; VH_CHECK(g == (ssize_t)e, "udp-size", "datagram of %zu bytes into %zu: recvfrom gives %zd (errno %d)", m.second.size(), cap, g, errno); if (g == (ssize_t)e) VH_CHECK(memcmp(b, m.second.data(), e) == 0, "udp-content", "the datagram's content differs");
				VH_CHECK(from.sin_family == AF_INET && from.sin_port == ad[(size_t)m.first].sin_port && from.sin_addr.s_addr == ad[(size_t)m.first].sin_addr.s_addr, "udp-from", "sender %08x:%u reported, was %08x:%u", from.sin_addr.s_addr, ntohs(from.sin_port), ad[(size_t)m.first].sin_addr.s_addr, ntohs(ad[(size_t)m.first].sin_port)); vh::stat("udp_received"); }
			free(b);
		}
	}
	for (auto f : s) socket_api::close_socket(f);
}
// ---- connections made with the plain calls ---------------------------------------------------------------
static void tcp_case(Rng& r) {
	vh::setcase("plain tcp"); vh::tick("plain tcp"); int before = vh::count_fds();
	socket_t l = socket_api::create_socket(); sockaddr_in a = loop_(r); bool nb = r.chance(1, 2); bool nbl = r.chance(1, 2);
	if (!socket_api::bind(l, a)) { socket_api::close_socket(l); return; }
	a = local(l); { socket_t l2 = socket_api::create_socket(); VH_CHECK(!socket_api::bind(l2, a), "bind-twice", "a second bind of the same port succeeds"); socket_api::close_socket(l2); }
	if (nbl) socket_api::set_nonblock(l, true);
	bool listening = r.chance(3, 4); if (listening) { VH_CHECK(socket_api::listen(l), "listen", "listen fails"); VH_CHECK(gopt(l, SOL_SOCKET, SO_ACCEPTCONN) == 1, "listen-effect", "the socket does not listen"); }
	if (listening && nbl) { sockaddr_in x; errno = 0; VH_CHECK(socket_api::accept(l, &x) == INVALID_SOCKET && errno == EAGAIN, "accept-phantom", "accept without a peer succeeds"); }
	socket_t c = socket_api::create_socket(); if (nb) socket_api::set_nonblock(c, true);
	if (r.chance(1, 4)) { socket_t u = socket_api::create_socket(); VH_CHECK(!socket_api::shutdown(u), "shutdown-result", "shutdown of an unconnected socket succeeds"); socket_api::close_socket(u); }
	bool ok = socket_api::connect(c, a); vh::stat("evaluations");
	if (!listening) { if (!nb) VH_CHECK(!ok, "connect-refused", "a refused blocking connect reports success"); else if (ok) { pollfd p = { c, POLLOUT, 0 }; __real_poll(&p, 1, 5000); int e = socket_api::get_socket_error(c), e2 = socket_api::get_socket_error(c); VH_CHECK(e == ECONNREFUSED && e2 == 0, "socket-error", "pending error %d then %d", e, e2); vh::stat("refused_nonblocking"); } vh::stat("refused"); }
	else {
		VH_CHECK(ok, "connect", "connect to a listening port fails"); pollfd p = { c, POLLOUT, 0 }; __real_poll(&p, 1, 5000); VH_CHECK(socket_api::get_socket_error(c) == 0, "socket-error", "error of an established connection is %d", socket_api::get_socket_error(c));
		pollfd pl = { l, POLLIN, 0 }; __real_poll(&pl, 1, 5000); sockaddr_in x; memset(&x, 0x77, sizeof x); bool wa = r.chance(2, 3); socket_t s = socket_api::accept(l, wa ? &x : 0); VH_CHECK(s >= 0, "accept", "accept fails"); sockaddr_in cl = local(c);
		if (s >= 0) {
			if (wa) VH_CHECK(x.sin_port == cl.sin_port && x.sin_addr.s_addr == cl.sin_addr.s_addr, "accept-from", "accept reports %08x:%u", x.sin_addr.s_addr, ntohs(x.sin_port));
			if (nb) VH_CHECK(socket_api::connect(c, a), "connect-again", "connect of an established socket fails");
			// bytes both ways
			for (int k = 0; k < 6; k++) { socket_t from = k % 2 ? s : c, to = k % 2 ? c : s; size_t n = r.range(1, 5000); std::string d(n, 0); for (auto& ch : d) ch = (char)r.next(); ssize_t w = socket_api::write(from, d.data(), n); VH_CHECK(w == (ssize_t)n, "write", "write gives %zd of %zu (errno %d, direction %d, round %d)", w, n, errno, k % 2, k); std::string g; double e = vh::now() + 10; while (g.size() < n && vh::now() < e) { pollfd pt = { to, POLLIN, 0 }; if (__real_poll(&pt, 1, 1000) <= 0) continue; size_t cap = r.range(1, n - g.size()); char* b = (char*)malloc(cap); ssize_t rd = socket_api::read(to, b, cap); if (rd <= 0) { free(b); break; } VH_CHECK((size_t)rd <= cap, "read", "read of %zu gives %zd", cap, rd); g.append(b, (size_t)rd); free(b); } VH_CHECK(g == d, "bytes", "what was read differs from what was written"); vh::stat("evaluations"); }
			socket_t down = r.chance(1, 2) ? c : s, up = down == c ? s : c; VH_CHECK(socket_api::shutdown(down), "shutdown", "shutdown fails"); char b[4]; pollfd pu = { up, POLLIN, 0 }; __real_poll(&pu, 1, 5000); VH_CHECK(socket_api::read(up, b, 4) == 0, "shutdown-eof", "no end of stream after shutdown"); VH_CHECK(socket_api::read(down, b, 4) == 0, "shutdown-read", "the reading side is not shut down"); errno = 0; VH_CHECK(::send(down, "x", 1, MSG_NOSIGNAL) < 0 && errno == EPIPE, "shutdown-write", "the writing side is not shut down"); vh::stat("tcp_pairs");
			socket_api::close_socket(s);
		}
	}
	socket_api::close_socket(c); socket_api::close_socket(l); VH_CHECK(vh::count_fds() == before, "leak", "descriptors %d before, %d after", before, vh::count_fds());
}
static void on_usr1(int) {}
int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); set_log_threshold(L_MAXIMUM_LEVEL); vh::watchdog(40);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_usr1; sigaction(SIGUSR1, &sa, 0);
	for (long i = 0; i < a.cases; i++) {
		if (a.only >= 0 && i != a.only) continue;
		Rng r(vh::mix(a.seed, (uint64_t)i));
		if (a.mode == "probe") probe_case(r); else switch (r.below(3)) { case 0: option_case(r); break; case 1: udp_case(r); break; default: tcp_case(r); }
	}
	return vh::finish();
}
