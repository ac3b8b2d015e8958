// Shared by the network harnesses: interposed system calls (faults, short transfers, delays,
// per-descriptor accounting) and raw peers that never go through the library.
#pragma once
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <algorithm>
#include <functional>
#include <memory>
#include "vh.h"
using namespace cyclone;
using vh::Rng;

struct Flag { int v = 0; void operator=(int x) { __atomic_store_n(&v, x, __ATOMIC_RELAXED); } operator int() const { return __atomic_load_n(&v, __ATOMIC_RELAXED); } };
struct Count { long v = 0; void add(long n) { __atomic_fetch_add(&v, n, __ATOMIC_RELAXED); } void set(long n) { __atomic_store_n(&v, n, __ATOMIC_RELAXED); } operator long() const { return __atomic_load_n(&v, __ATOMIC_RELAXED); } };
// rates: one in n (0 = never)
static Flag g_delay, f_short, f_again, f_intr, f_acceptErr, f_waitIntr, f_socketErr, f_smallSnd;
static Flag f_noReadIntr;
static Count n_accepts, n_short, n_again, n_intr, n_acceptErr, n_waitIntr, n_socketErr, n_delays;
static thread_local uint64_t t_rng = 0; static thread_local int t_lib = 0;      // t_lib: this thread belongs to the library
static uint64_t lrand() { if (!t_rng) t_rng = 88172645463325252ull ^ ((uint64_t)(uintptr_t)&t_rng * 0x9E3779B97F4A7C15ull) ^ (uint64_t)vh::now_us(); t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17; return t_rng; }
static bool one(const Flag& f) { int n = f; return n && t_lib && (lrand() >> 7) % (uint64_t)n == 0; }
static void small_snd(int fd) { int v = f_smallSnd; if (v > 0) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }      // the system gives the connection little room, so that one that is not read backs up at once
static void point() { int d = g_delay; if (!d) return; uint64_t x = lrand(); if ((x >> 9) % (uint64_t)d) return; n_delays.add(1); if ((x >> 30) % 4) sched_yield(); else { struct timespec t = { 0, (long)((x >> 34) % 100000) }; nanosleep(&t, 0); } }
extern "C" void vh_atomic_point(int) { point(); }
static const int MAXFD = 8192;
static Count k_buf[MAXFD];      // the most that was written at once outside of a send: so much was buffered
static __thread int t_inSend;
static Count k_out[MAXFD], k_in[MAXFD], k_outOps[MAXFD], k_inOps[MAXFD];
static void fresh(int fd) { if (fd >= 0 && fd < MAXFD) { k_buf[fd].set(0); k_out[fd].set(0); k_in[fd].set(0); k_outOps[fd].set(0); k_inOps[fd].set(0); } }
extern "C" {
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); ssize_t __real_readv(int, const struct iovec*, int); ssize_t __real_writev(int, const struct iovec*, int); ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_send(int, const void*, size_t, int);
int __real_epoll_wait(int, struct epoll_event*, int, int); int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*); int __real_epoll_ctl(int, int, int, struct epoll_event*); int __real_accept(int, struct sockaddr*, socklen_t*); int __real_accept4(int, struct sockaddr*, socklen_t*, int); int __real_socket(int, int, int); int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_close(int);
}
static bool isTcp(int fd) { int d = 0; socklen_t n = sizeof d; if (getsockopt(fd, SOL_SOCKET, SO_DOMAIN, &d, &n) != 0 || d != AF_INET) return false; n = sizeof d; return getsockopt(fd, SOL_SOCKET, SO_TYPE, &d, &n) == 0 && d == SOCK_STREAM; }
// returns -1 with errno set when the call is to fail, otherwise the number of bytes allowed
static ssize_t gate(int fd, size_t len, bool out) {
	if (!t_lib) return (ssize_t)len;
	if (out && !t_inSend && fd >= 0 && fd < MAXFD && (long)len > (long)k_buf[fd]) k_buf[fd].set((long)len);
	int s = f_short, a = f_again, i = f_intr; if (!s && !a && !i) return (ssize_t)len;
	if (!isTcp(fd)) return (ssize_t)len;
	if (one(f_again)) { n_again.add(1); errno = EAGAIN; return -1; }
	if (one(f_intr)) { n_intr.add(1); errno = EINTR; return -1; }
	if (one(f_short) && len > 1) { n_short.add(1); uint64_t x = lrand() >> 11; return (ssize_t)(1 + (x % 3 ? x / 3 % std::min<size_t>(len - 1, 40) : x / 3 % (len - 1))); }
	return (ssize_t)len;
}
static ssize_t counted(int fd, ssize_t r, bool out) { if (r > 0 && fd >= 0 && fd < MAXFD) { (out ? k_out : k_in)[fd].add(r); (out ? k_outOps : k_inOps)[fd].add(1); } return r; }
static size_t iovLen(const struct iovec* v, int n) { size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; return t; }
static int cutIov(const struct iovec* v, int n, size_t lim, struct iovec* o) { int k = 0; for (int i = 0; i < n && lim > 0; i++) { if (!v[i].iov_len) continue; o[k] = v[i]; if (o[k].iov_len > lim) o[k].iov_len = lim; lim -= o[k].iov_len; k++; } return k; }
extern "C" {
#define PTS int e_ = errno; point(); errno = e_
ssize_t __wrap_read(int fd, void* b, size_t n) { point(); ssize_t g = gate(fd, n, false); if (g < 0) return -1; ssize_t r = counted(fd, __real_read(fd, b, (size_t)g), false); PTS; return r; }
ssize_t __wrap_write(int fd, const void* b, size_t n) { point(); ssize_t g = gate(fd, n, true); if (g < 0) return -1; ssize_t r = counted(fd, __real_write(fd, b, (size_t)g), true); PTS; return r; }
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) { point(); ssize_t g = gate(fd, n, false); if (g < 0) return -1; ssize_t r = counted(fd, __real_recv(fd, b, (size_t)g, f), false); PTS; return r; }
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) { point(); ssize_t g = gate(fd, n, true); if (g < 0) return -1; ssize_t r = counted(fd, __real_send(fd, b, (size_t)g, f), true); PTS; return r; }
ssize_t __wrap_readv(int fd, const struct iovec* v, int n) { point(); size_t t = iovLen(v, n); ssize_t g = gate(fd, t, false); if (g < 0) return -1; struct iovec o[64]; if ((size_t)g < t && n <= 64) { n = cutIov(v, n, (size_t)g, o); v = o; } ssize_t r = counted(fd, __real_readv(fd, v, n), false); PTS; return r; }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { point(); size_t t = iovLen(v, n); ssize_t g = gate(fd, t, true); if (g < 0) return -1; struct iovec o[64]; if ((size_t)g < t && n <= 64) { n = cutIov(v, n, (size_t)g, o); v = o; } ssize_t r = counted(fd, __real_writev(fd, v, n), true); PTS; return r; }
int __wrap_epoll_wait(int e, struct epoll_event* ev, int n, int t) { point(); if (one(f_waitIntr)) { n_waitIntr.add(1); errno = EINTR; return -1; } int r = __real_epoll_wait(e, ev, n, t); PTS; return r; }
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* t) { point(); if (one(f_waitIntr)) { n_waitIntr.add(1); errno = EINTR; return -1; } int k = __real_select(n, r, w, x, t); PTS; return k; }
int __wrap_epoll_ctl(int e, int o, int f, struct epoll_event* ev) { point(); int r = __real_epoll_ctl(e, o, f, ev); PTS; return r; }
static int acceptFault() { if (!one(f_acceptErr)) return 0; n_acceptErr.add(1); static const int er[] = { ECONNABORTED, EINTR, EMFILE, EAGAIN, EPROTO }; errno = er[(lrand() >> 9) % 5]; return -1; }
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* n) { point(); if (acceptFault()) return -1; int r = __real_accept(fd, a, n); if (t_lib) { fresh(r); if (r >= 0) { n_accepts.add(1); small_snd(r); } } PTS; return r; }
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* n, int fl) { point(); if (acceptFault()) return -1; int r = __real_accept4(fd, a, n, fl); if (t_lib) { fresh(r); if (r >= 0) { n_accepts.add(1); small_snd(r); } } PTS; return r; }
static thread_local int t_nextErr = 0; static Count n_nextErr;      // the library's next call on this thread: 1 socket, 2 connect fails
int __real_connect(int, const struct sockaddr*, socklen_t);
int __wrap_connect(int f, const struct sockaddr* a, socklen_t n) { point(); if (t_lib && t_nextErr == 2) { t_nextErr = 0; n_nextErr.add(1); static const int er[] = { ENETUNREACH, EADDRNOTAVAIL, ECONNREFUSED, EACCES }; errno = er[(lrand() >> 9) % 4]; return -1; } int r = __real_connect(f, a, n); PTS; return r; }
int __wrap_socket(int d, int t, int p) { if (t_lib && t_nextErr == 1) { t_nextErr = 0; n_nextErr.add(1); errno = EMFILE; return -1; } if (one(f_socketErr)) { n_socketErr.add(1); errno = EMFILE; return -1; } int r = __real_socket(d, t, p); if (t_lib) fresh(r); return r; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { point(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); point(); return r; }
}
static void faults_off() { f_smallSnd = 0; g_delay = 0; f_short = 0; f_again = 0; f_intr = 0; f_acceptErr = 0; f_waitIntr = 0; f_socketErr = 0; }
static void fault_stats() { vh::stat("inj_short", n_short); vh::stat("inj_eagain", n_again); vh::stat("inj_eintr", n_intr); vh::stat("inj_wait_eintr", n_waitIntr); if (n_acceptErr) vh::stat("inj_accept_error", n_acceptErr); if (n_socketErr) vh::stat("inj_socket_error", n_socketErr); vh::stat("inj_delays", n_delays); }
static void random_faults(Rng& r, bool wait = true) {
	f_short = r.chance(1, 2) ? (int)r.range(1, 4) : 0; f_again = r.chance(1, 2) ? (int)r.range(2, 8) : 0; f_intr = r.chance(1, 3) ? (int)r.range(2, 8) : 0; f_waitIntr = wait && r.chance(1, 3) ? (int)r.range(2, 9) : 0; g_delay = r.chance(1, 2) ? (int)r.range(2, 25) : 0;
}

// ---- raw peers -------------------------------------------------------------------------------------
static void nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL, 0) | O_NONBLOCK); }
// Every case has loopback addresses of its own (peers: g_peerIp, library servers: g_ip), so that ports in TIME_WAIT,
// ports reused by other processes and connections of a socket to itself cannot disturb it.
static uint32_t g_ip = INADDR_LOOPBACK, g_peerIp = INADDR_LOOPBACK; static char g_ipStr[20] = "127.0.0.1";
static void pick_ip() { uint64_t x = ((uint64_t)getpid() * 0x9E3779B97F4A7C15ull) ^ lrand(); x ^= x >> 29; g_ip = (127u << 24) | ((uint32_t)(x % 0x7ffe00 + 0x100) << 1); g_peerIp = g_ip + 1; snprintf(g_ipStr, sizeof g_ipStr, "%u.%u.%u.%u", g_ip >> 24, (g_ip >> 16) & 255, (g_ip >> 8) & 255, g_ip & 255); }
static sockaddr_in loop_addr(uint16_t port, bool peer = false) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(peer ? g_peerIp : g_ip); s.sin_port = htons(port); return s; }
static uint16_t port_of(int fd) { sockaddr_in s; socklen_t n = sizeof s; memset(&s, 0, sizeof s); getsockname(fd, (sockaddr*)&s, &n); return ntohs(s.sin_port); }
// a socket bound to a port of its own, so that the connection can be recognised before it exists
static int peer_socket(uint16_t& port, int rcvbuf = 0) {
	for (int i = 0; i < 50; i++) { int fd = __real_socket(AF_INET, SOCK_STREAM, 0); if (fd < 0) { vh::usleep_(2000); continue; } if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf); sockaddr_in a = loop_addr(i < 40 ? (uint16_t)(2000 + lrand() % 30000) : 0, true); /* not from the range the kernel takes ports for connecting clients from: thousands in TIME_WAIT would exhaust it */ if (::bind(fd, (sockaddr*)&a, sizeof a) == 0) { port = port_of(fd); return fd; } __real_close(fd); }
	return -1;
}
static bool peer_connect(int fd, uint16_t port) { sockaddr_in a = loop_addr(port); for (int i = 0; i < 20; i++) { if (::connect(fd, (sockaddr*)&a, sizeof a) == 0) { nonblock(fd); int on = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on); return true; } if (errno != EINTR && errno != EAGAIN && errno != EADDRNOTAVAIL) return false; vh::usleep_(1000); } return false; }
static int peer_listen(uint16_t& port, int backlog = 64, int rcvbuf = 0) { int fd = __real_socket(AF_INET, SOCK_STREAM, 0); if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf); sockaddr_in a = loop_addr(port); int on = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); if (::bind(fd, (sockaddr*)&a, sizeof a) != 0 || ::listen(fd, backlog) != 0) { __real_close(fd); return -1; } port = port_of(fd); return fd; }
static void peer_reset(int fd) { struct linger l = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); __real_close(fd); }
static bool wait_fd(int fd, short ev, int ms) { pollfd p = { fd, ev, 0 }; return poll(&p, 1, ms) > 0; }

// ---- framed messages from the connection under test -------------------------------------------------
struct FrameHead { uint32_t magic, sender, seq, len; };
static const uint32_t MAGIC = 0x6C79C3A5;
static uint8_t fpatt(const FrameHead& h, size_t i) { return (uint8_t)(h.sender * 59 + h.seq * 13 + h.len + i * 3 + (i >> 8) * 5); }
static void make_frame(std::vector<char>& b, uint32_t sender, uint32_t seq, uint32_t len) { FrameHead h = { MAGIC, sender, seq, len }; b.resize(sizeof h + len); memcpy(b.data(), &h, sizeof h); for (uint32_t i = 0; i < len; i++) b[sizeof h + i] = (char)fpatt(h, i); }
static uint8_t upatt(uint32_t tag, size_t pos) { return (uint8_t)(tag * 101 + pos * 7 + (pos >> 8) * 3 + (pos >> 16)); }
// incremental parser of the stream that reaches the peer
struct FrameParser {
	FrameHead h; size_t hp = 0, bp = 0; bool body = false; std::map<uint32_t, uint32_t> next; size_t frames = 0, bytes = 0; bool dead = false, anyStart = false; std::map<uint32_t, uint32_t> first, count; long otherAt = -1;      // otherAt: messages of sender 0 complete when the first one of another sender began
	void feed(const char* b, size_t n, const char* what) {
		bytes += n;
		for (size_t i = 0; i < n && !dead; ) {
			if (!body) { size_t k = std::min(sizeof h - hp, n - i); memcpy((char*)&h + hp, b + i, k); hp += k; i += k; if (hp == sizeof h) { if (h.magic != MAGIC || h.len > (64u << 20)) { vh::viol("stream-broken", "%s: at byte %zu of the stream there is no message start (%08x len %u), after %zu messages", what, bytes - n + i - sizeof h, h.magic, h.len, frames); dead = true; return; } if (anyStart && !next.count(h.sender)) next[h.sender] = first[h.sender] = h.seq; uint32_t& nx = next[h.sender]; if (h.seq != nx) { vh::viol(h.seq < nx ? "send-duplicate-or-order" : "send-lost-or-order", "%s: message %u of sender %u arrives, expected %u", what, h.seq, h.sender, nx); dead = true; return; } nx++; body = true; bp = 0; } else continue; }
			if (body) { size_t k = std::min((size_t)h.len - bp, n - i); for (size_t j = 0; j < k; j++) if ((uint8_t)b[i + j] != fpatt(h, bp + j)) { vh::viol("stream-altered", "%s: byte %zu of message %u of sender %u (%u bytes) is wrong", what, bp + j, h.seq, h.sender, h.len); dead = true; return; } bp += k; i += k; if (bp == h.len) { body = false; hp = 0; frames++; count[h.sender]++; if (h.sender && otherAt < 0) otherAt = count.count(0) ? (long)count[0] : 0; } }
		}
	}
	bool clean() const { return !body && hp == 0; }
};
#define NETWRAP_LIST "read,write,readv,writev,recv,send,epoll_wait,select,epoll_ctl,accept,accept4,socket,pthread_mutex_lock,pthread_mutex_unlock,close"
extern "C" int __wrap_close(int fd) { point(); return __real_close(fd); }
