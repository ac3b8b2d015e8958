// C02: RingBuf socket I/O over a socketpair; read/write system calls reached by the library are
// interposed: the kernel transfer is shortened, refused or interrupted at random, and every byte
// carries its stream position.
#include "vh.h"
#include <cy_core.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <errno.h>
#include <fcntl.h>
using namespace cyclone;

static vh::Rng* R; static bool g_on; static int g_mode; static long g_calls; static size_t g_moved; static int g_lastinj;
static bool g_sticky; // an injected would-block/error persists for the rest of the library call
static int g_max_first = -1;
extern "C" {
ssize_t __real_readv(int, const struct iovec*, int); ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_send(int, const void*, size_t, int);
static int inject(size_t total, size_t& limit) { // returns errno to fail with, or 0 and the transfer limit
	limit = total; g_calls++;
	if (!g_on) return 0;
	if (g_sticky) { return g_lastinj; }
	unsigned k = (unsigned)R->below(10);
	if (g_mode == 0) return 0;
	if (k == 0) { g_lastinj = EINTR; vh::stat("inj_eintr"); return EINTR; }
	if (k == 1) { g_lastinj = EAGAIN; vh::stat("inj_eagain"); g_sticky = true; return EAGAIN; }
	if (k == 2) { g_lastinj = ECONNRESET; vh::stat("inj_error"); g_sticky = true; return ECONNRESET; }
	if (k < 8 && total) { limit = 1 + (size_t)R->below(total); if (R->chance(1, 3)) limit = 1 + (size_t)R->below(std::min<size_t>(total, 4)); vh::stat("inj_short"); }
	return 0;
}
static ssize_t vec(int fd, const struct iovec* v, int n, bool wr) {
	size_t total = 0; for (int i = 0; i < n; i++) total += v[i].iov_len;
	size_t lim; int e = inject(total, lim);
	if (e) { errno = e; return -1; }
	struct iovec w[8]; int m = 0; size_t left = lim;
	for (int i = 0; i < n && i < 8 && (left > 0 || total == 0); i++) { w[m] = v[i]; if (w[m].iov_len > left) w[m].iov_len = left; left -= w[m].iov_len; m++; }
	ssize_t r = wr ? __real_writev(fd, w, m) : __real_readv(fd, w, m);
	if (r > 0) g_moved += (size_t)r;
	return r;
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int n) { return vec(fd, v, n, false); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { return vec(fd, v, n, true); }
#define ONE(real) size_t lim; int e = inject(n, lim); if (e) { errno = e; return -1; } ssize_t r = real; if (r > 0) g_moved += (size_t)r; return r;
ssize_t __wrap_read(int fd, void* b, size_t n) { ONE(__real_read(fd, b, lim)) }
ssize_t __wrap_write(int fd, const void* b, size_t n) { ONE(__real_write(fd, b, lim)) }
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) { ONE(__real_recv(fd, b, lim, f)) }
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) { ONE(__real_send(fd, b, lim, f)) }
}
static inline uint8_t pos_byte(uint64_t i) { uint64_t x = i * 0x9E3779B97F4A7C15ull; return (uint8_t)(x >> 40) ^ (uint8_t)i; }

int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv);
	set_log_threshold(L_MAXIMUM_LEVEL);
	vh::watchdog(30); signal(SIGPIPE, SIG_IGN);
	for (long c = 0; c < a.cases; c++) {
		if (a.only >= 0 && c != a.only) continue;
		vh::Rng r(a.seed * 7919ull + (uint64_t)c); R = &r;
		g_mode = r.chance(1, 4) ? 0 : 1;
		int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); return 3; }
		int sb = 4096 << r.below(5); setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sb, sizeof sb); setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &sb, sizeof sb);
		fcntl(sv[0], F_SETFL, O_NONBLOCK); fcntl(sv[1], F_SETFL, O_NONBLOCK);
		size_t cap = r.chance(1, 6) ? (size_t)r.below(3) : (size_t)r.below(r.chance(1, 3) ? 70000 : 300);
		RingBuf in(cap), out(cap);
		uint64_t w_in = 0, r_in = 0;     // bytes written by the peer / appended to `in`
		uint64_t t_in = 0;               // bytes taken out of `in`
		uint64_t p_out = 0, s_out = 0, g_out = 0; // put into `out` / accepted by kernel / received by peer
		bool eof = false; std::string trace;
		vh::tick("ringbuf_sock");
		long nops = 30 + (long)r.below(30);
		for (long o = 0; o < nops; o++) {
			int op = (int)r.below(9); char d[120];
			snprintf(d, sizeof d, "op%d[in %zu/%zu out %zu/%zu] ", op, in.size(), in.capacity(), out.size(), out.capacity());
			trace += d; if (trace.size() > 1200) trace.erase(0, trace.size() - 1200);
			vh::setcase("seed=%llu case=%ld mode=%d cap=%zu: %s", (unsigned long long)a.seed, c, g_mode, cap, trace.c_str());
			switch (op) {
			case 0: case 1: { // peer writes
				if (eof) break;
				size_t n = (size_t)r.below(r.chance(1, 4) ? 90000 : in.get_free_size() + 6);
				if (r.chance(1, 3)) n = in.get_free_size() + (size_t)r.below(3) - (in.get_free_size() ? 1 : 0);
				std::vector<uint8_t> b(n); for (size_t i = 0; i < n; i++) b[i] = pos_byte(w_in + i);
				ssize_t k = n ? __real_write(sv[1], b.data(), n) : 0; if (k > 0) w_in += (uint64_t)k;
			} break;
			case 2: case 3: case 4: { // library reads
				bool extra = r.below(3) != 0; size_t fr = in.get_free_size(), cp = in.capacity(), sz = in.size();
				g_on = true; g_sticky = false; g_moved = 0; g_lastinj = 0; g_calls = 0; errno = 0;
				ssize_t n = in.read_socket(sv[0], extra);
				int err = errno; g_on = false; size_t moved = g_moved;
				vh::stat("evaluations"); vh::distinct(vh::mix(vh::mix(vh::mix(vh::mix(fr, sz), cp), (uint64_t)n), extra));
				uint64_t avail = w_in - r_in; 
				VH_CHECK(in.size() - sz == moved, "read-appended", "kernel delivered %zu bytes, buffer grew by %zd (ret %zd)", moved, (ssize_t)(in.size() - sz), n);
				if (n > 0) VH_CHECK((size_t)n == moved, "read-count", "returned %zd but %zu bytes were delivered", n, moved);
				else if (n == 0) { VH_CHECK(moved == 0, "read-zero-with-data", "returned 0 although %zu bytes were appended", moved);
					VH_CHECK((eof && avail == 0) || (!extra && fr == 0), "read-zero-not-eof", "returned 0 without end of stream (avail %llu, eof %d, free %zu, inj %d)", (unsigned long long)avail, eof, fr, g_lastinj); }
				else { VH_CHECK(moved == 0, "read-neg-with-data", "returned %zd although %zu bytes were appended", n, moved);
					VH_CHECK(g_lastinj != 0 || (avail == 0 && !eof && (err == EAGAIN || err == EWOULDBLOCK)), "read-neg", "returned %zd errno %d with %llu bytes available", n, err, (unsigned long long)avail); }
				if (!extra) { VH_CHECK(moved <= fr, "read-over", "took %zu with %zu free", moved, fr); VH_CHECK(in.capacity() == cp, "read-cap", "capacity changed %zu->%zu without expansion", cp, in.capacity()); }
				r_in += moved; vh::stat("bytes_in", (long long)moved); vh::stat(n > 0 ? "read_ok" : n == 0 ? "read_eof" : "read_err");
				if (moved > fr) vh::stat("read_expanded");
			} break;
			case 5: { // take from in
				size_t n = (size_t)r.below(in.size() + 2); std::vector<uint8_t> b(n + 1);
				size_t k = in.memcpy_out(b.data(), n);
				for (size_t i = 0; i < k; i++) if (b[i] != pos_byte(t_in + i)) { vh::viol("read-bytes", "byte %llu of the stream wrong after read_socket", (unsigned long long)(t_in + i)); break; }
				t_in += k;
			} break;
			case 6: { // put into out
				size_t n = (size_t)r.below(r.chance(1, 5) ? 60000 : out.get_free_size() + 2);
				std::vector<uint8_t> b(n + 1); for (size_t i = 0; i < n; i++) b[i] = pos_byte(p_out + i);
				out.memcpy_into(b.data(), n); p_out += n;
			} break;
			case 7: { // library writes
				if (out.empty()) break;
				size_t sz = out.size(), cp = out.capacity();
				g_on = true; g_sticky = false; g_moved = 0; g_lastinj = 0; errno = 0;
				ssize_t n = out.write_socket(sv[0]); int err = errno; g_on = false; size_t moved = g_moved;
				vh::stat("evaluations"); vh::distinct(vh::mix(vh::mix(vh::mix(0x77, sz), cp), (uint64_t)n));
				VH_CHECK(sz - out.size() == moved, "write-removed", "kernel accepted %zu bytes, buffer shrank by %zd (ret %zd)", moved, (ssize_t)(sz - out.size()), n);
				if (n >= 0) VH_CHECK((size_t)n == moved, "write-count", "returned %zd but %zu were accepted", n, moved);
				else { VH_CHECK(moved == 0, "write-neg-with-data", "returned %zd although %zu bytes were accepted", n, moved);
					VH_CHECK(g_lastinj || err == EAGAIN || err == EWOULDBLOCK || err == EPIPE || err == ECONNRESET, "write-neg", "returned %zd errno %d", n, err); }
				VH_CHECK(out.capacity() == cp, "write-cap", "capacity changed");
				s_out += moved; vh::stat("bytes_out", (long long)moved); vh::stat(n > 0 ? "write_ok" : "write_err");
			} break;
			case 8: { // peer reads, or closes its side late in the case
				if (!eof && o > nops * 2 / 3 && r.chance(1, 4)) { shutdown(sv[1], SHUT_WR); eof = true; break; }
				std::vector<uint8_t> b((size_t)r.below(40000) + 1); ssize_t k = __real_read(sv[1], b.data(), b.size());
				for (ssize_t i = 0; i < k; i++) if (b[(size_t)i] != pos_byte(g_out + (uint64_t)i)) { vh::viol("write-bytes", "byte %llu received by the peer is wrong", (unsigned long long)(g_out + (uint64_t)i)); break; }
				if (k > 0) g_out += (uint64_t)k;
			} break;
			}
			VH_CHECK(in.size() == r_in - t_in, "in-size", "size %zu expected %llu", in.size(), (unsigned long long)(r_in - t_in));
			VH_CHECK(out.size() == p_out - s_out, "out-size", "size %zu expected %llu", out.size(), (unsigned long long)(p_out - s_out));
			// whole content comparison
			std::vector<uint8_t> b(std::max(in.size(), out.size()) + 1);
			size_t k = in.peek(0, b.data(), in.size()); 
			for (size_t i = 0; i < k; i++) if (b[i] != pos_byte(t_in + i)) { vh::viol("in-content", "stored byte at %llu wrong after op %d", (unsigned long long)(t_in + i), op); break; }
			k = out.peek(0, b.data(), out.size());
			for (size_t i = 0; i < k; i++) if (b[i] != pos_byte(s_out + i)) { vh::viol("out-content", "stored byte at %llu wrong after op %d", (unsigned long long)(s_out + i), op); break; }
		}
		if (c < 2) vh::sample("cap=%zu in=%llu out=%llu: %.250s", cap, (unsigned long long)r_in, (unsigned long long)s_out, trace.c_str());
		close(sv[0]); close(sv[1]);
	}
	return vh::finish();
}
