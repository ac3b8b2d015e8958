// C15: packets and pipes against positional/byte-exact references.
#include "vh.h"
#include <deque>
#include <errno.h>
#include <poll.h>
#include <cy_core.h>
#include <cy_event.h>
using namespace cyclone;
using vh::Rng;
typedef std::vector<uint8_t> bytes;

struct Exp { size_t head; uint16_t id; bytes content; bytes user; bytes wire() const { bytes w; w.push_back((uint8_t)(content.size() >> 8)); w.push_back((uint8_t)content.size()); w.push_back((uint8_t)(id >> 8)); w.push_back((uint8_t)id); w.insert(w.end(), user.begin(), user.end()); w.insert(w.end(), content.begin(), content.end()); return w; } };

static size_t pickSize(Rng& r) {
	switch (r.below(9)) {
	case 0: return 0; case 1: return r.below(4); case 2: return 1024 - 8 - 4 - 3 + r.below(7); case 3: return 990 + r.below(60);
	case 4: return 65535 - r.below(3); case 5: return 255 + r.below(3); case 6: return r.below(70000) % 65536; default: return r.below(300);
	}
}
static bytes blob(Rng& r, size_t n) { bytes b(n); uint64_t k = r.next(); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)((k >> (i & 31)) + i * 7 + (i >> 8)); return b; }

static void checkPacket(const char* how, const Packet& p, const Exp& e, bool withUser) {
	size_t n = e.content.size();
	VH_CHECK(p.get_memory_size() == e.head + n, "packet-memsize", "%s: memory size %zu, should be %zu+%zu", how, p.get_memory_size(), e.head, n);
	VH_CHECK(p.get_packet_size() == n, "packet-size", "%s: packet size %u, should be %zu", how, p.get_packet_size(), n);
	VH_CHECK(p.get_packet_id() == e.id, "packet-id", "%s: id %u, should be %u", how, p.get_packet_id(), e.id);
	const uint8_t* m = (const uint8_t*)p.get_memory_buf();
	if (!m) { vh::viol("packet-null", "%s: no memory", how); return; }
	if (p.get_memory_size() != e.head + n) return;
	VH_CHECK(m[0] == (n >> 8) && m[1] == (n & 255) && m[2] == (e.id >> 8) && m[3] == (e.id & 255), "packet-front", "%s: front bytes %02x%02x%02x%02x for size %zu id %u", how, m[0], m[1], m[2], m[3], n, e.id);
	if (n) VH_CHECK((const uint8_t*)p.get_packet_content() == m + e.head && memcmp(m + e.head, e.content.data(), n) == 0, "packet-content", "%s: content of %zu bytes differs (head %zu)", how, n, e.head);
	if (withUser && e.user.size()) VH_CHECK(memcmp(m + 4, e.user.data(), e.user.size()) == 0, "packet-head", "%s: user head differs (%zu bytes)", how, e.user.size());
}

static void checkEmpty(const char* how, const Packet& p) { vh::stat("emptied"); VH_CHECK(p.get_packet_size() == 0 && p.get_packet_id() == 0 && p.get_memory_size() == 0 && !const_cast<Packet&>(p).get_packet_content() && !const_cast<Packet&>(p).get_memory_buf(), "packet-empty", "%s: an emptied packet reports size %u id %u memory size %zu", how, p.get_packet_size(), p.get_packet_id(), p.get_memory_size()); }
static void build(Rng& r, Packet& p, Exp& e, const char* how) {
	e.head = r.chance(1, 6) ? r.range(4, 1500) : r.chance(1, 2) ? 4 : r.range(4, 40);
	e.id = (uint16_t)r.next();
	size_t n = pickSize(r); e.content = blob(r, n);
	size_t a = r.chance(1, 3) ? n : r.chance(1, 4) ? 0 : r.below(n + 1);
	char* s1 = (char*)malloc(a + !a); char* s2 = (char*)malloc(n - a + (n == a));
	if (a) memcpy(s1, e.content.data(), a); if (n > a) memcpy(s2, e.content.data() + a, n - a);
	p.build_from_memory(e.head, e.id, (uint16_t)a, s1, (uint16_t)(n - a), (n == a && r.chance(1, 2)) ? nullptr : s2);
	memset(s1, 0xEE, a); if (n > a) memset(s2, 0xEE, n - a); free(s1); free(s2);
	checkPacket(how, p, e, false);
	e.user = blob(r, e.head - 4); if (e.user.size()) memcpy(p.get_memory_buf() + 4, e.user.data(), e.user.size());
}

static void packet_case(vh::Args& a, Rng& r, long c) {
	vh::setcase("packet seed=%llu case=%ld", (unsigned long long)a.seed, c);
	Packet own; Packet* heap = Packet::alloc_packet();
	Exp e;
	int k = (int)r.range(1, 3);
	for (int i = 0; i < k; i++) build(r, i & 1 ? *heap : own, e, "memory");
	Packet& src = (k - 1) & 1 ? *heap : own;
	vh::setcase("packet seed=%llu case=%ld head=%zu size=%zu", (unsigned long long)a.seed, c, e.head, e.content.size());
	// copy
	Packet* cp = Packet::alloc_packet(&src);
	checkPacket("copy", *cp, e, true);
	bytes wire = e.wire();
	VH_CHECK(src.get_memory_size() == wire.size() && memcmp(src.get_memory_buf(), wire.data(), wire.size()) == 0, "packet-source", "the source changed while being copied");
	if (cp->get_memory_size() == wire.size()) {     // independent of the original
		memset(src.get_memory_buf(), 0x11, src.get_memory_size());
		checkPacket("copy after change", *cp, e, true);
	}
	vh::stat("copied");
	// through a pipe
	if (wire.size() <= 60000) {
		Pipe pipe; int extra = (int)r.below(3);
		for (int i = 0; i <= extra && (size_t)(i + 1) * wire.size() <= 60000; i++) VH_CHECK(pipe.write((const char*)wire.data(), wire.size()) == (ssize_t)wire.size(), "pipe-write", "pipe refused %zu bytes", wire.size());
		for (int i = 0; i <= extra && (size_t)(i + 1) * wire.size() <= 60000; i++) {
			Packet& t = i & 1 ? own : *heap;
			VH_CHECK(t.build_from_pipe(e.head, pipe), "packet-pipe", "no packet from a pipe holding one (%zu+%zu)", e.head, e.content.size());
			checkPacket("pipe", t, e, true); vh::stat("from_pipe");
		}
		char x; VH_CHECK(pipe.read(&x, 1) < 0, "packet-pipe-rest", "bytes left in the pipe");
		VH_CHECK(!own.build_from_pipe(e.head, pipe), "packet-pipe-empty", "a packet from an empty pipe"); checkEmpty("pipe", own);
		if (r.chance(1, 2) && wire.size() > 2) { checkPacket("kept", *heap, e, false); size_t cut = r.range(2, wire.size() - 1); VH_CHECK(pipe.write((const char*)wire.data(), cut) == (ssize_t)cut, "pipe-write", "pipe refused %zu bytes", cut); VH_CHECK(!heap->build_from_pipe(e.head, pipe), "packet-pipe-part", "a packet from a pipe holding %zu of %zu bytes", cut, wire.size()); checkEmpty("part of a packet", *heap); }
	}
	cp->clean(); checkEmpty("clean", *cp); if (r.chance(1, 2)) { cp->clean(); checkEmpty("clean", *cp); }
	Packet::free_packet(cp);
	Packet::free_packet(heap);
	vh::stat("evaluations");
	vh::distinct(vh::mix(vh::mix(e.head, e.content.size()), vh::mix(e.id, (uint64_t)k)));
}

// a stream of packets of one head size, cut at arbitrary points
static void stream_case(vh::Args& a, Rng& r, long c) {
	size_t head = r.chance(1, 5) ? r.range(4, 600) : r.range(4, 12);
	size_t n = r.range(1, 8);
	std::deque<Exp> q; bytes all;
	for (size_t i = 0; i < n; i++) { Exp e; e.head = head; e.id = (uint16_t)r.next(); e.content = blob(r, r.chance(1, 3) ? pickSize(r) : r.below(60)); e.user = blob(r, head - 4); bytes w = e.wire(); all.insert(all.end(), w.begin(), w.end()); q.push_back(e); }
	if (r.chance(1, 4)) all.resize(all.size() - r.below(std::min<size_t>(all.size(), 30)));      // the last one may stay incomplete
	vh::setcase("stream seed=%llu case=%ld head=%zu packets=%zu bytes=%zu", (unsigned long long)a.seed, c, head, n, all.size());
	RingBuf rb(r.chance(1, 2) ? r.below(64) : RingBuf::kDefaultCapacity);
	if (r.chance(1, 2)) { size_t k = r.below(500); bytes j(k, 0x77); rb.memcpy_into(j.data(), k); rb.discard(k); }     // move the start, so content wraps
	Packet* p = Packet::alloc_packet(); size_t pos = 0, got = 0; 
	while (pos < all.size()) {
		size_t k = r.chance(1, 3) ? r.range(1, 6) : r.chance(1, 3) ? all.size() - pos : r.below(3000); if (k > all.size() - pos) k = all.size() - pos;
		rb.memcpy_into(all.data() + pos, k); pos += k;
		for (;;) {
			size_t have = rb.size();
			size_t need = q.empty() ? (size_t)-1 : head + q.front().content.size();
			bytes before(have); rb.peek(0, before.data(), have);
			bool ok = p->build_from_ringbuf(head, rb);
			VH_CHECK(ok == (have >= need), "stream-whole", "built=%d with %zu bytes buffered and a packet of %zu", ok, have, need);
			vh::stat("stream_tries");
			size_t taken = ok ? head + p->get_packet_size() : 0;
			VH_CHECK(rb.size() == have - taken, "stream-taken", "%zu bytes taken from the ring buffer, should be %zu", have - rb.size(), taken);
			bytes after(rb.size()); rb.peek(0, after.data(), after.size());
			VH_CHECK(after.size() <= before.size() && std::equal(after.begin(), after.end(), before.end() - (long)after.size()), "stream-rest", "the rest of the ring buffer changed");
			if (!ok) { vh::stat("stream_incomplete"); break; }
			if (q.empty()) { vh::viol("stream-extra", "a packet too many"); break; }
			checkPacket("ring buffer", *p, q.front(), true); q.pop_front(); got++;
		}
	}
	vh::stat("stream_packets", (long long)got); vh::stat("evaluations");
	Packet::free_packet(p);
	vh::distinct(vh::mix(vh::mix(head, all.size()), vh::mix(n, got)));
}

static void pipe_case(vh::Args& a, Rng& r, long c) {
	vh::setcase("pipe seed=%llu case=%ld", (unsigned long long)a.seed, c);
	int fd0 = vh::count_fds();
	bool sock = r.chance(1, 3);
	{
		Pipe* pipe = nullptr; pipe_port_t h[2] = { INVALID_SOCKET, INVALID_SOCKET };
		if (sock) { if (!Pipe::construct_socket_pipe(h)) { vh::stat("sockpipe_failed"); return; } vh::stat("sockpipe"); }
		else pipe = new Pipe();
		auto wr = [&](const char* b, size_t n) { return sock ? socket_api::write(h[1], b, n) : pipe->write(b, n); };
		auto rd = [&](char* b, size_t n) { return sock ? socket_api::read(h[0], b, n) : pipe->read(b, n); };
		if (!sock) { VH_CHECK(pipe->get_read_port() != pipe->get_write_port(), "pipe-ports", "ports are the same"); }
		uint64_t key = r.next(); auto at = [&](size_t i) { return (uint8_t)((key >> (i % 53)) + i * 31 + (i >> 9)); };
		size_t w = 0, g = 0; bool threads = r.chance(1, 3); size_t total = r.range(1, 300000); bool bad = false;
		auto writer = [&](uint64_t sd, size_t upto) { Rng q(sd); while (w < upto) { size_t n = q.chance(1, 3) ? q.range(1, 9) : q.range(1, 20000); if (n > upto - w) n = upto - w; std::vector<char> b(n); for (size_t i = 0; i < n; i++) b[i] = (char)at(w + i); ssize_t k = wr(b.data(), n); vh::tick("pipe"); if (k > 0) w += (size_t)k; else { if (errno != EAGAIN && errno != EINTR) { bad = true; return; } vh::stat("pipe_full"); if (!threads) return; sched_yield(); } } };
		auto reader = [&](uint64_t sd, size_t upto) { Rng q(sd); while (g < upto) { size_t n = q.chance(1, 3) ? q.range(1, 9) : q.range(1, 20000); char* b = (char*)malloc(n); ssize_t k = rd(b, n); vh::tick("pipe"); if (k > 0) { for (ssize_t i = 0; i < k; i++) if ((uint8_t)b[i] != at(g + (size_t)i)) { vh::viol("pipe-order", "byte %zu of the pipe is wrong", g + (size_t)i); bad = true; break; } g += (size_t)k; } free(b); if (bad) return; if (k == 0) { vh::viol("pipe-eof", "end of stream from an open pipe"); return; } if (k < 0) { if (errno != EAGAIN && errno != EINTR) { bad = true; return; } vh::stat("pipe_empty"); if (!threads) return; sched_yield(); } } };
		if (threads) { uint64_t s1 = r.next(), s2 = r.next(); std::thread t(writer, s1, total); reader(s2, total); t.join(); }
		else while (g < total && !bad) { if (r.chance(2, 3)) writer(r.next(), std::min(total, w + r.below(200000))); else reader(r.next(), std::min(w + 1, total)); 
			if (w > g && r.chance(1, 10)) { reader(r.next(), w); VH_CHECK(g == w || sock, "pipe-lost", "pipe empty with %zu of %zu bytes read", g, w); } vh::stat("pipe_turns"); }
		VH_CHECK(bad || (g == w && g == total), "pipe-total", "read %zu of %zu written", g, w);
		vh::stat("pipe_bytes", (long long)g);
		if (sock) Pipe::destroy_socket_pipe(h); else delete pipe;
	}
	VH_CHECK(vh::count_fds() == fd0, "pipe-fds", "%d descriptors after, %d before", vh::count_fds(), fd0);
	vh::stat("evaluations"); vh::distinct(vh::mix(r.next(), 7));
}

int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); vh::watchdog(30);
	set_log_threshold(L_MAXIMUM_LEVEL);
	Rng r(a.seed);
	for (long c = 0; c < a.cases; c++) {
		vh::tick("packet");
		switch (r.below(20)) { case 0: pipe_case(a, r, c); break; case 1: case 2: case 3: case 4: case 5: case 6: case 7: stream_case(a, r, c); break; default: packet_case(a, r, c); }
	}
#ifdef __SANITIZE_ADDRESS__
	vh::leak_check();
#endif
	return vh::finish();
}
