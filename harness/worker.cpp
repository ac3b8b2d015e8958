// C04: messages to worker threads.   modes: normal overflow
#include <cy_core.h>
#include <cy_event.h>
#include <sys/epoll.h>
#include <errno.h>
#include "vh.h"
using namespace cyclone;
using vh::Rng;
struct Flag { int v = 0; void operator=(int x) { __atomic_store_n(&v, x, __ATOMIC_RELAXED); } operator int() const { return __atomic_load_n(&v, __ATOMIC_RELAXED); } };
static Flag g_delay;
static thread_local uint64_t t_rng = 0;
static void point() {
	int d = g_delay; if (!d) return; 
	if (!t_rng) t_rng = 88172645463325252ull ^ ((uint64_t)(uintptr_t)&t_rng * 0x9E3779B97F4A7C15ull) ^ (uint64_t)vh::now_us();
	t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17; uint64_t x = t_rng;
	if (x % (uint64_t)d) return; if ((x >> 20) % 4) sched_yield(); else { struct timespec t = { 0, (long)((x >> 24) % 60000) }; nanosleep(&t, 0); }
}
extern "C" void vh_atomic_point(int) { point(); }
extern "C" int vh_spurious(void) { return g_delay && t_rng % 11 == 0; }
extern "C" {
int __real_epoll_wait(int, struct epoll_event*, int, int); ssize_t __real_write(int, const void*, size_t); ssize_t __real_read(int, void*, size_t);
int __wrap_epoll_wait(int e, struct epoll_event* ev, int n, int t) { point(); int r = __real_epoll_wait(e, ev, n, t); int er = errno; point(); errno = er; return r; }
ssize_t __wrap_write(int f, const void* b, size_t n) { point(); ssize_t r = __real_write(f, b, n); int er = errno; point(); errno = er; return r; }
ssize_t __wrap_read(int f, void* b, size_t n) { point(); ssize_t r = __real_read(f, b, n); int er = errno; point(); errno = er; return r; }
}
// message content: sender, sequence, worker, then bytes derived from them
struct Head { uint32_t sender, seq, worker, size; };
static uint8_t patt(const Head& h, size_t i) { return (uint8_t)(h.sender * 131 + h.seq * 17 + h.size + i * 7 + (i >> 8)); }
static uint16_t idOf(const Head& h) { return (uint16_t)(h.sender * 7919u + h.seq * 31u + h.size); }
static std::string content(const Head& h) { std::string s((size_t)h.size, 0); for (size_t i = 0; i < s.size(); i++) s[i] = (char)patt(h, i); if (s.size() >= sizeof h) memcpy(&s[0], &h, sizeof h); return s; }

struct World;
struct Wk { WorkThread* t = nullptr; World* w = nullptr; uint32_t idx = 0; std::atomic<long> sent{ 0 }, handled{ 0 }; std::thread::id tid; std::atomic<int> starts{ 0 }, startedAt{ 0 }, block{ 0 }, inBlock{ 0 }; std::vector<uint32_t> next; std::vector<uint64_t> seen; std::string name; long selfBudget = 0; uint32_t selfSeq = 0; uint64_t sig = 1; std::vector<uint32_t> crossSeq; };
struct World { std::vector<std::unique_ptr<Wk>> wk; uint32_t ns = 0; bool overflow = false; Rng r{ 1 }; };
static const uint32_t MAXS = 16;
static size_t pickSize(Rng& q) { size_t n = q.chance(1, 2) ? q.range(16, 60) : q.chance(1, 3) ? q.range(990, 1040) : q.chance(1, 10) ? q.range(2000, 65535) : q.range(16, 2000); return q.chance(1, 60) ? 65535 : n; }

static void sendOne(Wk& k, uint32_t sender, uint32_t& seq, Rng& q, int forceForm = -1) {
	int form = forceForm >= 0 ? forceForm : (int)q.below(4); uint32_t n = form == 3 ? (uint32_t)q.range(0, 6) : 1;
	std::vector<Packet*> ps; std::vector<Head> hs; 
	for (uint32_t i = 0; i < n; i++) hs.push_back({ sender, seq++, k.idx, (uint32_t)pickSize(q) });
	k.sent += n;
	if (form == 0) { std::string s = content(hs[0]); char* p = (char*)malloc(s.size()); memcpy(p, s.data(), s.size()); k.t->send_message(idOf(hs[0]), (uint16_t)s.size(), p); free(p); }
	else if (form == 1) { std::string s = content(hs[0]); size_t cut = q.below(s.size() + 1); k.t->send_message(idOf(hs[0]), (uint16_t)cut, s.data(), (uint16_t)(s.size() - cut), s.data() + cut); }
	else {
		for (auto& h : hs) { std::string s = content(h); Packet* p = Packet::alloc_packet(); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE, idOf(h), (uint16_t)s.size(), s.data()); ps.push_back(p); }
		if (form == 2) k.t->send_message(ps[0]); else k.t->send_message((const Packet**)ps.data(), (int32_t)n);
		for (auto p : ps) { if (p->get_packet_size()) memset(p->get_packet_content(), 0xEE, p->get_packet_size()); Packet::free_packet(p); }
	}
	vh::stat(form == 0 ? "form_simple" : form == 1 ? "form_two_parts" : form == 2 ? "form_packet" : "form_batch", n);
}
static void handle(Wk& k, Packet* p) {
	vh::tick("handle");
	VH_CHECK(std::this_thread::get_id() == k.tid, "wrong-thread", "message handled on another thread");
	VH_CHECK(k.starts == 1, "before-start", "message handled before the start callback had run");
	size_t n = p->get_packet_size(); Head h; 
	if (n < sizeof h) { vh::viol("content", "a message of %zu bytes was handled, the smallest sent has %zu", n, sizeof h); return; }
	memcpy(&h, p->get_packet_content(), sizeof h);
	if (h.size != n || h.sender >= MAXS * 2 || h.worker != k.idx) { vh::viol("content", "message header says size %u sender %u worker %u in a message of %zu bytes on worker %u", h.size, h.sender, h.worker, n, k.idx); return; }
	VH_CHECK(p->get_packet_id() == idOf(h), "id", "identifier %u, sent %u", p->get_packet_id(), idOf(h));
	for (size_t i = sizeof h; i < n; i++) if ((uint8_t)p->get_packet_content()[i] != patt(h, i)) { vh::viol("content", "byte %zu of a %zu byte message changed", i, n); break; }
	uint32_t& nx = k.next[h.sender];
	if (k.w->overflow) { VH_CHECK(h.seq >= nx, h.seq + 1 == nx ? "duplicate" : "order", "message %u of sender %u after %u", h.seq, h.sender, nx - 1); if (h.seq > nx) vh::stat("dropped", h.seq - nx); }
	else VH_CHECK(h.seq == nx, h.seq < nx ? "duplicate-or-order" : "order-or-lost", "message %u of sender %u handled, expected %u", h.seq, h.sender, nx);
	nx = h.seq + 1; k.sig = vh::mix(k.sig, h.sender);
	if (k.block == 1) { k.inBlock = 1; while (k.block == 1) { vh::usleep_(200); vh::tick("blocked"); } k.inBlock = 0; }
	if (k.selfBudget > 0 && (h.seq & 3) == 0) { static thread_local Rng q(12345 + k.idx); int m = (int)q.below(3); for (int i = 0; i < m && k.selfBudget > 0; i++, k.selfBudget--) { sendOne(k, MAXS + k.idx, k.selfSeq, q); vh::stat("sent_from_handler");
		if (k.w->wk.size() > 1 && q.chance(1, 3)) { Wk& o = *k.w->wk[(k.idx + 1) % k.w->wk.size()]; sendOne(o, MAXS + k.idx, k.crossSeq[o.idx], q); vh::stat("sent_across"); } } }
	if ((h.seq & 15) == 7 && (h.sender & 1)) sched_yield();
	k.handled++;      // last: what the handler itself sent is counted by now
}
static void run_case(vh::Args& a, Rng& r, long c) {
	World w; w.overflow = a.mode == "overflow"; bool deep = a.mode == "deep"; uint32_t nw = w.overflow || deep ? 1 : (uint32_t)r.range(1, 3); w.ns = (uint32_t)r.range(1, 4); int per = w.overflow ? 0 : (int)r.range(5, (uint64_t)a.geti("per", 120)); bool abrupt = r.chance(1, 5);
	g_delay = r.chance(1, 4) ? 0 : (int)r.range(1, 10); int base = vh::count_threads(), fds = vh::count_fds();
	vh::setcase("case=%ld workers=%u senders=%u per=%d abrupt=%d delay=%d", c, nw, w.ns, per, abrupt, (int)g_delay);
	for (uint32_t i = 0; i < nw; i++) {
		Wk* k = new Wk; k->w = &w; k->idx = i; k->next.assign(MAXS * 2, 0); k->crossSeq.assign(4, 0); k->selfBudget = r.chance(1, 2) ? (long)r.below(60) : 0; k->name = "wk" + std::to_string(r.next() % 1000000); w.wk.emplace_back(k); k->t = new WorkThread;
		VH_CHECK(!k->t->is_running(), "running", "running before start");
		k->t->set_on_start([k]() -> bool { k->tid = std::this_thread::get_id(); k->starts++; return true; });
		k->t->set_on_message([k](Packet* p) { handle(*k, p); });
	}
	// cross sends address workers by index, so all have to be running first
	for (auto& k : w.wk) { k->t->start(k->name.c_str()); VH_CHECK(k->t->is_running() && k->name == k->t->get_name(), "name", "name %s", k->t->get_name()); VH_CHECK(k->t->get_looper() != nullptr, "looper-at-start", "the worker has no loop when start() has returned"); }
	if (deep) {      // nearly everything the queue can hold is waiting when the worker gets to it
		Wk& k = *w.wk[0]; k.selfBudget = 0; Rng q(r.next()); std::vector<uint32_t> seq(MAXS, 0); k.block = 1; sendOne(k, 0, seq[0], q, 0); while (!k.inBlock) vh::usleep_(100); g_delay = 0;
		long n = r.chance(1, 3) ? (long)r.range(40000, 60000) : r.chance(1, 2) ? (long)r.range(5000, 40000) : (long)r.range(300, 5000); uint64_t sd = r.next(); std::vector<std::thread> ts; for (uint32_t s = 0; s < w.ns; s++) ts.emplace_back([&, s] { Rng z(sd + s); for (long i = 0; i < n / (long)w.ns; ) { long m = std::min<long>((long)(z.chance(1, 2) ? 1 : z.range(2, 400)), n / (long)w.ns - i); std::vector<Packet*> ps; for (long j = 0; j < m; j++) { Head h = { s, seq[s]++, 0, (uint32_t)z.range(16, 40) }; std::string b = content(h); k.sent++; if (m == 1 && z.chance(1, 2)) { k.t->send_message(idOf(h), (uint16_t)b.size(), b.data()); continue; } Packet* p = Packet::alloc_packet(); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE, idOf(h), (uint16_t)b.size(), b.data()); ps.push_back(p); } if (!ps.empty()) { k.t->send_message((const Packet**)ps.data(), (int32_t)ps.size()); for (auto p : ps) Packet::free_packet(p); } i += m; vh::tick("fill"); } });
		for (auto& t : ts) t.join(); long pending = k.sent - k.handled; k.block = 2; vh::tick("drain"); while (k.handled < k.sent) vh::usleep_(200); vh::stat("quiesced"); vh::stat("deep"); vh::stat("deep_pending", pending); vh::statmax("max_pending", pending);
	} else if (!w.overflow) {
		std::vector<std::thread> ts; std::atomic<int> stopEarly{ 0 }; uint64_t sd = r.next(); int style = (int)r.below(3);
		for (uint32_t s = 0; s < w.ns; s++) ts.emplace_back([&, s] {
			Rng q(sd + s); std::vector<uint32_t> seq(w.wk.size(), 0);
			for (int i = 0; i < per; i++) { Wk& k = *w.wk[q.below(w.wk.size())]; while (k.sent - k.handled > 700 && !stopEarly) { vh::usleep_(100); } sendOne(k, s, seq[k.idx], q); vh::tick("send");
				if (style == 0 ? q.chance(1, 2) : style == 1 ? q.chance(1, 10) : false) { if (q.chance(1, 2)) { long t = k.sent; for (int z = 0; z < 3000 && k.handled < t; z++) sched_yield(); } else vh::usleep_((unsigned)q.below(300)); } } });
		for (auto& t : ts) t.join();
		vh::tick("all-sent"); 
		if (!abrupt) { for (;;) { long h = 0, n = 0; for (auto& k : w.wk) h += k->handled; for (auto& k : w.wk) n += k->sent; if (h == n) break; vh::usleep_(100); } // nothing more is sent: the hang monitor judges a message left behind
			for (auto& k : w.wk) { VH_CHECK(k->handled == k->sent, "count", "%ld handled, %ld sent", (long)k->handled, (long)k->sent); vh::stat("quiesced"); } }
		else vh::stat("abrupt");
	} else {
		Wk& k = *w.wk[0]; k.selfBudget = 0; Rng q(r.next()); uint32_t seq[4] = { 0, 0, 0, 0 }; k.block = 1; sendOne(k, 0, seq[0], q, 0); while (!k.inBlock) vh::usleep_(100);
		long n = a.geti("flood", 67000); auto small = [&](uint32_t s) { Head h = { s, seq[s]++, 0, (uint32_t)q.range(16, 40) }; std::string b = content(h); k.sent++; k.t->send_message(idOf(h), (uint16_t)b.size(), b.data()); };
		g_delay = 0; long before = k.handled; for (long i = 0; i < n; i++) { small((uint32_t)q.below(2)); vh::tick("flood"); } 
		k.block = abrupt ? 1 : 2; if (!abrupt) { vh::tick("drain"); long last = -1; for (;;) { long hnow = k.handled; if (hnow == last && hnow > before) break; last = hnow; vh::usleep_(50000); } vh::stat("overflow_handled", k.handled - before); VH_CHECK(k.handled - before >= std::min<long>(n, 500), "count", "only %ld of %ld pending messages handled", k.handled - before, n);
			// afterwards the worker is as good as new
			long h0 = k.handled; k.sent = h0; for (int i = 0; i < 50; i++) small(2); while (k.handled < h0 + 50) vh::usleep_(100); vh::stat("recovered"); }
		else { vh::stat("abrupt"); }
	}
	for (auto& k : w.wk) { vh::tick("join"); while (!k->starts) vh::usleep_(50); VH_CHECK(k->t->get_thread_id() == k->tid, "thread-id", "get_thread_id differs from the handling thread"); Looper* l = k->t->get_looper(); l->push_stop_request(); if (k->block == 1) k->block = 2; }
	for (auto& k : w.wk) { std::vector<std::thread> js; if (r.chance(1, 4)) { for (int i = (int)r.range(1, 3); i > 0; i--) js.emplace_back([&k] { k->t->join(); }); vh::stat("concurrent_joins"); } k->t->join(); for (auto& t : js) t.join(); VH_CHECK(!k->t->is_running(), "running", "running after join"); VH_CHECK(k->starts == 1, "starts", "start callback ran %d times", (int)k->starts); if (r.chance(1, 2)) k->t->join(); }
	for (auto& k : w.wk) { vh::distinct(k->sig); vh::stat("messages", k->handled); delete k->t; }
	g_delay = 0; for (int i = 0; vh::count_threads() > base; i++) vh::usleep_(100); VH_CHECK(vh::count_fds() == fds, "fd-leak", "%d descriptors before, %d after", fds, vh::count_fds());
	vh::stat("evaluations");
}
static void refuse_case(Rng& r) {   // the start callback may refuse to run
	WorkThread* t = new WorkThread; std::atomic<int> n{ 0 }, st{ 0 }; t->set_on_start([&]() -> bool { st++; if (r.chance(1, 2)) vh::usleep_(100); return false; }); t->set_on_message([&](Packet*) { n++; });
	t->start("refuse"); for (int i = 0; i < 5; i++) { t->send_message(1, 3, "abc"); } t->join(); VH_CHECK(st == 1 && n == 0, "refused-start", "start %d messages %d", (int)st, (int)n); delete t; vh::stat("refused_starts");
}
int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); vh::watchdog(); set_log_threshold(L_MAXIMUM_LEVEL); signal(SIGPIPE, SIG_IGN);
	for (long c = 0; c < a.cases; c++) { if (a.only >= 0 && c != a.only) continue; Rng r(a.seed * 1000003 + (uint64_t)c); vh::tick("case"); run_case(a, r, c); if (c % 20 == 0) refuse_case(r); }
#if defined(__SANITIZE_ADDRESS__)
	if (a.geti("leaks", 0)) vh::leak_check();
#endif
	return vh::finish();
}
