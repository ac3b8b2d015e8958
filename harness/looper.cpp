// C05 (mode dispatch), C06 (mode timer / timerlong), C07 (mode stop): the event loop.
#include <cy_core.h>
#include <cy_event.h>
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <poll.h>
#include <errno.h>
#include <deque>
#include <algorithm>
#include "vh.h"
using namespace cyclone;
using vh::Rng;

// ---- interposition: interrupted waits, delays -------------------------------------------------------
struct Flag { int v = 0; void operator=(int x) { __atomic_store_n(&v, x, __ATOMIC_RELAXED); } operator int() const { return __atomic_load_n(&v, __ATOMIC_RELAXED); } };
static Flag g_delay, g_eintr; static long g_eintrs;
static thread_local uint64_t t_rng = 0; static thread_local bool t_loopThread = false;
static uint64_t lrand() { if (!t_rng) t_rng = 88172645463325252ull ^ ((uint64_t)(uintptr_t)&t_rng * 0x9E3779B97F4A7C15ull) ^ (uint64_t)vh::now_us(); t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17; return t_rng; }
static void point(int w = 1) { int d = g_delay; if (!d) return; uint64_t x = lrand(); if (x % (uint64_t)(d * w)) return; if ((x >> 20) % 3) sched_yield(); else { struct timespec t = { 0, (long)((x >> 24) % 150000) }; nanosleep(&t, 0); } }
extern "C" void vh_atomic_point(int) { point(); }
static int g_lastTimerFd = -1, g_timerFds = 0;
extern "C" {
int __real_timerfd_create(int, int); int __wrap_timerfd_create(int c, int f) { int r = __real_timerfd_create(c, f); g_lastTimerFd = r; __atomic_add_fetch(&g_timerFds, 1, __ATOMIC_RELAXED); return r; }
int __real_epoll_wait(int, struct epoll_event*, int, int); int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*); ssize_t __real_write(int, const void*, size_t); ssize_t __real_read(int, void*, size_t); int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_epoll_ctl(int, int, int, struct epoll_event*);
static bool interrupt() { if (!g_eintr || !t_loopThread) return false; if (lrand() % (uint64_t)(int)g_eintr) return false; g_eintrs++; errno = EINTR; return true; }
int __wrap_epoll_wait(int e, struct epoll_event* ev, int n, int t) { point(); if (interrupt()) return -1; int r = __real_epoll_wait(e, ev, n, t); int er = errno; point(); errno = er; return r; }
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* t) { point(); if (interrupt()) return -1; int k = __real_select(n, r, w, x, t); int er = errno; point(); errno = er; return k; }
int __wrap_epoll_ctl(int e, int o, int f, struct epoll_event* ev) { point(); int r = __real_epoll_ctl(e, o, f, ev); int er = errno; point(); errno = er; return r; }
ssize_t __wrap_write(int f, const void* b, size_t n) { point(); ssize_t r = __real_write(f, b, n); int er = errno; point(); errno = er; return r; }
ssize_t __wrap_read(int f, void* b, size_t n) { point(); ssize_t r = __real_read(f, b, n); int er = errno; point(); errno = er; return r; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { point(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); point(); return r; }
}
static void nb(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL, 0) | O_NONBLOCK); }

// ---- C05 ------------------------------------------------------------------------------------------------
struct Reg { Looper::event_id_t id; int fd, peer; void* param; bool fresh = false; bool live = false, rd = false, wr = false; bool hasR = true, hasW = true; uint64_t rsince = 0, wsince = 0; long calls = 0; int chan; };
struct Chan { int a = -1, b = -1; std::shared_ptr<Reg> reg; };
struct World {
	Looper* L; Rng r; std::vector<Chan> ch; std::thread::id self; std::deque<std::shared_ptr<Reg>> gone; long ops = 0, calls = 0, budget = 0; uint64_t sig = 1; uint64_t round = 0; bool inCall = false, quiet = false; int depth = 0; long sameRoundSkips = 0; uint64_t lastParam = 0; std::map<uint32_t, std::shared_ptr<Reg>> byId; bool epoll = true; long maxCalls = 0; size_t maxLive = 0;
	World(uint64_t s) : r(s) {}
	void open(Chan& c) {
		int f[2]; if (r.chance(1, 4)) { if (pipe(f)) return; c.a = f[0]; c.b = f[1]; if (r.chance(1, 2)) std::swap(c.a, c.b); } else { if (socketpair(AF_UNIX, SOCK_STREAM, 0, f)) return; c.a = f[0]; c.b = f[1]; }
		if (r.chance(1, 5)) { int h = fcntl(c.a, F_DUPFD, (int)r.range(r.chance(1, 2) ? 1016 : 200, 1023)); if (h >= 0 && h < 1024) { close(c.a); c.a = h; vh::stat("high_fds"); } else if (h >= 0) close(h); }
		nb(c.a); if (c.b >= 0) nb(c.b);
	}
	// select() cannot handle such a descriptor: whatever the answer, nothing else may suffer
	void beyond() {
		int f[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, f)) return; int h = fcntl(f[0], F_DUPFD, r.chance(1, 2) ? 1024 : (int)r.range(1025, 1200)); close(f[0]); if (h < 0) { close(f[1]); return; } nb(h); nb(f[1]);
		auto none = [](Looper::event_id_t, socket_t, Looper::event_t, void*) {}; Looper::event_id_t id = L->register_event(h, (uint32_t)r.below(4), 0, none, none); if (id != Looper::INVALID_EVENT_ID) { for (int k = (int)r.below(5); k > 0; k--) switch (r.below(5)) { case 0: L->enable_read(id); break; case 1: L->enable_write(id); break; case 2: L->disable_read(id); break; case 3: L->disable_write(id); break; default: L->disable_all(id); } L->delete_event(id); }
		close(h); close(f[1]); vh::stat("beyond_fd_set");
	}
	void closeChan(Chan& c) { if (c.reg) del(c); if (c.a >= 0) close(c.a); if (c.b >= 0) close(c.b); c.a = c.b = -1; }
	void reg(Chan& c, size_t idx) {
		if (c.a < 0 || c.reg) return;
		auto g = std::make_shared<Reg>(); g->fd = c.a; g->peer = c.b; g->param = (void*)(uintptr_t)(++lastParam * 0x10001); g->chan = (int)idx;
		uint32_t ev = (uint32_t)r.below(4); if (r.chance(1, 3)) ev = 1; g->hasR = (ev & 1) || r.chance(1, 2); g->hasW = (ev & 2) || r.chance(1, 2);
		Looper::event_callback onR, onW; Reg* gp = g.get(); (void)gp;
		std::weak_ptr<Reg> wk = g; World* w = this;
		if (g->hasR) onR = [w, wk, g](Looper::event_id_t id, socket_t fd, Looper::event_t e, void* p) { w->called(g, id, fd, e, p, Looper::kRead); if (!w || !g) abort(); };
		if (g->hasW) onW = [w, wk, g](Looper::event_id_t id, socket_t fd, Looper::event_t e, void* p) { w->called(g, id, fd, e, p, Looper::kWrite); if (!w || !g) abort(); };
		g->live = true; g->rd = ev & 1; g->wr = ev & 2; c.reg = g;
		g->id = L->register_event(c.a, ev, g->param, onR, onW); round++;
		VH_CHECK(g->id != Looper::INVALID_EVENT_ID, "register", "no id");
		auto& slot = byId[g->id]; VH_CHECK(!slot || !slot->live || slot == g, "id-reuse", "the id %u of a live registration was given out again", g->id); for (auto& o : tm) VH_CHECK(o->id != g->id, "id-reuse", "the id %u of a live timer was given out again", g->id); slot = g;
		sig = vh::mix(sig, g->id * 8 + ev); vh::stat("registered"); touch(g); g->fresh = true;
	}
	// timers share the table with the registrations: ids and slots pass from one kind to the other
	struct T { Looper::event_id_t id; void* param; int64_t t0; uint32_t ms; bool live = true; long k = 0; }; std::vector<std::shared_ptr<T>> tm;
	void timers() {
		if (tm.size() && (tm.size() > 6 || r.chance(1, 2))) { size_t i = r.below(tm.size()); auto t = tm[i]; tm.erase(tm.begin() + (long)i); t->live = false; L->delete_event(t->id); vh::stat("timers_deleted"); if (r.chance(1, 2)) { Chan& c = ch[r.below(ch.size())]; if (c.a < 0) open(c); reg(c, (size_t)(&c - &ch[0])); } return; }
		auto t = std::make_shared<T>(); t->param = (void*)(uintptr_t)(++lastParam * 0x10001); t->ms = r.chance(1, 2) ? (uint32_t)r.range(1, 5) : (uint32_t)r.range(1000, 4000000000u); t->t0 = vh::now_us();
		World* w = this; t->id = L->register_timer_event(t->ms, t->param, [w, t](Looper::event_id_t id, void* p) { w->timerCalled(t, id, p); if (!w || !t) abort(); }); VH_CHECK(t->id != Looper::INVALID_EVENT_ID, "register", "no timer"); auto& slot = byId[t->id]; VH_CHECK(!slot || !slot->live, "id-reuse", "the id %u of a live registration was given to a timer", t->id); for (auto& o : tm) VH_CHECK(o->id != t->id, "id-reuse", "the id %u of a live timer was given out again", t->id); tm.push_back(t); vh::stat("timers");
	}
	void timerCalled(std::shared_ptr<T> t, Looper::event_id_t id, void* p) {
		vh::tick("dispatch"); vh::stat("timer_calls"); VH_CHECK(t->live, "after-delete", "callback of timer %u after its deletion", t->id); if (!t->live) return; VH_CHECK(id == t->id && p == t->param, "wrong-args", "timer callback with id %u param %p, registered %u %p", id, p, t->id, t->param); t->k++; VH_CHECK(vh::now_us() >= t->t0 + t->k * (int64_t)t->ms * 1000 - 100, "timer-early", "call %ld of a %u ms timer came %.3f ms after registration", t->k, t->ms, (vh::now_us() - t->t0) / 1000.0); VH_CHECK(std::this_thread::get_id() == self && !inCall, "wrong-thread", "timer callback on another thread or inside a callback");
		if (quiet) return; inCall = true; int n = (int)r.below(3); for (int i = 0; i < n && budget > 0; i++, budget--) act(-1); if (t->live && r.chance(1, 6)) { for (size_t i = 0; i < tm.size(); i++) if (tm[i] == t) { tm.erase(tm.begin() + (long)i); break; } t->live = false; L->delete_event(t->id); vh::stat("timers_deleted"); } inCall = false;
	}
	void touch(std::shared_ptr<Reg> g) { g->rsince = g->wsince = 0; g->fresh = false; }
	void del(Chan& c) { if (!c.reg) return; auto g = c.reg; g->live = false; c.reg.reset(); L->delete_event(g->id); VH_CHECK(g->fd != c.a || fcntl(g->fd, F_GETFD) >= 0, "closed-descriptor", "deleting a registration closed its descriptor"); sig = vh::mix(sig, g->id * 8 + 5); vh::stat("deleted"); }
	void change(std::shared_ptr<Reg> g, int k) {
		if (!g || !g->live) return; touch(g);
		// the model changes first: the call may not run callbacks
		if (k == 0) { g->rd = false; L->disable_read(g->id); } else if (k == 1) { if (g->hasR) { g->rd = true; L->enable_read(g->id); } } else if (k == 2) { g->wr = false; L->disable_write(g->id); } else if (k == 3) { if (g->hasW) { g->wr = true; L->enable_write(g->id); } } else { g->rd = g->wr = false; L->disable_all(g->id); }
		VH_CHECK(L->is_read(g->id) == g->rd, "is-read", "is_read says %d after the change %d, expected %d", L->is_read(g->id), k, g->rd); VH_CHECK(L->is_write(g->id) == g->wr, "is-write", "is_write says %d after the change %d, expected %d", L->is_write(g->id), k, g->wr);
		sig = vh::mix(sig, g->id * 8 + (uint64_t)k); vh::stat("changes");
	}
	void act(int cur) {
		size_t i = (cur >= 0 && r.chance(2, 5)) ? (size_t)cur : r.below(ch.size()); Chan& c = ch[i]; ops++;
		if (r.chance(1, 25)) { const Looper::event_id_t no = Looper::INVALID_EVENT_ID; switch (r.below(6)) { case 0: L->disable_read(no); break; case 1: L->enable_read(no); break; case 2: L->disable_write(no); break; case 3: L->enable_write(no); break; case 4: L->disable_all(no); break; default: L->delete_event(no); } VH_CHECK(!L->is_read(no) && !L->is_write(no), "invalid-id", "the invalid id is reported as enabled"); for (auto& d : ch) if (d.reg) VH_CHECK(L->is_read(d.reg->id) == d.reg->rd && L->is_write(d.reg->id) == d.reg->wr, "invalid-id", "an operation on the invalid id changed registration %u", d.reg->id); vh::stat("invalid_ids"); }
		if (r.chance(1, 60)) beyond();
		switch (r.below(13)) {
		case 12: timers(); break;
		case 0: if (c.a < 0) open(c); reg(c, i); break;
		case 1: del(c); break;
		case 2: case 3: case 4: if (c.reg) change(c.reg, (int)r.below(5)); break;
		case 5: if (c.b >= 0) { char b[64] = { 1 }; (void)!__real_write(c.b, b, r.range(1, 64)); } break;
		case 6: if (c.a >= 0) { char b[64]; (void)!__real_read(c.a, b, 64); if (c.reg) touch(c.reg); } break;
		case 7: if (c.b >= 0) { char b[4096]; if (r.chance(1, 2)) while (__real_read(c.b, b, 4096) > 0) {} } break;
		case 8: if (r.chance(1, 3)) { closeChan(c); open(c); if (r.chance(2, 3)) reg(c, i); vh::stat("fd_reused"); } break;   // descriptor (and slot) reused at once
		case 9: if (r.chance(1, 4) && c.b >= 0) { close(c.b); c.b = -1; vh::stat("hangups"); } break;
		case 10: if (r.chance(1, 6)) { size_t n = r.range(2, 20), k = 0; for (size_t j = 0; j < ch.size() && k < n; j++) { Chan& d = ch[(i + j) % ch.size()]; if (d.a < 0) open(d); if (!d.reg) { reg(d, (i + j) % ch.size()); k++; } } } else if (r.chance(1, 10)) { for (auto& d : ch) if (d.reg && r.chance(1, 2)) del(d); } break;
		case 11: if (c.a >= 0 && r.chance(1, 3)) { char b[8192]; memset(b, 2, sizeof b); while (__real_write(c.a, b, sizeof b) > 0) {} if (c.reg) touch(c.reg); vh::stat("filled"); } break;
		}
	}
	void called(std::shared_ptr<Reg> g, Looper::event_id_t id, socket_t fd, Looper::event_t e, void* p, uint32_t dir) {
		vh::tick("dispatch"); calls++; g->calls++;
		const char* dn = dir == Looper::kRead ? "read" : "write";
		VH_CHECK(std::this_thread::get_id() == self, "wrong-thread", "callback on another thread");
		VH_CHECK(!inCall, "nested", "callback inside a callback");
		if (!g->live) { vh::viol("after-delete", "%s callback of registration %u after its deletion", dn, g->id); return; }
		VH_CHECK(dir == Looper::kRead ? g->rd : g->wr, "disabled", "%s callback of registration %u while %s is disabled", dn, g->id, dn);
		VH_CHECK(id == g->id && fd == g->fd && p == g->param && e == dir, "wrong-args", "%s callback with id %u fd %d event %u param %p, registered id %u fd %d param %p", dn, id, fd, e, p, g->id, g->fd, g->param);
		pollfd pf = { g->fd, (short)(dir == Looper::kRead ? POLLIN : POLLOUT), 0 }; poll(&pf, 1, 0); if (!(pf.revents & (pf.events | POLLHUP | POLLERR))) { vh::stat("stale_ready"); if (g->fresh) vh::viol("never-ready", "%s callback of registration %u (fd %d), which has not been ready since it was made", dn, g->id, g->fd); } else if (g->fresh) vh::stat("first_calls_ready"); g->fresh = false;
		(dir == Looper::kRead ? g->rsince : g->wsince) = 0; if (quiet) { vh::stat("quiet_calls"); return; } inCall = true;
		if (dir == Looper::kRead && r.chance(2, 3)) { char b[64]; ssize_t n = __real_read(fd, b, r.range(1, 64)); if (n == 0 || (n < 0 && errno != EAGAIN)) { if (r.chance(1, 2)) change(g, 0); else del(ch[(size_t)g->chan]); } }
		if (dir == Looper::kWrite && r.chance(1, 2)) { if (r.chance(1, 2)) change(g, 2); else { char b[512]; memset(b, 3, sizeof b); if (__real_write(fd, b, r.range(1, 512)) < 0 && errno != EAGAIN) change(g, 2); } }
		int n = (int)r.below(4); for (int i = 0; i < n && budget > 0; i++, budget--) act(g->chan);
		inCall = false;
	}
	bool toggling = false;
	void burst() { if (toggling) for (int k = 0; k < 5; k++) { Chan& c = ch[r.below(ch.size())]; if (c.reg) { int m = r.chance(1, 2) ? 2 : 0; change(c.reg, m + 1); change(c.reg, r.chance(1, 5) ? 4 : m); if (r.chance(1, 2)) change(c.reg, m + 1); } } if (!r.chance(1, 3)) return; unsigned k = (unsigned)r.range(1, 3); for (size_t i = 0; i < ch.size(); i++) if (r.chance(k, 3)) { Chan& c = ch[i]; if (c.a < 0 || c.b < 0) { closeChan(c); open(c); } if (!c.reg) reg(c, i); if (c.b >= 0) { char b[4] = { 9 }; (void)!__real_write(c.b, b, r.range(1, 4)); } if (c.reg && !c.reg->rd && r.chance(1, 2)) change(c.reg, 1); } }
	// every registration that stays ready and enabled must be served within a bounded number of rounds
	void readiness() {
		std::vector<pollfd> pf; std::vector<std::pair<std::shared_ptr<Reg>, int>> who; size_t live = 0;
		for (auto& c : ch) if (c.reg) { live++; auto g = c.reg; if (g->rd) { pf.push_back({ g->fd, POLLIN | POLLOUT, 0 }); who.push_back({ g, 1 }); } if (g->wr) { pf.push_back({ g->fd, POLLIN | POLLOUT, 0 }); who.push_back({ g, 2 }); } }
		maxLive = std::max(maxLive, live);
		if (!pf.empty()) poll(pf.data(), pf.size(), 0);
		for (size_t i = 0; i < pf.size(); i++) {
			auto g = who[i].first; uint64_t& s = who[i].second == 1 ? g->rsince : g->wsince;
			short re = pf[i].revents; bool only = !(re & (POLLIN | POLLOUT)), ready = who[i].second == 1 ? (re & POLLIN) || (only && (re & (POLLHUP | POLLERR))) : (re & POLLOUT) || (only && (re & POLLERR)); if (ready && only) vh::stat("ready_by_hangup");      // a lone hang-up or error makes a call not block
			if (ready) { vh::stat("ready_seen"); if (++s > 60) { vh::viol("starved", "registration %u (fd %d) has been ready and enabled for %s for %d rounds (of %zu live) without a callback", g->id, g->fd, who[i].second == 1 ? "read" : "write", 60, live); s = 0; } } else s = 0;
		}
	}
};
enum { kQuiet = 64 };      // rounds at the end in which nothing is changed and no callback does anything: whatever is ready and enabled stays so
static void dispatch_case(Rng& base, vh::Args& a, long c) {
	int fds = vh::count_fds(); World w(base.next()); w.self = std::this_thread::get_id(); t_loopThread = true;
	w.L = Looper::create_looper(); size_t n = w.r.chance(1, 2) ? w.r.range(2, 8) : w.r.range(12, 70); w.ch.resize(n); bool viaLoop = w.r.chance(1, 2); int rounds = (int)w.r.range(20, 120); if (w.r.chance(1, 60)) { rounds = (int)w.r.range(1500, 2500); w.ch.resize(n = (size_t)w.r.range(3, 10)); w.toggling = true; vh::stat("long_lived"); }
	g_eintr = w.r.chance(1, 2) ? 0 : (int)w.r.range(2, 10); long e0 = g_eintrs; if (!viaLoop && g_eintr) g_eintr = 3;
	vh::setcase("dispatch case=%ld channels=%zu loop=%d rounds=%d eintr=%d", c, n, viaLoop, rounds, (int)g_eintr);
	for (size_t i = 0; i < n; i++) { w.open(w.ch[i]); if (w.r.chance(2, 3)) w.reg(w.ch[i], i); }
	if (!viaLoop) { for (int k = 0; k < rounds; k++) { w.burst(); w.readiness(); w.budget = 60; w.L->step(); int m = (int)w.r.below(4); for (int i = 0; i < m; i++) w.act(-1); vh::tick("dispatch"); vh::stat("rounds"); } w.quiet = true; g_eintr = 0; for (int k = 0; k < kQuiet; k++) { w.readiness(); w.L->step(); vh::tick("quiet"); } }
	else {
		int dp[2]; (void)!pipe(dp); (void)!__real_write(dp[1], "x", 1); uint64_t lastRound = ~0ull; int k = 0; // always readable: one call per round
		Looper::event_id_t did = w.L->register_event(dp[0], Looper::kRead, 0, [&](Looper::event_id_t, socket_t, Looper::event_t, void*) {
			uint64_t lc = w.L->get_loop_counts(); VH_CHECK(lc != lastRound, "twice", "two callbacks of one readiness in a round"); lastRound = lc; VH_CHECK(!w.inCall, "nested", "callback inside a callback");
			if (k < rounds) w.burst(); w.readiness(); w.budget = 60; int m = (int)w.r.below(4); for (int i = 0; i < m && k < rounds; i++) w.act(-1); vh::tick("dispatch"); vh::stat("rounds"); if (++k >= rounds) { w.quiet = true; g_eintr = 0; } if (k >= rounds + kQuiet) w.L->push_stop_request(); }, 0);
		w.L->loop(); vh::stat("loops"); w.L->delete_event(did); close(dp[0]); close(dp[1]);
	}
	g_eintr = 0; vh::stat("interrupted_waits", g_eintrs - e0);
	for (auto& t : w.tm) { t->live = false; w.L->delete_event(t->id); } w.tm.clear();
	for (auto& x : w.ch) { w.closeChan(x); } w.byId.clear(); w.ch.clear();
	Looper::destroy_looper(w.L); int after = vh::count_fds(); VH_CHECK(after == fds, "fd-leak", "%d descriptors before, %d after", fds, after);
	vh::stat("evaluations"); vh::stat("callbacks", w.calls); vh::statmax("max_live", (long long)w.maxLive); vh::distinct(w.sig);
}

// ---- C06 ------------------------------------------------------------------------------------------------
struct Tm { Looper::event_id_t id; uint32_t period; int64_t t0; long k = 0; bool live = true; int64_t last = 0, minGap = INT64_MAX; long target = -1; void* param; std::weak_ptr<int> token; };
// what the kernel was asked for, when the timer is backed by a kernel timer of its own: periods no run can wait for
static void armed(uint32_t ms, int before, int64_t t0) {
	if (g_timerFds != before + 1 || g_lastTimerFd < 0) return; struct itimerspec v; int64_t el = vh::now_us() - t0; if (timerfd_gettime(g_lastTimerFd, &v) || (!v.it_value.tv_sec && !v.it_value.tv_nsec)) return; int64_t left = (int64_t)v.it_value.tv_sec * 1000000 + v.it_value.tv_nsec / 1000, now = vh::now_us() - t0; (void)el;
	VH_CHECK(left >= (int64_t)ms * 1000 - now - 1000, "timer-early", "a %u ms timer will call back in %.3f ms", ms, left * 1e-3); VH_CHECK(left <= (int64_t)ms * 1001 + 20000, "timer-late", "a %u ms timer will call back in %.3f ms only", ms, left * 1e-3); vh::stat("armed_checked");
}
static void timer_case(Rng& base, long c, bool longer) {
	int fds = vh::count_fds(); Rng r(base.next()); t_loopThread = true; Looper* L = Looper::create_looper(); std::vector<std::shared_ptr<Tm>> all; std::vector<std::weak_ptr<int>> tokens; std::thread::id self = std::this_thread::get_id(); uint64_t pn = 0, sig = 7; long calls = 0; bool draining = false; int io[2]; (void)!pipe(io); nb(io[0]); nb(io[1]); long ioCalls = 0, ioWanted = 0;
	int wantLive = longer ? 7 : (int)r.range(1, 14); long limit = longer ? 0 : (long)r.range(20, 150); bool settle = false; int64_t begun = vh::now_us();
	g_eintr = r.chance(1, 3) ? (int)r.range(2, 8) : 0; vh::setcase("timer case=%ld live=%d limit=%ld", c, wantLive, limit);
	std::function<void()> reg; auto live = [&] { int n = 0; for (auto& t : all) n += t->live; return n; };
	auto del = [&](std::shared_ptr<Tm> t) { if (!t->live) return; t->live = false; L->delete_event(t->id); vh::stat("timers_deleted"); };
	auto checkStop = [&] { if (!settle) return; for (auto& t : all) if (t->live && t->k < t->target) return; if (ioCalls < ioWanted) return; L->push_stop_request(); };
	std::function<void(std::shared_ptr<Tm>, Looper::event_id_t, void*)> fire = [&](std::shared_ptr<Tm> t, Looper::event_id_t id, void* p) {
		int64_t now = vh::now_us(); vh::tick("timer"); calls++; vh::stat("timer_calls");
		VH_CHECK(std::this_thread::get_id() == self, "wrong-thread", "timer callback on another thread");
		if (!t->live) { vh::viol("timer-after-delete", "timer %u (period %u) fired after its deletion", t->id, t->period); return; }
		VH_CHECK(id == t->id && p == t->param, "timer-args", "timer callback with id %u param %p, registered %u %p", id, p, t->id, t->param);
		t->k++; if (t->last) t->minGap = std::min(t->minGap, now - t->last); t->last = now;
		VH_CHECK(now >= t->t0 + t->k * (int64_t)t->period * 1000 - 100, "timer-early", "call %ld of a %u ms timer came %.3f ms after registration", t->k, t->period, (now - t->t0) / 1000.0);
		sig = vh::mix(sig, t->id * 64 + (uint64_t)(t->k % 8));
		if (longer) { checkStop(); return; }
		if (!settle) {
			if (r.chance(1, 6)) vh::usleep_((unsigned)r.below(4000));     // a slow callback: others become due in the same round
			if (r.chance(1, 5)) del(t);
			if (r.chance(1, 5)) { auto& o = all[r.below(all.size())]; del(o); }
			while (live() < wantLive && r.chance(2, 3)) reg();
			if (r.chance(1, 5)) { char b[16] = { 0 }; if (__real_write(io[1], b, 1) == 1) ioWanted++; }
			if (calls > limit) { settle = true; if (r.chance(1, 3)) for (auto& o : all) if (o->live && r.chance(1, 2)) del(o); for (auto& o : all) o->target = o->k + 12; }
		}
		checkStop();
	};
	reg = [&] {
		auto t = std::make_shared<Tm>(); static const uint32_t lp[] = { 999, 1000, 1001, 1250, 1999, 2000, 350 }; t->period = longer ? lp[all.size() % 7] : r.chance(1, 4) ? (uint32_t)r.range(10, 40) : (uint32_t)r.range(1, 9); t->param = (void*)(uintptr_t)(++pn * 977); auto tok = std::make_shared<int>(1); t->token = tok; all.push_back(t); tokens.push_back(tok); if (longer) t->target = 5000 / t->period;
		int tf0 = g_timerFds; t->t0 = vh::now_us(); if (r.chance(1, 20)) t->id = L->register_timer_event(t->period, t->param, [t, tok, &fire](Looper::event_id_t i, void* p) { fire(t, i, p); if (!t || !tok) abort(); }); else { Looper::timer_callback cb = [t, tok, &fire](Looper::event_id_t i, void* p) { fire(t, i, p); if (!t || !tok) abort(); }; t->id = L->register_timer_event(t->period, t->param, cb); }
		VH_CHECK(t->id != Looper::INVALID_EVENT_ID, "timer-register", "no timer"); armed(t->period, tf0, t->t0); for (auto& o : all) if (o != t && o->live && o->id == t->id) vh::viol("id-reuse", "the id %u of a live timer was given out again", t->id); vh::stat("timers"); if (settle) t->target = t->k + 3; };
	Looper::event_id_t iid = L->register_event(io[0], Looper::kRead, 0, [&](Looper::event_id_t, socket_t, Looper::event_t, void*) { char b[4]; ssize_t n = __real_read(io[0], b, 1); if (n == 1) ioCalls++; vh::tick("timer"); if (settle) checkStop(); }, 0);
	if (longer) { settle = true; for (int i = 0; i < wantLive; i++) reg(); } else for (int i = 0; i < wantLive; i++) reg();
	// a watcher keeps the run alive should every timer delete itself
	Looper::event_id_t wid = L->register_timer_event(50, 0, [&](Looper::event_id_t, void*) { if (!settle && live() == 0) { if (vh::now_us() - begun > 2000000) { settle = true; } else reg(); } if (!settle && vh::now_us() - begun > 3000000) { settle = true; for (auto& o : all) o->target = o->k + 3; } if (settle) checkStop(); });
	// far timers: never called within the run
	struct Far { Looper::event_id_t id; uint32_t ms; int64_t t0; }; std::vector<Far> far; std::function<void(Far*, Looper::event_id_t)> farCall = [&](Far* f, Looper::event_id_t) { VH_CHECK(vh::now_us() >= f->t0 + (int64_t)f->ms * 1000 - 100, "timer-early", "a %u ms timer called back %.3f ms after registration", f->ms, (vh::now_us() - f->t0) * 1e-3); vh::stat("far_calls"); };
	int nfar = (int)r.below(4) + (longer ? 6 : 0); far.resize((size_t)nfar); for (auto& f : far) { f.ms = longer && r.chance(1, 2) ? (uint32_t)r.range(2500, 4990) : r.chance(1, 3) ? (uint32_t)(1ull << r.range(12, 32)) + (uint32_t)r.below(50) - 25 : r.chance(1, 4) ? 4294967u * (uint32_t)r.range(1, 900) + (uint32_t)r.below(2000) : (uint32_t)r.range(5000, 4294967295u); int tf0 = g_timerFds; f.t0 = vh::now_us(); Far* pf = &f; if (f.ms < 2500) f.ms = 0xFFFFFFFFu - f.ms; f.id = L->register_timer_event(f.ms, pf, [&farCall, pf](Looper::event_id_t i, void*) { farCall(pf, i); }); armed(f.ms, tf0, f.t0); vh::stat("far_timers"); }
	vh::tick("timer-loop"); L->loop(); bool leave = r.chance(1, 3); if (leave) vh::stat("destroyed_with_timers", nfar); else for (auto& f : far) L->delete_event(f.id);
	for (auto& t : all) { if (t->live && t->k >= 12) { VH_CHECK(t->minGap <= (int64_t)t->period * 1500 + 30000, "timer-slow", "a %u ms timer: %ld calls, never less than %.1f ms apart", t->period, t->k, t->minGap / 1000.0); vh::stat("gap_checked"); } }
	for (auto& t : all) if (t->live) { t->live = false; L->delete_event(t->id); } L->delete_event(wid); L->delete_event(iid);
	draining = true; for (int i = 0; i < 3; i++) { Looper* x = L; (void)x; }
	size_t n = all.size(); all.clear(); (void)n; (void)draining;
	for (auto& t : tokens) VH_CHECK(t.expired(), "timer-held", "a deleted timer's callback object is still held");
	g_eintr = 0; Looper::destroy_looper(L); close(io[0]); close(io[1]); int after = vh::count_fds(); VH_CHECK(after == fds, "fd-leak", "%d descriptors before, %d after", fds, after);
	vh::stat("evaluations"); vh::distinct(sig);
}

// ---- C07 -------------------------------------------------------------------------------------------------
static void stop_case(Rng& base, long c) {
	Rng r(base.next()); int kind = (int)r.below(8); vh::setcase("stop case=%ld kind=%d", c, kind); g_delay = r.chance(1, 4) ? 0 : (int)r.range(1, 8);
	struct Sh { Looper* L = nullptr; std::atomic<int> ready{ 0 }, inLoop{ 0 }, left{ 0 }; std::atomic<long> calls{ 0 }, started{ 0 }; std::atomic<int> go{ 0 }, stopping{ 0 }; std::atomic<long> callsR{ 0 }; std::atomic<Looper::event_id_t> id{ 0 }; } s;
	int p[2]; (void)!pipe(p); nb(p[0]); nb(p[1]); int q[2]; (void)!socketpair(AF_UNIX, SOCK_STREAM, 0, q); nb(q[0]); nb(q[1]);
	int npre = (int)r.below(3); bool busy = r.chance(1, 2); long stopAt = (long)r.below(30); int work = (int)r.below(3); long afterStop = 0; bool selfStopped = false; std::atomic<bool> reqDone{ false }; uint64_t sd = r.next(); long extra = 0;
	std::thread loop([&] {
		t_loopThread = true; Rng lr(sd); s.L = Looper::create_looper(); if (busy) (void)!__real_write(p[1], "x", 1);
		auto cb = [&](Looper::event_id_t, socket_t, Looper::event_t, void*) { bool after = reqDone; long n = ++s.calls; vh::tick("stop-loop"); if (after && ++extra > 1) vh::viol("runs-on", "%ld callbacks began after a stop request had returned", extra); if (selfStopped) vh::viol("runs-on", "callback after a stop request made inside a callback"); if (work == 1 && lr.chance(1, 3)) vh::usleep_((unsigned)lr.below(200)); if (kind == 2 && n > stopAt) { s.L->push_stop_request(); if (lr.chance(1, 2)) s.L->push_stop_request(); selfStopped = true; } };
		Looper::event_id_t ids[3]; for (int i = 0; i < 3; i++) ids[i] = Looper::INVALID_EVENT_ID;
		ids[0] = s.L->register_event(p[0], Looper::kRead, 0, cb, 0);
		if (kind == 2) { if (!busy) { busy = true; (void)!__real_write(p[1], "x", 1); } if (npre) ids[1] = s.L->register_event(q[0], Looper::kWrite, 0, 0, cb); }
		if (kind >= 4) { // enabled and disabled from another thread
			ids[2] = s.L->register_event(q[0], kind == 4 ? Looper::kNone : Looper::kRead, 0, [&](Looper::event_id_t, socket_t fd, Looper::event_t, void*) { char b[8]; s.callsR++; vh::tick("enable"); if (kind == 4) (void)!__real_read(fd, b, 1); }, [&](Looper::event_id_t i, socket_t, Looper::event_t, void*) { s.L->disable_write(i); s.callsR++; vh::tick("enable"); }); s.id = ids[2]; }
		if (kind == 0) { int n = 1 + npre; for (int i = 0; i < n; i++) s.L->push_stop_request(); reqDone = true; VH_CHECK(s.L->is_quit_pending(), "pending", "no stop pending after a request"); extra = 1; /* none may run at all */ }
		s.ready = 1; if (kind != 0 && lr.chance(1, 2)) while (!s.go) {} 
		s.inLoop = 1; s.L->loop(); s.left = 1; VH_CHECK(s.L->is_quit_pending(), "pending", "loop() returned without a stop request");
		if (kind == 0) VH_CHECK(s.calls == 0, "runs-on", "%ld callbacks although stop was requested before the loop began", (long)s.calls);
		while (s.stopping != 2) sched_yield(); for (int i = 0; i < 3; i++) s.L->delete_event(ids[i]); Looper::destroy_looper(s.L); });
	while (!s.ready) sched_yield(); vh::tick("stop"); uint64_t sig = (uint64_t)kind * 77 + (uint64_t)busy;
	auto request = [&](int n) { std::vector<std::thread> ts; uint64_t rs = r.next(); std::atomic<int> ok{ 0 }; for (int t = 0; t < n; t++) ts.emplace_back([&, t] { Rng z(rs + (uint64_t)t); if (z.chance(1, 2)) vh::usleep_((unsigned)z.below(300)); int m = (int)z.range(1, 3); for (int i = 0; i < m; i++) s.L->push_stop_request(); reqDone = true; ok++; }); for (auto& t : ts) t.join(); vh::stat("requests", n); };
	s.go = 1;
	if (kind == 1 || kind == 3) { if (kind == 3) { vh::usleep_((unsigned)r.below(1500)); } else for (uint64_t i = r.below(300); i > 0; i--) sched_yield(); request((int)r.range(1, 3)); }
	else if (kind == 4 || kind == 5) {  // enable on a waiting loop: read (4), write (5)
		int rounds = (int)r.range(3, 25); long want = 0; if (kind == 5) while (!s.inLoop) sched_yield();
		for (int i = 0; i < rounds; i++) {
			if (kind == 4) { (void)!__real_write(q[1], "y", 1); want++; if (r.chance(1, 2)) vh::usleep_((unsigned)r.below(400)); s.L->enable_read(s.id); while (s.callsR < want) sched_yield(); VH_CHECK(s.callsR == want, "extra-call", "%ld reads for %ld bytes", (long)s.callsR, want); s.L->disable_read(s.id); 
				if (r.chance(1, 2)) { (void)!__real_write(q[1], "z", 1); long before = s.callsR; if (r.chance(1, 3)) vh::usleep_((unsigned)r.below(800)); long now = s.callsR; VH_CHECK(now - before <= 1, "after-disable", "%ld callbacks after disable_read had returned", now - before); vh::stat("disables"); want++; s.L->enable_read(s.id); while (s.callsR < want) sched_yield(); s.L->disable_read(s.id); } }
			else { long b4 = s.callsR; s.L->enable_write(s.id); while (s.callsR <= b4) sched_yield(); }
			vh::stat("enables"); vh::tick("enable"); }
		request((int)r.range(1, 2));
	} else if (kind >= 6) {           // several threads toggling, then stop
		int n = (int)r.range(2, 4); std::vector<std::thread> ts; uint64_t rs = r.next(); (void)!__real_write(q[1], "yyyyyy", 6);
		for (int t = 0; t < n; t++) ts.emplace_back([&, t] { Rng z(rs + (uint64_t)t); for (int i = 0; i < 20; i++) { switch (z.below(4)) { case 0: s.L->enable_read(s.id); break; case 1: s.L->disable_read(s.id); break; case 2: s.L->enable_write(s.id); break; case 3: s.L->disable_write(s.id); break; } vh::tick("toggle"); vh::stat("toggles"); } });
		if (r.chance(1, 2)) { for (auto& t : ts) t.join(); ts.clear(); long b4 = s.callsR; s.L->disable_read(s.id); s.L->enable_write(s.id); while (s.callsR <= b4) sched_yield(); }
		request((int)r.range(1, 2)); for (auto& t : ts) t.join();
	}
	vh::tick("stop-wait"); while (!s.left) sched_yield(); s.stopping = 2; loop.join(); g_delay = 0; (void)afterStop;
	close(p[0]); close(p[1]); close(q[0]); close(q[1]); vh::stat("evaluations"); vh::stat("stops"); vh::distinct(vh::mix(vh::mix(sig, (uint64_t)s.calls), (uint64_t)s.callsR)); if (!s.calls) vh::stat("stopped_before_any_callback");
}

int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); vh::watchdog(); set_log_threshold(L_MAXIMUM_LEVEL); signal(SIGPIPE, SIG_IGN); (void)!getenv("X");
	sys_api::performance_time_now();
	for (long c = 0; c < a.cases; c++) {
		if (a.only >= 0 && c != a.only) continue;
		Rng r(a.seed * 1000003 + (uint64_t)c); vh::tick(a.mode.c_str());
		if (a.mode == "dispatch") dispatch_case(r, a, c); else if (a.mode == "timer") timer_case(r, c, false); else if (a.mode == "timerlong") timer_case(r, c, true); else stop_case(r, c);
	}
#if defined(__SANITIZE_ADDRESS__)
	if (a.geti("leaks", 0)) vh::leak_check();
#endif
	return vh::finish();
}
