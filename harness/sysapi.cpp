// C16: threads, locks, signals, clocks.   modes: thread lock signal clock
#include <cy_core.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <errno.h>
#include <algorithm>
#include "vh.h"
using namespace cyclone;
using namespace cyclone::sys_api;
using vh::Rng;

// ---- delays around every synchronisation call ------------------------------------------------------
static struct Delay { int v = 0; void operator=(int x) { __atomic_store_n(&v, x, __ATOMIC_RELAXED); } int get() const { return __atomic_load_n(&v, __ATOMIC_RELAXED); } } g_delay;
static thread_local uint64_t t_rng = 0;
static void point() {
	int d = g_delay.get(); if (!d) return;
	if (!t_rng) t_rng = 88172645463325252ull ^ (uint64_t)(uintptr_t)&t_rng * 0x9E3779B97F4A7C15ull;
	t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17;
	if (t_rng % (uint64_t)d) return;
	if ((t_rng >> 20) % 3) sched_yield(); else { struct timespec t = { 0, (long)((t_rng >> 24) % 120000) }; nanosleep(&t, 0); }
}
extern "C" void vh_atomic_point(int) { point(); }
static bool g_fakeClock; static timespec g_fakeNow; static long g_fakeUses;
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_cond_signal(pthread_cond_t*); int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { point(); int r = __real_pthread_mutex_lock(m); point(); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { point(); int r = __real_pthread_mutex_unlock(m); point(); return r; }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { point(); int r = __real_pthread_cond_signal(c); point(); return r; }
int __wrap_clock_gettime(clockid_t id, struct timespec* t) {
	if (g_fakeClock && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME)) { g_fakeUses++; *t = g_fakeNow; return 0; }
	return __real_clock_gettime(id, t);
}
}
static int64_t mono_ns() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
static const int64_t EARLY_NS = 2000000;      // wall clock against monotonic clock

// ---- threads ------------------------------------------------------------------------------------------
struct TInfo { std::atomic<int> runs{ 0 }, finished{ 0 }, go{ 0 }; void* param = 0; std::string name; std::thread::id id; thread_id_t cid; int bad = 0; int workUs = 0; };
static void thread_case(Rng& r) {
	int n = (int)r.range(1, 5); int base = vh::count_threads();
	vh::setcase("threads n=%d", n);
	std::vector<std::unique_ptr<TInfo>> ti; std::vector<thread_t> th; std::vector<std::weak_ptr<int>> life; std::vector<int> kind; std::vector<std::pair<std::string, void*>> exp;
	for (int i = 0; i < n; i++) {
		TInfo* t = new TInfo; ti.emplace_back(t);
		bool detached = r.chance(1, 3); int nk = (int)r.below(4); std::string nm = nk == 0 ? "" : nk == 1 ? std::string(r.range(1, 15), 'a') : nk == 2 ? std::string(r.range(16, 300), (char)('A' + r.below(26))) : "t" + std::to_string(r.next());
		void* param = (void*)(uintptr_t)r.next(); t->workUs = r.chance(1, 2) ? 0 : (int)r.below(3000); bool hold = !detached && r.chance(1, 3);
		if (!hold) t->go = 1;
		std::shared_ptr<int> token = std::make_shared<int>(i); life.push_back(token);
		auto fn = [t, token](void* p) {
			t->runs++; t->param = p; t->name = thread_get_current_name(); t->id = std::this_thread::get_id(); t->cid = thread_get_current_id(); if (t->workUs) vh::usleep_((unsigned)t->workUs); while (!t->go) vh::usleep_(100);
			if (*token < 0) t->bad = 1; t->finished = 1; };
		char* nmcopy = strdup(nm.c_str()); const char* pass = nk == 0 && r.chance(1, 2) ? nullptr : nmcopy;
		thread_t h = nullptr;
		if (detached) thread_create_detached(fn, param, pass); else { h = thread_create(fn, param, pass); VH_CHECK(h != nullptr, "thread-create", "no thread"); }
		memset(nmcopy, 'z', strlen(nmcopy)); free(nmcopy); token.reset();
		th.push_back(h); kind.push_back(detached ? 2 : hold ? 1 : 0);


		exp.push_back({ nm, param });
	}
	{
		{
			for (int k = 0; k < n; k++) {
				TInfo* x = ti[(size_t)k].get();
				if (kind[(size_t)k] == 2) { while (!x->finished) { vh::usleep_(200); } }
				else {
					thread_id_t hid = thread_get_id(th[(size_t)k]);
					if (kind[(size_t)k] == 1) {
						int tries = (int)r.range(1, 3);
						for (int q = 0; q < tries; q++) { int ms = r.chance(1, 3) ? 0 : (int)r.range(1, 12); int64_t t0 = mono_ns(); bool j = thread_join(th[(size_t)k], ms); int64_t el = mono_ns() - t0; if (j) { vh::viol("join-early", "join(%d) returned true for a thread that is still running", ms); vh::die(1); } VH_CHECK(el >= ms * 1000000ll - EARLY_NS, "join-time", "join(%d) gave up after %.3f ms", ms, el / 1e6); vh::stat("join_timeouts"); vh::tick("join"); }
						x->go = 1;
					}
					int how = (int)r.below(5); bool ok = false; vh::tick("join"); g_delay = r.chance(1, 2) ? 0 : 3;
					if (how == 0) ok = thread_join(th[(size_t)k]);
					else if (how == 1) ok = thread_join(th[(size_t)k], 60000);
					else if (how == 2) { while (!(ok = thread_join(th[(size_t)k], 0))) { vh::stat("join_zero_retries"); sched_yield(); } }
					else if (how == 3) { while (!(ok = thread_join(th[(size_t)k], (int)r.range(1, 3)))) {} }
					else { // long after it ended
						while (!x->finished) vh::usleep_(100); vh::usleep_(3000); for (int w = 0; w < 2000 && vh::count_threads() > base + (n - k - 1); w++) vh::usleep_(200);
						bool gone = vh::count_threads() <= base; ok = thread_join(th[(size_t)k], 0);
						if (!ok && gone) { vh::viol("join-zero", "the thread has ended but join(0) says it has not"); } if (!ok) ok = thread_join(th[(size_t)k]); vh::stat("join_after_end"); }
					VH_CHECK(ok, "join-result", "join returned false without a time limit or with a minute's");
					VH_CHECK(x->finished == 1, "join-unfinished", "join returned although the function has not finished");
					VH_CHECK(hid == x->id, "thread-id", "thread_get_id is not the id of the thread that ran");
					VH_CHECK(life[(size_t)k].expired(), "thread-release", "the thread function is still held after join"); vh::stat("joined");
				}
				if (kind[(size_t)k] == 2) { while (!life[(size_t)k].expired()) { vh::usleep_(200); } vh::stat("detached"); }
				VH_CHECK(x->runs == 1, "thread-runs", "the function ran %d times", (int)x->runs);
				VH_CHECK(x->param == exp[(size_t)k].second, "thread-param", "parameter %p, given %p", x->param, exp[(size_t)k].second);
				VH_CHECK(x->name == exp[(size_t)k].first, "thread-name", "name '%s', given '%s'", x->name.c_str(), exp[(size_t)k].first.c_str());
				VH_CHECK(x->cid == x->id, "thread-current-id", "thread_get_current_id differs from the thread's id"); 
				vh::tick("threads"); vh::stat("evaluations"); vh::distinct(vh::mix(vh::hash64(x->name.data(), x->name.size()), (uint64_t)x->workUs * 4 + (uint64_t)kind[(size_t)k]));
			}
		}
	}
	g_delay = 0;
	for (int w = 0; vh::count_threads() > base; w++) { vh::usleep_(300); }        // the watchdog judges threads that never end
	VH_CHECK(thread_get_current_id() == std::this_thread::get_id(), "main-id", "id of the main thread");
}

// ---- locks -------------------------------------------------------------------------------------------------
static void lock_case(Rng& r) {
	mutex_t m = mutex_create(); int kind = (int)r.below(4); vh::setcase("lock kind=%d", kind);
	if (kind <= 1) {           // mutual exclusion
		int n = (int)r.range(2, 6), per = (int)r.range(20, 150); long counter = 0; std::atomic<int> inside{ 0 }; long got = 0; std::vector<std::thread> ts; uint64_t sd = r.next(); g_delay = r.chance(1, 3) ? 0 : (int)r.range(2, 12);
		for (int t = 0; t < n; t++) ts.emplace_back([&, t] {
			Rng q(sd + (uint64_t)t); 
			for (int i = 0; i < per; i++) {
				vh::tick("lock"); int how = (int)q.below(4); bool have = true;
				if (how == 0) mutex_lock(m); else if (how == 1) have = mutex_try_lock(m, 0); else if (how == 2) have = mutex_try_lock(m, (int)q.range(1, 4)); 
				if (how == 3) { auto_mutex g(m); if (inside++ != 0) vh::viol("lock-exclusion", "two holders at once"); counter++; got++; if (q.chance(1, 8)) sched_yield(); inside--; continue; }
				if (!have) { vh::stat("try_failed"); continue; }
				if (inside++ != 0) vh::viol("lock-exclusion", "two holders at once"); counter++; got++; if (q.chance(1, 8)) vh::usleep_((unsigned)q.below(80)); inside--;
				mutex_unlock(m);
			}
		});
		for (auto& t : ts) t.join(); VH_CHECK(counter == got, "lock-count", "lost update"); vh::stat("lock_sections", got); g_delay = 0;
		VH_CHECK(mutex_try_lock(m, 0), "try-free", "a free lock refused try_lock(0)"); mutex_unlock(m);
	} else if (kind == 2) {     // free lock, sequential
		for (int i = 0; i < 30; i++) { int w = r.chance(1, 2) ? 0 : (int)r.range(1, 2500); bool ok = mutex_try_lock(m, w); VH_CHECK(ok, "try-free", "a free lock refused try_lock(%d)", w); if (ok) mutex_unlock(m); mutex_lock(m); mutex_unlock(m); vh::tick("lock"); vh::stat("try_free"); }
	} else {                    // held: throughout, or released in time
		bool release = r.chance(1, 2); int wait = r.chance(1, 4) ? 0 : (int)r.range(1, 25); if (release) wait = (int)r.range(60, 400); if (!release && r.chance(1, 12)) wait = (int)r.range(990, 2050);
		std::atomic<int> st{ 0 }; std::atomic<int64_t> relAt{ 0 }; int relAfter = (int)r.below(30);
		std::thread h([&] { mutex_lock(m); st = 1; if (release) { vh::usleep_((unsigned)relAfter * 1000); mutex_unlock(m); relAt = mono_ns(); } else { while (st != 2) vh::usleep_(100); mutex_unlock(m); } });
		while (st != 1) sched_yield(); vh::tick("lock-held");
		int64_t t0 = mono_ns(); bool ok = mutex_try_lock(m, wait); int64_t t1 = mono_ns(); vh::tick("lock-held");
		if (!release) { VH_CHECK(!ok, "lock-exclusion", "try_lock(%d) succeeded on a held lock", wait); VH_CHECK(t1 - t0 >= wait * 1000000ll - EARLY_NS, "try-early", "try_lock(%d) gave up after %.3f ms", wait, (t1 - t0) / 1e6); vh::stat("try_held"); if (ok) mutex_unlock(m); st = 2; h.join(); }
		else { h.join(); if (!ok) { int64_t rel = relAt; if (rel <= t0 + (wait - 20) * 1000000ll) vh::viol("try-missed", "try_lock(%d) failed although the lock was released %.1f ms after the call", wait, (rel - t0) / 1e6); } else { mutex_unlock(m); vh::stat("try_released"); } }
	}
	mutex_destroy(m); vh::stat("evaluations"); vh::distinct(r.next());
}

// ---- signals ----------------------------------------------------------------------------------------------
struct SOp { bool notify; int ms; bool ok; uint64_t call, ret; };
static bool linear(const std::vector<SOp>& h) {     // auto-reset event
	size_t n = h.size(); std::set<uint32_t> seen;
	std::vector<char> freeFalse(n, 0);
	for (size_t i = 0; i < n; i++) if (!h[i].notify && !h[i].ok && h[i].ms == 0) for (size_t j = 0; j < n; j++) if (j != i && h[j].call < h[i].ret && h[i].call < h[j].ret) freeFalse[i] = 1;
	std::function<bool(uint32_t, int)> go = [&](uint32_t mask, int bit) {
		if (mask == (1u << n) - 1) return true;
		if (!seen.insert(mask * 2 + (uint32_t)bit).second) return false;
		uint64_t lim = ~0ull; for (size_t i = 0; i < n; i++) if (!(mask >> i & 1)) lim = std::min(lim, h[i].ret);
		for (size_t i = 0; i < n; i++) if (!(mask >> i & 1) && h[i].call <= lim) {
			const SOp& o = h[i]; 
			if (o.notify) { if (go(mask | 1u << i, 1)) return true; }
			else if (o.ok) { if (bit && go(mask | 1u << i, 0)) return true; }
			else if (!bit || freeFalse[i]) { if (go(mask | 1u << i, bit)) return true; }
		}
		return false; };
	return go(0, 0);
}
static void signal_case(Rng& r) {
	int kind = (int)r.below(10); vh::setcase("signal kind=%d", kind); g_delay = r.chance(1, 4) ? 0 : (int)r.range(1, 6);
	if (kind < 6) {           // random history
		signal_t s = signal_create(); int n = (int)r.range(2, 4); std::vector<std::vector<SOp>> sc((size_t)n); int total = 0; std::atomic<uint64_t> clk{ 0 };
		for (auto& v : sc) { int k = (int)r.range(1, 4); for (int i = 0; i < k && total < 13; i++, total++) { SOp o; o.notify = r.chance(1, 2); o.ms = r.chance(1, 3) ? 0 : (int)r.range(1, 4); v.push_back(o); } }
		std::vector<std::thread> ts; std::atomic<int> go{ 0 }; uint64_t sd = r.next();
		for (int t = 0; t < n; t++) ts.emplace_back([&, t] { Rng q(sd + (uint64_t)t); while (!go) sched_yield(); for (auto& o : sc[(size_t)t]) { if (q.chance(1, 3)) vh::usleep_((unsigned)q.below(2500)); int64_t t0 = mono_ns(); o.call = ++clk; if (o.notify) { signal_notify(s); o.ok = true; } else o.ok = signal_timewait(s, o.ms); o.ret = ++clk; int64_t el = mono_ns() - t0; if (!o.notify && !o.ok) VH_CHECK(el >= o.ms * 1000000ll - EARLY_NS, "signal-early", "timewait(%d) gave up after %.3f ms", o.ms, el / 1e6); } });
		go = 1; for (auto& t : ts) t.join(); g_delay = 0;
		std::vector<SOp> h; for (auto& v : sc) for (auto& o : v) h.push_back(o);
		for (int i = 0; i < 2; i++) { SOp o; o.notify = false; o.ms = 0; o.call = ++clk; o.ok = signal_timewait(s, 0); o.ret = ++clk; h.push_back(o); }
		if (!linear(h)) { std::string d; std::sort(h.begin(), h.end(), [](const SOp& a, const SOp& b) { return a.call < b.call; }); for (auto& o : h) { char b[80]; snprintf(b, sizeof b, "%s(%d)=%d[%llu,%llu] ", o.notify ? "notify" : "wait", o.notify ? 0 : o.ms, o.ok, (unsigned long long)o.call, (unsigned long long)o.ret); d += b; } vh::viol("signal-history", "no order explains: %s", d.c_str()); }
		uint64_t sig = 1; for (auto& o : h) sig = vh::mix(sig, o.call * 64 + o.ret * 2 + o.ok); vh::distinct(sig); vh::stat("histories"); for (auto& o : h) vh::stat(o.notify ? "notifies" : o.ok ? "woken" : "timeouts");
		signal_destroy(s);
	} else if (kind < 8) {    // hand-over: each raise wakes the other side
		signal_t a = signal_create(), b = signal_create(); int rounds = (int)r.range(50, 400); uint64_t sd = r.next(); long x = 0;
		auto wait = [](signal_t s, Rng& q) { if (q.chance(1, 2)) signal_wait(s); else { for (;;) { int ms = q.chance(1, 3) ? 0 : q.chance(1, 2) ? 1 : 60000; if (signal_timewait(s, ms)) break; if (ms == 60000) vh::viol("signal-lost", "timewait(60000) returned false"); } } };
		std::thread t([&] { Rng q(sd); for (int i = 0; i < rounds; i++) { wait(a, q); x++; signal_notify(b); } });
		Rng q(sd + 1); for (int i = 0; i < rounds; i++) { x++; signal_notify(a); wait(b, q); vh::tick("signal-handover"); VH_CHECK(x == 2 * (i + 1), "signal-order", "count %ld after round %d", x, i); }
		t.join(); signal_destroy(a); signal_destroy(b); vh::stat("handovers", rounds); vh::distinct(sd);
	} else if (kind == 8) {   // exactly one waiter per raise
		signal_t s = signal_create(); int n = (int)r.range(2, 5); std::atomic<int> woken{ 0 }; std::vector<std::thread> ts; uint64_t sd = r.next();
		for (int i = 0; i < n; i++) ts.emplace_back([&, i] { Rng q(sd + (uint64_t)i); if (q.chance(1, 2)) signal_wait(s); else while (!signal_timewait(s, 60000)) {} woken++; });
		for (int i = 0; i < n; i++) { if (r.chance(1, 2)) vh::usleep_((unsigned)r.below(2000)); signal_notify(s); while (woken < i + 1) { sched_yield(); } vh::tick("signal-one"); if (r.chance(1, 2)) vh::usleep_((unsigned)r.below(3000)); VH_CHECK(woken == i + 1, "signal-many", "%d waiters woken by %d raises", (int)woken, i + 1); }
		for (auto& t : ts) t.join(); signal_destroy(s); vh::stat("one_waiter", n); vh::distinct(sd);
	} else {                  // remembered; times; destroyed by the woken waiter
		for (int i = 0; i < 20; i++) {
			signal_t s = signal_create(); bool done = false; std::thread t([&] { signal_wait(s); signal_destroy(s); done = true; }); if (r.chance(1, 2)) vh::usleep_((unsigned)r.below(300)); signal_notify(s); t.join(); VH_CHECK(done, "signal-wait", "?"); vh::tick("signal-destroy"); vh::stat("destroy_after_wait"); }
		signal_t s = signal_create(); int ms = (int)r.range(1, 30); signal_notify(s); vh::usleep_((unsigned)r.below(1500)); int64_t t0 = mono_ns(); VH_CHECK(signal_timewait(s, r.chance(1, 2) ? 0 : ms), "signal-remembered", "a raise without waiter was forgotten"); (void)t0; VH_CHECK(!signal_timewait(s, 0), "signal-twice", "one raise served two waits"); signal_destroy(s);
	}
	g_delay = 0; vh::stat("evaluations");
}
static void long_waits(Rng& r) {     // above one second, all in parallel
	std::vector<std::thread> ts; int n = 12; vh::setcase("long waits");
	for (int i = 0; i < n; i++) { int ms = (int)r.range(985, 2100), lead = (int)r.below(900), kind = i % 3; ts.emplace_back([=] {
		vh::usleep_((unsigned)lead * 1000);
		bool ok; int64_t t0, t1; 
		if (kind == 0) { signal_t s = signal_create(); t0 = mono_ns(); ok = signal_timewait(s, ms); t1 = mono_ns(); signal_destroy(s); }
		else if (kind == 1) { mutex_t m = mutex_create(); mutex_lock(m); std::thread w([&] { t0 = mono_ns(); ok = mutex_try_lock(m, ms); t1 = mono_ns(); if (ok) mutex_unlock(m); }); w.join(); mutex_unlock(m); mutex_destroy(m); }
		else { std::atomic<int> go{ 0 }; thread_t t = thread_create([&](void*) { while (!go) vh::usleep_(1000); }, 0, "x"); t0 = mono_ns(); ok = thread_join(t, ms); t1 = mono_ns(); go = 1; if (!ok) thread_join(t); }
		VH_CHECK(!ok, "long-result", "a wait of %d ms for nothing succeeded (kind %d)", ms, kind); VH_CHECK(t1 - t0 >= ms * 1000000ll - EARLY_NS, "long-early", "a wait of %d ms gave up after %.1f ms (kind %d)", ms, (t1 - t0) / 1e6, kind); vh::tick("long"); vh::stat("long_waits");
	}); }
	for (auto& t : ts) t.join();
}

static void far_waits(Rng& r) {     // limits of seconds to weeks: still waiting after a while, and woken at once
	static const int fixed[] = { 2148, 4295, 4296, 8590, 12885, 17180, 32768, 65536, 65537, 131073, 1000000, 2147484, 4294968, 8589935, 2147483647, 2147483000 }; vh::setcase("far waits"); vh::tick("far");
	struct Far { int ms, kind; signal_t s = 0; mutex_t m = 0; thread_t t = 0; std::atomic<int> done{ 0 }, go{ 0 }; bool ok = false; int64_t el = 0; std::thread th; };
	std::vector<std::unique_ptr<Far>> v; for (int i = 0; i < 28; i++) { v.emplace_back(new Far); Far& f = *v.back(); f.kind = i % 3; f.ms = r.chance(1, 2) ? fixed[r.below(16)] : (int)r.range(2200, r.chance(1, 2) ? 100000 : 2147483647); }
	for (auto& p : v) { Far& f = *p; if (f.kind == 0) f.s = signal_create(); else if (f.kind == 1) { f.m = mutex_create(); mutex_lock(f.m); } else f.t = thread_create([&f](void*) { while (!f.go) vh::usleep_(1000); }, 0, "far");
		f.th = std::thread([&f] { int64_t t0 = mono_ns(); if (f.kind == 0) f.ok = signal_timewait(f.s, f.ms); else if (f.kind == 1) { f.ok = mutex_try_lock(f.m, f.ms); if (f.ok) mutex_unlock(f.m); } else f.ok = thread_join(f.t, f.ms); f.el = mono_ns() - t0; f.done = 1; }); }
	vh::usleep_(450000); vh::tick("far");
	for (auto& p : v) { Far& f = *p; if (f.done && f.el < f.ms * 1000000ll - EARLY_NS) vh::viol("far-early", "a wait of %d ms for nothing ended after %.1f ms with %d (kind %d)", f.ms, f.el / 1e6, f.ok, f.kind); vh::stat("far_waits"); }
	for (auto& p : v) { Far& f = *p; int64_t t0 = mono_ns(); bool before = f.done; f.go = 1; if (f.kind == 0) signal_notify(f.s); else if (f.kind == 1) mutex_unlock(f.m); f.th.join(); vh::tick("far"); if (!before) VH_CHECK(f.ok || f.el >= f.ms * 1000000ll - EARLY_NS, "far-missed", "a wait of %d ms ended with false %.1f ms after it was over (kind %d)", f.ms, (mono_ns() - t0) / 1e6, f.kind);
		if (f.kind == 0) signal_destroy(f.s); else if (f.kind == 1) mutex_destroy(f.m); else if (!f.ok) thread_join(f.t); }
}

// ---- clock ------------------------------------------------------------------------------------------------
struct Iv { int64_t lo = INT64_MIN, hi = INT64_MAX; };
static void sampleClock(Rng& q, int n, Iv& iv, int64_t* back) {
	int64_t last = INT64_MIN;
	for (int i = 0; i < n; i++) {
		int64_t a = mono_ns(), p = performance_time_now(), b = mono_ns();
		if (p < last) *back = last - p; last = p;
		iv.lo = std::max(iv.lo, a / 1000 - p - 2); iv.hi = std::min(iv.hi, b / 1000 - p + 2);
		if (q.chance(1, 50)) vh::usleep_((unsigned)q.below(3000)); vh::tick("clock");
	}
}
static int child_clock(uint64_t seed, int kind) {      // in a fresh process: the first call happens here
	Rng r(seed);
	if (kind == 0) {
		int n = 4; std::vector<Iv> iv((size_t)n); std::vector<int64_t> back((size_t)n, 0); std::atomic<int> go{ 0 }; std::vector<std::thread> ts; uint64_t sd = r.next();
		for (int t = 0; t < n; t++) ts.emplace_back([&, t] { Rng q(sd + (uint64_t)t); while (!go) sched_yield(); sampleClock(q, 40, iv[(size_t)t], &back[(size_t)t]); });
		go = 1; for (auto& t : ts) t.join(); Iv all; for (int t = 0; t < n; t++) { all.lo = std::max(all.lo, iv[(size_t)t].lo); all.hi = std::min(all.hi, iv[(size_t)t].hi); if (back[(size_t)t]) return 2; }
		return all.lo <= all.hi ? 0 : 3;
	}
	auto ns = [&]() -> long { static const long sp[] = { 0, 1, 999, 1000, 999999999, 999999000, 500000000 }; return r.chance(1, 2) ? sp[r.below(7)] : (long)r.below(1000000000); };
	g_fakeClock = true; timespec b; b.tv_sec = (time_t)(1 + (r.chance(1, 2) ? r.below(5) : r.below(3000000000ull))); b.tv_nsec = ns(); g_fakeNow = b;
	int64_t p0 = performance_time_now(); if (!g_fakeUses) return 50;       // another clock source
	if (p0 < 0 || p0 > 1) return 4;
	int64_t last = p0; timespec t = b;
	for (int i = 0; i < 200; i++) {
		if (r.chance(1, 2)) { t.tv_nsec = ns(); t.tv_sec += (time_t)(r.chance(1, 3) ? r.below(4000000) : r.below(2)); if (t.tv_sec == g_fakeNow.tv_sec && t.tv_nsec < g_fakeNow.tv_nsec) t.tv_sec++; } else { t.tv_nsec += (long)r.below(3000); if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; } }
		g_fakeNow = t; int64_t want = ((t.tv_sec - b.tv_sec) * 1000000000ll + (t.tv_nsec - b.tv_nsec)) / 1000, p = performance_time_now();
		if (p < last) return 2; last = p; if (p < want - 2 || p > want + 2) return 5;
	}
	return 0;
}
static void clock_children(uint64_t seed, int n, int kind) {
	vh::setcase("clock children kind=%d", kind);
	for (int i = 0; i < n; i++) {
		fflush(stdout); pid_t p = fork(); if (p == 0) { _exit(child_clock(seed + (uint64_t)i * 77, kind)); }
		int st = 0; waitpid(p, &st, 0); vh::tick("clock-child");
		if (WIFEXITED(st) && WEXITSTATUS(st) == 50) { vh::stat("other_clock_source"); continue; }
		int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
		VH_CHECK(rc == 0, rc == 2 ? "clock-back" : "clock-wrong", "%s clock sequence %d: %s (%d)", kind ? "scripted" : "first-call", i, rc == 2 ? "went backwards" : rc == 3 ? "threads' readings do not agree with one origin" : "differs from the elapsed time", rc);
		vh::stat("evaluations"); vh::stat(kind ? "clock_scripts" : "clock_first_calls"); vh::distinct(vh::mix(seed, (uint64_t)i * 2 + (uint64_t)kind));
	}
}
static void clock_threads(Rng& r, int per) {
	int n = 6; std::vector<Iv> iv((size_t)n); std::vector<int64_t> back((size_t)n, 0); std::vector<std::thread> ts; uint64_t sd = r.next(); vh::setcase("clock threads");
	for (int t = 0; t < n; t++) ts.emplace_back([&, t] { Rng q(sd + (uint64_t)t); sampleClock(q, per, iv[(size_t)t], &back[(size_t)t]); });
	for (auto& t : ts) t.join(); Iv all; for (int t = 0; t < n; t++) { all.lo = std::max(all.lo, iv[(size_t)t].lo); all.hi = std::min(all.hi, iv[(size_t)t].hi); VH_CHECK(!back[(size_t)t], "clock-back", "the clock went back %lld us", (long long)back[(size_t)t]); }
	VH_CHECK(all.lo <= all.hi, "clock-wrong", "no single origin explains the readings (%lld > %lld us)", (long long)all.lo, (long long)all.hi); vh::stat("clock_samples", (long long)n * per); vh::stat("evaluations");
	for (int i = 0; i < 300; i++) { timeval a, b; gettimeofday(&a, 0); int64_t u = utc_time_now(); gettimeofday(&b, 0); int64_t x = a.tv_sec * 1000000ll + a.tv_usec, y = b.tv_sec * 1000000ll + b.tv_usec; if (y >= x) VH_CHECK(u >= x - 1 && u <= y + 1, "utc", "utc %lld not in [%lld, %lld]", (long long)u, (long long)x, (long long)y);
		char l[64] = { 0 }, e0[64], e1[64]; time_t t0 = time(0); size_t cap = r.chance(1, 2) ? 64 : 24; char* hb = (char*)malloc(cap); local_time_now(hb, cap, "%Y-%m-%d %H:%M:%S"); snprintf(l, 64, "%s", hb); free(hb); time_t t1 = time(0); struct tm m; localtime_r(&t0, &m); strftime(e0, 64, "%Y-%m-%d %H:%M:%S", &m); localtime_r(&t1, &m); strftime(e1, 64, "%Y-%m-%d %H:%M:%S", &m);
		VH_CHECK(!strcmp(l, e0) || !strcmp(l, e1), "localtime", "local time '%s', expected '%s'", l, e0); vh::stat("wall_reads"); }
}

int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); set_log_threshold(L_MAXIMUM_LEVEL); Rng base(a.seed);
	if (a.mode == "clock") { clock_children(a.seed * 31, (int)a.cases / 4, 0); clock_children(a.seed * 37, (int)a.cases, 1); vh::watchdog(); clock_threads(base, (int)a.geti("per", 60000)); return vh::finish(); }
	vh::watchdog();
	if (a.mode == "long") { for (long c = 0; c < a.cases; c++) { for (int k = 0; k < 3; k++) far_waits(base); long_waits(base); } return vh::finish(); }
	for (long c = 0; c < a.cases; c++) {
		if (a.only >= 0 && c != a.only) continue;
		Rng r(a.seed * 1000003 + (uint64_t)c); vh::tick(a.mode.c_str());
		if (a.mode == "thread") thread_case(r); else if (a.mode == "lock") lock_case(r); else signal_case(r);
	}
#if defined(__SANITIZE_ADDRESS__)
	vh::leak_check();
#endif
	return vh::finish();
}
