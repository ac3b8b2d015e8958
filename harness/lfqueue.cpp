// C03: histories of LockFreeQueue operations, checked for linearizability as a bounded FIFO.
// mode fiber: cooperative fibers, a random scheduler decides at every atomic operation and inside
//             element copies who runs next (needs the inj build);  mode thr: real threads.
#include "vh.h"
#include <cy_core.h>
#include <ucontext.h>
using namespace cyclone;

static void point(int kind);
static bool g_threads;
struct Elem { // several words, so that a torn or stale element is visible
	uint64_t w[3];
	Elem() { for (int i = 0; i < 3; i++) __atomic_store_n(&w[i], 0, __ATOMIC_RELAXED); }
	explicit Elem(uint64_t v) { for (int i = 0; i < 3; i++) w[i] = v * (uint64_t)(i * 2 + 1); }
	Elem(const Elem& o) { *this = o; }
	Elem& operator=(const Elem& o) { for (int i = 0; i < 3; i++) { __atomic_store_n(&w[i], __atomic_load_n(&o.w[i], __ATOMIC_RELAXED), __ATOMIC_RELAXED); if (i < 2) point(3); } return *this; }
	bool ok() const { return w[1] == w[0] * 3 && w[2] == w[0] * 5; }
};
struct Op { bool push; uint64_t v; bool okr; uint64_t call, ret; int th; bool intact; };

// ---- history oracle ---------------------------------------------------------------------
static void check_history(const std::vector<Op>& h, uint32_t cap, const char* where) {
	struct E { uint64_t ec = 0, er = 0, dc = ~0ull, dr = ~0ull; bool pushed = false; int pops = 0; };
	std::map<uint64_t, E> el;
	for (auto& o : h) if (o.push && o.okr) { E& e = el[o.v]; e.pushed = true; e.ec = o.call; e.er = o.ret; }
	for (auto& o : h) if (!o.push && o.okr) {
		if (!o.intact) { vh::viol("torn", "%s: popped a corrupted element", where); continue; }
		auto it = el.find(o.v);
		if (it == el.end()) { vh::viol("invented", "%s: popped value %llu which was never successfully pushed", where, (unsigned long long)o.v); continue; }
		if (it->second.pops++) { vh::viol("duplicate", "%s: value %llu popped twice", where, (unsigned long long)o.v); continue; }
		it->second.dc = o.call; it->second.dr = o.ret;
		if (o.ret < it->second.ec) vh::viol("time-travel", "%s: value %llu popped before its push began", where, (unsigned long long)o.v);
	}
	std::vector<E*> v; for (auto& x : el) { v.push_back(&x.second); if (!x.second.pops) vh::viol("lost", "%s: value %llu pushed but never popped although drained", where, (unsigned long long)x.first); }
	// FIFO against real-time order
	std::sort(v.begin(), v.end(), [](E* a, E* b) { return a->dc > b->dc; });
	std::vector<uint64_t> mn(v.size() + 1, ~0ull);
	for (size_t i = 0; i < v.size(); i++) mn[i + 1] = std::min(mn[i], v[i]->er);
	for (auto* b : v) {
		if (b->dr == ~0ull) continue;
		size_t lo = 0, hi = v.size(); // number of elements with dc > b->dr
		while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->dc > b->dr) lo = m + 1; else hi = m; }
		if (mn[lo] < b->ec) vh::viol("fifo", "%s: an element pushed entirely before another was popped entirely after it", where);
	}
	// empty results
	std::vector<std::pair<uint64_t, uint64_t>> iv, mg;
	for (auto* e : v) if (e->er < e->dc) iv.push_back({ e->er, e->dc });
	std::sort(iv.begin(), iv.end());
	for (auto& p : iv) { if (!mg.empty() && p.first < mg.back().second) mg.back().second = std::max(mg.back().second, p.second); else mg.push_back(p); }
	std::vector<uint64_t> ecs, drs;
	for (auto* e : v) { ecs.push_back(e->ec); if (e->dr != ~0ull) drs.push_back(e->dr); }
	std::sort(ecs.begin(), ecs.end()); std::sort(drs.begin(), drs.end());
	long nempty = 0, nfull = 0;
	for (auto& o : h) if (!o.okr) {
		if (!o.push) {
			nempty++;
			auto it = std::upper_bound(mg.begin(), mg.end(), std::make_pair(o.call, (uint64_t)~0ull));
			if (it != mg.begin()) { --it; if (it->first <= o.call && it->second >= o.ret && it->first < o.ret) vh::viol("false-empty", "%s: pop [%llu,%llu] reported empty while an element was certainly present throughout [%llu,%llu]", where, (unsigned long long)o.call, (unsigned long long)o.ret, (unsigned long long)it->first, (unsigned long long)it->second); }
		} else {
			nfull++;
			// most elements that can have been inside at any instant of the call
			long best = 0;
			auto at = [&](uint64_t t) { return (long)(std::upper_bound(ecs.begin(), ecs.end(), t) - ecs.begin()) - (long)(std::lower_bound(drs.begin(), drs.end(), t) - drs.begin()); };
			best = std::max(at(o.call), at(o.ret));
			for (auto it = std::lower_bound(ecs.begin(), ecs.end(), o.call); it != ecs.end() && *it <= o.ret; ++it) best = std::max(best, at(*it));
			if (best < (long)cap) vh::viol("false-full", "%s: push reported full although at most %ld of %u elements can have been inside", where, best, cap);
		}
	}
	vh::stat("empty_results", nempty); vh::stat("full_results", nfull);
}

// ---- fiber scheduler ----------------------------------------------------------------------
static const int MAXF = 6;
struct Fiber { ucontext_t ctx; char* stack; bool done; long pausedUntil; int id; };
static Fiber F[MAXF]; static ucontext_t g_main; static int g_nf, g_cur = -1; static long g_step, g_switches, g_points; static vh::Rng* R; static int g_swden; static bool g_calm; static uint64_t g_sig; static bool g_spur; static long g_limit;
static thread_local uint64_t t_rng = 88172645463325252ull;
static uint64_t lrand() { t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17; return t_rng; }
static int g_delay; static thread_local bool t_fibers; // only the thread that runs the fibers is scheduled
static void choose(bool must) {
	int cand[MAXF], n = 0;
	for (int i = 0; i < g_nf; i++) if (!F[i].done && (g_calm || F[i].pausedUntil <= g_step)) cand[n++] = i;
	if (!n) for (int i = 0; i < g_nf; i++) if (!F[i].done) cand[n++] = i;
	if (!n) { swapcontext(&F[g_cur].ctx, &g_main); return; }
	int next = cand[R->below((uint64_t)n)];
	if (next == g_cur && !must) return;
	int old = g_cur; g_cur = next; g_switches++; g_sig = vh::mix(g_sig, (uint64_t)(next * 1000 + g_step % 997));
	swapcontext(&F[old].ctx, &F[next].ctx);
}
static void point(int kind) {
	if (g_threads) {
		uint64_t x = lrand();
		if (g_delay && x % 64 == 0) { if ((x >> 8) % 4 == 0) vh::usleep_((unsigned)(x >> 16) % 50); else std::this_thread::yield(); }
		return;
	}
	if (!t_fibers || g_cur < 0) return;
	g_step++; g_points++;
	if (g_step > g_limit) { vh::viol("no-termination", "an operation does not terminate: %ld atomic steps with a fair scheduler", g_step); vh::die(1); }
	if (g_step > 20000) g_calm = true;
	if (!g_calm && R->chance(1, 40)) F[R->below((uint64_t)g_nf)].pausedUntil = g_step + (long)R->below(R->chance(1, 4) ? 600 : 60);
	if (F[g_cur].pausedUntil > g_step && !g_calm) choose(false);
	else if (R->chance(1, (unsigned)g_swden)) choose(false);
}
static int g_probe;
extern "C" void vh_atomic_point(int kind) { g_probe++; point(kind); }
extern "C" int vh_spurious(void) { return t_fibers && !g_threads && g_cur >= 0 && g_spur && R->chance(1, 10); }

struct Script { bool push; uint64_t v; };
static std::vector<Script> g_scr[MAXF]; static std::vector<Op> g_hist; static uint64_t g_clock;
template <uint32_t Q> struct Runner {
	typedef LockFreeQueue<Elem, Q> LQ;
	static LQ*& q() { static LQ* p; return p; }
	static void body(int id) {
		for (auto& s : g_scr[id]) {
			Op o; o.push = s.push; o.th = id; o.v = s.v; o.call = ++g_clock; o.intact = true;
			if (s.push) o.okr = q()->push(Elem(s.v)); 
			else { Elem e; o.okr = q()->pop(e); o.v = e.w[0]; o.intact = e.ok(); }
			o.ret = ++g_clock; g_hist.push_back(o);
		}
		F[id].done = true; choose(true); 
		for (;;) swapcontext(&F[id].ctx, &g_main);
	}
	static void seqop(bool push, uint64_t v, std::vector<uint64_t>& model, bool expectExact) {
		Op o; o.push = push; o.th = -1; o.v = v; o.call = ++g_clock; o.intact = true;
		if (push) o.okr = q()->push(Elem(v)); else { Elem e; o.okr = q()->pop(e); o.v = e.w[0]; o.intact = e.ok(); }
		o.ret = ++g_clock; g_hist.push_back(o);
		if (!expectExact) return;
		if (push) { if (o.okr != (model.size() < Q - 1)) vh::viol("seq-push", "sequential push into %zu of %u returned %d", model.size(), Q - 1, o.okr); if (o.okr) model.push_back(v); }
		else { if (o.okr != !model.empty()) vh::viol("seq-pop", "sequential pop of %zu returned %d", model.size(), o.okr); else if (o.okr) { if (o.v != model[0]) vh::viol("seq-order", "sequential pop out of order"); model.erase(model.begin()); } }
		VH_CHECK(q()->size() == model.size(), "seq-size", "size()=%u at rest, %zu held", q()->size(), model.size());
	}
	// put the counters close to the 32-bit wrap when the object layout allows to find them
	static void poke_wrap() {
		Elem e; for (int i = 0; i < 37; i++) { if (!q()->push(Elem(1))) { q()->pop(e); q()->push(Elem(1)); } q()->pop(e); }
		// bring them all to the same recognisable number
		uint32_t* w = (uint32_t*)q(); size_t n = sizeof(LQ) / 4; std::vector<size_t> at;
		for (size_t i = 0; i < n; i++) { size_t b = i * 4; if (w[i] == 37) at.push_back(i); (void)b; }
		if (at.size() == 3) { for (size_t i : at) w[i] = 0xFFFFFFF8u - (uint32_t)R->below(4) * 0 + (37 % Q) - (0xFFFFFFF8u % Q); vh::stat("wrap_cases"); }
	}
	static void one(long c) {
		std::unique_ptr<LQ> holder(new LQ()); q() = holder.get();
		g_hist.clear(); g_clock = 0; g_cur = -1; uint64_t nextv = 1; std::vector<uint64_t> model;
		bool wrap = R->chance(1, 6); if (wrap) poke_wrap();
		// sequential prefix: rotate and prefill
		int pre = (int)R->below(3 * Q > 40 ? 40 : 3 * Q + 3);
		for (int i = 0; i < pre; i++) seqop(R->below(5) < 3, nextv++, model, true);
		g_nf = 2 + (int)R->below(MAXF - 2); int role = (int)R->below(3); int ops = 1 + (int)R->below(Q > 8 ? 20 : 12);
		std::string sc;
		for (int i = 0; i < g_nf; i++) {
			g_scr[i].clear();
			for (int k = 0; k < ops; k++) { bool p = role == 0 ? (i % 2 == 0) : role == 1 ? (i != 0) : R->below(2); g_scr[i].push_back({ p, nextv++ }); if (k < 12) sc += p ? 'u' : 'o'; }
			sc += ' ';
		}
		g_swden = 1 << R->below(4); g_spur = R->chance(1, 2); g_calm = false; g_step = 0; g_limit = 2000000; g_sig = vh::mix(Q, (uint64_t)g_nf);
		vh::setcase("fiber Q=%u fibers=%d pre=%d wrap=%d swden=%d script=%s", Q, g_nf, pre, wrap, g_swden, sc.c_str());
		for (int i = 0; i < g_nf; i++) {
			F[i].done = false; F[i].pausedUntil = 0; F[i].id = i; if (!F[i].stack) F[i].stack = (char*)malloc(256 * 1024);
			getcontext(&F[i].ctx); F[i].ctx.uc_stack.ss_sp = F[i].stack; F[i].ctx.uc_stack.ss_size = 256 * 1024; F[i].ctx.uc_link = &g_main;
			makecontext(&F[i].ctx, (void (*)())body, 1, i);
		}
		g_cur = (int)R->below((uint64_t)g_nf);
		swapcontext(&g_main, &F[g_cur].ctx); g_cur = -1;
		for (int i = 0; i < g_nf; i++) if (!F[i].done) { vh::viol("scheduler", "internal: fiber not finished"); vh::die(3); }
		// at rest: size, then drain
		long held = 0; for (auto& o : g_hist) if (o.okr) held += o.push ? 1 : -1;
		VH_CHECK((long)q()->size() == held, "rest-size", "size()=%u at rest but %ld elements are held", q()->size(), held);
		std::vector<uint64_t> dummy; long drained = 0;
		for (;;) { size_t k = g_hist.size(); seqop(false, 0, dummy, false); if (!g_hist[k].okr) break; drained++; if (drained > 10 * (long)Q + 1000) { vh::viol("endless", "draining never ends"); break; } }
		VH_CHECK(q()->size() == 0, "drained-size", "size()=%u after draining", q()->size());
		// after the storm it must still work sequentially
		for (int i = 0; i < 4; i++) seqop(i % 2 == 0, nextv++, dummy, true);
		check_history(g_hist, Q - 1, "fiber");
		vh::stat("evaluations"); vh::stat("fiber_histories"); vh::stat("ops", (long long)g_hist.size()); vh::stat("switches", g_switches); g_switches = 0; vh::stat("atomic_points", g_points); g_points = 0;
		vh::distinct(g_sig);
		if (c < 3) vh::sample("Q=%u fibers=%d scripts(u=push,o=pop)=%s pre=%d switches in history of %zu ops", Q, g_nf, sc.c_str(), pre, g_hist.size());
	}
	// real threads
	static void threads(long c, int np, int nc, long per, bool timed) {
		std::unique_ptr<LQ> holder(new LQ()); LQ* qq = holder.get(); g_cur = -1;
		vh::setcase("threads Q=%u producers=%d consumers=%d per=%ld", Q, np, nc, per);
		std::vector<std::vector<Op>> hs((size_t)(np + nc)); std::vector<std::thread> th; std::atomic_flag dummy = ATOMIC_FLAG_INIT; (void)dummy;
		volatile bool* stop = new bool(false); static int doneProducers; __atomic_store_n(&doneProducers, 0, __ATOMIC_SEQ_CST); (void)stop;
		uint64_t seed = R->next();
		for (int i = 0; i < np + nc; i++) th.emplace_back([&, i] {
			t_rng = (seed + (uint64_t)i * 7919) | 1;
			auto& h = hs[(size_t)i]; auto clk = [&] { return timed ? (uint64_t)std::chrono::steady_clock::now().time_since_epoch().count() : 0; };
			if (i < np) {
				for (long k = 0; k < per; k++) {
					uint64_t v = (uint64_t)(i + 1) * 100000000ull + (uint64_t)k + 1; int fails = 0;
					for (;;) { Op o; o.push = true; o.v = v; o.th = i; o.intact = true; o.call = clk(); o.okr = qq->push(Elem(v)); o.ret = clk(); if (o.okr || fails < 2) h.push_back(o); if (o.okr) break; fails++; vh::tick(); std::this_thread::yield(); }
				}
				__atomic_fetch_add(&doneProducers, 1, __ATOMIC_SEQ_CST);
			} else {
				for (int idle = 0;;) {
					bool done = __atomic_load_n(&doneProducers, __ATOMIC_SEQ_CST) == np;
					Op o; o.push = false; o.th = i; Elem e; o.call = clk(); o.okr = qq->pop(e); o.ret = clk(); o.v = e.w[0]; o.intact = e.ok();
					if (o.okr) { h.push_back(o); idle = 0; vh::tick(); } else { if (idle++ < 2) h.push_back(o); if (done) break; std::this_thread::yield(); }
				}
			}
		});
		for (auto& t : th) t.join();
		std::vector<Op> all; for (auto& h : hs) all.insert(all.end(), h.begin(), h.end());
		VH_CHECK(qq->size() == 0, "thr-size", "size()=%u after all producers finished and consumers drained", qq->size());
		for (;;) { Elem e; if (!qq->pop(e)) break; vh::viol("thr-left", "an element was left although a pop after the last push reported empty"); break; }
		if (!timed) { uint64_t t = 0; // without a clock: per-producer order in each consumer and conservation
			std::map<uint64_t, int> seen; std::vector<std::vector<uint64_t>> last((size_t)(np + nc), std::vector<uint64_t>((size_t)np + 1, 0)); (void)t;
			for (auto& o : all) if (!o.push && o.okr) { if (!o.intact) vh::viol("torn", "popped a corrupted element"); if (seen[o.v]++) vh::viol("duplicate", "value %llu popped twice", (unsigned long long)o.v); size_t p = (size_t)(o.v / 100000000ull); if (p < 1 || p > (size_t)np) { vh::viol("invented", "popped unknown value"); continue; } uint64_t& l = last[(size_t)o.th][p]; if (o.v <= l) vh::viol("fifo", "one consumer got elements of one producer out of order"); l = o.v; }
			VH_CHECK((long)seen.size() == per * np, "lost", "%zu of %ld elements popped", seen.size(), per * np);
		} else check_history(all, Q - 1, "threads");
		uint64_t sg = Q; for (auto& o : all) if (!o.push && o.okr) sg = vh::mix(sg, o.v); vh::distinct(sg);
		vh::stat("evaluations"); vh::stat("thread_histories"); vh::stat("ops", (long long)all.size());
	}
};
int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); set_log_threshold(L_MAXIMUM_LEVEL); vh::watchdog(30);
	if (a.mode == "lap") { // full 32-bit lap of the indexes
		std::unique_ptr<LockFreeQueue<uint64_t, 64>> q(new LockFreeQueue<uint64_t, 64>()); uint64_t pushed = 0, popped = 0, total = (1ull << 32) + 100000;
		vh::setcase("index lap"); vh::S().caseLimit = 0; g_threads = true;
		while (popped < total) { for (int i = 0; i < 40; i++) if (!q->push(pushed + 1)) vh::viol("lap-push", "push %llu failed", (unsigned long long)pushed); else pushed++; for (int i = 0; i < 40; i++) { uint64_t v = 0; if (!q->pop(v) || v != popped + 1) { vh::viol("lap-pop", "pop %llu gave %llu", (unsigned long long)popped, (unsigned long long)v); return vh::finish(); } popped++; } if (popped % 4000000 == 0) vh::tick("lap"); }
		vh::stat("evaluations"); vh::stat("lap_ops", (long long)popped); return vh::finish();
	}
	if (a.mode == "fiber") { // without the instrumented atomics fibers cannot interleave (a spinning one would never yield)
		g_threads = false; g_probe = 0; t_fibers = true; std::atomic<uint32_t> t(0); t.load(); 
		if (!g_probe) { vh::stat("fiber_skipped"); return vh::finish(); }
	}
	g_threads = a.mode == "thr" || a.mode == "tsan"; g_delay = (int)a.geti("delay", 1);
	for (long c = 0; c < a.cases; c++) {
		if (a.only >= 0 && c != a.only) continue;
		vh::Rng r(a.seed * 1000033ull + (uint64_t)c); R = &r; vh::tick("lfqueue");
		if (g_threads) {
			int np = 1 + (int)r.below(4), nc = 1 + (int)r.below(3); long per = a.geti("per", 300); bool timed = a.mode == "thr";
			switch (r.below(4)) { case 0: Runner<2>::threads(c, np, nc, per / 3, timed); break; case 1: Runner<4>::threads(c, np, nc, per, timed); break; case 2: Runner<16>::threads(c, np, nc, per, timed); break; default: Runner<256>::threads(c, np, nc, per, timed); }
		} else switch (r.below(5)) { case 0: Runner<2>::one(c); break; case 1: case 2: Runner<4>::one(c); break; case 3: Runner<8>::one(c); break; default: Runner<16>::one(c); }
	}
	return vh::finish();
}
