// C21/C22: ring queue and statistics against simple models.
#include "vh.h"
#include <deque>
#include <cy_core.h>
#include <time.h>
#include <cy_event.h>
#include <utility/cyu_ring_queue.h>
#include <utility/cyu_statistics.h>
#include <limits.h>
#include <algorithm>
using namespace cyclone;
using vh::Rng;

// element that owns memory, so that lost, duplicated or stale elements are visible (value + ASan)
struct Obj {
	uint64_t* v;
	Obj() : v(nullptr) {}
	explicit Obj(uint64_t x) : v(new uint64_t(x)) {}
	Obj(const Obj& o) : v(o.v ? new uint64_t(*o.v) : nullptr) {}
	Obj& operator=(const Obj& o) { if (this != &o) { delete v; v = o.v ? new uint64_t(*o.v) : nullptr; } return *this; }
	~Obj() { delete v; }
	uint64_t id() const { return v ? *v : 0; }
};
static uint64_t idOf(const Obj& o) { return o.id(); }
static uint64_t idOf(const uint64_t& o) { return o; }
static uint64_t idOf(const std::string& o) { return o.empty() ? 0 : strtoull(o.c_str() + 20, 0, 10); }
template <class T> T make(uint64_t x);
template <> Obj make<Obj>(uint64_t x) { return Obj(x); }
template <> uint64_t make<uint64_t>(uint64_t x) { return x; }
template <> std::string make<std::string>(uint64_t x) { return std::string("element number abcdef", 20) + std::to_string(x); }

template <class T> void queue_case(vh::Args& a, Rng& r, long c, const char* tn) {
	size_t fixedCap = r.chance(1, 2) ? 0 : r.range(1, r.chance(1, 3) ? 100 : 10);
	RingQueue<T> q(fixedCap);
	std::deque<uint64_t> m;
	uint64_t next = 1;
	size_t growing_cap = q.capacity();
	long ops = a.geti("ops", 300);
	std::string trace;
	if (fixedCap) VH_CHECK(q.capacity() == fixedCap, "rq-capacity", "fixed capacity %zu reported as %zu", fixedCap, q.capacity());
	int bias = (int)r.below(3);
	for (long i = 0; i < ops; i++) {
		vh::tick("ringqueue");
		int op = (int)r.below(12);
		if (bias == 0 && op >= 5 && op <= 6 && r.chance(2, 3)) op = 0;
		char b[40]; snprintf(b, sizeof b, " %d", op); trace += b; if (trace.size() > 600) trace.erase(0, 300);
		vh::setcase("rq<%s> seed=%llu case=%ld cap=%zu op#%ld size=%zu ops:%s", tn, (unsigned long long)a.seed, c, fixedCap, i, m.size(), trace.c_str());
		size_t before = m.size(); bool grew = false;
		switch (op) {
		case 0: case 1: case 2: case 3: case 4: {
			size_t k = r.chance(1, 10) ? r.range(1, 80) : r.chance(1, 3) ? r.range(1, 8) : 1;
			for (size_t j = 0; j < k; j++) {
				size_t cap = q.capacity();
				if (!m.empty() && r.chance(1, 6)) {      // pushing an element of the queue itself
					size_t w = r.below(m.size()); uint64_t id = m[w];
					const T& ref = w == 0 ? q.front() : w == m.size() - 1 ? q.back() : q.get(w);
					q.push(ref); m.push_back(id); vh::stat("push_own");
				} else { q.push(make<T>(next)); m.push_back(next++); }
				if (fixedCap && m.size() > fixedCap) { m.pop_front(); vh::stat("dropped"); }
				if (q.capacity() != cap) { grew = true; VH_CHECK(!fixedCap, "rq-fixed-grew", "fixed queue changed capacity"); vh::stat("grown"); }
			}
			break; }
		case 5: { size_t k = r.chance(1, 8) ? m.size() + r.below(3) : r.below(m.size() / 2 + 2); q.pop(k); m.erase(m.begin(), m.begin() + (long)std::min(k, m.size())); vh::stat("popped", (long long)std::min(k, before)); break; }
		case 6: if (!m.empty()) { q.pop(); m.pop_front(); } break;
		case 7: if (r.chance(1, 8)) { q.reset(); m.clear(); vh::stat("reset"); } break;
		default: break;
		}
		VH_CHECK(q.size() == m.size(), "rq-size", "size %zu, should be %zu", q.size(), m.size());
		VH_CHECK(q.empty() == m.empty(), "rq-empty", "empty %d with %zu elements", q.empty(), m.size());
		VH_CHECK(q.capacity() >= q.size() && q.get_free_size() == q.capacity() - q.size(), "rq-free", "capacity %zu free %zu size %zu", q.capacity(), q.get_free_size(), q.size());
		VH_CHECK(!fixedCap || q.capacity() == fixedCap, "rq-capacity", "fixed capacity changed to %zu", q.capacity());
		VH_CHECK(q.capacity() >= growing_cap || fixedCap, "rq-shrunk", "capacity shrunk"); growing_cap = q.capacity();
		if (!m.empty() && q.size() == m.size()) {
			VH_CHECK(idOf(q.front()) == m.front(), "rq-front", "front is %llu, should be %llu", (unsigned long long)idOf(q.front()), (unsigned long long)m.front());
			VH_CHECK(idOf(q.back()) == m.back(), "rq-back", "back is %llu, should be %llu", (unsigned long long)idOf(q.back()), (unsigned long long)m.back());
			size_t k = r.below(m.size());
			VH_CHECK(idOf(q.get(k)) == m[k], "rq-get", "get(%zu) is %llu, should be %llu", k, (unsigned long long)idOf(q.get(k)), (unsigned long long)m[k]);
		}
		if (op >= 8 || grew || i + 1 == ops) {
			size_t stop = r.chance(1, 3) ? r.below(m.size() + 2) : m.size() + 5, n = 0; bool ok = true;
			q.walk([&](size_t idx, const T& v) { if (idx != n || n >= m.size() || idOf(v) != m[n]) ok = false; n++; return n < stop; });
			size_t wantN = m.empty() ? 0 : std::min(m.size(), std::max<size_t>(stop, 1));
			VH_CHECK(ok && n == wantN, "rq-walk", "walk visited %zu elements (should be %zu), content ok=%d", n, wantN, ok);
			n = 0; ok = true;
			q.walk_reserve([&](size_t idx, const T& v) { size_t e = m.size() - 1 - n; if (n >= m.size() || idx != e || idOf(v) != m[e]) ok = false; n++; return n < stop; });
			VH_CHECK(ok && n == wantN, "rq-walk-reverse", "reverse walk visited %zu elements (should be %zu), content ok=%d", n, wantN, ok);
			vh::stat("walks", 2);
		}
		vh::stat("evaluations");
		vh::distinct(vh::mix(vh::mix(fixedCap, (uint64_t)op), vh::mix(m.size(), before + (m.empty() ? 0 : m.front() % (q.capacity() + 1)) * 1000)));
	}
	q.walk(nullptr); q.walk_reserve(nullptr);
}

// ------------------------------------------------------------------ statistics
// delays around every atomic access of the library code (inj builds)
static thread_local uint64_t t_delay = 0;
extern "C" void vh_atomic_point(int) { uint64_t& x = t_delay; if (!x) return; x ^= x << 13; x ^= x >> 7; x ^= x << 17; if (x % 6) return; if ((x >> 20) % 3) sched_yield(); else { struct timespec t = { 0, (long)((x >> 30) % 20000) }; nanosleep(&t, nullptr); } }
template <class T> void minmax_case(vh::Args& a, Rng& r, long c, const char* tn, T lo, T hi) {
	bool withInit = r.chance(1, 3);
	auto rnd = [&]() -> T {
		switch (r.below(6)) { case 0: return lo; case 1: return hi; case 2: return (T)0; case 3: return (T)-1;
		default: { if (std::is_floating_point<T>::value) return (T)(((double)(int64_t)r.next()) / 1e10) - (r.chance(1, 2) ? (T)0 : (T)1e8); return (T)r.next(); } }
	};
	int neg = (int)r.below(3);
	T init = rnd(); if (neg == 1 && init > 0) init = (T)(0 - init);
	MinMaxValue<T>* m = withInit ? new MinMaxValue<T>(init) : new MinMaxValue<T>();
	int n = (int)r.range(withInit ? 0 : 1, 12); T mn = init, mx = init; bool any = withInit;
	vh::setcase("minmax<%s> seed=%llu case=%ld", tn, (unsigned long long)a.seed, c);
	for (int i = 0; i < n || !any; i++) {
		T v = rnd();
		if (neg == 1 && v > 0) v = (T)(0 - v);
		if (neg == 2 && v < 0) v = (T)(0 - v);
		m->update(v);
		if (!any || v < mn) mn = v;
		if (!any || v > mx) mx = v;
		any = true;
		VH_CHECK(m->min() == mn, "minmax-min", "min<%s> after %d values is %.17g, should be %.17g", tn, i + 1, (double)m->min(), (double)mn);
		VH_CHECK(m->max() == mx, "minmax-max", "max<%s> after %d values is %.17g, should be %.17g", tn, i + 1, (double)m->max(), (double)mx);
		vh::stat("evaluations"); vh::stat("minmax");
	}
	vh::distinct(vh::hash64(&mn, sizeof mn, vh::hash64(&mx, sizeof mx)));
	delete m;
}
static void minmax_threads(vh::Args& a, Rng& r, long c) {
	MinMaxValue<int64_t> m; std::atomic<int> go(0); const int T = 4; std::vector<std::thread> th; int64_t mns[T], mxs[T];
	vh::setcase("minmax threads seed=%llu case=%ld", (unsigned long long)a.seed, c);
	std::vector<uint64_t> sd; for (int t = 0; t < T; t++) sd.push_back(r.next());
	for (int t = 0; t < T; t++) th.emplace_back([&, t] { Rng q(sd[t]); mns[t] = INT64_MAX; mxs[t] = INT64_MIN; go++; while (go < T) {} t_delay = q.next() | 1;
		int64_t up = 0; for (int i = 0; i < 200; i++) { up += (int64_t)q.below(1000); int64_t v = (i & 1) ? up : -up; m.update(v); if (v < mns[t]) mns[t] = v; if (v > mxs[t]) mxs[t] = v; } });
	for (auto& x : th) x.join();
	int64_t mn = *std::min_element(mns, mns + T), mx = *std::max_element(mxs, mxs + T);
	VH_CHECK(m.min() == mn && m.max() == mx, "minmax-threads", "min/max of concurrent updates is %lld/%lld, should be %lld/%lld", (long long)m.min(), (long long)m.max(), (long long)mn, (long long)mx);
	vh::stat("evaluations"); vh::stat("minmax_threads");
}
template <class PV, class T> void period_case(vh::Args& a, Rng& r, long c, const char* tn) {
	int32_t period = (int32_t)(r.chance(1, 4) ? r.range(1, 3) : r.range(1, 2000));
	int pace = 0; if (r.chance(1, 2)) { static const int near[] = { 7, 15, 16, 29, 30, 31, 32, 61, 62, 63 }; int m = r.chance(1, 2) ? near[r.below(10)] : (int)r.range(1, 70); pace = (int)r.range(1, 30); period = m * pace; vh::stat("period_paced"); }      // at an even pace: whenever a value is recorded another one is exactly one period old, and as many are held as the period has steps
	PV* pv = new PV(period);
	std::vector<std::pair<int64_t, T>> all; 
	int64_t t = (int64_t)r.range(1, 1000000); size_t oldest = 0;
	int style = (int)r.below(4);
	VH_CHECK(pv->get_time_period() == period, "period-length", "period %d reported as %d", period, pv->get_time_period());
	long ops = a.geti("ops", 300); 
	for (long i = 0; i < ops; i++) {
		vh::tick("period");
		vh::setcase("period<%s> seed=%llu case=%ld period=%d op#%ld t=%lld recorded=%zu", tn, (unsigned long long)a.seed, c, period, i, (long long)t, all.size());
		if (pace) t += pace; else switch (style == 0 ? 0 : r.below(6)) { case 0: t += (int64_t)r.below(3); break; case 1: break; case 2: t += r.chance(1, 5) ? period : 0; break; case 3: t += r.chance(1, 10) ? period + 1 : 0; break; case 4: t += (int64_t)r.below((uint64_t)period / 4 + 2); break; case 5: if (r.chance(1, 12)) t += (int64_t)r.below((uint64_t)period * 3); }
		if (pace || r.chance(3, 4)) { T v = (T)(r.chance(1, 5) ? -(int64_t)r.below(1000) : (int64_t)r.below(100000)); if (std::is_unsigned<T>::value) v = (T)r.below(100000); pv->push(v, t); all.push_back(std::make_pair(t, v)); vh::stat("recorded"); }
		if (r.chance(1, style == 1 ? 40 : 3) || i + 1 == ops) {
			T sum = 0; int32_t n = 0;
			while (oldest < all.size() && all[oldest].first < t - period) oldest++;
			for (size_t k = oldest; k < all.size(); k++) { sum += all[k].second; n++; }
			auto g = pv->sum_and_counts(t);
			VH_CHECK(g.first == sum && g.second == n, "period-sum", "sum/count at %lld over %d ms is %.17g/%d, should be %.17g/%d", (long long)t, period, (double)g.first, g.second, (double)sum, n);
			vh::stat("evaluations"); vh::stat("period_queries"); if (n) vh::stat("period_nonempty"); if (oldest) vh::stat("period_expired");
			vh::distinct(vh::mix(vh::mix((uint64_t)period, (uint64_t)n), vh::mix(all.size() - oldest, (uint64_t)sum)));
		}
	}
	delete pv;
}
// the default clock: values recorded now count now, and are gone after the period (bounds taken around the calls)
static void period_clock(vh::Args& a, Rng& r, long c) {
	int32_t period = (int32_t)r.range(40, 120); PeriodValue<int64_t> pv(period); std::vector<std::pair<double, double>> at; double st = vh::now();
	vh::setcase("period clock seed=%llu case=%ld period=%d", (unsigned long long)a.seed, c, period);
	while (vh::now() - st < 0.5) {
		vh::tick("period clock");
		double t0 = vh::now(); pv.push(1); double t1 = vh::now(); at.push_back(std::make_pair(t0, t1));
		vh::usleep_((unsigned)r.below(9000));
		if (r.chance(1, 3)) {
			double q0 = vh::now(); auto g = pv.sum_and_counts(); double q1 = vh::now(); int must = 0, may = 0; double tol = 0.003, p = period / 1000.0;
			for (auto& x : at) { if (q1 - x.first < p - tol) must++; if (q0 - x.second < p + tol) may++; }
			VH_CHECK(g.second == g.first && g.second >= must && g.second <= may, "period-clock", "count %d, should be in %d..%d (period %d ms)", g.second, must, may, period);
			vh::stat("evaluations"); vh::stat("period_clock");
		}
	}
}
static void period_threads(vh::Args& a, Rng& r, long c) {
	PeriodValue<int64_t> pv(3600000); const int T = 4; std::vector<std::thread> th; std::atomic<int> go(0);
	vh::setcase("period threads seed=%llu case=%ld", (unsigned long long)a.seed, c);
	std::atomic<bool> bad(false);
	for (int t = 0; t < T; t++) th.emplace_back([&, t] { go++; while (go < T); for (int i = 0; i < 500; i++) { pv.push(t + 1); if (i % 50 == 0) { auto g = pv.sum_and_counts(); if (g.second < i + 1 || g.second > T * 500) bad = true; } } });
	for (auto& x : th) x.join();
	auto g = pv.sum_and_counts();
	VH_CHECK(!bad && g.second == T * 500 && g.first == 500 * (1 + 2 + 3 + 4), "period-threads", "concurrent recording: count %d sum %lld", g.second, (long long)g.first);
	vh::stat("evaluations"); vh::stat("period_threads");
}

int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); vh::watchdog(60);
	Rng r(a.seed);
	for (long c = 0; c < a.cases; c++) {
		if (a.mode == "queue") {
			switch (r.below(3)) { case 0: queue_case<Obj>(a, r, c, "Obj"); break; case 1: queue_case<uint64_t>(a, r, c, "uint64"); break; default: queue_case<std::string>(a, r, c, "string"); }
		} else {
			switch (r.below(8)) {
			case 0: minmax_case<int>(a, r, c, "int", INT_MIN + 1, INT_MAX); break;
			case 1: minmax_case<int64_t>(a, r, c, "int64", INT64_MIN + 1, INT64_MAX); break;
			case 2: minmax_case<double>(a, r, c, "double", -1.7e308, 1.7e308); break;
			case 3: minmax_case<float>(a, r, c, "float", -3e38f, 3e38f); break;
			case 4: minmax_case<size_t>(a, r, c, "size_t", 0, SIZE_MAX); break;
			case 5: minmax_case<int16_t>(a, r, c, "int16", -32767, 32767); break;
			case 6: period_case<PeriodValue<int64_t>, int64_t>(a, r, c, "int64,lock"); break;
			default: if (r.chance(1, 2)) period_case<PeriodValue<size_t, false>, size_t>(a, r, c, "size_t"); else period_case<PeriodValue<int, true>, int>(a, r, c, "int,lock");
			}
			if (c % 5 == 0) minmax_threads(a, r, c); if (c % 50 == 0) period_threads(a, r, c);
			if (c == 3) period_clock(a, r, c);
		}
	}
	return vh::finish();
}
