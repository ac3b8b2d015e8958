// Common harness support: seeded randomness, oracle reporting, counters, watchdog.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <time.h>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <atomic>
#include <mutex>
#include <thread>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" void __sanitizer_set_death_callback(void (*cb)(void));
#define VH_SAN 1
#endif

namespace vh {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed ^ 0x5851F42D4C957F2Dull) { uint64_t a = next(), b = next(); s = a ^ (b * 0xD6E8FEB86659FD93ull); }   // consecutive seeds must not give shifted copies of one stream
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t hash64(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char* c = (const unsigned char*)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

struct State {
	std::recursive_mutex mu;
	std::unordered_set<uint64_t> dist;
	std::map<std::string, int> violKeys;
	int samples = 0;
	char cur[4096];
	std::atomic<uint64_t> ticks;
	std::atomic<const char*> phase;
	std::atomic<int> wdOn;
	double wdLimit = 30, caseLimit = 150; std::atomic<uint64_t> caseNo; std::atomic<int> violSeen;
	int maxViol = 5, violCount = 0;
	FILE* out = nullptr;      // where the monitor's own lines go (stdout unless a harness redirects that)
	FILE* o() { return out ? out : stdout; }
	State() { cur[0] = 0; ticks = 0; caseNo = 0; violSeen = 0; phase = "start"; wdOn = 0; }
};
inline State& S() { static State* s = new State; return *s; }

inline void print_case() {
	if (S().cur[0]) { char b[4200]; int n = snprintf(b, sizeof b, "\nCASE %s\n", S().cur); (void)!::syscall(SYS_write, 2, b, (size_t)n); }
}
inline void setcase(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void setcase(const char* fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(S().cur, sizeof S().cur, fmt, a); va_end(a); S().caseNo.fetch_add(1, std::memory_order_relaxed); }

// Counters must not order the threads under test for the race detector: relaxed atomics, the table is looked up without locks.
struct Counter { char name[64]; long long v; };
inline Counter* counters() { static Counter* t = (Counter*)calloc(1024, sizeof(Counter)); return t; }
#if defined(__clang__)
__attribute__((no_sanitize("thread", "address"), noinline))
#else
__attribute__((no_sanitize_thread, no_sanitize_address, noinline))
#endif
inline Counter* counter(const char* name) {
	Counter* t = counters(); unsigned h = 5381; int n = 0; for (const char* c = name; *c && n < 63; c++, n++) h = h * 33 + (unsigned char)*c;
	for (;;) { for (unsigned i = h % 1024, k = 0; k < 1024; i = (i + 1) % 1024, k++) { if (!t[i].name[0]) break; int j = 0; while (j < n && t[i].name[j] == name[j]) j++; if (j == n && !t[i].name[n]) return &t[i]; }
		static int lk = 0; while (__atomic_exchange_n(&lk, 1, __ATOMIC_RELAXED)) ; unsigned i = h % 1024; bool have = false; while (t[i].name[0]) { int j = 0; while (j < n && t[i].name[j] == name[j]) j++; if (j == n && !t[i].name[n]) { have = true; break; } i = (i + 1) % 1024; }
		if (!have) { for (int j = n - 1; j >= 0; j--) ((volatile char*)t[i].name)[j] = name[j]; } __atomic_store_n(&lk, 0, __ATOMIC_RELAXED); if (!n) return &t[i]; }
}
inline void stat(const char* name, long long v = 1) { __atomic_fetch_add(&counter(name)->v, v, __ATOMIC_RELAXED); }
inline void statmax(const char* name, long long v) { Counter* c = counter(name); long long o = __atomic_load_n(&c->v, __ATOMIC_RELAXED); while (v > o && !__atomic_compare_exchange_n(&c->v, &o, v, true, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) ; }
inline void distinct(uint64_t h) { std::lock_guard<std::recursive_mutex> g(S().mu); if (S().dist.size() < 300000) S().dist.insert(h); }
inline void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void sample(const char* fmt, ...) {
	std::lock_guard<std::recursive_mutex> g(S().mu);
	if (S().samples++ >= 4) return;
	char b[800]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
	fprintf(S().o(), "SAMPLE %s\n", b);
}
inline void dump_out() {
	std::lock_guard<std::recursive_mutex> g(S().mu);
	for (int i = 0; i < 1024; i++) if (counters()[i].name[0]) fprintf(S().o(), "STAT %s %lld\n", counters()[i].name, __atomic_load_n(&counters()[i].v, __ATOMIC_RELAXED));
	fflush(S().o());
	const char* p = getenv("VH_DIST");
	if (p) { FILE* f = fopen(p, "wb"); if (f) { for (uint64_t h : S().dist) fwrite(&h, 8, 1, f); fclose(f); } }
}
inline void die(int rc) { dump_out(); fflush(stdout); fflush(stderr); _exit(rc); }
// An oracle's verdict. Reported once per key; the process stops after a few different ones.
inline void viol(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void viol(const char* key, const char* fmt, ...) {
	std::lock_guard<std::recursive_mutex> g(S().mu);
	if (S().violKeys[key]++ == 0) {
		char b[1500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
		for (char* c = b; *c; c++) if (*c == '\n') *c = ' ';
		fprintf(S().o(), "VIOL key=%s %s [case %s]\n", key, b, S().cur);
		fflush(S().o());
		S().violSeen.store(1, std::memory_order_relaxed); if (++S().violCount >= S().maxViol) die(1);
	}
	else if (S().violKeys[key] > 50) die(1);
}
#define VH_CHECK(cond, key, ...) do { if (!(cond)) vh::viol(key, __VA_ARGS__); } while (0)

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline int64_t now_us() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ll + t.tv_nsec / 1000; }
inline void usleep_(unsigned us) { struct timespec t = { us / 1000000, (long)(us % 1000000) * 1000 }; nanosleep(&t, 0); }

inline void tick(const char* phase = nullptr) { if (phase) S().phase.store(phase, std::memory_order_relaxed); S().ticks.fetch_add(1, std::memory_order_relaxed); }
inline double cpu_used() { struct rusage r; getrusage(RUSAGE_SELF, &r); return r.ru_utime.tv_sec + r.ru_stime.tv_sec + (r.ru_utime.tv_usec + r.ru_stime.tv_usec) * 1e-6; }
// No progress (no tick) for the whole limit, counted in watchdog rounds so that a suspended
// machine does not produce a verdict, is reported as a hang together with whether it was spinning.
inline void* wd_main(void*) {
	uint64_t last = S().ticks, lastCase = S().caseNo; double cpu = cpu_used(); int rounds = 0, caseRounds = 0, violRounds = 0;
	for (;;) {
		struct timespec t = { 0, 250000000 }; nanosleep(&t, 0);
		uint64_t c = S().ticks, cn = S().caseNo.load(std::memory_order_relaxed);
		// what is found is reported even if the run cannot end because of it
		if (S().violSeen.load(std::memory_order_relaxed) && ++violRounds > 80) die(1);
		if (cn != lastCase || !S().wdOn) { lastCase = cn; caseRounds = 0; }
		else if (S().caseLimit > 0 && ++caseRounds * 0.25 >= S().caseLimit) { char key[200]; snprintf(key, sizeof key, "hang:case:%s", S().phase.load()); for (char* p = key; *p; p++) if (*p == ' ') *p = '_'; viol(key, "a case has not ended for %.0f s, now in phase '%s'", S().caseLimit, S().phase.load()); die(1); }
		if (c != last || !S().wdOn) { last = c; rounds = 0; cpu = cpu_used(); continue; }
		if (++rounds * 0.25 >= S().wdLimit) {
			double used = cpu_used() - cpu;
			char key[200]; snprintf(key, sizeof key, "hang:%s", S().phase.load());
			for (char* p = key; *p; p++) if (*p == ' ') *p = '_';
			viol(key, "no progress for %.0f s in phase '%s' (%s, %.1f s cpu)", S().wdLimit, S().phase.load(), used > S().wdLimit * 0.5 ? "spinning" : "blocked", used);
			die(1);
		}
	}
	return 0;
}
inline void watchdog(double limit = 30) {
	const char* e = getenv("VH_WD"); if (e) limit = atof(e);
	S().wdLimit = limit; 
	if (S().wdOn.exchange(1) == 0) { pthread_t t; pthread_create(&t, 0, wd_main, 0); pthread_detach(t); }
}

inline void on_sig(int s) { print_case(); signal(s, SIG_DFL); raise(s); }

struct Args {
	uint64_t seed = 1; long cases = 100; long only = -1; std::string mode; std::map<std::string, std::string> kv;
	long geti(const char* k, long d) const { auto it = kv.find(k); return it == kv.end() ? d : atol(it->second.c_str()); }
};
inline Args init(int argc, char** argv) {
	Args a;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string k = argv[i]; 
		if (k.substr(0, 2) == "--") k = k.substr(2);
		a.kv[k] = argv[i + 1];
	}
	a.seed = (uint64_t)a.geti("seed", 1); a.cases = a.geti("cases", 100); a.only = a.geti("only", -1);
	if (a.kv.count("mode")) a.mode = a.kv["mode"];
	setvbuf(stdout, 0, _IOLBF, 1 << 16);
	S();
#ifdef VH_SAN
	__sanitizer_set_death_callback(print_case);
#endif
	signal(SIGABRT, on_sig);
#ifndef VH_SAN
	signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); signal(SIGFPE, on_sig); signal(SIGILL, on_sig);
#endif
	return a;
}
inline int finish() { 
	S().wdOn = 0;
	dump_out(); 
	fflush(stdout); fflush(stderr);
	int rc = S().violCount ? 1 : 0;
	_exit(rc);
	return rc;
}

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __lsan_do_recoverable_leak_check(void);
// needs detect_leaks=1 in the environment; the report text goes to stderr and is picked up by the framework
inline void leak_check() { fflush(stdout); if (__lsan_do_recoverable_leak_check()) { die(78); } stat("leak_checks"); }
#endif
// process-level resource monitors
inline int count_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n - 1; }
inline int count_threads() { int n = 0; DIR* d = opendir("/proc/self/task"); if (!d) return -1; while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }

}
