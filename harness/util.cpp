// C28: sizes as text, module name, process id, cpu count, local time as text, sleep.   modes: size proc (and, internally, name)
#include <cy_core.h>
#include <utility/cyu_string_util.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <math.h>
#include <limits.h>
#include <errno.h>
#include <algorithm>
#include "vh.h"
using namespace cyclone;
using vh::Rng;

static bool g_fake; static time_t g_fakeNow; static long g_cpu = -2; static long g_timeUses;
extern "C" {
time_t __real_time(time_t*); long __real_sysconf(int);
time_t __wrap_time(time_t* t) { if (!g_fake) return __real_time(t); g_timeUses++; if (t) *t = g_fakeNow; return g_fakeNow; }
long __wrap_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN && g_cpu != -2) return g_cpu; return __real_sysconf(n); }
}

// ---- sizes ---------------------------------------------------------------------------------------------
static const double KB = 1024.0, MB = KB * 1024, GB = MB * 1024;
static void judge(const std::string& t, double v, const char* form) {
	vh::stat("evaluations"); std::string s = t; while (!s.empty() && s.back() == ' ') s.pop_back();
	double unit = 1; const char* un = "";
	if (s.size() > 2 && s[s.size() - 1] == 'B') { un = s[s.size() - 2] == 'K' ? "KB" : s[s.size() - 2] == 'M' ? "MB" : s[s.size() - 2] == 'G' ? "GB" : 0; VH_CHECK(un, "size-unit-name", "%s", t.c_str()); if (!un) return; unit = *un == 'K' ? KB : *un == 'M' ? MB : GB; s.resize(s.size() - 2); while (!s.empty() && s.back() == ' ') s.pop_back(); }
	// number with two decimals
	size_t i = 0; if (i < s.size() && s[i] == '-') i++; size_t d = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; bool ok = i > d && i + 3 == s.size() && s[i] == '.' && isdigit((unsigned char)s[i + 1]) && isdigit((unsigned char)s[i + 2]);
	VH_CHECK(ok, "size-format", "'%s' for %.17g (%s)", t.c_str(), v, form); if (!ok) return;
	double num = strtod(s.c_str(), 0), back = num * unit, tol = 0.00500001 * unit + fabs(v) * 1.2e-7;
	VH_CHECK(fabs(back - v) <= tol, "size-value", "'%s' for %.17g (%s)", t.c_str(), v, form);
	double up = v * (1 + 1.2e-7), down = v * (1 - 1.2e-7); auto of = [](double x) { return x < KB ? 1.0 : x < MB ? KB : x < GB ? MB : GB; };
	bool exact = form[0] == 'f'; VH_CHECK(unit == of(v) || (!exact && (unit == of(up) || unit == of(down))), "size-unit", "'%s' for %.17g (%s)", t.c_str(), v, form);
	vh::stat(unit == 1 ? "shown_bytes" : unit == KB ? "shown_kb" : unit == MB ? "shown_mb" : "shown_gb");
	vh::distinct(vh::hash64(t.data(), t.size()));
}
static void size_case(Rng& r) {
	vh::setcase("sizes");
	for (int i = 0; i < 400; i++) {
		static const double edge[] = { 0, 1, KB, MB, GB, GB * 1024, 1 };
		if (r.chance(1, 2)) {
			float f; switch (r.below(4)) { case 0: { uint32_t b = (uint32_t)r.next(); memcpy(&f, &b, 4); if (!std::isfinite(f)) continue; break; } case 1: { f = (float)edge[r.below(6)]; int n = (int)r.below(5); bool up = r.chance(1, 2); while (n--) f = nextafterf(f, up ? INFINITY : 0.f); break; } case 2: f = (float)(r.below(1u << 30)) * (r.chance(1, 2) ? 1.f : 0.37f) * (r.chance(1, 3) ? 8.f : 1.f); break; default: f = (float)r.below(4096) + (float)r.below(1000) / 1000.f; }
			if (f < 0 && r.chance(1, 2)) f = -f;
			judge(string_util::size_to_string(f), (double)f, "float"); vh::stat("size_floats");
		} else {
			size_t s; switch (r.below(4)) { case 0: s = (size_t)r.next() >> r.below(64); break; case 1: s = (size_t)edge[r.below(6)] + (size_t)r.below(5) - 2; if ((int64_t)s < 0 && s > SIZE_MAX - 9) s = 0; break; case 2: s = (size_t)1 << r.below(64); s -= r.below(2); break; default: s = r.below(5000); }
			judge(string_util::size_to_string(s), (double)s, "size_t"); vh::stat("size_ints");
		}
	}
	VH_CHECK(string_util::size_to_string((size_t)1536).find("1.50 KB") == 0 && string_util::size_to_string((size_t)5 << 20).find("5.00 MB") == 0 && string_util::size_to_string((size_t)3 << 29).find("1.50 GB") == 0 && string_util::size_to_string((size_t)10).find("10.00") == 0, "size-known", "a known size is shown differently");
}
// ---- process ----------------------------------------------------------------------------------------------
static std::string g_self;
static void judge_name(const std::string& full, Rng& r) {
	for (int i = 0; i < 12; i++) {
		size_t n = r.chance(1, 4) ? full.size() + r.below(4) : r.chance(1, 6) ? r.below(4) : r.range(1, 300); char* b = (char*)malloc(n ? n : 1); memset(b, 'Q', n ? n : 1);
		sys_api::process_get_module_name(b, n); vh::stat("evaluations"); vh::stat("names"); vh::distinct(vh::mix(n, full.size()));
		if (n == 0) VH_CHECK(b[0] == 'Q', "name-zero", "a buffer of no bytes was written");
		else { bool term = memchr(b, 0, n); VH_CHECK(term, "name-unterminated", "no terminator in %zu bytes", n); if (term) VH_CHECK(std::string(b) == full.substr(0, n - 1), "name-wrong", "'%s' in %zu bytes, the program is '%s'", b, n, full.c_str()); if (full.size() >= n) vh::stat("names_cut"); }
		free(b);
	}
}
static void name_child(Rng& r) { char b[8192]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); std::string p(b, n > 0 ? (size_t)n : 0); std::string base = p.substr(p.rfind('/') + 1); judge_name(base, r); }
static void deep_case(Rng& r) {
	char dir[4096]; snprintf(dir, sizeof dir, "%s.dXXXXXX", g_self.c_str()); if (!mkdtemp(dir)) { vh::stat("no_dir"); return; }
	std::vector<std::string> made{ dir }; std::string p = dir; size_t want = r.range(100, 3600); bool ok = true;
	while (p.size() < want) { p += "/" + std::string(r.range(1, 200), (char)('a' + r.below(26))); if (mkdir(p.c_str(), 0700) != 0) { ok = false; break; } made.push_back(p); }
	std::string nm; for (size_t i = 0, n = r.range(1, 200); i < n; i++) nm += "abcXYZ019._- +=,@"[r.below(17)]; if (nm == "." || nm == "..") nm = "x";
	std::string f = p + "/" + nm; ok = ok && link(g_self.c_str(), f.c_str()) == 0;
	if (ok) {
		vh::setcase("executable path of %zu bytes, name of %zu", f.size(), nm.size()); vh::tick("exec"); fflush(stdout); char sd[32]; snprintf(sd, sizeof sd, "%llu", (unsigned long long)(r.next() >> 8)); int pp[2]; if (pipe(pp)) return;
		pid_t k = fork();
		if (k == 0) { dup2(pp[1], 1); close(pp[0]); execl(f.c_str(), f.c_str(), "--mode", "name", "--cases", "1", "--seed", sd, (char*)0); _exit(99); }
		close(pp[1]); std::string out; char b[512]; ssize_t n; while ((n = read(pp[0], b, sizeof b)) > 0) out.append(b, (size_t)n); close(pp[0]); int st = 0; waitpid(k, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 99) vh::stat("exec_failed");
		else { size_t at = out.find("VIOL key="); VH_CHECK(at == std::string::npos && WIFEXITED(st) && (WEXITSTATUS(st) == 0), "name-deep", "path of %zu bytes, status %d: %.300s", f.size(), st, at == std::string::npos ? "" : out.c_str() + at); vh::stat("evaluations"); vh::stat("deep_paths"); if (f.size() > 255) vh::stat("paths_over_255"); vh::distinct(f.size()); }
	} else vh::stat("deep_failed");
	unlink(f.c_str()); while (!made.empty()) { rmdir(made.back().c_str()); made.pop_back(); }
}
static void proc_case(Rng& r) {
	vh::setcase("process"); vh::tick("process");
	name_child(r);
	VH_CHECK(sys_api::process_get_id() == getpid(), "pid", "process id %d is reported as %d", (int)getpid(), (int)sys_api::process_get_id());
	{ fflush(stdout); pid_t k = fork(); if (k == 0) { _exit(sys_api::process_get_id() == getpid() ? 0 : 1); } int st; waitpid(k, &st, 0); VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "pid-fork", "process id after fork"); vh::stat("forks"); vh::stat("evaluations"); }
	// cpus
	g_cpu = -2; VH_CHECK(sys_api::get_cpu_counts() == (int32_t)sysconf(_SC_NPROCESSORS_ONLN), "cpus", "%d processors reported, %ld online", sys_api::get_cpu_counts(), sysconf(_SC_NPROCESSORS_ONLN));
	g_cpu = -1; { int32_t c = sys_api::get_cpu_counts(); VH_CHECK(c >= 1 && c < 100, "cpus-unknown", "%d processors when the number is unknown", c); }
	g_cpu = (long)r.range(1, 4096); VH_CHECK(sys_api::get_cpu_counts() == g_cpu, "cpus", "%d processors reported of %ld", sys_api::get_cpu_counts(), g_cpu); g_cpu = -2;
	vh::stat("evaluations", 3);
	// local time as text
	static const char* tz[] = { "UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "XXX12", "YYY-14", "CET-1CEST,M3.5.0,M10.5.0/3" };
	static const char* fm[] = { "%Y%m%d-%H%M%S", "%Y_%m_%d-%H:%M:%S", "%c", "%F %T", "%a %b %d", "%%", "x%Yx", "%j|%U|%w|%y|%I|%p|%Z|%z", "%s" };
	for (int i = 0; i < 20; i++) {
		setenv("TZ", tz[r.below(6)], 1); tzset(); const char* f = fm[r.below(9)]; std::string lf; if (r.chance(1, 5)) { for (int k = 0; k < 20; k++) lf += f; f = lf.c_str(); }
		g_fakeNow = r.chance(1, 4) ? (time_t)r.below(4102444800ull * 2) : r.chance(1, 2) ? (time_t)r.below(2000000000) : (time_t)(1700000000 + r.below(31536000)); g_fake = true;
		struct tm tm; localtime_r(&g_fakeNow, &tm); char want[2048]; size_t len = strftime(want, sizeof want, f, &tm); want[len] = 0;
		size_t n = r.chance(1, 2) ? len + 1 + r.below(10) : r.chance(1, 3) ? len : r.range(1, len + 3); if (!n) n = 1; char* b = (char*)malloc(n); memset(b, 'Q', n);
		sys_api::local_time_now(b, n, f); g_fake = false; vh::stat("evaluations"); vh::stat("local_times"); vh::distinct(vh::mix(vh::hash64(want, len), n));
		bool term = memchr(b, 0, n); VH_CHECK(term, "time-unterminated", "'%.60s' of %zu characters into %zu bytes is not terminated", want, len, n);
		if (term && n > len) VH_CHECK(!strcmp(b, want), "time-wrong", "'%s', expected '%s' (%s)", b, want, f);
		if (term && n <= len) { vh::stat("times_too_long"); VH_CHECK(b[0] == 0 || !strncmp(b, want, strlen(b)), "time-garbage", "'%s' for '%s'", b, want); }
		free(b);
	}
	// sleep
	if (r.chance(1, 4)) { int ms = r.chance(1, 4) ? -(int)r.below(100) : (int)r.below(40); bool sig = r.chance(1, 2); struct itimerval it; memset(&it, 0, sizeof it); if (sig) { it.it_interval.tv_usec = it.it_value.tv_usec = 3000; setitimer(ITIMER_REAL, &it, 0); } double a = vh::now(); sys_api::thread_sleep(ms); double e = vh::now() - a; memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, 0); vh::stat("evaluations"); vh::stat("sleeps"); if (sig) vh::stat("interrupted_sleeps");
		VH_CHECK(e >= ms / 1000.0 - 0.0005, "sleep-early", "a sleep of %d ms took %.4f s", ms, e); VH_CHECK(e < ms / 1000.0 + 8, "sleep-late", "a sleep of %d ms took %.3f s", ms, e); }
	if (r.chance(1, 5)) deep_case(r);
}
static void on_alrm(int) {}
int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); set_log_threshold(L_MAXIMUM_LEVEL);
	char b[8192]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); g_self.assign(b, n > 0 ? (size_t)n : 0);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alrm; sigaction(SIGALRM, &sa, 0);
	if (a.mode == "name") { Rng r(a.seed); name_child(r); return vh::finish(); }
	vh::watchdog(60);
	for (long i = 0; i < a.cases; i++) { if (a.only >= 0 && i != a.only) continue; Rng r(vh::mix(a.seed, (uint64_t)i)); if (a.mode == "size") size_case(r); else proc_case(r); }
	return vh::finish();
}
