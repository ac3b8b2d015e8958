// C24: the log file against what was logged.  Messages are self-describing ("#t.i.len|body"), so the
// checker needs no positions: exactly-once, own line, right level/thread/text, per-thread order.
#include "vh.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <cy_core.h>
using namespace cyclone;
using vh::Rng;

// optional fault: opening the log file fails once in a while (descriptor exhaustion)
static std::atomic<int> g_openFault(0); static thread_local int t_faults = 0; static thread_local uint64_t t_rng = 1;
extern "C" FILE* __real_fopen(const char* p, const char* m);
extern "C" FILE* __wrap_fopen(const char* p, const char* m) {
	if (g_openFault) { t_rng = t_rng * 6364136223846793005ull + 1442695040888963407ull; if ((t_rng >> 40) % 16 == 0) { t_faults++; errno = EMFILE; return nullptr; } }
	return __real_fopen(p, m);
}

struct Msg { int level; std::string text; bool must; bool may; };
struct Writer { std::string name; std::vector<Msg> msgs; };

static std::string body(Rng& r, size_t n) {
	static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 %%%sdn[]{}\"'\\/:;,.<>!@#$^&*()-_=+\t\x80\xe4\xff";
	std::string s(n, ' '); for (size_t i = 0; i < n; i++) s[i] = al[r.below(sizeof al - 1)]; return s;
}
static size_t msgLen(Rng& r) {
	switch (r.below(10)) { case 0: return r.below(3); case 1: return r.chance(1, 2) ? 2040 + r.below(20) : (256u << r.below(6)) - 2 + r.below(5); case 2: return 4090 + r.below(12); case 3: return 2047 + r.below(3); case 4: return r.below(12000); case 5: return r.chance(1, 10) ? 60000 + r.below(30000) : 100; default: return r.below(200); }
}
static std::string slurp(const std::string& p) { std::string s; int f = open(p.c_str(), O_RDONLY); if (f < 0) return s; char b[65536]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) s.append(b, (size_t)n); close(f); return s; }
static const char LV[] = "TDIWEF";

// looks for the lines of every writer in the text of the log files
static void verify(const std::vector<std::string>& files, std::vector<Writer>& ws, const char* what) {
	std::map<std::string, std::pair<int, size_t>> idx;    // text -> writer, message
	for (size_t w = 0; w < ws.size(); w++) for (size_t i = 0; i < ws[w].msgs.size(); i++) idx[ws[w].msgs[i].text] = std::make_pair((int)w, i);
	std::vector<std::vector<int>> seen(ws.size()); for (size_t w = 0; w < ws.size(); w++) seen[w].assign(ws[w].msgs.size(), 0);
	for (auto& fn : files) {
		std::string s = slurp(fn); size_t pos = 0; std::vector<long> last(ws.size(), -1);
		if (!s.empty() && s.back() != '\n') vh::viol("log-unterminated", "%s: the log does not end with a line end", what);
		while (pos < s.size()) {
			size_t e = s.find('\n', pos); if (e == std::string::npos) e = s.size();
			std::string line = s.substr(pos, e - pos); pos = e + 1;
			vh::stat("lines");
			// time [L] [name] text
			int y, mo, d, h, mi, se, n = 0;
			if (sscanf(line.c_str(), "%4d_%2d_%2d-%2d:%2d:%2d%n", &y, &mo, &d, &h, &mi, &se, &n) != 6 || n != 19 || line.size() < 24 || line[19] != ' ' || line[20] != '[' || line[22] != ']' || line[23] != ' ' || line[24] != '[') {
				vh::viol("log-line-form", "%s: malformed line '%.200s'", what, line.c_str()); continue; }
			size_t nm = line.find("] ", 25);
			size_t hash = line.find("] #", 24);
			if (hash != std::string::npos) nm = hash;
			if (nm == std::string::npos) { vh::viol("log-line-form", "%s: malformed line '%.200s'", what, line.c_str()); continue; }
			std::string name = line.substr(25, nm - 25), text = line.substr(nm + 2);
			auto it = idx.find(text);
			if (it == idx.end()) { vh::viol("log-text", "%s: a line with text nobody logged (%zu bytes) '%.200s'", what, text.size(), text.c_str()); continue; }
			Writer& w = ws[(size_t)it->second.first]; Msg& m = w.msgs[it->second.second];
			VH_CHECK(line[21] == LV[m.level], "log-level", "%s: level '%c', should be '%c'", what, line[21], LV[m.level]);
			VH_CHECK(name == w.name, "log-thread", "%s: thread name '%s', should be '%s'", what, name.c_str(), w.name.c_str());
			int& k = seen[(size_t)it->second.first][it->second.second];
			if (++k > 1) vh::viol("log-twice", "%s: message logged once appears %d times", what, k);
			if (!m.may) vh::viol("log-below", "%s: message of level %c below the threshold was written", what, LV[m.level]);
			long i = (long)it->second.second; VH_CHECK(i > last[(size_t)it->second.first], "log-order", "%s: message %ld of thread %s after %ld", what, i, w.name.c_str(), last[(size_t)it->second.first]); last[(size_t)it->second.first] = i;
		}
	}
	for (size_t w = 0; w < ws.size(); w++) for (size_t i = 0; i < ws[w].msgs.size(); i++) { if (ws[w].msgs[i].must && !seen[w][i]) { vh::viol("log-lost", "%s: message %zu of %zu of thread %s (level %c, %zu bytes) is not in the log", what, i, ws[w].msgs.size(), ws[w].name.c_str(), LV[ws[w].msgs[i].level], ws[w].msgs[i].text.size()); break; } vh::stat(ws[w].msgs[i].must ? "must_present" : ws[w].msgs[i].may ? "may_present" : "must_absent"); }
}

static long g_unique = 0;
static void emit(int level, int form, const std::string& t) {
	switch (form) {
	case 0: disk_log((LOG_LEVEL)level, "%s", t.c_str()); break;
	case 1: { size_t k = t.size() / 2; disk_log((LOG_LEVEL)level, "%.*s%s", (int)k, t.c_str(), t.c_str() + k); break; }
	default: { size_t sp = t.find('|'); disk_log((LOG_LEVEL)level, "#%s|%s", std::string(t, 1, sp - 1).c_str(), t.c_str() + sp + 1); }
	}
}

static void log_case(vh::Args& a, Rng& r, long c) {
	int T = (int)r.range(1, 6); bool levelFlips = r.chance(1, 3), switchFile = r.chance(1, 4), faults = r.chance(1, 5);
	std::string dir = "./lg" + std::to_string(c % 7) + (r.chance(1, 2) ? "/" : "");
	std::string f1 = "a" + std::to_string(c) + ".log", f2 = "b" + std::to_string(c) + ".log";
	vh::setcase("log seed=%llu case=%ld threads=%d flips=%d switch=%d faults=%d", (unsigned long long)a.seed, c, T, levelFlips, switchFile, faults);
	VH_CHECK(set_log_filename(dir.c_str(), f1.c_str()), "log-setname", "file name refused");
	std::string p1 = get_log_filename(), p2;
	VH_CHECK(p1 == (dir.back() == '/' ? dir + f1 : dir + "/" + f1), "log-getname", "name is %s", p1.c_str());
	VH_CHECK(!set_log_filename("", "x") && !set_log_filename(nullptr, "x") && !set_log_filename("x", "") && p1 == get_log_filename(), "log-badname", "an empty name was accepted");
	int base = (int)r.below(L_MAXIMUM_LEVEL + 1); set_log_threshold((LOG_LEVEL)base);
	std::atomic<int> lo(base), hi(base);
	std::vector<Writer> ws((size_t)T); std::vector<thread_t> th; std::atomic<int> go(0); std::atomic<int> left(T);
	int per = (int)r.range(5, 60); size_t sz = 0;
	for (int t = 0; t < T; t++) {
		ws[(size_t)t].name = r.chance(1, 6) ? std::string(r.range(30, 200), 'n') + std::to_string(t) : r.chance(1, 6) ? "" : "thr " + std::to_string(t);
		for (int i = 0; i < per; i++) { Msg m; m.level = (int)r.below(L_MAXIMUM_LEVEL); size_t n = msgLen(r); std::string hd = "#" + std::to_string(++g_unique) + "." + std::to_string(n) + "|"; if (r.chance(2, 3) && n > hd.size()) n -= hd.size(); /* the length of the whole message */ m.text = hd + body(r, n); m.must = m.may = false; ws[(size_t)t].msgs.push_back(m); sz += n; }
	}
	g_openFault = 0;
	// the threshold that applies to a call is one that was set at some moment of the call; level changes are
	// published as [intended, done] so that a call overlapping a change may go either way
	std::atomic<uint64_t> gen(0); std::atomic<int> cur(base), nxt(base);
	for (int t = 0; t < T; t++) {
		uint64_t sd = r.next(); Writer* w = &ws[(size_t)t];
		th.push_back(sys_api::thread_create([&, sd, w](void*) {
			Rng q(sd); t_rng = sd; go++; while (go < T) sched_yield();
			for (auto& m : w->msgs) {
				uint64_t g0 = gen.load(); int c0 = cur.load(), n0 = nxt.load();
				t_faults = 0;
				emit(m.level, (int)q.below(3), m.text);
				bool fault = t_faults > 0;
				uint64_t g1 = gen.load();
				bool stable = g0 == g1 && !(g0 & 1);      // no change overlapped this call
				(void)n0;
				m.may = stable ? m.level >= c0 : true;
				m.must = stable && m.level >= c0 && !fault;
				vh::tick("log"); vh::stat("calls"); if (fault) vh::stat("open_faults"); if (!stable) vh::stat("call_overlaps_level_change");
				vh::distinct(vh::mix(vh::mix((uint64_t)m.level, m.text.size()), (uint64_t)c0 * 2 + stable));
			}
			left--;
		}, nullptr, w->name.c_str()));
	}
	if (faults) g_openFault = 1;
	if (levelFlips || switchFile) {
		Rng q(r.next()); int k = 0;
		while (left > 0 && k++ < 200) {
			if (levelFlips) { int n = (int)q.below(L_MAXIMUM_LEVEL + 1); nxt = n; gen++; set_log_threshold((LOG_LEVEL)n); cur = n; gen++; vh::stat("level_changes"); }
			if (switchFile && k == 3) { VH_CHECK(set_log_filename(dir.c_str(), f2.c_str()), "log-setname", "file name refused"); vh::stat("file_switches"); }
			vh::usleep_((unsigned)q.below(2000));
		}
	}
	for (auto t : th) sys_api::thread_join(t);
	g_openFault = 0;
	// changing the level takes effect on the following call
	Writer me; me.name = "<UNNAME>"; t_faults = 0;
	for (int i = 0; i < 6; i++) { int n = (int)r.below(L_MAXIMUM_LEVEL + 1); set_log_threshold((LOG_LEVEL)n); Msg m; m.level = (int)r.below(L_MAXIMUM_LEVEL); m.text = "#" + std::to_string(++g_unique) + ".0|x"; m.must = m.may = m.level >= n; disk_log((LOG_LEVEL)m.level, "%s", m.text.c_str()); me.msgs.push_back(m); }
	// the name the library gives a thread it did not create is not documented: take what it reports
	me.name = sys_api::thread_get_current_name(); ws.push_back(me);
	p2 = get_log_filename();
	std::vector<std::string> files(1, p1); if (p2 != p1) files.push_back(p2);
	verify(files, ws, faults ? "faults" : "log");
	for (auto& f : files) unlink(f.c_str());
	vh::stat("evaluations");
}

int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); vh::watchdog(30);
	// the log is also echoed to the standard streams; our own reporting goes to a saved descriptor
	FILE* keep = fdopen(dup(1), "w"); setvbuf(keep, 0, _IOLBF, 1 << 16);
	FILE* out0 = stdout; FILE* err0 = stderr; (void)out0; (void)err0;
	FILE* nul = __real_fopen("/dev/null", "w"); FILE* nul2 = __real_fopen("/dev/null", "w");
	FILE* realErr = stderr;
	stdout = nul; stderr = nul2;
	vh::S().out = keep; (void)realErr;
	Rng r(a.seed);
	for (long c = 0; c < a.cases; c++) log_case(a, r, c);
	return vh::finish();
}
