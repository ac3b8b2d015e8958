// Runs the real sample programs (built with sanitizers) as processes and talks to them over loopback: every byte that
// goes in must come out as the program's description says, and the programs must stay alive and clean.
#include "vh.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <errno.h>
#include <memory>
#include <functional>
#include <algorithm>
using namespace vh;
using std::string; using std::vector;

static string g_bin, g_dir; static int g_portBase = 11000, g_portNext = 0; static Rng* R;

static string readf(const string& p) { string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void writef(const string& p, const string& d) { FILE* f = fopen(p.c_str(), "wb"); if (!f) abort(); fwrite(d.data(), 1, d.size(), f); fclose(f); }

static int free_port() {
	for (;;) {
		int p = g_portBase + (g_portNext++ % 200); int s = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)p);
		int one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);   // ports in TIME_WAIT are fine for servers that reuse, the others get a really free one
		if (R->chance(1, 1)) { one = 0; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); }
		bool ok = ::bind(s, (sockaddr*)&a, sizeof a) == 0; ::close(s); if (ok) return p;
	}
}

static std::string S_(int n) { return std::to_string(n); }
// ------------------------------------------------------------------ processes
struct Proc {
	pid_t pid = -1; string name, log, dir; int status = -1; bool ended = false; int inFd = -1; bool scanned = false;
	Proc(const string& n, vector<string> args, const string& cwd = "") : name(n) {
		static int seq = 0; char b[64]; snprintf(b, sizeof b, "/%s.%d", n.c_str(), seq++); dir = cwd.empty() ? g_dir + b + ".d" : cwd; if (cwd.empty()) mkdir(dir.c_str(), 0700); log = g_dir + b + ".log";
		string exe = g_bin + "/" + n; int in[2]; if (pipe2(in, O_CLOEXEC)) abort();
		pid = fork();
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL); if (chdir(dir.c_str())) _exit(121); int fd = open(log.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600); dup2(in[0], 0); dup2(fd, 1); dup2(fd, 2); for (int i = 3; i < 256; i++) ::close(i);
			setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=77", 1); setenv("TSAN_OPTIONS", "halt_on_error=1:exitcode=77:report_signal_unsafe=0", 1); setenv("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1:exitcode=77", 1);
			signal(SIGPIPE, SIG_DFL); vector<char*> av; av.push_back((char*)exe.c_str()); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr); execv(exe.c_str(), av.data()); _exit(122);
		}
		::close(in[0]); inFd = in[1]; stat("processes");
	}
	// what the program has logged (its standard output is buffered)
	string shown() { string r; DIR* d = opendir((dir + "/logs").c_str()); if (!d) return r; while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.' && strstr(e->d_name, (S_(pid)).c_str())) r += readf(dir + "/logs/" + e->d_name); closedir(d); return r; }
	bool poll_end() { if (!ended) { int st; if (waitpid(pid, &st, WNOHANG) == pid) { ended = true; status = st; } } return ended; }
	bool wait_end(double sec) { double t = now(); while (!poll_end() && now() - t < sec) { usleep_(2000); tick(); } return ended; }
	// what the program itself or the sanitizers said
	void scan() {
		if (scanned) return; string s = readf(log); size_t p; const char* marks[] = { "AddressSanitizer", "runtime error:", "Assertion `", "ThreadSanitizer", "terminate called" };
		for (auto m : marks) if ((p = s.find(m)) != string::npos) {
			scanned = true; string what = s.substr(p, 300), site; size_t f = s.find(" in ", p), q = p;
			for (int k = 0; k < 12 && (q = s.find("#", q)) != string::npos; k++) { size_t e = s.find('\n', q); string l = s.substr(q, e - q); q = e; size_t sl; if ((sl = l.find("/samples/")) != string::npos || (sl = l.find("/source/")) != string::npos) { site = l.substr(l.rfind('/', l.find(".cpp")) + 1); size_t z = site.find(':'); if (z != string::npos) site = site.substr(0, z); if (site.find(".cpp") == string::npos && site.find(".h") == string::npos) { site.clear(); continue; } break; } } (void)f;
			size_t ls = s.rfind('\n', p); string line = s.substr(ls == string::npos ? 0 : ls + 1, 400); line = line.substr(0, line.find('\n')); string key = "sample-crash:" + name + ":" + (site.empty() ? string(m).substr(0, 9) : site); for (auto& c : key) if (c == ' ' || c == '`') c = '_';
			viol(key.c_str(), "%s: %s", name.c_str(), line.c_str());
		}
	}
	bool alive(const char* when) {
		if (!poll_end()) return true; scan();
		string key = "sample-ended:" + name; if (!scanned) viol(key.c_str(), "%s ended %s (%s %d): %s", name.c_str(), when, WIFSIGNALED(status) ? "signal" : "exit", WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status), readf(log).substr(0, 200).c_str());
		return false;
	}
	int fds() { char b[64]; snprintf(b, sizeof b, "/proc/%d/fd", pid); int n = 0; DIR* d = opendir(b); if (!d) return -1; while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }
	~Proc() { if (!poll_end()) { kill(pid, SIGKILL); waitpid(pid, &status, 0); ended = true; } scan(); ::close(inFd); unlink(log.c_str()); }
};
typedef std::unique_ptr<Proc> ProcP;

// ------------------------------------------------------------------ peers
static void nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL, 0) | O_NONBLOCK); }
struct Peer {
	int fd = -1; string out; size_t outPos = 0; string in; bool eof = false, reset = false, slow = false, hold = false; double nextW = 0, nextR = 0; size_t maxW = 65536, maxR = 65536; int gapUs = 0;
	explicit Peer(int f = -1) : fd(f) { if (fd >= 0) { nonblock(fd); int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); } style(); }
	void style() { switch (R->below(4)) { case 0: maxW = 1 + R->below(9); gapUs = 300; break; case 1: maxW = 1 + R->below(400); gapUs = (int)R->below(200); break; case 2: maxW = 65536; maxR = 1 + R->below(3000); break; default: break; } if (R->chance(1, 8)) slow = true; }
	bool done() const { return outPos == out.size(); }
	void send(const string& s) { if (outPos > (1u << 20)) { out.erase(0, outPos); outPos = 0; } out += s; if (s.size() > 20000) { maxW = std::max<size_t>(maxW, 3000); } }
	void shut() { if (fd >= 0) ::close(fd); fd = -1; }
	void rst() { if (fd >= 0) { linger l = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(fd); } fd = -1; }
	~Peer() { shut(); }
	bool step() {
		if (fd < 0) return false; bool did = false; double t = now();
		if (!done() && t >= nextW && !hold) { size_t n = std::min(out.size() - outPos, maxW > 65000 ? (size_t)(1 + R->below(maxW)) : maxW); ssize_t r = ::send(fd, out.data() + outPos, n, MSG_NOSIGNAL | MSG_DONTWAIT); if (r > 0) { outPos += (size_t)r; did = true; if (gapUs) nextW = t + gapUs * 1e-6; } else if (r < 0 && errno != EAGAIN && errno != EINTR) { reset = true; outPos = out.size(); } }
		if (!eof && t >= nextR) { char b[65536]; ssize_t r = ::recv(fd, b, std::min(maxR, sizeof b), MSG_DONTWAIT); if (r > 0) { in.append(b, (size_t)r); did = true; stat("bytes_received", r); if (slow) nextR = t + 0.0005; } else if (r == 0) { eof = true; did = true; } else if (errno != EAGAIN && errno != EINTR) { eof = reset = true; did = true; } }
		return did;
	}
};
typedef std::unique_ptr<Peer> PeerP;
static int tcp_connect(int port, double sec = 15) {
	double t = now();
	for (;;) {
		int s = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		if (R->chance(1, 3)) { int small = 4096; setsockopt(s, SOL_SOCKET, SO_RCVBUF, &small, sizeof small); }   // most of what is on its way stays in the program
		if (::connect(s, (sockaddr*)&a, sizeof a) == 0) return s;
		::close(s); if (now() - t > sec) return -1; usleep_(3000); tick();
	}
}
struct Listener { int fd, port; Listener(int p = 0) { fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); port = p ? p : free_port(); a.sin_port = htons((uint16_t)port); int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); if (R->chance(1, 2)) { int small = 4096; setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &small, sizeof small); } if (::bind(fd, (sockaddr*)&a, sizeof a) || ::listen(fd, 64)) { perror("listen"); abort(); } } int take(double sec = 20) { double t = now(); while (now() - t < sec) { int c = ::accept4(fd, 0, 0, SOCK_CLOEXEC); if (c >= 0) return c; usleep_(500); tick(); } return -1; } ~Listener() { ::close(fd); } };
// runs all the peers until the condition holds; false when nothing has moved for long
static bool pump(vector<Peer*> ps, std::function<bool()> done, double idle = 20) {
	double last = now();
	for (;;) { bool did = false; for (auto p : ps) did |= p->step(); tick(); if (done()) return true; if (did) last = now(); else { if (now() - last > idle) return false; usleep_(200); } }
}
static string rnd(size_t n) { string s(n, 0); for (auto& c : s) c = (char)R->next(); return s; }
static size_t rsize() { switch (R->below(8)) { case 0: return R->below(5); case 1: return 250 + R->below(15); case 2: return 65270 + R->below(300); case 3: return R->below(300000); case 4: return R->below(3000000); case 5: return 16 * R->below(200); default: return R->below(5000); } }
// position of the first difference
static string diff(const string& got, const string& want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; char b[200]; snprintf(b, sizeof b, "%zu of %zu bytes, first difference at %zu", got.size(), want.size(), i); return b; }
static bool same(const char* key, const string& got, const string& want, const string& what) { stat("streams_compared"); stat("stream_bytes", (long long)want.size()); distinct(mix(hash64(want.data(), std::min<size_t>(want.size(), 64)), want.size())); if (got == want) return true; viol(key, "%s: %s", what.c_str(), diff(got, want).c_str()); return false; }
static bool settle_fds(Proc& p, int base, const char* key) { double t = now(); int n; while ((n = p.fds()) > base && now() - t < 10) { usleep_(5000); tick(); } if (n > base) { viol(key, "%s holds %d descriptors, %d before the clients came", p.name.c_str(), n, base); return false; } stat("fd_balances"); return true; }
static int quiet_fds(Proc& p) { usleep_(100000); int a = p.fds(); for (int i = 0; i < 40; i++) { usleep_(20000); tick(); int b = p.fds(); if (b == a) return a; a = b; } return a; }

// ------------------------------------------------------------------ echo
static string text(size_t n) { static const char al[] = "abcdefghijklmnopqrstuvyz ABC0123456789,.;-#+"; string s(n, 0); for (auto& c : s) c = al[R->below(sizeof al - 1)]; return s; }
static string upper(string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c = (char)(c - 32); return s; }
static void mode_echo(long cases) {
	int port = free_port(); ProcP p(new Proc("echo-server", { "-p", S_(port) })); { Peer w(tcp_connect(port)); if (w.fd < 0) { p->alive("at start"); viol("echo-no-server", "the echo server does not listen"); return; } } int base = quiet_fds(*p);
	for (long i = 0; i < cases; i++) {
		tick("echo"); setcase("mode=echo i=%ld", i); int n = 1 + (int)R->below(5); vector<PeerP> ps; vector<Peer*> pp; vector<string> want((size_t)n), sent((size_t)n);
		for (int k = 0; k < n; k++) { int f = tcp_connect(port); if (f < 0) { p->alive("at connect"); viol("echo-no-accept", "connection refused"); return; } ps.emplace_back(new Peer(f)); pp.push_back(ps.back().get()); }
		int rounds = 1 + (int)R->below(4);
		for (int r = 0; r < rounds; r++) {
			for (int k = 0; k < n; k++) { size_t len = std::min<size_t>(1 + rsize(), 400000); string t = text(len); pp[(size_t)k]->send(t); want[(size_t)k] += upper(t); }
			bool ok = pump(pp, [&] { for (int k = 0; k < n; k++) if (pp[(size_t)k]->in.size() < want[(size_t)k].size() && !pp[(size_t)k]->eof) return false; return true; }, 12);
			if (!p->alive("while echoing")) return;
			for (int k = 0; k < n; k++) if (!same(ok ? "echo-content" : "echo-incomplete", pp[(size_t)k]->in, want[(size_t)k], "echo")) return;
		}
		for (int k = 0; k < n; k++) { int w = (int)R->below(3); if (w == 0) { pp[(size_t)k]->send("exit"); pp[(size_t)k]->maxW = 65536; pp[(size_t)k]->gapUs = 0; string all = "exit"; ::send(pp[(size_t)k]->fd, "exit", 4, MSG_NOSIGNAL); pp[(size_t)k]->outPos = pp[(size_t)k]->out.size(); if (!pump({ pp[(size_t)k] }, [&] { return pp[(size_t)k]->eof; }, 12)) { p->alive("at exit"); viol("echo-exit", "the connection is not closed after 'exit'"); return; } stat("echo_exits"); } else if (w == 1) pp[(size_t)k]->rst(); else pp[(size_t)k]->shut(); }
		ps.clear(); stat("evaluations"); stat("echo_cases");
		if (!p->alive("after the clients left")) return; if (!settle_fds(*p, base, "echo-descriptors")) return;
	}
	int f = tcp_connect(port); if (f < 0) return; ::send(f, "shutdown", 8, MSG_NOSIGNAL); ::close(f);
	if (!p->wait_end(15)) viol("echo-shutdown", "the server does not end after 'shutdown'"); else if (p->status != 0) { p->scan(); viol("echo-shutdown-status", "the server ends with status 0x%x after 'shutdown'", p->status); } stat("shutdowns");
}
// everything that came is shown
static bool show(Proc& p, const char* key, size_t marks) { double t0 = now(); for (;;) { string o = p.shown(); size_t got = 0; for (char ch : o) got += ch == '#'; if (got == marks) { stat("shown", (long long)marks); return true; } if (!p.alive("while showing")) return false; if (got > marks) { viol(key, "more is shown than came (%zu of %zu marks)", got, marks); return false; } if (now() - t0 > 10) { viol(key, "only a part of what came is shown (%zu of %zu marks)", got, marks); return false; } usleep_(10000); tick(); } }
// the client program against a server of ours
static void mode_echoc(long cases) {
	for (long i = 0; i < cases; i++) {
		tick("echo client"); setcase("mode=echoc i=%ld", i); Listener l; ProcP p(new Proc("echo-client", { "-h", "127.0.0.1", "-p", S_(l.port) })); int c = l.take(); if (c < 0) { p->alive("at start"); viol("echo-client-no-connect", "no connection"); return; } Peer s(c); string want;
		int n = 1 + (int)R->below(30); string lines; for (int k = 0; k < n; k++) { string t = text(R->chance(1, 6) ? 240 + R->below(15) : R->below(60)); want += t; lines += t + "\n"; }
		if (::write(p->inFd, lines.data(), lines.size()) != (ssize_t)lines.size()) { p->alive("at input"); viol("echo-client-input", "input not taken"); return; }
		string back = text(1 + R->below(1500)); s.send(back); bool ok = pump({ &s }, [&] { return s.in.size() >= want.size() && s.done(); }, 12); if (!p->alive("while sending")) return; if (!same(ok ? "echo-client-content" : "echo-client-incomplete", s.in, want, "lines of the client")) return;
		// everything that came back is shown
		size_t cnt = 0; for (char ch : back) cnt += ch == '#'; if (!show(*p, "echo-client-shown", cnt)) return;
		stat("evaluations"); stat("client_runs");
	}
}

// ------------------------------------------------------------------ chat
static string packet(uint16_t id, const string& c) { string s; uint16_t v = htons((uint16_t)c.size()); s.append((char*)&v, 2); v = htons(id); s.append((char*)&v, 2); return s + c; }
static bool next_packet(string& in, size_t& pos, string& content) { if (in.size() - pos < 4) return false; uint16_t v; memcpy(&v, &in[pos], 2); size_t n = ntohs(v); if (in.size() - pos < 4 + n) return false; content = in.substr(pos + 4, n); pos += 4 + n; return true; }
static void mode_chat(long cases) {
	int port = free_port(); ProcP p(new Proc("chat-server", { "-p", S_(port) })); { Peer w(tcp_connect(port)); if (w.fd < 0) { p->alive("at start"); viol("chat-no-server", "the chat server does not listen"); return; } } int base = quiet_fds(*p);
	for (long i = 0; i < cases; i++) {
		tick("chat"); setcase("mode=chat i=%ld", i); int n = 2 + (int)R->below(6); vector<PeerP> ps; vector<Peer*> pp;
		for (int k = 0; k < n; k++) {
			int f = tcp_connect(port); if (f < 0) { p->alive("at connect"); viol("chat-no-accept", "connection refused"); return; } ps.emplace_back(new Peer(f)); Peer* me = ps.back().get(); pp.push_back(me); me->slow = false;
			string hello = packet(0, "H" + S_((int)i) + ":" + S_(k)); me->send(hello); if (!pump(pp, [&] { return me->in.find(hello) != string::npos; }, 12)) { p->alive("at hello"); viol("chat-hello", "a member's own packet does not come back"); return; }
		}
		// everyone is in; the leavers go in the middle
		vector<vector<string>> sent((size_t)n); vector<bool> leaver((size_t)n, false); for (int k = 0; k < n; k++) leaver[(size_t)k] = R->chance(1, 5) && k; int msgs = 3 + (int)R->below(40);
		for (int k = 0; k < n; k++) for (int m = 0; m < msgs; m++) { string body = "M" + string(1, (char)('A' + k)) + S_(m) + "|" + (R->chance(1, 10) ? rnd(R->below(60000)) : rnd(R->below(200))); if (R->chance(1, 12)) body = body.substr(0, body.find('|') + 1); sent[(size_t)k].push_back(body); pp[(size_t)k]->send(packet((uint16_t)R->next(), body)); }
		double leaveAt = now() + R->below(30) * 1e-3; bool left = false; vector<size_t> pos((size_t)n, 0); vector<vector<int>> nextOf((size_t)n, vector<int>((size_t)n, 0)); bool bad = false;
		vector<size_t> parsed((size_t)n, 0);
		auto complete = [&] {
			if (!left && now() >= leaveAt) { left = true; for (int k = 0; k < n; k++) if (leaver[(size_t)k]) { if (R->chance(1, 2)) pp[(size_t)k]->rst(); else pp[(size_t)k]->shut(); stat("chat_leavers"); } }
			bool all = left;
			for (int k = 0; k < n; k++) { if (leaver[(size_t)k]) continue; string c; size_t& q = pos[(size_t)k];
				while (next_packet(pp[(size_t)k]->in, q, c)) { if (c.empty() || c[0] == 'H') continue; int from = c.size() > 1 ? c[1] - 'A' : -1; if (c[0] != 'M' || from < 0 || from >= n) { viol("chat-content", "a packet nobody sent (%zu bytes)", c.size()); bad = true; return true; } int& x = nextOf[(size_t)k][(size_t)from]; if (x >= msgs || sent[(size_t)from][(size_t)x] != c) { viol("chat-order", "member %d: packet %d of member %d is another one (%zu bytes, expected %zu)", k, x, from, c.size(), x < msgs ? sent[(size_t)from][(size_t)x].size() : 0); bad = true; return true; } x++; stat("chat_packets"); }
				for (int f = 0; f < n; f++) if (!leaver[(size_t)f] && nextOf[(size_t)k][(size_t)f] < msgs) all = false; if (pp[(size_t)k]->eof) { viol("chat-closed", "member %d is thrown out", k); bad = true; return true; } }
			return all; };
		bool ok = pump(pp, complete, 15); if (!p->alive("while chatting")) return; if (bad) return; if (!ok) { viol("chat-lost", "not every packet reached every member"); return; }
		distinct(mix((uint64_t)i, R->next())); ps.clear(); stat("evaluations"); stat("chat_cases"); if (!settle_fds(*p, base, "chat-descriptors")) return; if (!p->alive("after the members left")) return;
	}
}
static void mode_chatc(long cases) {
	for (long i = 0; i < cases; i++) {
		tick("chat client"); setcase("mode=chatc i=%ld", i); Listener l; ProcP p(new Proc("chat-client", { "-h", "127.0.0.1", "-p", S_(l.port) })); int c = l.take(); if (c < 0) { p->alive("at start"); viol("chat-client-no-connect", "no connection"); return; } Peer s(c); string want;
		int n = 1 + (int)R->below(20); string lines; for (int k = 0; k < n; k++) { string t = text(1 + R->below(60)); lines += t + "\n"; want += packet(0, t); }
		if (::write(p->inFd, lines.data(), lines.size()) != (ssize_t)lines.size()) { p->alive("at input"); viol("chat-client-input", "input not taken"); return; }
		size_t marks = 0; int packets = 1 + (int)R->below(20); for (int k = 0; k < packets; k++) { string t = text(R->chance(1, 6) ? 900 + R->below(1500) : R->below(300)); for (char ch : t) marks += ch == '#'; s.send(packet(7, t)); }
		bool ok = pump({ &s }, [&] { return s.in.size() >= want.size() && s.done(); }, 12); if (!p->alive("while sending")) return; if (!same(ok ? "chat-client-content" : "chat-client-incomplete", s.in, want, "lines of the client")) return;
		if (!show(*p, "chat-client-shown", marks)) return;
		stat("evaluations"); stat("client_runs");
	}
}

// ------------------------------------------------------------------ tunnels (socks5, relay, pipe)
struct Tunnel { PeerP a, b; string wantA, wantB; };
// exchanges streams on all tunnels at once, then one side of each closes and the other has to get everything and the end
static bool exchange(Proc* p1, Proc* p2, vector<Tunnel>& ts, const char* tag, size_t limit, bool close_, bool endOk = false) {
	vector<Peer*> pp; for (auto& t : ts) { pp.push_back(t.a.get()); pp.push_back(t.b.get()); } string k = tag;
	bool closing = false; auto live = [&] { if (closing && endOk && p1->poll_end() && p1->status == 0) return true; return p1->alive("while forwarding") && (!p2 || p2->alive("while forwarding")); };
	int rounds = 1 + (int)R->below(3);
	for (int r = 0; r < rounds; r++) {
		for (auto& t : ts) { string x = rnd(std::min(limit, rsize())), y = rnd(std::min(limit, rsize())); if (R->chance(3, 4)) { t.a->send(x); t.wantB += x; } if (R->chance(3, 4)) { t.b->send(y); t.wantA += y; } }
		bool ok = pump(pp, [&] { for (auto& t : ts) if ((t.a->in.size() < t.wantA.size() && !t.a->eof) || (t.b->in.size() < t.wantB.size() && !t.b->eof)) return false; return true; }, 15);
		if (!live()) return false; for (auto& t : ts) { if (!same((k + (ok ? "-content" : "-stuck")).c_str(), t.a->in, t.wantA, k + " to the client")) return false; if (!same((k + (ok ? "-content" : "-stuck")).c_str(), t.b->in, t.wantB, k + " to the target")) return false; if (t.a->eof || t.b->eof) { viol((k + "-closed").c_str(), "an open tunnel is closed"); return false; } }
	}
	if (!close_) return true;
	closing = true;
	// the last bytes are followed at once by the end
	for (auto& t : ts) {
		bool fromA = R->chance(1, 2), big = R->chance(1, 5); if (big) stat("big_tails"); Peer* s = fromA ? t.a.get() : t.b.get(); Peer* d = fromA ? t.b.get() : t.a.get(); string& want = fromA ? t.wantB : t.wantA; string x = rnd(big ? 6000000 + R->below(3000000) : std::min(limit, rsize()));
		s->send(x); want += x; s->maxW = 65536; s->gapUs = 0; bool rst = R->chance(1, 6);
		vector<Peer*> both = { s }; bool late = R->chance(1, 2); if (!late) both.push_back(d); if (!pump(both, [&] { return s->done(); }, 15)) { live(); viol((k + "-stuck").c_str(), "the last bytes are not taken"); return false; }
		if (rst) s->rst(); else s->shut(); if (late) { usleep_((unsigned)R->below(30000)); stat("late_readers"); }
		bool ok = pump({ d }, [&] { return d->eof; }, 15); if (!live()) return false; if (!ok) { viol((k + "-no-end").c_str(), "the other side of a closed tunnel is not closed (%s)", fromA ? "client left" : "target left"); return false; }
		if (big && late) sample((k + ": " + S_((int)want.size()) + " bytes " + (fromA ? "to the target" : "to the client") + ", reader late").c_str());
		if (!rst) { if (!same((k + "-tail").c_str(), d->in, want, k + (fromA ? " last bytes to the target" : " last bytes to the client"))) return false; stat("tails"); } else if (want.compare(0, d->in.size(), d->in) != 0) { viol((k + "-content").c_str(), "%s", diff(d->in, want).c_str()); return false; } else stat("resets");
		d->shut(); stat("tunnels");
	}
	return true;
}
static void mode_socks(long cases) {
	int port = free_port(); ProcP p(new Proc("socks5", { "-p", S_(port), "-t", S_(1 + (int)R->below(4)) })); { Peer w(tcp_connect(port)); if (w.fd < 0) { p->alive("at start"); viol("socks-no-server", "the proxy does not listen"); return; } } int base = quiet_fds(*p);
	for (long i = 0; i < cases; i++) {
		tick("socks"); setcase("mode=socks i=%ld", i); Listener l; int n = 1 + (int)R->below(4); vector<Tunnel> ts;
		for (int k = 0; k < n; k++) {
			int f = tcp_connect(port); if (f < 0) { p->alive("at connect"); viol("socks-no-accept", "connection refused"); return; } Tunnel t; t.a.reset(new Peer(f)); Peer* a = t.a.get(); a->slow = false; int what = (int)R->below(12);
			// 0: no acceptable method, 1: wrong version, 2: other command, 3: refused target, 4: unknown name, else: a good one
			int nm = what == 0 ? 1 + (int)R->below(5) : 1 + (int)R->below(what == 5 ? 255 : 4); string hs = string(1, what == 1 ? 4 : 5) + string(1, (char)nm); size_t at = what == 0 ? 999 : R->below((uint64_t)nm); for (int m = 0; m < nm; m++) hs += (char)((size_t)m == at ? 0 : 1 + R->below(255));
			int target = l.port; if (what == 3) { target = free_port(); } string rq = string(1, 5) + string(1, what == 2 ? 2 : 1) + string(1, 0); uint16_t np = htons((uint16_t)target); if (what == 4 || (what > 6 && R->chance(1, 2))) { string name = what == 4 ? "no-such-host.invalid" : "localhost"; rq += string(1, 3) + string(1, (char)name.size()) + name; } else { uint32_t ip = htonl(INADDR_LOOPBACK); rq += string(1, 1) + string((char*)&ip, 4); } rq += string((char*)&np, 2);
			string early; bool pipelined = what > 4 && R->chance(1, 4); if (what > 4 && R->chance(1, 3)) early = rnd(R->below(3000));
			a->send(hs); if (pipelined) a->send(rq + early);
			if (what < 2) { if (!pump({ a }, [&] { return a->eof; }, 12)) { p->alive("at handshake"); viol("socks-bad-handshake", "a handshake that cannot be accepted is not answered by closing"); return; } if (a->in == string("\5\0", 2)) { viol("socks-bad-accepted", "an unacceptable handshake is accepted"); return; } stat("socks_refused"); continue; }
			if (!pump({ a }, [&] { return a->in.size() >= 2 || a->eof; }, 12) || a->in.substr(0, 2) != string("\5\0", 2)) { p->alive("at handshake"); viol("socks-handshake", "the handshake (%d methods, cut into %zu) is answered by %s", nm, a->maxW, a->eof ? "closing" : a->in.empty() ? "nothing" : "another reply"); return; }
			if (!pipelined) a->send(rq + early);
			if (what == 2 || what == 4) { if (!pump({ a }, [&] { return a->eof; }, 20)) { p->alive("at request"); viol("socks-bad-request", "a request that cannot be served is not answered by closing"); return; } if (a->in.size() >= 4 && a->in[3] == 0) viol("socks-bad-success", "success for a request that cannot be served"); stat("socks_refused"); continue; }
			if (what == 3) { if (!pump({ a }, [&] { return a->eof; }, 12)) { p->alive("at request"); viol("socks-refused-open", "the connection stays open although the target refused"); return; } if (a->in.size() != 12 || a->in[2] != 5 || a->in[3] == 0) viol("socks-refused-reply", "a refused target is answered by %zu bytes, code %d", a->in.size(), a->in.size() > 3 ? a->in[3] : -1); stat("socks_refused"); continue; }
			double t0 = now(); int c = -1; if (!pump({ a }, [&] { if (c < 0) c = ::accept4(l.fd, 0, 0, SOCK_CLOEXEC); return a->eof || (c >= 0 && a->in.size() >= 12); }, 12) || a->in.size() < 12 || c < 0) { p->alive("at request"); viol("socks-request", "a request (cut into %zu, pipelined %d) is answered by %s after %.1f s", a->maxW, (int)pipelined, a->eof ? "closing" : "nothing", now() - t0); if (c >= 0) ::close(c); return; }
			uint32_t ip = htonl(INADDR_LOOPBACK); if (a->in.substr(2, 10) != string("\5\0\0\1", 4) + string((char*)&ip, 4) + string((char*)&np, 2)) { viol("socks-reply", "the reply to a good request is wrong"); return; }
			t.wantA = a->in.substr(0, 12); t.wantB = early; t.b.reset(new Peer(c)); if (R->chance(1, 8)) a->slow = true; ts.push_back(std::move(t));
		}
		if (!ts.empty() && !exchange(p.get(), nullptr, ts, "socks", 1000000, true)) return; stat("evaluations"); ts.clear();
		if (!p->alive("after the tunnels")) return; if (!settle_fds(*p, base, "socks-descriptors")) return;
	}
}
static void mode_relay(long cases, uint64_t seed) {
	bool enc = seed & 1, st = R->chance(1, 3); Listener target; int sp = free_port(), lp = free_port(); vector<string> sa = { "-p", S_(sp), "-uh", "127.0.0.1", "-up", S_(target.port), "-t", S_(1 + (int)R->below(3)) }, la = { "-p", S_(lp), "-uh", "127.0.0.1", "-up", S_(sp), "-t", S_(1 + (int)R->below(3)) };
	if (enc) { sa.push_back("-e"); la.push_back("-e"); stat("relay_encrypted"); } if (st) { sa.push_back("-s"); la.push_back("-s"); } setcase("mode=relay enc=%d stat=%d start", (int)enc, (int)st);
	ProcP ps(new Proc("relay_server", sa)); { Peer w(tcp_connect(sp)); } ProcP pl(new Proc("relay_local", la)); { Peer w(tcp_connect(lp)); }
	double t0 = now(); size_t want = (size_t)atoi(la[7].c_str()); for (;;) { string o = pl->shown(); size_t c = 0, q = 0; while ((q = o.find("Connect to up server", q)) != string::npos) { c++; q++; } if (c >= want) break; if (!pl->alive("at handshake") || !ps->alive("at handshake")) return; if (now() - t0 > 15) { viol("relay-handshake", "the two programs do not come together (%zu of %zu)", c, want); return; } usleep_(5000); tick(); }
	usleep_(100000); { int c; while ((c = ::accept(target.fd, 0, 0)) >= 0) ::close(c); } int bs = quiet_fds(*ps), bl = quiet_fds(*pl);
	for (long i = 0; i < cases; i++) {
		tick("relay"); setcase("mode=relay enc=%d i=%ld", (int)enc, i); int n = 1 + (int)R->below(5); vector<Tunnel> ts;
		for (int k = 0; k < n; k++) {
			int f = tcp_connect(lp); if (f < 0) { pl->alive("at connect"); viol("relay-no-accept", "connection refused"); return; } Tunnel t; t.a.reset(new Peer(f)); string early; if (R->chance(1, 2)) { early = rnd(R->below(3000)); t.a->send(early); t.wantB = early; }
			int c = -1; double s0 = now(); while (c < 0 && now() - s0 < 12) { t.a->step(); c = ::accept4(target.fd, 0, 0, SOCK_CLOEXEC); if (t.a->eof) break; usleep_(300); tick(); }
			if (c < 0) { pl->alive("at connect"); ps->alive("at connect"); viol("relay-no-session", "a client's connection does not reach the target%s", t.a->eof ? ", it is closed" : ""); return; } t.b.reset(new Peer(c)); ts.push_back(std::move(t));
		}
		if (!exchange(ps.get(), pl.get(), ts, "relay", 700000, true)) return; ts.clear(); stat("evaluations");
		if (!ps->alive("after the sessions") || !pl->alive("after the sessions")) return; if (!settle_fds(*ps, bs, "relay-server-descriptors") || !settle_fds(*pl, bl, "relay-local-descriptors")) return;
	}
	if ((seed >> 1) & 1) {
		// the target refuses: the client is told by closing
		::close(target.fd); target.fd = -1; int f = tcp_connect(lp); Peer a(f); a.send(rnd(100)); if (!pump({ &a }, [&] { return a.eof; }, 12)) { if (ps->alive("at refusal") && pl->alive("at refusal")) viol("relay-refused-open", "a client stays connected although the target refuses"); } a.shut(); usleep_(50000); ps->alive("after refusal"); pl->alive("after refusal"); stat("relay_refused");
	}
	else {
		// one program goes away while sessions run: the other must survive
		vector<Tunnel> ts; for (int k = 0; k < 3; k++) { Tunnel t; int f = tcp_connect(lp); t.a.reset(new Peer(f)); int c = target.take(10); if (c < 0) return; t.b.reset(new Peer(c)); ts.push_back(std::move(t)); }
		exchange(ps.get(), pl.get(), ts, "relay", 5000, false); bool local = R->chance(1, 2); Proc* victim = local ? pl.get() : ps.get(); Proc* rest = local ? ps.get() : pl.get(); kill(victim->pid, SIGKILL); victim->wait_end(5); stat("relay_partner_killed");
		vector<Peer*> open; for (auto& t : ts) open.push_back(local ? t.b.get() : t.a.get()); if (local) { bool ok = pump(open, [&] { for (auto q : open) if (!q->eof) return false; return true; }, 10); if (rest->alive("after its partner died") && !ok) viol("relay-orphans", "connections to the target stay open after relay_local died"); } else { for (auto q : open) q->send(rnd(100)); pump(open, [&] { for (auto q : open) if (!q->eof) return false; return true; }, 2); usleep_(100000); Peer late(tcp_connect(lp)); late.send(rnd(10)); pump({ &late }, [&] { return late.eof; }, 2); rest->alive("after its partner died"); }
	}
}
static void mode_pipe(long cases) {
	for (long i = 0; i < cases; i++) {
		tick("pipe"); int kind = (int)R->below(4); setcase("mode=pipe kind=%d i=%ld", kind, i); vector<Tunnel> ts(1); Tunnel& t = ts[0]; ProcP p;
		int p1 = free_port(), p2 = free_port(); std::unique_ptr<Listener> l1, l2; string e1 = rnd(R->below(2000)), e2 = rnd(R->below(2000));
		bool in1 = kind == 0 || kind == 1, in2 = kind == 0 || kind == 2; if (!in1) l1.reset(new Listener(p1)); if (!in2) l2.reset(new Listener(p2));
		p.reset(new Proc("relay_pipe", { "-p1", (in1 ? "" : "127.0.0.1:") + S_(p1), "-p2", (in2 ? "" : "127.0.0.1:") + S_(p2) }));
		auto get = [&](bool in, int port, Listener* l) { return in ? tcp_connect(port) : l->take(12); };
		bool firstA = R->chance(1, 2); int fa = -1, fb = -1; if (firstA) { fa = get(in1, p1, l1.get()); t.a.reset(new Peer(fa)); t.a->send(e1); pump({ t.a.get() }, [&] { return t.a->done(); }, 10); fb = get(in2, p2, l2.get()); t.b.reset(new Peer(fb)); t.b->send(e2); } else { fb = get(in2, p2, l2.get()); t.b.reset(new Peer(fb)); t.b->send(e2); pump({ t.b.get() }, [&] { return t.b->done(); }, 10); fa = get(in1, p1, l1.get()); t.a.reset(new Peer(fa)); t.a->send(e1); }
		if (fa < 0 || fb < 0) { p->alive("at start"); viol("pipe-no-connect", "the pipe does not come up (%d %d)", fa, fb); return; } t.wantA = e2; t.wantB = e1;
		if (kind != 3 && R->chance(1, 2)) {
			// somebody else knocks at a port that is in use: turned away, the pipe goes on
			if (!exchange(p.get(), nullptr, ts, "pipe", 30000, false)) return; Peer other(tcp_connect(in1 ? p1 : p2)); if (!pump({ &other, t.a.get(), t.b.get() }, [&] { return other.eof; }, 10)) { p->alive("at a second connection"); viol("pipe-second", "a second connection to a used port is kept"); return; } usleep_(20000); stat("pipe_intruders");
		}
		if (!exchange(p.get(), nullptr, ts, "pipe", 1000000, true, true)) return;
		if (kind == 0 || kind == 3) { if (!p->wait_end(12)) { viol("pipe-no-exit", "the program does not end after its pipe was closed (kind %d)", kind); return; } p->scan(); if (p->status != 0) { viol("pipe-status", "the program ends with status 0x%x", p->status); return; } } else { usleep_(50000); if (!p->poll_end() ) {} else if (p->status != 0) { p->alive("after the pipe"); return; } }
		stat("evaluations"); stat(kind == 0 ? "pipe_in_in" : kind == 3 ? "pipe_out_out" : "pipe_in_out");
	}
}

// ------------------------------------------------------------------ file transfer
static void mode_ft(long cases) {
	for (long i = 0; i < cases; i++) {
		tick("file transfer"); size_t size; switch (R->below(8)) { case 0: size = R->below(3); break; case 1: size = R->below(65536); break; case 2: size = 65536 - 2 + R->below(5); break; case 3: size = 131072 - 17 + R->below(40); break; case 4: size = R->below(3000000); break; case 5: size = 65536 * R->range(1, 30); break; case 6: size = R->below(20000000); break; default: size = 16 * R->below(60000) + R->below(16); break; }
		int th = 1 + (int)R->below(6); setcase("mode=ft size=%zu threads=%d i=%ld", size, th, i); static int seq = 0; string src = g_dir + "/src" + S_(seq), dst = g_dir + "/dst" + S_(seq++); mkdir(src.c_str(), 0700); mkdir(dst.c_str(), 0700); string name = "f" + text(R->below(3)); for (auto& c : name) if (c == ' ' || c == '/') c = '_'; string data = rnd(size); writef(src + "/" + name, data);
		int port = free_port(); { ProcP s(new Proc("ft-server", { "-p", S_(port), "-f", src + "/" + name, "-t", S_(th) })); { Peer w(tcp_connect(port)); if (w.fd < 0) { s->alive("at start"); viol("ft-no-server", "the file server does not listen"); return; } } int base = quiet_fds(*s);
			// several clients at once, some of them killed in the middle
			int nc = R->chance(1, 2) ? 1 : 2 + (int)R->below(3); vector<ProcP> cs; vector<string> dirs; vector<int> doomed; double t0 = now();
			for (int k = 0; k < nc; k++) { string d = dst + "/" + S_(k); mkdir(d.c_str(), 0700); dirs.push_back(d); cs.emplace_back(new Proc("ft-client", { "-h", "127.0.0.1", "-p", S_(port) }, d)); doomed.push_back(k && R->chance(1, 3) ? (int)R->below(1200) : -1); if (R->chance(1, 2)) usleep_((unsigned)R->below(40000)); }
			for (;;) { bool all = true; for (int k = 0; k < nc; k++) { Proc* c = cs[(size_t)k].get(); if (doomed[(size_t)k] >= 0) { if (!c->ended && now() - t0 > doomed[(size_t)k] * 1e-3 && !c->poll_end()) { kill(c->pid, SIGKILL); c->wait_end(5); stat("downloaders_killed"); } } if (!c->poll_end()) all = false; } if (!s->alive("while sending")) return; if (all) break; if (now() - t0 > 60) { viol("ft-stuck", "a download of %zu bytes does not end (%d clients)", size, nc); return; } usleep_(3000); tick(); }
			for (int k = 0; k < nc; k++) { Proc* c = cs[(size_t)k].get(); c->scan(); if (doomed[(size_t)k] >= 0) continue;
				if (c->status != 0) { viol("ft-failed", "the download of %zu bytes with %d threads, %d clients fails (0x%x): %s", size, th, nc, c->status, [&] { string o = c->shown(); return o.size() > 300 ? o.substr(o.size() - 300) : o; }().c_str()); return; }
				string got = readf(dirs[(size_t)k] + "/" + name); if (!same("ft-content", got, data, "downloaded file")) return; stat("downloads");
				int left = 0; DIR* d = opendir(dirs[(size_t)k].c_str()); while (struct dirent* e = readdir(d)) if (strstr(e->d_name, ".part")) left++; closedir(d); VH_CHECK(left == 0, "ft-parts-left", "%d part files are left", left); }
			if (!s->alive("after sending")) return; if (!settle_fds(*s, base, "ft-descriptors")) return;
			for (auto& d : dirs) { unlink((d + "/" + name).c_str()); }
			}
		stat("evaluations");
	}
}

int main(int argc, char** argv) {
	Args a = init(argc, argv); Rng r(a.seed * 77 + hash64(a.mode.data(), a.mode.size())); R = &r; signal(SIGPIPE, SIG_IGN); g_bin = a.kv["bin"]; g_portBase = 11000 + (int)(a.geti("slot", 0) % 90) * 200; g_portNext = (int)(getpid() % 150);
	char t[] = "/tmp/vh_samples.XXXXXX"; if (!mkdtemp(t)) abort(); g_dir = t; S().caseLimit = 150; watchdog(80);
	string tree = a.kv["bin"]; g_bin = g_dir + "/bin"; mkdir(g_bin.c_str(), 0700); { FILE* f = popen(("find '" + tree + "/samples' -type f -perm -u+x 2>/dev/null").c_str(), "r"); char b[1000]; while (f && fgets(b, sizeof b, f)) { string q = b; while (!q.empty() && q.back() == '\n') q.pop_back(); if (symlink(q.c_str(), (g_bin + q.substr(q.rfind('/'))).c_str())) {} } pclose(f); }
	if (a.mode == "echo") mode_echo(a.cases); else if (a.mode == "echoc") mode_echoc(a.cases); else if (a.mode == "chat") mode_chat(a.cases); else if (a.mode == "chatc") mode_chatc(a.cases); else if (a.mode == "socks") mode_socks(a.cases); else if (a.mode == "relay") mode_relay(a.cases, a.seed); else if (a.mode == "pipe") mode_pipe(a.cases); else if (a.mode == "ft") mode_ft(a.cases); else return 2;
	if (g_dir.compare(0, 16, "/tmp/vh_samples.") == 0 && system(("rm -rf '" + g_dir + "'").c_str())) {}
	return finish();
}
