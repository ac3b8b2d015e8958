// C26: commands to the threads of a server, start callbacks, listening ports.
#include "net.h"

struct Head { uint32_t sender, seq; int32_t target; uint32_t size; };      // size includes the head
static uint8_t patt(const Head& h, size_t i) { return (uint8_t)(h.sender * 131 + h.seq * 17 + h.size + (uint32_t)h.target * 29 + i * 7 + (i >> 8)); }
static uint16_t idOf(const Head& h) { if ((h.seq + h.sender) % 13 == 3) return 10; if ((h.seq + h.sender) % 13 == 7) return 65535; return (uint16_t)(10 + (h.sender * 7919u + h.seq * 31u + h.size) % 65526u); }
static std::string content(const Head& h) { std::string s((size_t)h.size, 0); for (size_t i = sizeof h; i < s.size(); i++) s[i] = (char)patt(h, i); memcpy(&s[0], &h, sizeof h); return s; }
static const int NT = 34, NS = 64;      // targets: 0 = master, 1.. = workers; senders: 0..NT-1 the threads of the server, then the others
struct Thr { std::atomic<int> starts{ 0 }, others{ 0 }; std::thread::id tid; Looper* looper = nullptr; std::atomic<long> sent{ 0 }, handled{ 0 }; uint32_t next[NS]; uint32_t seq[NT]; long budget = 0; int sendInStart = 0; Rng own{ 1 }; uint64_t sig = 0; Thr() { memset(next, 0, sizeof next); memset(seq, 0, sizeof seq); } };
struct Port { uint16_t port = 0; std::atomic<int> stopped{ 0 }; };      // 1: asked for, 2: done
struct UTimer { int target = 0; Looper::event_id_t id = 0; std::atomic<long> n{ 0 }; std::atomic<int> dead{ 0 }; };      // a timer the user put on a looper of the server
struct Run { std::mutex tmu; std::vector<std::unique_ptr<UTimer>> timers; std::unique_ptr<TcpServer> s; int nw = 0; Thr t[NT]; std::vector<std::unique_ptr<Port>> ports; std::atomic<int> stopping{ 0 }, masterUp{ 0 }, connected{ 0 }, closed{ 0 }; bool abrupt = false; int stopIn = 0, stopIdx = -1; };

static uint32_t pickSize(Rng& q) { size_t n = q.chance(1, 2) ? q.range(16, 60) : q.chance(1, 3) ? q.range(990, 1040) : q.chance(1, 10) ? q.range(2000, 65535) : q.range(16, 2000); return (uint32_t)(q.chance(1, 60) ? 65535 : n); }
static void sendOne(Run& g, uint32_t sender, uint32_t* seq, int target, Rng& q) {
	Thr& t = g.t[target]; int form = target ? (int)q.range(1, 2) : (int)q.below(2); int n = form == 2 ? (int)q.range(1, 6) : 1; std::vector<Head> hs; std::vector<Packet*> ps; for (int i = 0; i < n; i++) hs.push_back({ sender, seq[target]++, target, pickSize(q) }); t.sent += n;
	if (form == 0) { std::string s = content(hs[0]); char* p = (char*)malloc(s.size()); memcpy(p, s.data(), s.size()); g.s->send_master_message(idOf(hs[0]), (uint16_t)s.size(), p); memset(p, 0xEE, s.size()); free(p); vh::stat("form_plain"); return; }
	for (auto& h : hs) { std::string s = content(h); Packet* p = Packet::alloc_packet(); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE, idOf(h), (uint16_t)s.size(), s.data()); ps.push_back(p); }
	if (form == 1) { if (target) g.s->send_work_message(target - 1, ps[0]); else g.s->send_master_message(ps[0]); vh::stat("form_packet"); } else { g.s->send_work_message(target - 1, (const Packet**)ps.data(), n); vh::stat("form_batch", n); }
	for (auto p : ps) { if (p->get_packet_size()) memset(p->get_packet_content(), 0xEE, p->get_packet_size()); Packet::free_packet(p); }
}
static void stop_listen(Run& g, int i) { g.ports[(size_t)i]->stopped = 1; g.s->stop_listen((size_t)i); vh::stat("stop_listen"); }
static void any_callback(Run& g, int target, const char* what) {
	Thr& t = g.t[target]; vh::tick(what); VH_CHECK(t.starts == 1, "before-start", "%s callback on thread %d, whose start callback ran %d times", what, target, (int)t.starts); VH_CHECK(t.tid == std::this_thread::get_id(), "wrong-thread", "%s callback of thread %d on another thread", what, target); t.others++;
}
static void add_timer(Run& g, int target) {      // on the thread of the looper
	Thr& t = g.t[target]; UTimer* u = new UTimer; u->target = target; { std::lock_guard<std::mutex> l(g.tmu); g.timers.emplace_back(u); }
	u->id = t.looper->register_timer_event((uint32_t)t.own.range(1, 15), u, [&g, u](Looper::event_id_t id, void* p) { VH_CHECK(g.t[u->target].tid == std::this_thread::get_id(), "wrong-thread", "a timer of thread %d on another thread", u->target); VH_CHECK(p == u && id == u->id, "user-timer", "the timer of thread %d is called as timer %u, registered as %u", u->target, (unsigned)id, (unsigned)u->id); VH_CHECK(!u->dead, "user-timer", "a deleted timer of thread %d is called", u->target); u->n++; vh::stat("user_timer_calls"); });
	VH_CHECK(u->id != Looper::INVALID_EVENT_ID, "user-timer", "a timer cannot be registered on thread %d", target); vh::stat("user_timers");
}
static void drop_timer(Run& g, int target) { UTimer* u = nullptr; { std::lock_guard<std::mutex> l(g.tmu); for (auto& x : g.timers) if (x->target == target && !x->dead) u = x.get(); } if (u) { g.t[target].looper->delete_event(u->id); u->dead = 1; vh::stat("user_timers_deleted"); } }
static void timers_alive(Run& g) {      // nothing the server did took the events of others away
	std::vector<std::pair<UTimer*, long>> v; { std::lock_guard<std::mutex> l(g.tmu); for (auto& x : g.timers) if (!x->dead) v.push_back({ x.get(), (long)x->n }); }
	for (auto& e : v) { for (int i = 0; e.first->n < e.second + 2 && !e.first->dead; i++) { if (i > 400000) { vh::viol("user-timer", "a timer the user registered on thread %d (id %u) is not called any more, %ld calls so far", e.first->target, (unsigned)e.first->id, (long)e.first->n); vh::die(1); } vh::usleep_(50); } vh::tick("timers"); vh::stat("user_timers_alive"); }
}
static void on_start(Run& g, int target, TcpServer* s, Looper* l) {
	t_lib = 1; Thr& t = g.t[target]; t.tid = std::this_thread::get_id(); VH_CHECK(s == g.s.get(), "server", "another server in the start callback"); VH_CHECK(t.others == 0, "before-start", "%d callbacks before the start callback of thread %d", (int)t.others, target); VH_CHECK(l && l->get_thread_id() == sys_api::thread_get_current_id(), "looper", "the looper given to the start callback of thread %d is not its own", target); t.looper = l;
	VH_CHECK(++t.starts == 1, "starts", "start callback of thread %d ran %d times", target, (int)t.starts); VH_CHECK(s->get_work_thread_counts() == g.nw, "worker-count", "%d workers, started with %d", s->get_work_thread_counts(), g.nw);
	for (int i = 0; i < t.sendInStart; i++) { int to = target == 0 ? (int)t.own.below((uint64_t)g.nw + 1) : (int)t.own.range(1, (uint64_t)g.nw); if (t.own.chance(1, 3)) to = target; sendOne(g, (uint32_t)target, t.seq, to, t.own); vh::stat("sent_in_start"); }
	for (int i = (int)t.own.below(4); i > 1; i--) add_timer(g, target);
	if (target == 0) { if (g.stopIn == 1 && g.stopIdx >= 0) { stop_listen(g, g.stopIdx); vh::stat("stop_listen_in_start"); } g.masterUp = 1; }
}
static void on_command(Run& g, int target, TcpServer* s, Packet* p) {
	any_callback(g, target, "command"); VH_CHECK(s == g.s.get(), "server", "another server in the command callback"); Thr& t = g.t[target]; size_t n = p->get_packet_size(); Head h; if (n < sizeof h) { vh::viol("content", "a command of %zu bytes, the smallest sent has %zu", n, sizeof h); return; }
	memcpy(&h, p->get_packet_content(), sizeof h); if (h.size != n || h.sender >= NS) { vh::viol("content", "a command of %zu bytes says size %u sender %u", n, h.size, h.sender); return; } VH_CHECK(h.target == target, "other-thread", "command for thread %d handled by %d", h.target, target); VH_CHECK(p->get_packet_id() == idOf(h), "id", "command id %u, sent %u", p->get_packet_id(), idOf(h));
	for (size_t i = sizeof h; i < n; i++) if ((uint8_t)p->get_packet_content()[i] != patt(h, i)) { vh::viol("content", "byte %zu of a %zu byte command changed", i, n); break; }
	uint32_t& nx = t.next[h.sender]; VH_CHECK(h.seq == nx, h.seq < nx ? "duplicate-or-order" : "order-or-lost", "command %u of sender %u handled by thread %d, expected %u", h.seq, h.sender, target, nx); nx = h.seq + 1; t.sig = vh::mix(t.sig, h.sender); vh::stat(target ? "worker_commands" : "master_commands");
	if (t.budget > 0 && t.own.chance(1, 3)) { t.budget--; sendOne(g, (uint32_t)target, t.seq, g.masterUp ? (int)t.own.below((uint64_t)g.nw + 1) : (int)t.own.range(1, (uint64_t)g.nw), t.own); vh::stat("sent_from_handler"); }
	if (g.masterUp && g.stopIn == 2 + (target != 0) && g.stopIdx >= 0 && !g.ports[(size_t)g.stopIdx]->stopped && t.own.chance(1, 8)) { stop_listen(g, g.stopIdx); vh::stat(target ? "stop_listen_in_worker" : "stop_listen_in_master"); }
	if (t.own.chance(1, 40)) add_timer(g, target); else if (t.own.chance(1, 80)) drop_timer(g, target);
	t.handled++;
}
// ---- peers -------------------------------------------------------------------------------------------
struct Peer { int fd = -1; uint16_t port = 0; int at = 0; size_t done = 0; };
static bool echo(Peer& p, Rng& q, bool must, Run& g) {
	std::vector<char> b(q.range(1, 3000)), c(b.size()); for (size_t i = 0; i < b.size(); i++) b[i] = (char)upatt(p.port, p.done + i); size_t w = 0, r = 0;
	while (r < b.size()) {
		if (w < b.size()) { ssize_t k = __real_send(p.fd, b.data() + w, b.size() - w, MSG_NOSIGNAL); if (k > 0) w += (size_t)k; else if (errno != EAGAIN) { if (must && !g.stopping) vh::viol("connection-disturbed", "a connection of port %d broke while writing (error %d)", p.at, errno); return false; } }
		ssize_t k = __real_read(p.fd, c.data() + r, c.size() - r); if (k > 0) { r += (size_t)k; vh::tick("echo"); } else if (k == 0 || (errno != EAGAIN && errno != EINTR)) { if (must && !g.stopping) vh::viol("connection-disturbed", "a connection of port %d broke (%s)", p.at, k ? strerror(errno) : "end of stream"); return false; } else wait_fd(p.fd, POLLIN, 20); }
	VH_CHECK(!memcmp(b.data(), c.data(), b.size()), "echo", "a connection got other bytes than it sent"); p.done += b.size(); return true;
}
static void racer(Run& g, int idx, Rng q, std::atomic<int>& end, std::vector<Peer>& keep) {      // connects again and again; before the port is stopped it must work
	while (!end) { Peer p; p.at = idx; p.fd = peer_socket(p.port); if (p.fd < 0) break; bool before = !g.ports[(size_t)idx]->stopped; sockaddr_in a = loop_addr(g.ports[(size_t)idx]->port); bool ok = ::connect(p.fd, (sockaddr*)&a, sizeof a) == 0; bool stillOpen = !g.ports[(size_t)idx]->stopped; (void)before;
		if (!ok) { VH_CHECK(!stillOpen || g.stopping || errno == EINTR || errno == EAGAIN, "refused", "port %d is not stopped, but a connection fails (error %d)", idx, errno); __real_close(p.fd); if (!stillOpen) { vh::stat("racer_refused"); break; } continue; }
		nonblock(p.fd); vh::stat("racer_connected"); bool e = true; if (stillOpen) { g.ports[(size_t)idx]->stopped.load(); pollfd z = { p.fd, 0, 0 }; (void)z; e = false; std::vector<char> b(100, 'x'); for (size_t i = 0; i < b.size(); i++) b[i] = (char)upatt(p.port, i);
			// the connection may sit in the queue of a listener that is being closed: only what is answered before counts
			if (__real_send(p.fd, b.data(), b.size(), MSG_NOSIGNAL) == (ssize_t)b.size()) { size_t r = 0; char c[200]; for (int k = 0; r < b.size(); k++) { ssize_t m = __real_read(p.fd, c + r, b.size() - r); if (m > 0) r += (size_t)m; else if (m == 0 || (errno != EAGAIN && errno != EINTR)) { VH_CHECK(g.ports[(size_t)idx]->stopped || g.stopping, "connection-disturbed", "a new connection of port %d broke", idx); break; } else if ((g.ports[(size_t)idx]->stopped == 2 || g.stopping) && k > 50) break; else wait_fd(p.fd, POLLIN, 20); } if (r == b.size()) { VH_CHECK(!memcmp(b.data(), c, r), "echo", "wrong echo"); p.done = r; e = true; vh::stat("racer_served"); } } }
		else e = false;
		if (e && keep.size() < 6 && q.chance(1, 3)) keep.push_back(p); else __real_close(p.fd); if (q.chance(1, 2)) vh::usleep_((unsigned)q.below(600)); }
}
static void must_refuse(Run& g, int i) { uint16_t pp; int f = peer_socket(pp); if (f < 0) return; sockaddr_in a = loop_addr(g.ports[(size_t)i]->port); int r; do r = ::connect(f, (sockaddr*)&a, sizeof a); while (r != 0 && (errno == EINTR || errno == EAGAIN)); VH_CHECK(r != 0 && errno == ECONNREFUSED, "still-listening", "port %d still accepts connections after listening was stopped (%s)", i, r ? strerror(errno) : "connected"); __real_close(f); vh::stat("refused_after_stop"); }
static void must_serve(Run& g, int i, Rng& q, std::vector<Peer>* keep) { Peer p; p.at = i; p.fd = peer_socket(p.port); if (p.fd < 0) return; if (!peer_connect(p.fd, g.ports[(size_t)i]->port)) { vh::viol("not-listening", "port %d does not accept connections (error %d)", i, errno); __real_close(p.fd); return; } if (echo(p, q, true, g)) vh::stat("served"); if (keep) keep->push_back(p); else __real_close(p.fd); }

static void bad_bind(TcpServer& s, Rng& r, bool reuse) {      // addresses that cannot be bound
	int fds = vh::count_fds(); int hold = -1; Address a; const char* what; switch (r.below(4)) {
	case 3: a = Address(g_ipStr, 0); t_lib = 1; t_nextErr = 1; what = "no socket to be had"; break;
	case 0: { hold = __real_socket(AF_INET, SOCK_STREAM, 0); sockaddr_in ad = loop_addr(0); if (::bind(hold, (sockaddr*)&ad, sizeof ad) || ::listen(hold, 1)) { __real_close(hold); return; } a = Address(g_ipStr, port_of(hold)); what = "in use"; break; }
	case 1: a = Address("203.0.113.7", (uint16_t)r.range(1024, 60000)); what = "not local"; break;
	default: { static const char* ips[] = { "8.8.8.8", "198.51.100.3", "192.0.2.1" }; a = Address(ips[r.below(3)], 0); what = "not local"; } }
	VH_CHECK(!s.bind(a, reuse), "bind-true", "binding %s:%u (%s) returned true", a.get_ip(), a.get_port(), what); t_nextErr = 0; t_lib = 0; if (hold >= 0) __real_close(hold); VH_CHECK(vh::count_fds() == fds, "fd-leak", "%d descriptors after a failed bind, %d before", vh::count_fds(), fds); vh::stat("bad_binds");
}
static void run_case(Rng& r, long cno) {
	Run g; int ports = (int)r.range(0, r.chance(1, 4) ? 6 : 3); g.nw = (int)(r.chance(1, 30) ? 32 : r.range(1, 6)); int ns = (int)r.range(1, 5), per = (int)r.range(1, 80); g.abrupt = r.chance(1, 5); int fds0 = vh::count_fds(), thr0 = vh::count_threads(); bool bare = r.chance(1, 15);
	vh::setcase("case=%ld workers=%d ports=%d senders=%d per=%d abrupt=%d bare=%d", cno, g.nw, ports, ns, per, g.abrupt, bare); vh::tick("setup");
	g.s.reset(new TcpServer); TcpServer& s = *g.s; g.stopIdx = ports ? (int)r.below((uint64_t)ports) : -1; g.stopIn = (int)r.below(6); for (int i = 0; i <= g.nw; i++) { g.t[i].own = Rng(r.next()); g.t[i].sendInStart = r.chance(1, 3) ? (int)r.range(1, 4) : 0; g.t[i].budget = r.chance(1, 2) ? (long)r.below(40) : 0; }
	if (!bare) {
		s.m_listener.on_master_thread_start = [&](TcpServer* sv, Looper* l) { on_start(g, 0, sv, l); }; s.m_listener.on_work_thread_start = [&](TcpServer* sv, int32_t w, Looper* l) { if (w < 0 || w >= g.nw) { vh::viol("worker-index", "start callback of worker %d of %d", w, g.nw); return; } on_start(g, w + 1, sv, l); };
		s.m_listener.on_master_thread_command = [&](TcpServer* sv, Packet* p) { on_command(g, 0, sv, p); }; s.m_listener.on_work_thread_command = [&](TcpServer* sv, int32_t w, Packet* p) { if (w < 0 || w >= g.nw) { vh::viol("worker-index", "command callback of worker %d of %d", w, g.nw); return; } on_command(g, w + 1, sv, p); };
		s.m_listener.on_connected = [&](TcpServer*, int32_t w, TcpConnectionPtr) { any_callback(g, w + 1, "connected"); g.connected++; }; s.m_listener.on_close = [&](TcpServer*, int32_t w, TcpConnectionPtr) { any_callback(g, w + 1, "close"); g.closed++; };
		s.m_listener.on_message = [&](TcpServer*, int32_t w, TcpConnectionPtr c) { any_callback(g, w + 1, "message"); RingBuf& b = c->get_input_buf(); std::vector<char> t(b.size()); b.memcpy_out(t.data(), t.size()); c->send(t.data(), t.size()); };
	}
	// ports, with failures in between
	VH_CHECK(!s.start(0) && !s.start(-1) && !s.start(33) && !s.start(-2147483647), "start-count", "start accepted an invalid count");
	for (int i = 0; i < ports; i++) {
		if (r.chance(1, 3)) bad_bind(s, r, r.chance(1, 2)); bool reuse = r.chance(1, 2); Port* p = new Port; g.ports.emplace_back(p); uint16_t want = 0; if (r.chance(1, 3)) { int f = __real_socket(AF_INET, SOCK_STREAM, 0); sockaddr_in ad = loop_addr(0); ::bind(f, (sockaddr*)&ad, sizeof ad); want = port_of(f); __real_close(f); }
		VH_CHECK(s.bind(Address(g_ipStr, want), reuse), "bind", "bind failed (error %d)", errno); Address a = s.get_bind_address((size_t)i); p->port = a.get_port(); VH_CHECK(!strcmp(a.get_ip(), g_ipStr) && p->port && (!want || want == p->port), "bind-address", "port %d bound as %s:%u is reported as %s:%u", i, g_ipStr, want, a.get_ip(), a.get_port()); vh::stat(want ? "bound_fixed" : "bound_any");
		if (!reuse && r.chance(1, 3)) { VH_CHECK(!s.bind(Address(g_ipStr, p->port), false), "bind-true", "a port was bound twice"); vh::stat("bad_binds"); } }
	if (r.chance(1, 3)) bad_bind(s, r, r.chance(1, 2));
	VH_CHECK(s.get_bind_address((size_t)ports).get_port() == 0 && s.get_bind_address(1000).get_port() == 0, "bind-address", "an address for an invalid index");
	random_faults(r, true); f_short = 0; bool ok = s.start(g.nw); VH_CHECK(ok, "start", "start failed"); if (!ok) return; VH_CHECK(!s.start(g.nw) && !s.start(1), "start-twice", "a running server started again"); VH_CHECK(s.get_work_thread_counts() == g.nw, "worker-count", "%d workers, started with %d", s.get_work_thread_counts(), g.nw);
	VH_CHECK(!s.bind(Address(g_ipStr, 0)), "bind-running", "bind accepted while running"); vh::stat("refused_running");
	if (bare) {      // nobody listens to anything: commands, connections and stopping do no harm
		for (int i = 0; i < 10; i++) { uint32_t seq[NT] = {}; sendOne(g, 40, seq, (int)r.below((uint64_t)g.nw + 1), r); } if (ports && r.chance(1, 2)) s.stop_listen(0);
		for (int i = 0; i < ports * 2; i++) { uint16_t pp; int f = peer_socket(pp); sockaddr_in a = loop_addr(g.ports[(size_t)(i / 2)]->port); if (::connect(f, (sockaddr*)&a, sizeof a) == 0) (void)!__real_send(f, "abc", 3, MSG_NOSIGNAL); __real_close(f); }
		s.stop(); s.join(); g.s.reset(); faults_off(); for (int i = 0; vh::count_threads() > thr0 && i < 100000; i++) vh::usleep_(100); VH_CHECK(vh::count_fds() == fds0, "fd-leak", "%d descriptors before, %d after", fds0, vh::count_fds()); vh::stat("evaluations"); vh::stat("bare"); return; }
	std::vector<std::thread> ts, rs; uint64_t sd = r.next(); std::atomic<int> endRacers{ 0 };
	for (int i = 0; i < ns; i++) ts.emplace_back([&, i] { Rng q(sd + (uint64_t)i); uint32_t seq[NT] = {}; bool stops = g.stopIn == 4 && i == 0 && g.stopIdx >= 0; int at = stops ? (int)q.below((uint64_t)per) : -1; int style = (int)q.below(3);
		for (int k = 0; k < per; k++) { int to = (int)q.below((uint64_t)g.nw + 1); if (q.chance(1, 3)) to = 0; while (g.t[to].sent - g.t[to].handled > 700 && !g.stopping) vh::usleep_(100); sendOne(g, (uint32_t)(NT + i), seq, to, q); vh::tick("send"); if (k == at) { while (!g.masterUp) vh::usleep_(50); stop_listen(g, g.stopIdx); if (q.chance(1, 3)) { stop_listen(g, g.stopIdx); vh::stat("stop_listen_twice"); } } if (style == 0 ? q.chance(1, 2) : style == 1 && q.chance(1, 10)) vh::usleep_((unsigned)q.below(300)); } });
	while (!g.masterUp) vh::usleep_(50);
	// connections of every port that is open
	Rng q(sd + 50); std::vector<Peer> keep; std::vector<std::vector<Peer>> rk((size_t)ports); std::vector<int> openAt; bool early = g.stopIn >= 1 && g.stopIn <= 4;
	for (int i = 0; i < ports; i++) if (!(early && i == g.stopIdx)) for (int k = (int)q.range(1, 3); k > 0; k--) must_serve(g, i, q, &keep);
	if (q.chance(1, 2)) for (int i = 0; i < ports; i++) { uint64_t z = q.next(); rs.emplace_back([&, i, z] { racer(g, i, Rng(z), endRacers, rk[(size_t)i]); }); }
	timers_alive(g); if (g.stopIn == 5 && ports) { int n = (int)q.range(1, (uint64_t)ports * 2); for (int k = 0; k < n; k++) { int i = (int)q.below((uint64_t)ports); if (g.ports[(size_t)i]->stopped) vh::stat("stop_listen_twice"); stop_listen(g, i); if (q.chance(1, 2)) vh::usleep_((unsigned)q.below(1500)); if (!keep.empty() && q.chance(1, 2)) echo(keep[q.below(keep.size())], q, true, g); } }
	auto quiesce = [&] { long lastH = -1, lastN = -1, stuck = 0; for (;;) { long h = 0, n = 0; for (int i = 0; i <= g.nw; i++) h += g.t[i].handled; for (int i = 0; i <= g.nw; i++) n += g.t[i].sent; if (h == n) break; if (h != lastH || n != lastN) { lastH = h; lastN = n; stuck = 0; } else if (++stuck > 300000) { vh::viol("hang:commands", "%ld of %ld commands handled, nothing more happens", h, n); vh::die(1); } vh::usleep_(100); } };      // all handled at the moment between the two sums
	if (!g.abrupt) {
		for (auto& t : ts) t.join(); ts.clear(); vh::tick("all-sent"); quiesce(); vh::stat("quiesced"); for (int i = 0; i <= g.nw; i++) VH_CHECK(g.t[i].handled == g.t[i].sent, "count", "thread %d handled %ld of %ld", i, (long)g.t[i].handled, (long)g.t[i].sent);
		// a command of this thread to the master after every earlier request to stop listening was handed over
		uint32_t seq[NT] = {}; sendOne(g, NS - 1, seq, 0, q); quiesce(); for (auto& p : g.ports) if (p->stopped == 1) p->stopped = 2;
		for (int round = 0; round < 2; round++) {
			for (int i = 0; i < ports; i++) { if (g.ports[(size_t)i]->stopped == 2) must_refuse(g, i); else if (!g.ports[(size_t)i]->stopped) { must_serve(g, i, q, q.chance(1, 2) ? &keep : nullptr); Address a = s.get_bind_address((size_t)i); VH_CHECK(a.get_port() == g.ports[(size_t)i]->port, "bind-address", "port %d is now reported as %u, was %u", i, a.get_port(), g.ports[(size_t)i]->port); } }
			for (auto& p : keep) if (echo(p, q, true, g)) vh::stat("kept_echo");
			timers_alive(g);
			if (round == 0) { if (!ports || q.chance(1, 3)) break; int i = (int)q.below((uint64_t)ports); if (g.ports[(size_t)i]->stopped) vh::stat("stop_listen_twice"); stop_listen(g, i); if (q.chance(1, 2)) { int n = (int)q.range(1, 60); for (int z = 0; z < n; z++) sendOne(g, NS - 1, seq, 0, q); quiesce(); stop_listen(g, i); vh::stat("stop_listen_twice"); }      // new timers may sit where the port's event was
				sendOne(g, NS - 1, seq, 0, q); quiesce(); g.ports[(size_t)i]->stopped = 2; } }
		endRacers = 1; for (auto& t : rs) t.join(); rs.clear(); for (auto& v : rk) for (auto& p : v) { if (echo(p, q, true, g)) vh::stat("kept_echo"); }
		if (q.chance(1, 2)) { for (auto& p : keep) __real_close(p.fd); keep.clear(); }
	} else vh::stat("abrupt");
	g.stopping = 1; for (auto& p : g.ports) if (!p->stopped) p->stopped = 1; s.stop(); vh::stat("stops"); if (ports && q.chance(1, 2)) { stop_listen(g, (int)q.below((uint64_t)ports)); vh::stat("stop_listen_after_stop"); }
	for (auto& t : ts) t.join(); endRacers = 1; for (auto& t : rs) t.join(); for (auto& p : keep) __real_close(p.fd); for (auto& v : rk) for (auto& p : v) __real_close(p.fd);
	vh::tick("join"); { std::vector<std::thread> js; if (r.chance(1, 3)) for (int i = (int)r.range(1, 3); i > 0; i--) { js.emplace_back([&] { s.join(); }); vh::stat("concurrent_joins"); } s.join(); for (auto& t : js) t.join(); if (r.chance(1, 3)) s.join(); } faults_off(); VH_CHECK(g.connected == g.closed, "close-count", "%d connected, %d close callbacks", (int)g.connected, (int)g.closed); uint64_t sig = sd; for (int i = 0; i <= g.nw; i++) { VH_CHECK(g.t[i].starts == 1, "starts", "start callback of thread %d ran %d times", i, (int)g.t[i].starts); sig = vh::mix(sig, g.t[i].sig); VH_CHECK(g.t[i].handled <= g.t[i].sent, "count", "thread %d handled %ld of %ld", i, (long)g.t[i].handled, (long)g.t[i].sent); }
	for (int i = 0; i < ports; i++) must_refuse(g, i);
	g.s.reset(); for (int i = 0; vh::count_threads() > thr0 && i < 100000; i++) vh::usleep_(100); VH_CHECK(vh::count_threads() <= thr0, "thread-leak", "%d threads before, %d after", thr0, vh::count_threads()); VH_CHECK(vh::count_fds() == fds0, "fd-leak", "%d descriptors before, %d after", fds0, vh::count_fds());
	vh::stat("evaluations"); vh::statmax("max_workers", g.nw); vh::distinct(sig); if (vh::S().samples < 3) vh::sample("%s", vh::S().cur);
}
int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); vh::watchdog(); set_log_threshold(L_MAXIMUM_LEVEL);
	for (long c = 0; c < a.cases; c++) { if (a.only >= 0 && c != a.only) continue; Rng r(a.seed * 1000003 + (uint64_t)c); vh::tick("case"); pick_ip(); run_case(r, c); }
	fault_stats();
#if defined(__SANITIZE_ADDRESS__)
	if (a.geti("leaks", 0)) vh::leak_check();
#endif
	return vh::finish();
}
