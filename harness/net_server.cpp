// C10 (connection lifecycle), C11 (stop), C13 (misbehaving peers and system calls).   modes: lifecycle stop fault
#include "net.h"

struct Cmd { uint8_t op; uint8_t pad; uint16_t tag; uint32_t len, pos; };      // E echo payload, R reply pattern, C close here, S close through the server, X stop from a worker
struct Plan { int closeInConnected = 0, greet = 0; bool killable = false; bool extraShutdownInClose = false; };
struct Rec {      // one connection as the callbacks show it
	int id = 0, worker = 0; std::thread::id tid; TcpConnection* raw = nullptr; std::weak_ptr<TcpConnection> w; std::atomic<int> connected{ 0 }, closed{ 0 }, msgs{ 0 }; uint16_t port = 0; std::string name; Plan plan; bool known = false; size_t out = 0; bool shut = false; Cmd cur; size_t left = 0; bool inCmd = false;
};
struct Run {
	std::string mode; std::unique_ptr<TcpServer> s; std::atomic<int> masterUp{ 0 }, stopping{ 0 }, workersUp{ 0 }, cmdRuns{ 0 }, barrier{ 0 }, joined{ 0 }, connectedN{ 0 }, closedN{ 0 }, expectUnknown{ 0 }; int nw = 1;
	std::mutex mu; std::vector<std::unique_ptr<Rec>> recs; std::set<int> ids; std::map<uint16_t, Plan> plans; std::vector<std::thread::id> wtid; std::vector<int> perWorker, wstarts; std::thread::id mtid; std::vector<std::weak_ptr<TcpConnection>> killList; std::atomic<int> killStop{ 0 }; bool stopInStart = false; uint64_t sig = 1;
};
static Run* G = nullptr;

static void check_rec(Run& g, int w, const TcpConnectionPtr& c, Rec* x, const char* where) {
	if (!x) { vh::viol("no-connected", "%s callback for connection %d that had no connected callback", where, c->get_id()); vh::die(1); }
	VH_CHECK(x->raw == c.get(), "other-object", "%s callback of connection %d with another object", where, x->id);
	VH_CHECK(x->name == c->get_name(), "name-changed", "%s: the name of connection %d is another one", where, x->id);
	VH_CHECK(x->id == c->get_id(), "id-changed", "%s: id %d was %d", where, c->get_id(), x->id);
	VH_CHECK(x->worker == w, "other-worker", "%s callback of connection %d with worker %d, connected on %d", where, x->id, w, x->worker);
	VH_CHECK(x->tid == std::this_thread::get_id(), "other-thread", "%s callback of connection %d on another thread", where, x->id);
	VH_CHECK(x->connected == 1, "not-connected", "%s callback of connection %d before connected", where, x->id);
	VH_CHECK(x->closed == 0, "after-close", "%s callback of connection %d after its close callback", where, x->id);
	(void)g;
}
static void reply(Rec& x, TcpConnection& c, uint32_t n) { if (!n || x.shut) return; std::vector<char> b(n); for (uint32_t i = 0; i < n; i++) b[i] = (char)upatt(x.port, x.out + i); x.out += n; c.send(b.data(), b.size()); }
static void close_here(Rec& x, const TcpConnectionPtr& c) { x.shut = true; c->shutdown(); vh::stat("closed_directly"); }
static void close_via(Run& g, Rec& x, const TcpConnectionPtr& c) { g.s->shutdown_connection(c); vh::stat("closed_via_server"); (void)x; }
static void on_connected(Run& g, TcpServer* s, int w, TcpConnectionPtr c) {
	vh::tick("connected"); VH_CHECK(s == g.s.get(), "server", "another server in the callback"); g.connectedN++;
	VH_CHECK(!c->get_param(), "connected-twice", "connected callback twice for connection %d", c->get_id());
	Rec* x = new Rec; x->id = c->get_id(); x->worker = w; x->tid = std::this_thread::get_id(); x->raw = c.get(); x->w = c; x->port = c->get_peer_addr().get_port();
	{ std::lock_guard<std::mutex> l(g.mu); g.recs.emplace_back(x); VH_CHECK(g.ids.insert(x->id).second, "id-reused", "connection id %d used twice", x->id); VH_CHECK(w >= 0 && w < g.nw, "worker-index", "worker index %d of %d", w, g.nw); if (w >= 0 && w < g.nw) { g.perWorker[w]++; VH_CHECK(g.wtid[w] == x->tid, "other-thread", "connected callback of worker %d not on its thread", w); } auto p = g.plans.find(x->port); if (p != g.plans.end()) { x->plan = p->second; x->known = true; vh::stat("recognised"); } else vh::stat("peer_gone_at_connect"); if (x->plan.killable) g.killList.push_back(x->w); }
	VH_CHECK(c->get_state() == TcpConnection::kConnected, "state", "state %d in the connected callback", c->get_state());
	c->set_param(x); x->connected++; x->name = std::string((size_t)(x->port % 5 ? x->port % 40 : x->port % 3000), (char)('a' + x->id % 26)); c->set_name(x->name.c_str()); VH_CHECK(c->get_owner() && c->get_owner()->get_connection_owner_type() == TcpConnection::Owner::kServer, "owner", "connection %d of a server has another owner", x->id);
	if (x->plan.greet) reply(*x, *c, (uint32_t)x->plan.greet);
	if (x->plan.closeInConnected == 1) close_here(*x, c); else if (x->plan.closeInConnected == 2) close_via(g, *x, c);
}
static void on_message(Run& g, int w, TcpConnectionPtr c) {
	vh::tick("message"); Rec* x = (Rec*)c->get_param(); check_rec(g, w, c, x, "message"); RingBuf& b = c->get_input_buf(); x->msgs++;
	VH_CHECK(!b.empty(), "empty-message", "message callback of connection %d without unread data", x->id);
	while (!b.empty() && !x->shut) {
		if (!x->inCmd) { if (b.size() < sizeof(Cmd)) break; b.memcpy_out(&x->cur, sizeof(Cmd)); x->inCmd = true; x->left = x->cur.op == 'E' ? x->cur.len : 0; }
		if (x->cur.op == 'E') { size_t n = std::min(x->left, b.size()); if (n) { std::vector<char> t(n); b.memcpy_out(t.data(), n); x->left -= n; x->out += n; c->send(t.data(), n); } if (x->left) break; x->inCmd = false; }
		else { char op = (char)x->cur.op; x->inCmd = false;
			if (op == 'R') { VH_CHECK(x->cur.pos == x->out || !x->known, "position", "connection %d: %zu bytes sent, the peer expects %u", x->id, x->out, x->cur.pos); reply(*x, *c, x->cur.len); }
			else if (op == 'C') close_here(*x, c); else if (op == 'S') { close_via(g, *x, c); if (x->id % 2) close_via(g, *x, c); }
			else if (op == 'X') { g.s->stop(); vh::stat("stop_on_worker"); reply(*x, *c, x->cur.len); }
			else { vh::viol("stream-broken", "connection %d: command byte %d", x->id, op); b.reset(); } }
	}
	if (x->shut && c->get_state() == TcpConnection::kDisconnecting) b.reset();
}
static void on_close(Run& g, int w, TcpConnectionPtr c) {
	vh::tick("close"); Rec* x = (Rec*)c->get_param(); check_rec(g, w, c, x, "close"); x->closed++; g.closedN++;
	VH_CHECK(c->get_state() == TcpConnection::kDisconnected, "state", "state %d in the close callback", c->get_state());
	if (x->plan.extraShutdownInClose) g.s->shutdown_connection(c);
}

// ---- peers -----------------------------------------------------------------------------------------
struct Peer {
	int fd = -1; uint16_t port = 0; size_t down = 0; bool eof = false, failed = false; Run* g = nullptr; const char* kind = "";
	bool lost(const char* what, int e) { failed = true; if (!g->stopping) vh::viol("healthy-disturbed", "%s peer: %s (error %d) at byte %zu of its stream", kind, what, e, down); return false; }
	bool push(const void* p, size_t n) { const char* b = (const char*)p; while (n) { ssize_t r = __real_send(fd, b, n, MSG_NOSIGNAL); if (r > 0) { b += r; n -= (size_t)r; vh::tick("peer-write"); } else if (errno == EAGAIN || errno == EINTR) { pull(0); if (failed || eof) return false; pollfd q = { fd, POLLIN | POLLOUT, 0 }; poll(&q, 1, 20); } else return lost("write failed", errno); } return true; }
	// read until n more bytes have arrived in all (n == SIZE_MAX: until end of stream); 0: only what is there
	size_t want = 0; int idle = 0;
	bool pull(size_t target) {
		static thread_local std::vector<char> b(1 << 16);
		for (;;) { if (target && down >= target) return true; ssize_t r = __real_read(fd, b.data(), b.size());
			if (r > 0) { for (ssize_t i = 0; i < r; i++) if ((uint8_t)b[i] != upatt(port, down + i)) { vh::viol("other-data", "%s peer: byte %zu of its stream is %02x, not %02x", kind, down + i, (uint8_t)b[i], upatt(port, down + i)); failed = true; return false; } down += (size_t)r; vh::tick("peer-read"); vh::stat("peer_bytes", r); }
			else if (r == 0) { eof = true; return target == SIZE_MAX ? true : lost("end of stream", 0); }
			else if (errno == EAGAIN || errno == EINTR) { if (!target) return true; if (!wait_fd(fd, POLLIN, 20) && g->joined && ++idle > 25) { vh::stat("orphan_peer"); return lost("the server is gone", 0); } }      // a kernel may drop a connection whose listener was closed during the handshake without telling the peer
			else return target == SIZE_MAX && errno == ECONNRESET && g->mode != "lifecycle" ? (eof = true) : lost("read failed", errno); }
	}
	bool cmd(char op, uint32_t len) { Cmd c; memset(&c, 0, sizeof c); c.op = (uint8_t)op; c.len = len; c.pos = (uint32_t)want; return push(&c, sizeof c); }
	bool echo(uint32_t n, Rng& q) { if (!cmd('E', n)) return false; std::vector<char> b(n); for (uint32_t i = 0; i < n; i++) b[i] = (char)upatt(port, want + i); for (size_t p = 0; p < n; ) { size_t k = q.chance(1, 3) ? std::min<size_t>(n - p, q.range(1, 400)) : n - p; if (!push(b.data() + p, k)) return false; p += k; } want += n; return pull(want); }
	bool ask(uint32_t n) { if (!cmd('R', n)) return false; want += n; return true; }
	void reset() { if (fd >= 0) peer_reset(fd); fd = -1; }
	void bye() { if (fd >= 0) __real_close(fd); fd = -1; }
	bool open(Run& run, uint16_t sp, const Plan& pl, int rcv = 0) { g = &run; fd = peer_socket(port, rcv); if (fd < 0) return false; { std::lock_guard<std::mutex> l(run.mu); run.plans[port] = pl; } want = (size_t)pl.greet; if (!peer_connect(fd, sp)) { __real_close(fd); fd = -1; if (!run.stopping) vh::viol("connect-refused", "a peer cannot connect (error %d)", errno); return false; } vh::stat("peers"); return true; }
	~Peer() { bye(); }
};
static uint32_t esize(Rng& q) { return (uint32_t)(q.chance(1, 2) ? q.range(1, 300) : q.chance(1, 8) ? q.range(10000, 120000) : q.range(1, 5000)); }
static void one_peer(Run& g, uint16_t sp, Rng& q, int kind, std::vector<std::unique_ptr<Peer>>& keep) {
	std::unique_ptr<Peer> p(new Peer); Plan pl; static const char* names[] = { "healthy", "reset", "half-closing", "aborting", "instant", "idle", "closed-by-command", "closed-in-connected", "killed", "stalled", "worker-stop" }; p->kind = names[kind];
	if (q.chance(1, 4)) pl.greet = (int)q.range(1, 3000); pl.extraShutdownInClose = q.chance(1, 5); pl.killable = kind == 8; if (kind == 7) pl.closeInConnected = (int)q.range(1, 2);
	if (!p->open(g, sp, pl, kind == 9 || q.chance(1, 5) ? (int)q.range(2000, 8000) : 0)) return; vh::stat(names[kind]);
	auto some = [&](int n) { for (int i = 0; i < n; i++) { if (q.chance(1, 2)) { if (!p->echo(esize(q), q)) return false; } else { if (!p->ask(esize(q))) return false; if (q.chance(2, 3) && p->want && !p->pull(p->want)) return false; } } return true; };
	switch (kind) {
	case 0: if (!some((int)q.range(1, 8))) return; if (p->pull(p->want) && q.chance(1, 2)) { ::shutdown(p->fd, SHUT_WR); p->pull(SIZE_MAX); } vh::stat("healthy_done"); return;
	case 1: some((int)q.below(3)); if (q.chance(1, 2)) p->ask((uint32_t)q.range(1, 200000)); p->reset(); return;
	case 2: some((int)q.below(3)); if (q.chance(1, 2)) p->cmd('E', 500); ::shutdown(p->fd, SHUT_WR); { Run& r = g; (void)r; p->pull(SIZE_MAX); } return;
	case 3: { some((int)q.below(2)); uint32_t n = (uint32_t)q.range(100000, 600000); if (!p->ask(n)) return; size_t t = p->down + q.below(n / 2) + 1; p->pull(t); if (q.chance(1, 2)) p->reset(); else p->bye(); return; }
	case 4: if (q.chance(1, 2)) p->reset(); else p->bye(); return;
	case 5: some((int)q.below(2)); keep.push_back(std::move(p)); return;
	case 6: { if (!some((int)q.below(3)) || (p->want && !p->pull(p->want))) return; if (q.chance(1, 2)) p->ask((uint32_t)q.range(1, 100000)); p->cmd(q.chance(1, 2) ? 'C' : 'S', 0); size_t w = p->want; if (p->pull(SIZE_MAX) && !g.stopping) VH_CHECK(p->down == w, "tail", "%zu of %zu bytes before the end of stream", p->down, w); vh::stat("command_closed"); return; }
	case 7: p->pull(SIZE_MAX); if (!g.stopping) VH_CHECK(p->failed || p->down == p->want, "tail", "%zu of %zu bytes before the end of stream", p->down, p->want); return;
	case 8: p->pull(SIZE_MAX); vh::stat("killed_done"); return;
	case 9: p->ask((uint32_t)q.range(300000, 900000)); keep.push_back(std::move(p)); return;
	default: { uint32_t n = (uint32_t)q.range(1, 100); if (!some(1) || !p->cmd('X', n)) return; p->want += n; if (!p->pull(p->want)) return; some(2); vh::stat("served_after_refused_stop"); return; }
	}
}

static void wait_release(Run& g, int base, const char* what) {      // everything closed: descriptors and objects go while the server runs on
	for (int i = 0;; i++) { bool all = vh::count_fds() <= base; if (all) { std::lock_guard<std::mutex> l(g.mu); for (auto& x : g.recs) if (!x->w.expired() || !x->closed) { all = false; break; } } if (all) break; if (i > 60000) { int alive = 0, open = 0; { std::lock_guard<std::mutex> l(g.mu); for (auto& x : g.recs) { alive += !x->w.expired(); open += !x->closed; } } vh::viol("not-released", "%s: all peers are gone, but %d descriptors are open (%d before), %d connection objects are alive, %d without close callback", what, vh::count_fds(), base, alive, open); vh::die(1); } vh::usleep_(200); vh::tick("release"); }
}
static void run_case(vh::Args& a, Rng& r, long cno) {
	Run g; G = &g; g.mode = a.mode; bool stopMode = a.mode == "stop", faultMode = a.mode == "fault"; g.nw = (int)r.range(1, r.chance(1, 4) ? 8 : 4); int ports = (int)r.range(1, 3), drivers = (int)r.range(1, 5), per = (int)r.range(1, (uint64_t)a.geti("per", 12)); bool many = a.geti("many", 0) != 0; if (many) { static const int ws[] = { 3, 5, 6, 7 }; g.nw = ws[r.below(4)]; ports = 1; drivers = 6; per = (int)r.range(200, 300); vh::stat("many"); }      // long runs of one server: the turns of the workers never drift
	int fds0 = vh::count_fds(), thr0 = vh::count_threads(); g.wtid.resize(g.nw); g.perWorker.assign(g.nw, 0); g.wstarts.assign(g.nw, 0); long acc0 = n_accepts; g.stopInStart = stopMode && r.chance(1, 12);
	vh::setcase("case=%ld mode=%s workers=%d ports=%d drivers=%d per=%d", cno, a.mode.c_str(), g.nw, ports, drivers, per); vh::tick("setup");
	g.s.reset(new TcpServer); TcpServer& s = *g.s; std::mutex wm;
	s.m_listener.on_master_thread_start = [&](TcpServer*, Looper*) { t_lib = 1; g.mtid = std::this_thread::get_id(); if (g.stopInStart) { g.stopping = 1; g.s->stop(); vh::stat("stop_in_master_start"); } g.masterUp = 1; };
	s.m_listener.on_master_thread_command = [&](TcpServer*, Packet* p) { if (p->get_packet_id() == 77) { g.stopping = 1; g.s->stop(); vh::stat("stop_on_master"); g.cmdRuns++; } else g.barrier++; };
	s.m_listener.on_work_thread_command = [&](TcpServer*, int32_t, Packet*) { g.barrier++; };
	s.m_listener.on_work_thread_start = [&](TcpServer*, int32_t w, Looper*) { t_lib = 1; std::lock_guard<std::mutex> l(g.mu); if (w >= 0 && w < g.nw) { g.wtid[w] = std::this_thread::get_id(); g.wstarts[w]++; } else vh::viol("worker-index", "start callback of worker %d", w); };
	s.m_listener.on_connected = [&](TcpServer* sv, int32_t w, TcpConnectionPtr c) { on_connected(g, sv, w, c); }; s.m_listener.on_message = [&](TcpServer*, int32_t w, TcpConnectionPtr c) { on_message(g, w, c); }; s.m_listener.on_close = [&](TcpServer*, int32_t w, TcpConnectionPtr c) { on_close(g, w, c); };
	if (stopMode && r.chance(1, 25)) { s.stop(); vh::stat("stop_not_started"); if (r.chance(1, 2)) { s.bind(Address(g_ipStr, 0)); g.s.reset(); VH_CHECK(vh::count_fds() == fds0, "fd-leak", "bound server destroyed: %d descriptors before, %d after", fds0, vh::count_fds()); return; } }
	if (stopMode && r.chance(1, 15)) ports = 0;
	for (int i = 0; i < ports; i++) { bool b = s.bind(Address(g_ipStr, 0), r.chance(1, 2)); VH_CHECK(b, "bind", "bind failed"); }
	bool extra = ports && !stopMode && r.chance(1, 2); if (extra) { bool b = s.bind(Address(g_ipStr, 0)); VH_CHECK(b, "bind", "bind failed"); }      // one more, which nobody uses and which stops listening in between
	std::vector<uint16_t> sp; for (int i = 0; i < ports; i++) sp.push_back(s.get_bind_address((size_t)i).get_port());
	f_smallSnd = r.chance(1, 2) ? (int)r.range(2000, 20000) : 0; if (f_smallSnd) vh::stat("small_send_buffers"); g_delay = r.chance(1, 2) ? (int)r.range(2, 25) : 0; bool st = s.start(g.nw); VH_CHECK(st, "start", "start failed"); bool immediate = stopMode && r.chance(1, 10);
	if (!immediate) while (!g.masterUp) vh::usleep_(50);
	if (faultMode) { random_faults(r); f_acceptErr = r.chance(1, 2) ? (int)r.range(2, 6) : 0; }
	if (!stopMode) {      // all loops and their pipes exist once every thread has handled a command
		for (int w = 0; w < g.nw; w++) { Packet* p = Packet::alloc_packet(); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE, 50, 0, nullptr); s.send_work_message(w, p); Packet::free_packet(p); } s.send_master_message(50, 0, nullptr); while (g.barrier < g.nw + 1) vh::usleep_(50);
	}
	int base = vh::count_fds(); std::vector<std::thread> ts; std::mutex km; std::vector<std::unique_ptr<Peer>> keep; std::atomic<int> live{ 0 }; uint64_t sd = r.next();
	if (!immediate && ports && !g.stopInStart) for (int d = 0; d < drivers; d++) { live++; ts.emplace_back([&, d] { Rng q(sd + d); std::vector<std::unique_ptr<Peer>> mine;
		for (int i = 0; i < per && !(stopMode && g.stopping && q.chance(3, 4)); i++) { int kind; if (many) { static const int ks[] = { 4, 4, 4, 0, 7, 6, 2, 4 }; kind = ks[q.below(8)]; } else if (faultMode) { static const int ks[] = { 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 9, 5, 6, 8 }; kind = ks[q.below(16)]; } else if (stopMode) { static const int ks[] = { 0, 0, 0, 1, 2, 4, 5, 5, 6, 7, 8, 9, 9, 10, 3, 0 }; kind = ks[q.below(16)]; } else { static const int ks[] = { 0, 0, 0, 0, 2, 4, 5, 6, 6, 6, 7, 7, 8, 8, 9, 3 }; kind = ks[q.below(16)]; } one_peer(g, sp[q.below(sp.size())], q, kind, mine); if (q.chance(1, 10)) vh::usleep_((unsigned)q.below(1500)); }
		{ std::lock_guard<std::mutex> l(km); for (auto& p : mine) keep.push_back(std::move(p)); } live--; }); }
	std::thread killer([&] { Rng q(sd + 999); int stops = extra ? (int)q.range(1, 3) : 0; while (!g.killStop) { if (stops && q.chance(1, 20)) { stops--; s.stop_listen((size_t)ports); vh::stat("listen_stopped"); } std::weak_ptr<TcpConnection> w; { std::lock_guard<std::mutex> l(g.mu); if (!g.killList.empty()) { size_t i = q.below(g.killList.size()); w = g.killList[i]; if (q.chance(1, 2)) { g.killList[i] = g.killList.back(); g.killList.pop_back(); } } } TcpConnectionPtr c = w.lock(); if (c) { s.shutdown_connection(c); vh::stat("killed"); c.reset(); } vh::usleep_((unsigned)q.below(400)); } });
	if (!stopMode) {
		for (auto& t : ts) t.join(); vh::tick("peers-done"); g.killStop = 1; killer.join();
		// whatever the others did, the server still serves and the quiet connections are still there
		Rng q(sd + 7); for (uint16_t port : sp) { std::vector<std::unique_ptr<Peer>> m; one_peer(g, port, q, 0, m); vh::stat("probe_after"); }
		for (auto& p : keep) { p->kind = "kept"; if (p->want && !p->pull(p->want)) continue; p->echo(esize(q), q); vh::stat("kept_alive"); p->bye(); }
		keep.clear(); wait_release(g, base, "before stop"); int mn = 1 << 30, mx = 0, sum = 0; { std::lock_guard<std::mutex> l(g.mu); for (int v : g.perWorker) { mn = std::min(mn, v); mx = std::max(mx, v); sum += v; } } VH_CHECK(mx - mn <= 1, "spread", "%d connections over %d workers: between %d and %d each", sum, g.nw, mn, mx); vh::statmax("max_workers", g.nw); vh::stat("spread_checked");
		g.stopping = 1; s.stop();
	} else {
		Rng q(sd + 8); int how = (int)q.below(5); if (!immediate) { if (q.chance(1, 4)) while (live) vh::usleep_(100); else vh::usleep_((unsigned)q.below(q.chance(1, 2) ? 2000 : 15000)); } g.killStop = q.chance(1, 2); if (g.killStop || true) { g.killStop = 1; killer.join(); }
		std::vector<std::thread> st2; int callers = how == 2 ? (int)q.range(2, 5) : 1;
		if (how == 1 && !g.stopInStart && !immediate) { s.send_master_message(77, 0, nullptr); while (!g.cmdRuns) vh::usleep_(50); }
		else { g.stopping = 1; if (callers > 1) { std::atomic<int> go{ 0 }; for (int i = 0; i < callers; i++) st2.emplace_back([&] { go++; while (go < callers) sched_yield(); s.stop(); }); for (auto& t : st2) t.join(); vh::stat("stop_concurrent"); } else s.stop(); if (how == 3) { s.stop(); s.stop(); vh::stat("stop_repeated"); } }
		vh::stat("stops"); if (immediate) vh::stat("stop_immediate");
	}
	// peers drain while the server is being joined
	std::thread drain([&] { if (stopMode) { for (auto& t : ts) t.join(); for (auto& p : keep) { p->kind = "drained"; p->pull(SIZE_MAX); } keep.clear(); } });
	vh::tick("join"); { std::vector<std::thread> js; if (stopMode && r.chance(1, 3)) { js.emplace_back([&] { s.join(); }); vh::stat("concurrent_joins"); } s.join(); for (auto& t : js) t.join(); } g.joined = 1; vh::stat("joined"); drain.join(); faults_off();
	{ std::lock_guard<std::mutex> l(g.mu); for (auto& x : g.recs) { VH_CHECK(x->closed == 1, "close-missing", "connection %d: %d close callbacks after join", x->id, (int)x->closed); VH_CHECK(x->w.expired(), "object-leak", "connection %d is alive after join", x->id); g.sig = vh::mix(g.sig, (uint64_t)x->worker * 64 + (uint64_t)x->msgs); } for (int w = 0; w < g.nw; w++) VH_CHECK(g.wstarts[w] == 1, "worker-starts", "worker %d started %d times", w, g.wstarts[w]); }
	if (n_accepts != acc0) VH_CHECK(n_accepts - acc0 == g.connectedN, "accepted-without-callback", "%ld connections accepted, %d connected callbacks", n_accepts - acc0, (int)g.connectedN);
	vh::stat("accepted", g.connectedN); vh::stat("closed", g.closedN); g.s.reset(); for (int i = 0; vh::count_threads() > thr0 && i < 100000; i++) vh::usleep_(100);
	VH_CHECK(vh::count_threads() <= thr0, "thread-leak", "%d threads before, %d after", thr0, vh::count_threads()); VH_CHECK(vh::count_fds() == fds0, "fd-leak", "%d descriptors before, %d after", fds0, vh::count_fds());
	vh::stat("evaluations"); vh::distinct(vh::mix(g.sig, sd)); if (vh::S().samples < 3) vh::sample("%s", vh::S().cur);
}
int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); if (a.mode.empty()) a.mode = "lifecycle"; vh::watchdog(); set_log_threshold(L_MAXIMUM_LEVEL);
	for (long c = 0; c < a.cases; c++) { if (a.only >= 0 && c != a.only) continue; Rng r(a.seed * 1000003 + (uint64_t)c); vh::tick("case"); pick_ip(); run_case(a, r, c); }
	fault_stats();
#if defined(__SANITIZE_ADDRESS__)
	if (a.geti("leaks", 0)) vh::leak_check();
#endif
	return vh::finish();
}
