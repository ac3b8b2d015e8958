// C14: everything that is documented as thread safe, called by many threads at once on servers, connections, clients, workers.
// The harness hands objects to the calling threads once and then lets them call without any synchronisation of its own.
#include "net.h"

enum { RUN_ID = 100, MSG_ID = 200 };
typedef std::function<void()> Fn;
template <class T> struct Rlx { T v{}; T get() const { return __atomic_load_n(&v, __ATOMIC_RELAXED); } void set(T x) { __atomic_store_n(&v, x, __ATOMIC_RELAXED); } T add(T x) { return __atomic_fetch_add(&v, x, __ATOMIC_RELAXED); } };
struct Conn { TcpConnectionPtr c; int id; uint16_t peerPort, localPort; char peerIp[20]; FrameParser in; };
struct Cli { TcpClientPtr c; int idx = 0; std::atomic<int> up{ 0 }, closed{ 0 }; FrameParser in; uint32_t ownSeq = 0; bool clean = true; };
struct Run {
	std::unique_ptr<TcpServer> s; int nw = 1; std::atomic<int> masterUp{ 0 }; Rlx<int> end; std::mutex mu; std::vector<TcpConnectionPtr> conns; std::atomic<int> nconn{ 0 }, nclose{ 0 }; Rlx<long> sentCmd, gotCmd, sentMsg, gotMsg; std::vector<std::unique_ptr<Cli>> clis; std::vector<std::unique_ptr<WorkThread>> lt; sys_api::signal_t sig; sys_api::mutex_t mx; long mxCount = 0; Rlx<long> mxLocks; bool shut = false, allUp = false; uint16_t port = 0, port2 = 0;
};
static void run_packet(Packet* p) { Fn* f; memcpy(&f, p->get_packet_content(), sizeof f); (*f)(); delete f; }
static void run_on(WorkThread& w, Fn f) { Fn* h = new Fn(f); char b[sizeof h]; memcpy(b, &h, sizeof h); w.send_message(RUN_ID, sizeof h, b); }
static void run_wait(WorkThread& w, Fn f) { std::shared_ptr<std::atomic<int>> d(new std::atomic<int>(0)); run_on(w, [f, d] { f(); *d = 1; }); while (!*d) vh::usleep_(30); }
static uint32_t fsize(Rng& q) { return (uint32_t)(q.chance(1, 2) ? q.below(100) : q.chance(1, 12) ? q.below(60000) : q.below(2500)); }
// every sender numbers what it sends to one object; its stream must arrive in this order without gaps up to the end of the connection
static void conn_ops(Run& g, const TcpConnectionPtr& c, uint32_t sender, uint32_t& seq, Rng& q, int n, std::vector<char>& b) {
	int id = c->get_id(); uint16_t pp = c->get_peer_addr().get_port(); TcpConnection::State last = TcpConnection::kConnected;
	for (int i = 0; i < n; i++) { switch (q.below(6)) {
		case 0: case 1: make_frame(b, sender, seq++, fsize(q)); c->send(b.data(), b.size()); memset(b.data(), 0xEE, b.size()); vh::stat("op_send"); break;
		case 2: { TcpConnection::State s = c->get_state(); VH_CHECK(s >= last && s >= TcpConnection::kConnected && s <= TcpConnection::kDisconnected, "state", "state %d after %d", s, last); last = s; vh::stat("op_state"); break; }
		case 3: { const Address& a = c->get_peer_addr(); VH_CHECK(a.get_port() == pp && strlen(a.get_ip()) >= 7, "address", "peer address changed"); vh::stat("op_address"); break; }
		case 4: { const Address& a = c->get_local_addr(); VH_CHECK(a.get_port() == g.port || a.get_port() == g.port2 || pp == g.port || pp == g.port2, "address", "local port %u", a.get_port()); VH_CHECK(c->get_id() == id, "id", "id changed"); vh::stat("op_address"); break; }
		default: if (g.shut && q.chance(1, 12)) { g.s->shutdown_connection(c); vh::stat("op_shutdown"); } else sched_yield(); } vh::tick(); }
}
static void chaos(Run& g, int me, Rng q) {
	std::vector<char> b; std::map<const void*, uint32_t> seq; long cmds = 0; uint32_t lseq = 0; (void)lseq; sys_api::mutex_t own = sys_api::mutex_create(); int64_t lastPerf = 0;
	while (!g.end.get()) {
		switch (q.below(10)) {
		case 0: case 1: case 2: { TcpConnectionPtr c; { std::lock_guard<std::mutex> l(g.mu); if (!g.conns.empty()) c = g.conns[q.below(g.conns.size())]; } if (c) conn_ops(g, c, (uint32_t)me, seq[c.get()], q, (int)q.range(1, 40), b); break; }
		case 3: case 4: { Cli& k = *g.clis[q.below(g.clis.size())]; TcpClient* c = k.c.get(); for (int i = (int)q.range(1, 30); i > 0; i--) { TcpConnection::State s = c->get_connection_state(); VH_CHECK(c->get_param() == &k, "param", "parameter of the client changed"); vh::stat("op_client_state"); if (s >= TcpConnection::kConnected && q.chance(1, 2)) { make_frame(b, (uint32_t)me, seq[c]++, fsize(q)); c->send(b.data(), b.size()); memset(b.data(), 0xEE, b.size()); vh::stat("op_client_send"); } vh::tick(); } break; }
		case 5: for (int i = (int)q.range(1, 8); i > 0 && g.sentCmd.get() - g.gotCmd.get() < 3000; i--) { uint64_t v[2] = { (uint64_t)me, (uint64_t)cmds }; g.sentCmd.add(1); cmds++; int w = (int)q.below((uint64_t)g.nw + 1); if (!w) { g.s->send_master_message(MSG_ID, sizeof v, (char*)v); } else { Packet* p = Packet::alloc_packet(); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE, MSG_ID, sizeof v, (char*)v); if (q.chance(1, 2)) g.s->send_work_message(w - 1, p); else { const Packet* a[1] = { p }; g.s->send_work_message(w - 1, a, 1); } Packet::free_packet(p); } vh::stat("op_command"); VH_CHECK(g.s->get_work_thread_counts() == g.nw, "count", "worker count changed"); } break;
		case 6: for (int i = (int)q.range(1, 8); i > 0 && g.sentMsg.get() - g.gotMsg.get() < 3000; i--) { WorkThread& w = *g.lt[q.below(g.lt.size())]; char m[64]; size_t n = q.below(sizeof m); memset(m, me, n); g.sentMsg.add(1); w.send_message(MSG_ID, (uint16_t)n, m); VH_CHECK(w.get_looper() && w.get_name()[0], "worker", "no looper or name"); vh::stat("op_message"); } break;
		case 7: for (int i = 0; i < 10; i++) { sys_api::mutex_lock(g.mx); g.mxCount++; sys_api::mutex_unlock(g.mx); g.mxLocks.add(1); if (sys_api::mutex_try_lock(g.mx, (int)q.below(2))) { g.mxCount++; sys_api::mutex_unlock(g.mx); g.mxLocks.add(1); } sys_api::auto_mutex l(own); vh::stat("op_lock"); } break;
		case 8: for (int i = 0; i < 10; i++) { int64_t p = sys_api::performance_time_now(), u = sys_api::utc_time_now(); VH_CHECK(p >= lastPerf && u > 0, "clock", "clock went back"); lastPerf = p; char t[64]; sys_api::local_time_now(t, sizeof t, "%H:%M:%S"); VH_CHECK(strlen(t) == 8, "clock", "local time '%s'", t); (void)sys_api::thread_get_current_id(); VH_CHECK(sys_api::get_cpu_counts() > 0, "cpu", "no processor"); vh::stat("op_clock"); } break;
		default: if (q.chance(1, 2)) { sys_api::signal_notify(g.sig); vh::stat("op_notify"); } else { sys_api::signal_timewait(g.sig, 1); vh::stat("op_wait"); } if (g.port2 && g.allUp && q.chance(1, 60)) { g.s->stop_listen(1); vh::stat("op_stop_listen"); } }
		vh::tick("chaos");
	}
	sys_api::mutex_destroy(own);
}
static void take(RingBuf& b, FrameParser& p, const char* what, Rng& q) { std::vector<char> t(b.size()); size_t n = b.memcpy_out(t.data(), q.chance(1, 4) ? std::max<size_t>(1, t.size() / 2) : t.size()); p.feed(t.data(), n, what); vh::stat("bytes", (long)n); }
static void run_case(Rng& r, long cno) {
	Run g; g.nw = (int)r.range(1, 4); int nc = (int)r.range(1, 8), nl = (int)r.range(1, 3), nt = (int)r.range(2, 6); g.shut = r.chance(1, 2); int ms = (int)r.range(5, 60); int fds0 = vh::count_fds(), thr0 = vh::count_threads();
	vh::setcase("case=%ld workers=%d clients=%d loops=%d threads=%d shut=%d", cno, g.nw, nc, nl, nt, g.shut); vh::tick("setup"); g.sig = sys_api::signal_create(); g.mx = sys_api::mutex_create();
	g.s.reset(new TcpServer); TcpServer& s = *g.s; uint64_t sd = r.next();
	s.m_listener.on_master_thread_start = [&](TcpServer*, Looper*) { t_lib = 1; g.masterUp = 1; }; s.m_listener.on_work_thread_start = [&](TcpServer*, int32_t, Looper*) { t_lib = 1; };
	auto cmd = [&](Packet* p) { VH_CHECK(p->get_packet_id() == MSG_ID && p->get_packet_size() == 16, "command", "command %u of %zu bytes", p->get_packet_id(), p->get_packet_size()); g.gotCmd.add(1); vh::tick(); };
	s.m_listener.on_master_thread_command = [cmd](TcpServer*, Packet* p) { cmd(p); }; s.m_listener.on_work_thread_command = [cmd](TcpServer*, int32_t, Packet* p) { cmd(p); };
	s.m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr c) { c->set_param(new FrameParser); ((FrameParser*)c->get_param())->anyStart = true; g.nconn++; std::lock_guard<std::mutex> l(g.mu); g.conns.push_back(c); };
	s.m_listener.on_message = [&](TcpServer*, int32_t w, TcpConnectionPtr c) { thread_local Rng q(sd + 77 + (uint64_t)w); FrameParser* p = (FrameParser*)c->get_param(); take(c->get_input_buf(), *p, "server side", q); if (q.chance(1, 3)) { thread_local std::vector<char> b; thread_local std::map<int, uint32_t> sq; make_frame(b, 1000 + (uint32_t)c->get_id() * 0, sq[c->get_id() + 100000 * (int)(sd % 20000)]++, fsize(q)); c->send(b.data(), b.size()); vh::stat("op_send_own"); } };
	s.m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr c) { delete (FrameParser*)c->get_param(); c->set_param(nullptr); g.nclose++; };
	s.bind(Address(g_ipStr, 0)); g.port = s.get_bind_address(0).get_port(); if (r.chance(1, 2)) { s.bind(Address(g_ipStr, 0)); g.port2 = s.get_bind_address(1).get_port(); }
	random_faults(r); s.start(g.nw); while (!g.masterUp) vh::usleep_(50);
	for (int i = 0; i < nl; i++) { WorkThread* w = new WorkThread; g.lt.emplace_back(w); w->set_on_start([] { t_lib = 1; return true; }); w->set_on_message([&g](Packet* p) { if (p->get_packet_id() == RUN_ID) run_packet(p); else { for (size_t k = 1; k < p->get_packet_size(); k++) VH_CHECK(p->get_packet_content()[k] == p->get_packet_content()[0], "message", "message content changed"); g.gotMsg.add(1); vh::tick(); } }); w->start("loop"); }
	for (int i = 0; i < nc; i++) { Cli* k = new Cli; k->idx = i; g.clis.emplace_back(k); k->in.anyStart = true; WorkThread& w = *g.lt[(size_t)i % g.lt.size()]; uint16_t port = g.port2 && r.chance(1, 3) ? g.port2 : g.port; uint64_t z = r.next();
		run_wait(w, [&g, k, &w, port, z] { k->c = std::make_shared<TcpClient>(w.get_looper(), k, k->idx); std::shared_ptr<Rng> q(new Rng(z)); k->c->m_listener.on_connected = [k](TcpClientPtr, TcpConnectionPtr, bool ok) -> uint32_t { if (ok) k->up = 1; return 3; };
			k->c->m_listener.on_message = [k, q](TcpClientPtr c, TcpConnectionPtr n) { take(n->get_input_buf(), k->in, "client side", *q); if (q->chance(1, 3)) { std::vector<char> b; make_frame(b, 999, k->ownSeq++, fsize(*q)); c->send(b.data(), b.size()); vh::stat("op_client_send_own"); } };
			k->c->m_listener.on_close = [k](TcpClientPtr, TcpConnectionPtr) { k->closed++; }; VH_CHECK(k->c->connect(Address(g_ipStr, port)), "connect", "connect failed"); }); }
	std::vector<std::thread> ts; std::atomic<int> go{ 0 }; for (int i = 0; i < nt; i++) ts.emplace_back([&, i] { while (!go) sched_yield(); chaos(g, i + 1, Rng(sd + (uint64_t)i)); });
	if (r.chance(1, 2)) { for (auto& k : g.clis) while (!k->up && !k->closed) { vh::usleep_(50); } g.allUp = true; } go = 1; bool late = r.chance(1, 2);      // stop while the others are still calling
	double t0 = vh::now(); while (vh::now() - t0 < ms * 1e-3) { vh::usleep_(500); if (r.chance(1, 6)) { size_t i = r.below(g.clis.size()); Cli* k = g.clis[i].get(); if (g.shut && k->up && r.chance(1, 3)) { run_on(*g.lt[i % g.lt.size()], [k] { if (k->up && !k->closed) k->c->disconnect(); }); vh::stat("op_disconnect"); } } }
	if (late) { s.stop(); vh::stat("stop_while_calling"); vh::usleep_((unsigned)r.below(8000)); }
	g.end.set(1); for (auto& t : ts) t.join(); ts.clear(); vh::tick("chaos-over"); for (auto& k : g.clis) while (!k->up && !late) vh::usleep_(50);
	if (!late) { while (g.gotCmd.get() < g.sentCmd.get()) vh::usleep_(100); VH_CHECK(g.gotCmd.get() == g.sentCmd.get(), "commands", "%ld commands handled, %ld sent", g.gotCmd.get(), g.sentCmd.get()); s.stop(); } 
	while (g.gotMsg.get() < g.sentMsg.get()) vh::usleep_(100); VH_CHECK(g.gotMsg.get() == g.sentMsg.get(), "messages", "%ld messages handled, %ld sent", g.gotMsg.get(), g.sentMsg.get()); VH_CHECK(g.mxCount == g.mxLocks.get(), "lock", "%ld counted inside the lock, locked %ld times", g.mxCount, g.mxLocks.get());
	vh::tick("join"); s.join(); vh::tick("joined"); g.conns.clear(); VH_CHECK(g.nconn == g.nclose, "close-count", "%d connected, %d closed", (int)g.nconn, (int)g.nclose);
	for (size_t i = 0; i < g.clis.size(); i++) { Cli* k = g.clis[i].get(); WorkThread& w = *g.lt[i % g.lt.size()]; run_wait(w, [k] { if (k->c->get_connection_state() != TcpConnection::kDisconnected || !k->up) k->c->disconnect(); }); while (k->up && !k->closed) vh::usleep_(50); run_wait(w, [] {}); run_wait(w, [k] { TcpClientPtr h; h.swap(k->c); }); VH_CHECK(!k->up || k->closed == 1, "close-count", "client %zu: %d close callbacks", i, (int)k->closed); }
	std::vector<std::thread> st; for (auto& w : g.lt) for (int i = (int)r.range(1, 3); i > 0; i--) st.emplace_back([&w] { Looper* l = w->get_looper(); (void)l; }); for (auto& t : st) t.join(); st.clear();
	{ std::vector<Looper*> ls; for (auto& w : g.lt) ls.push_back(w->get_looper()); for (auto& w : g.lt) w->send_message(MSG_ID, 0, ""); for (size_t i = 0; i < g.lt.size(); i++) ls[i]->push_stop_request(); } for (auto& w : g.lt) w->join(); g.lt.clear(); faults_off();
	sys_api::signal_destroy(g.sig); sys_api::mutex_destroy(g.mx); g.clis.clear(); g.s.reset(); for (int i = 0; vh::count_threads() > thr0 && i < 100000; i++) vh::usleep_(100);
	VH_CHECK(vh::count_threads() <= thr0, "thread-leak", "%d threads before, %d after", thr0, vh::count_threads()); VH_CHECK(vh::count_fds() == fds0, "fd-leak", "%d descriptors before, %d after", fds0, vh::count_fds());
	vh::stat("evaluations"); vh::stat("connections", g.nconn); vh::distinct(vh::mix(sd, vh::mix((uint64_t)g.gotCmd.get(), (uint64_t)g.mxCount))); if (vh::S().samples < 3) vh::sample("%s", vh::S().cur);
}
int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); vh::watchdog(); set_log_threshold(L_MAXIMUM_LEVEL);
	for (long c = 0; c < a.cases; c++) { if (a.only >= 0 && c != a.only) continue; Rng r(a.seed * 1000003 + (uint64_t)c); vh::tick("case"); pick_ip(); run_case(r, c); }
	fault_stats();
#if defined(__SANITIZE_ADDRESS__)
	if (a.geti("leaks", 0)) vh::leak_check();
#endif
	return vh::finish();
}
