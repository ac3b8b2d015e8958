// C08 (byte streams), C09 (orderly shutdown), C22 (connection statistics).
// modes: stream shutdown stat tail      side: server connections and client connections, both against raw peers
#include "net.h"
#include <sys/ioctl.h>

enum { RUN_ID = 100 };
static const int MAXSEND = 5;      // sender 0: the connection's own thread, 1..4: other threads

struct Ctx {
	int idx = 0; bool client = false; uint16_t port = 0; int peer = -1, lfd = -1;
	// plan
	size_t upTotal = 0; int consume = 0, pace = 0, upPace = 0, sndbuf = 0, maxMsg = 0; long ownBudget = 0; bool senders = false; int trigger = 0; int cached = 0; bool inConnected = false, inMessage = false, inComplete = false; int statPeriod = 0;
	// connection under test
	std::mutex mu; TcpConnectionPtr conn; TcpClientPtr cli; std::weak_ptr<TcpConnection> wconn; std::weak_ptr<TcpClient> wcli; std::atomic<int> fd{ -1 }, connected{ 0 }, closed{ 0 }, up{ 0 }; std::thread::id tid; int id = 0;
	std::atomic<size_t> seen{ 0 }, consumed{ 0 }; size_t maxRead = 0; std::atomic<long> completes{ 0 }, completeCalls{ 0 }, completeAtShut{ -1 }; std::atomic<size_t> handled{ 0 }; size_t leave = 0; int depth = 0; long lastOut = -1; std::atomic<long> completeOut{ -1 }; std::atomic<int> shut{ 0 }, watchEnd{ 0 };
	long baseIn = 0, baseOut = 0, baseInOps = 0, baseOutOps = 0;
	// sends
	std::atomic<long> begunBytes{ 0 }; std::atomic<uint32_t> begun[MAXSEND], done[MAXSEND]; uint32_t seq[MAXSEND]; std::atomic<uint32_t> lower[MAXSEND], upper[MAXSEND];
	// peer
	FrameParser parse; std::atomic<size_t> recvd{ 0 }, sentUp{ 0 }; std::atomic<int> finish{ 0 }, eof{ 0 }, peerOut{ 0 }, acceptedPeer{ 0 };
	Rng own{ 1 }; char what[100];
	Ctx() { for (int i = 0; i < MAXSEND; i++) { begun[i] = 0; done[i] = 0; seq[i] = 0; lower[i] = 0; upper[i] = 0xffffffffu; } }
	TcpConnectionPtr get() { std::lock_guard<std::mutex> g(mu); return conn; }
	TcpClientPtr getc() { std::lock_guard<std::mutex> g(mu); return cli; }
};
struct Case {
	std::string mode; std::vector<std::unique_ptr<Ctx>> cx; std::mutex mu; std::map<uint16_t, Ctx*> byPort; std::unique_ptr<TcpServer> server; std::atomic<int> masterUp{ 0 }; std::unique_ptr<WorkThread> wt; std::atomic<int> stopSend{ 0 }; uint64_t sig = 1; bool shutMode = false, statMode = false;
	Ctx* find(uint16_t p) { std::lock_guard<std::mutex> g(mu); auto i = byPort.find(p); return i == byPort.end() ? nullptr : i->second; }
};

// run a function on the thread of the connection under test
typedef std::function<void()> Fn;
static Packet* fn_packet(Fn* f) { Packet* p = Packet::alloc_packet(); char b[sizeof f]; memcpy(b, &f, sizeof f); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE, RUN_ID, sizeof f, b); return p; }
static void run_packet(Packet* p) { Fn* f; memcpy(&f, p->get_packet_content(), sizeof f); (*f)(); delete f; }
static void run_on(Case& k, Ctx& x, int worker, Fn f) { Packet* p = fn_packet(new Fn(f)); if (x.client) k.wt->send_message(p); else k.server->send_work_message(worker, p); Packet::free_packet(p); }
static void run_wait(Case& k, Ctx& x, int worker, Fn f) { std::shared_ptr<std::atomic<int>> d(new std::atomic<int>(0)); run_on(k, x, worker, [f, d] { f(); *d = 1; }); while (!*d) vh::usleep_(50); }
static std::atomic<int>* g_worker = nullptr;      // connection index -> worker index

static uint32_t pick_len(Rng& q, int maxMsg) { int m = (int)q.below(20); if (m < 9) return (uint32_t)q.below(200); if (m < 14) return (uint32_t)q.range(900, 1100); if (m < 18) return (uint32_t)q.below(9000); return (uint32_t)q.below((uint64_t)maxMsg); }
static void do_send(Ctx& x, int s, TcpConnection* c, TcpClient* cl, Rng& q) {
	uint32_t len = pick_len(q, x.maxMsg); std::vector<char> b; make_frame(b, (uint32_t)s, x.seq[s]++, len);
	x.begun[s]++; x.begunBytes += (long)b.size(); t_inSend++; if (cl) cl->send(b.data(), b.size()); else c->send(b.data(), b.size()); t_inSend--; x.done[s]++; memset(b.data(), 0xDD, b.size());
}
static void own_send(Ctx& x, TcpConnection* c, int n) { for (int i = 0; i < n && x.ownBudget > 0; i++, x.ownBudget--) { TcpClient* cl = nullptr; TcpClientPtr h; if (x.client && x.own.chance(1, 2)) { h = x.getc(); cl = h.get(); } do_send(x, 0, c, cl, x.own); vh::stat("own_sends"); } }
static void snapshot_lower(Ctx& x) { for (int s = 0; s < MAXSEND; s++) x.lower[s] = x.done[s].load(); }
static void snapshot_upper(Ctx& x) { for (int s = 0; s < MAXSEND; s++) { uint32_t b = x.begun[s], o = x.upper[s]; while (b < o && !x.upper[s].compare_exchange_weak(o, b)) {} } }
static void shutdown_direct(Ctx& x, const TcpConnectionPtr& c) {
	if (x.shut.exchange(1)) return;
	snapshot_lower(x); if (x.client && x.trigger & 1) { TcpClientPtr h = x.getc(); h->disconnect(); vh::stat("shut_disconnect"); } else { c->shutdown(); vh::stat("shut_direct"); } snapshot_upper(x);
	VH_CHECK(c->get_state() != TcpConnection::kConnected, "state-after-shutdown", "%s: state %d after shutdown returned", x.what, c->get_state());
	if (c->get_state() == TcpConnection::kDisconnecting) x.completeAtShut = x.completeCalls.load();
}
static void on_conn(Case& k, Ctx& x, TcpConnectionPtr c) {
	vh::tick("connected"); x.tid = std::this_thread::get_id(); x.id = c->get_id(); x.fd = c->get_socket(); { std::lock_guard<std::mutex> g(x.mu); x.conn = c; x.wconn = c; }
	if (x.sndbuf) setsockopt(c->get_socket(), SOL_SOCKET, SO_SNDBUF, &x.sndbuf, sizeof x.sndbuf);
	VH_CHECK(c->get_state() == TcpConnection::kConnected, "state", "%s: state %d in the connected callback", x.what, c->get_state());
	if (k.statMode) { c->start_read_statistics(x.statPeriod); c->start_write_statistics(x.statPeriod); int f = c->get_socket(); k_buf[f].set(0); x.baseIn = k_in[f]; x.baseOut = k_out[f]; x.baseInOps = k_inOps[f]; x.baseOutOps = k_outOps[f]; }
	c->set_on_send_complete([&k, &x](TcpConnectionPtr c2) {
		vh::tick("complete"); x.completeCalls++; VH_CHECK(std::this_thread::get_id() == x.tid, "thread", "%s: send complete on another thread", x.what);
		int f = c2->get_socket(); long o = f >= 0 && f < MAXFD ? (long)k_out[f] : -1;
		if (!x.senders && o > 0) { VH_CHECK(o == x.begunBytes || x.shut, "complete-too-early", "%s: send complete after %ld of %ld bytes were written", x.what, o, (long)x.begunBytes); vh::stat("complete_exact"); }
		struct AtEnd { Ctx& x; long o; ~AtEnd() { if (--x.depth == 0) { x.completeOut = std::max(o, x.lastOut); x.completes++; } else x.lastOut = std::max(o, x.lastOut); } } atEnd{ x, o }; if (x.depth++ == 0) x.lastOut = -1;      // published once the callback's own sends are counted
		if (k.shutMode && x.trigger / 2 == 2 && x.consumed == x.upTotal && x.own.chance(1, 2)) { shutdown_direct(x, c2); return; }
		if (k.shutMode && c2->get_state() == TcpConnection::kDisconnecting && x.own.chance(1, 2)) { vh::stat("shut_again_at_last"); if (x.client && x.own.chance(1, 2)) { TcpClientPtr h = x.getc(); h->disconnect(); } else c2->shutdown(); return; }      // asked for once more while the last byte has just gone
		if (x.inComplete) own_send(x, c2.get(), (int)x.own.below(3));
	});
	x.connected++;
	if (x.inConnected) own_send(x, c.get(), (int)x.own.below(6)); 
	if (k.shutMode && x.trigger / 2 == 0 && x.upTotal == 0) shutdown_direct(x, c);
	x.up = 1;
}
static void on_msg(Case& k, Ctx& x, TcpConnectionPtr c) {
	RingBuf& b = c->get_input_buf(); size_t n = b.size(), had = x.consumed, seen = x.seen;
	vh::tick("message"); x.maxRead = std::max(x.maxRead, n);
	VH_CHECK(std::this_thread::get_id() == x.tid, "thread", "%s: message on another thread", x.what);
	VH_CHECK(x.connected == 1 && x.closed == 0, "message-outside", "%s: message callback with connected %d closed %d", x.what, (int)x.connected, (int)x.closed);
	if (had + n > x.upTotal || had + n < seen) { vh::viol("received-count", "%s: %zu bytes buffered after %zu were taken, %zu verified, the peer sends %zu in all", x.what, n, had, seen, x.upTotal); return; }
	std::vector<char> t(had + n - seen + 1); if (had + n > seen) { size_t m = b.peek(seen - had, t.data(), had + n - seen); VH_CHECK(m == had + n - seen, "peek", "%s: peek gave %zu", x.what, m); for (size_t i = 0; i < m; i++) if ((uint8_t)t[i] != upatt((uint32_t)x.idx, seen + i)) { vh::viol("received-bytes", "%s: byte %zu of the received stream is %02x, written as %02x", x.what, seen + i, (uint8_t)t[i], upatt((uint32_t)x.idx, seen + i)); break; } }
	x.seen = had + n; vh::stat("bytes_in", (long)(had + n - seen));
	size_t take = 0; bool last = had + n == x.upTotal;
	switch (x.consume) { case 0: take = n; break; case 1: take = x.own.below(n + 1); break; case 2: take = n >= 3000 ? x.own.below(n + 1) : 0; break; case 3: take = n / 2; break; default: take = x.own.chance(1, 4) ? n : 0; }
	if (last) take = n - std::min(n, x.leave);
	if (take) { if (take == n && x.own.chance(1, 3)) { b.reset(); } else if (x.own.chance(1, 2)) { VH_CHECK(b.discard(take) == take, "discard", "%s", x.what); } else { std::vector<char> o(take); VH_CHECK(b.memcpy_out(o.data(), take) == take, "memcpy_out", "%s", x.what); for (size_t i = 0; i < take; i++) if ((uint8_t)o[i] != upatt((uint32_t)x.idx, had + i)) { vh::viol("received-bytes", "%s: byte %zu taken out is wrong", x.what, had + i); break; } } }
	if (x.inMessage) own_send(x, c.get(), (int)x.own.below(3));
	x.consumed = had + take; x.handled = had + n;
	if (k.shutMode && x.consumed == x.upTotal && x.trigger / 2 == 1) { if (x.own.chance(1, 2)) own_send(x, c.get(), 3); shutdown_direct(x, c); }
}
static void on_close_(Case& k, Ctx& x, TcpConnectionPtr c) {
	vh::tick("closed"); VH_CHECK(std::this_thread::get_id() == x.tid, "thread", "%s: close on another thread", x.what);
	VH_CHECK(c->get_state() == TcpConnection::kDisconnected, "state", "%s: state %d in the close callback", x.what, c->get_state());
	if (x.leave && x.seen == x.upTotal) { RingBuf& b = c->get_input_buf(); size_t n = x.upTotal - x.consumed; std::vector<char> t(n + 8); size_t m = b.peek(0, t.data(), t.size()); VH_CHECK(b.size() == n && m == n, "unread-lost", "%s: %zu of %zu received bytes are unread, the close callback finds %zu", x.what, n, x.upTotal, b.size()); for (size_t i = 0; i < m && i < n; i++) if ((uint8_t)t[i] != upatt((uint32_t)x.idx, x.consumed + i)) { vh::viol("received-bytes", "%s: unread byte %zu is wrong in the close callback", x.what, i); break; } if (n) vh::stat("unread_at_close"); }
	snapshot_upper(x); int was = x.closed++; VH_CHECK(was == 0, "close-twice", "%s: close callback %d times", x.what, was + 1);
	if (!k.shutMode) VH_CHECK(x.finish, "closed-healthy", "%s: the connection was closed although the peer is there", x.what);
	(void)k;
}

static void peer_main(Ctx* px, uint64_t seed) {
	Ctx& x = *px; Rng q(seed); std::vector<char> b(1 << 16); double holdUntil = x.pace == 2 ? vh::now() + q.below(60) * 1e-3 : 0; bool dead = false; size_t got = 0;
	for (;;) {
		bool any = false;
		if (x.sentUp < x.upTotal && (x.upPace != 1 || q.chance(1, 3))) {
			size_t p = x.sentUp, n = std::min<size_t>(x.upTotal - p, x.upPace == 2 ? q.range(1, 30) : x.upPace == 1 ? q.range(1, 1500) : q.range(1, 40000)); for (size_t i = 0; i < n; i++) b[i % b.size()] = (char)upatt((uint32_t)x.idx, p + i);
			ssize_t w = __real_write(x.peer, b.data(), n); if (w > 0) { x.sentUp += (size_t)w; any = true; vh::tick("peer-write"); } else if (w < 0 && errno != EAGAIN && errno != EINTR) { vh::viol("peer-write", "%s: the peer's write failed with %d after %zu of %zu bytes", x.what, errno, p, x.upTotal); break; }
		}
		if (vh::now() >= holdUntil) {
			size_t lim = x.pace == 1 ? q.range(1, 700) : x.pace == 3 ? q.range(1, 6000) : b.size(); ssize_t r = __real_read(x.peer, b.data(), lim);
			if (r > 0) { x.parse.feed(b.data(), (size_t)r, x.what); got += (size_t)r; x.recvd = got; any = true; vh::tick("peer-read"); if (x.parse.dead) break; if (x.pace == 1 && q.chance(1, 3)) vh::usleep_((unsigned)q.below(150)); if (x.pace == 3 && q.chance(1, 20)) vh::usleep_((unsigned)q.below(3000)); }
			else if (r == 0) { x.eof = 1; break; } else if (errno != EAGAIN && errno != EINTR) { x.eof = 2; dead = true; vh::viol("peer-reset", "%s: instead of end of stream the peer gets error %d after %zu bytes, %zu messages", x.what, errno, got, x.parse.frames); break; }
		}
		if (x.finish) break;
		if (!any) { struct pollfd p = { x.peer, (short)(POLLIN | (x.sentUp < x.upTotal ? POLLOUT : 0)), 0 }; if (vh::now() < holdUntil) vh::usleep_(300); else poll(&p, 1, 1); }
	}
	(void)dead; x.peerOut = 1;
}
static void watcher(Ctx* px) {      // the state never goes back
	Ctx& x = *px; int last = TcpConnection::kConnecting; TcpConnectionPtr c; long n = 0;
	while (!x.watchEnd) { if (!c) c = x.get(); if (c) { int s = c->get_state(); VH_CHECK(s >= last && s != TcpConnection::kConnecting, "state-back", "%s: state %d after %d", x.what, s, last); if (s != TcpConnection::kConnected && last <= TcpConnection::kConnected) { snapshot_upper(x); vh::stat("seen_not_connected"); } last = s; n++; VH_CHECK(c->get_id() == x.id || !x.connected, "id", "%s", x.what); } if (n % 3 == 0) vh::usleep_(30); else sched_yield(); }
	vh::stat("state_samples", n);
}

static void make_plan(Case& k, Ctx& x, Rng& r, bool ownOnly) {
	x.own = Rng(r.next()); x.upTotal = r.chance(1, 6) ? 0 : r.chance(1, 6) ? r.range(60000, 200000) : r.range(1, 20000); x.consume = (int)r.below(5); x.pace = (int)r.below(4); x.upPace = (int)r.below(3); if (x.upPace == 2 && x.upTotal > 4000) x.upTotal = 4000; x.sndbuf = r.chance(1, 2) ? (int)r.range(1000, 20000) : 0; x.maxMsg = r.chance(1, 3) ? 200000 : 20000; x.senders = !ownOnly;
	x.inConnected = r.chance(1, 2); x.inMessage = r.chance(1, 2); x.inComplete = r.chance(1, 2); x.ownBudget = (long)r.below(40); if (ownOnly && !x.inConnected && !x.inMessage) x.inConnected = true; x.trigger = (int)r.below(10); x.cached = x.client && r.chance(1, 2) ? (int)r.below(5) : 0; x.statPeriod = 3600000;
	if (x.pace == 1 && x.maxMsg > 20000) x.maxMsg = 20000;
	if (k.mode == "stream" && r.chance(1, 3)) x.leave = (size_t)r.range(1, 3000);
	snprintf(x.what, sizeof x.what, "%s conn %d", x.client ? "client" : "server", x.idx);
}
static void stat_check(Case& k, Ctx& x, int w) {
	run_wait(k, x, w, [&] {
		TcpConnectionPtr c = x.get(); int f = c->get_socket(); auto rd = c->get_read_statistics(), wr = c->get_write_statistics(); if (f < 0 || f >= MAXFD) return;
		long in = k_in[f] - x.baseIn, out = k_out[f] - x.baseOut, inOps = k_inOps[f] - x.baseInOps, outOps = k_outOps[f] - x.baseOutOps;
		VH_CHECK((long)rd.first == in && rd.second == inOps, "stat-read", "%s: read statistics %zu bytes in %d transfers, %ld in %ld took place", x.what, rd.first, rd.second, in, inOps);
		VH_CHECK((long)wr.first == out && wr.second == outOps, "stat-write", "%s: write statistics %zu bytes in %d transfers, %ld in %ld took place", x.what, wr.first, wr.second, out, outOps);
		VH_CHECK(c->get_readebuf_max_size() == std::max<size_t>(1024, x.maxRead), "stat-maxread", "%s: largest read buffer %zu, seen %zu", x.what, c->get_readebuf_max_size(), x.maxRead);
		VH_CHECK(c->get_writebuf_max_size() >= 1024 && (long)c->get_writebuf_max_size() <= std::max<long>(1024, x.begunBytes), "stat-maxwrite", "%s: largest write buffer %zu, %ld bytes were sent in all", x.what, c->get_writebuf_max_size(), (long)x.begunBytes); VH_CHECK((long)c->get_writebuf_max_size() >= (long)k_buf[f], "stat-maxwrite-low", "%s: largest write buffer %zu, %ld bytes were written from it at once", x.what, c->get_writebuf_max_size(), (long)k_buf[f]); if (k_buf[f] > 1024) vh::stat("backed_up");
		vh::stat("stat_compared"); vh::stat("stat_bytes", in + out); vh::stat("stat_transfers", inOps + outOps);
	});
}
static void period_check(Case& k, Ctx& x, int w) {   // nothing was transferred for longer than the period
	run_wait(k, x, w, [&] { TcpConnectionPtr c = x.get(); auto rd = c->get_read_statistics(), wr = c->get_write_statistics(); VH_CHECK(rd.first == 0 && rd.second == 0 && wr.first == 0 && wr.second == 0, "stat-expired", "%s: after an idle period the statistics say %zu/%d read, %zu/%d written", x.what, rd.first, rd.second, wr.first, wr.second); vh::stat("stat_expired"); });
}

static void run_case(vh::Args& a, Rng& r, long cno) {
	Case k; k.mode = a.mode; k.shutMode = a.mode == "shutdown"; k.statMode = a.mode == "stat"; bool client = r.chance(2, 5), ownOnly = r.chance(2, 5); int n = (int)r.range(1, (uint64_t)a.geti("conns", 4)), nw = (int)r.range(1, 3), ns = ownOnly ? 0 : (int)r.range(1, 4), per = (int)r.range(3, (uint64_t)a.geti("per", 60));
	int fds = vh::count_fds(), threads = vh::count_threads(); bool shortPeriod = k.statMode && r.chance(1, 4);
	vh::setcase("case=%ld mode=%s %s conns=%d workers=%d senders=%d per=%d", cno, a.mode.c_str(), client ? "client" : "server", n, nw, ns, per); vh::tick("setup");
	std::vector<std::atomic<int>> workerOf(n); g_worker = workerOf.data(); uint64_t seed = r.next(); uint16_t sport = 0;
	for (int i = 0; i < n; i++) { Ctx* x = new Ctx; x->idx = i; x->client = client; make_plan(k, *x, r, ownOnly); if (shortPeriod) x->statPeriod = (int)r.range(20, 80); k.cx.emplace_back(x); }
	if (!client) {
		k.server.reset(new TcpServer); TcpServer& s = *k.server;
		s.m_listener.on_master_thread_start = [&](TcpServer*, Looper*) { t_lib = 1; k.masterUp = 1; };
		s.m_listener.on_work_thread_start = [&](TcpServer*, int32_t, Looper*) { t_lib = 1; };
		s.m_listener.on_work_thread_command = [&](TcpServer*, int32_t, Packet* p) { run_packet(p); };
		s.m_listener.on_connected = [&](TcpServer*, int32_t w, TcpConnectionPtr c) { Ctx* x = k.find(c->get_peer_addr().get_port()); if (!x) { vh::viol("unknown-peer", "connection from port %u which no peer uses", c->get_peer_addr().get_port()); return; } workerOf[x->idx] = w; c->set_param(x); on_conn(k, *x, c); };
		s.m_listener.on_message = [&](TcpServer*, int32_t, TcpConnectionPtr c) { on_msg(k, *(Ctx*)c->get_param(), c); };
		s.m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr c) { on_close_(k, *(Ctx*)c->get_param(), c); };
		bool b = s.bind(Address(g_ipStr, 0), r.chance(1, 2)); VH_CHECK(b, "bind", "bind failed"); b = s.start(nw); VH_CHECK(b, "start", "start failed"); while (!k.masterUp) vh::usleep_(100); sport = s.get_bind_address(0).get_port();
	} else { k.wt.reset(new WorkThread); k.wt->set_on_start([] { t_lib = 1; return true; }); k.wt->set_on_message([](Packet* p) { run_packet(p); }); k.wt->start("client"); }
	random_faults(r);
	// connect
	for (auto& px : k.cx) {
		Ctx& x = *px; int rcv = r.chance(1, 2) ? (int)r.range(2000, 20000) : 0;
		if (!client) { x.peer = peer_socket(x.port, rcv); { std::lock_guard<std::mutex> g(k.mu); k.byPort[x.port] = &x; } bool ok = x.peer >= 0 && peer_connect(x.peer, sport); if (!ok) { vh::viol("connect", "%s: peer cannot connect (%d)", x.what, errno); vh::die(1); } }
		else { x.lfd = peer_listen(x.port, 8, rcv); nonblock(x.lfd); run_wait(k, x, 0, [&] {
			TcpClientPtr c = std::make_shared<TcpClient>(k.wt->get_looper(), &x, x.idx); { std::lock_guard<std::mutex> g(x.mu); x.cli = c; x.wcli = c; }
			c->m_listener.on_connected = [&k, &x](TcpClientPtr, TcpConnectionPtr c2, bool ok) -> uint32_t { if (!ok) { vh::viol("connect-failed", "%s: reported as failed", x.what); return 0; } on_conn(k, x, c2); return 0; };
			c->m_listener.on_message = [&k, &x](TcpClientPtr, TcpConnectionPtr c2) { on_msg(k, x, c2); }; c->m_listener.on_close = [&k, &x](TcpClientPtr, TcpConnectionPtr c2) { on_close_(k, x, c2); };
			bool ok = c->connect(Address(g_ipStr, x.port)); VH_CHECK(ok, "connect", "%s: connect returned false (error %d, listening %d on %u)", x.what, errno, x.lfd, x.port);
			if (c->get_connection_state() == TcpConnection::kConnecting) for (int i = 0; i < x.cached; i++) { do_send(x, 0, nullptr, c.get(), x.own); vh::stat("cached_sends"); }
		}); while (x.peer < 0) { x.peer = __real_accept(x.lfd, 0, 0); if (x.peer < 0) wait_fd(x.lfd, POLLIN, 5); } nonblock(x.peer); __real_close(x.lfd); x.lfd = -1; }
	}
	std::vector<std::thread> ts; for (auto& px : k.cx) { ts.emplace_back(peer_main, px.get(), r.next()); ts.emplace_back(watcher, px.get()); }
	vh::tick("wait-connected"); for (auto& px : k.cx) while (!px->up) vh::usleep_(50);
	// senders
	std::vector<std::thread> ss; for (int s = 1; s <= ns; s++) ss.emplace_back([&, s] { Rng q(seed * 31 + s); for (int i = 0; i < per && !k.stopSend; i++) { Ctx& x = *k.cx[q.below(k.cx.size())]; TcpConnectionPtr c = x.get(); TcpClientPtr cl = x.client && q.chance(1, 3) ? x.getc() : nullptr; if (!c) continue; while (x.begunBytes - (long)x.recvd > 300000 && !x.closed && !k.stopSend) vh::usleep_(100); do_send(x, s, c.get(), cl.get(), q); if (!x.closed) vh::tick("send"); if (q.chance(1, 6)) vh::usleep_((unsigned)q.below(800)); } });
	Rng q(r.next());
	if (k.shutMode) {   // a shutdown from elsewhere (or one that no callback came round to)
		for (auto& px : k.cx) { Ctx& x = *px; vh::tick("wait-upstream"); while (x.consumed < x.upTotal) vh::usleep_(50); 
			if (q.chance(1, 2)) vh::usleep_((unsigned)q.below(4000)); if (x.shut) continue; int w = workerOf[x.idx];
			if (!client && x.trigger % 3 == 1) { TcpConnectionPtr c = x.get(); if (!x.shut.exchange(1)) { snapshot_lower(x); k.server->shutdown_connection(c); vh::stat("shut_via_server"); if (q.chance(1, 4)) k.server->shutdown_connection(c); } }
			else run_wait(k, x, w, [&k, &x] { TcpConnectionPtr c = x.get(); if (x.shut || x.closed) return; if (x.trigger % 3 == 0) own_send(x, c.get(), 4); if (!x.client && x.own.chance(1, 3)) { x.shut = 1; snapshot_lower(x); k.server->shutdown_connection(c); vh::stat("shut_via_server_own"); } else shutdown_direct(x, c); });
		}
		vh::tick("wait-end"); for (auto& px : k.cx) while (!px->peerOut || !px->closed) vh::usleep_(50);
		k.stopSend = q.chance(1, 2); for (auto& t : ss) t.join();
		for (auto& px : k.cx) { Ctx& x = *px; VH_CHECK(x.parse.clean(), "cut-message", "%s: the stream ends inside a message after %zu bytes", x.what, x.parse.bytes);
			for (int s = 0; s < MAXSEND; s++) { uint32_t got = x.parse.next.count((uint32_t)s) ? x.parse.next[(uint32_t)s] : 0; if (x.eof == 1 && got < x.lower[s]) vh::viol("tail-lost", "%s: %u messages of sender %d reached the peer, %u were sent before the shutdown", x.what, got, s, (uint32_t)x.lower[s]); if (got > x.upper[s]) vh::viol("sent-after-shutdown", "%s: %u messages of sender %d reached the peer, only %u were sent before the shutdown", x.what, got, s, (uint32_t)x.upper[s]); vh::stat("msgs_must", x.lower[s]); vh::stat("msgs_refused", x.begun[s] - got); }
			vh::stat("shutdowns"); if (x.eof == 1) vh::stat("eof_seen"); if (x.eof == 1 && x.completeAtShut >= 0) { VH_CHECK(x.completeCalls > x.completeAtShut, "complete-missing", "%s: what was buffered when the connection was shut down has reached the peer, but there was no send-complete callback", x.what); vh::stat("complete_after_shutdown"); } vh::stat("bytes_out", (long)x.parse.bytes); vh::distinct(vh::mix(vh::mix(vh::mix(vh::mix(seed, x.parse.frames), x.trigger), x.pace), x.idx)); }
	} else {
		for (auto& t : ss) t.join(); vh::tick("all-sent");
		for (auto& px : k.cx) { Ctx& x = *px; while ((x.leave ? x.handled : x.consumed) < x.upTotal || x.sentUp < x.upTotal) vh::usleep_(50); for (;;) { long cs = x.completes, co = x.completeOut, rc = (long)x.recvd, bb = x.begunBytes; if (rc == bb && (bb == 0 || (cs > 0 && (co <= 0 || co == bb)))) break; /* in this order: no callback has sent anything since */ vh::usleep_(50); } vh::stat("quiesced"); }
		if (k.statMode) for (auto& px : k.cx) { Ctx& x = *px; if (!shortPeriod) stat_check(k, x, workerOf[x.idx]); else { vh::usleep_((unsigned)(x.statPeriod + 5) * 1000); period_check(k, x, workerOf[x.idx]); } }
		for (auto& px : k.cx) { Ctx& x = *px; VH_CHECK(x.parse.clean(), "cut-message", "%s", x.what); for (int s = 0; s < MAXSEND; s++) { uint32_t got = x.parse.next.count((uint32_t)s) ? x.parse.next[(uint32_t)s] : 0; VH_CHECK(got == x.begun[s], "message-count", "%s: %u of %u messages of sender %d", x.what, got, (uint32_t)x.begun[s], s); } TcpConnectionPtr c = x.get(); VH_CHECK(c->get_state() == TcpConnection::kConnected, "state", "%s: state %d although nobody closed it", x.what, c->get_state()); vh::stat("messages_out", (long)x.parse.frames); vh::stat("bytes_out", (long)x.parse.bytes); vh::stat("completes", x.completes); vh::distinct(vh::mix(vh::mix(seed, x.parse.frames), x.completes)); }
		bool viaStop = !client && q.chance(1, 3); for (auto& px : k.cx) px->finish = 1; for (auto& px : k.cx) while (!px->peerOut) vh::usleep_(50);
		if (viaStop) vh::stat("closed_by_stop"); else for (auto& px : k.cx) { __real_close(px->peer); px->peer = -1; }
	}
	faults_off(); vh::tick("teardown");
	if (client) { for (auto& px : k.cx) { while (!px->closed) { if (px->peer >= 0) { __real_close(px->peer); px->peer = -1; } vh::usleep_(50); } } }
	else { if (k.shutMode || q.chance(1, 2)) for (auto& px : k.cx) while (!px->closed && px->peer < 0) vh::usleep_(50); for (auto& px : k.cx) if (px->closed) px->get()->send("x", 1); k.server->stop(); k.server->join(); for (auto& px : k.cx) VH_CHECK(px->closed == 1, "close-missing", "%s: no close callback after the server has stopped", px->what); }
	for (auto& px : k.cx) px->watchEnd = 1; for (auto& t : ts) t.join();
	for (auto& px : k.cx) { Ctx& x = *px; { TcpConnectionPtr c = x.get(); if (client) run_wait(k, x, 0, [] {}); VH_CHECK(c->get_state() == TcpConnection::kDisconnected && c->get_socket() == INVALID_SOCKET, "not-released", "%s: after its close callback: state %d, descriptor %d", x.what, c->get_state(), c->get_socket()); }
		if (client) run_wait(k, x, 0, [&x] { TcpClientPtr h; { std::lock_guard<std::mutex> g(x.mu); h.swap(x.cli); x.conn.reset(); } }); else { std::lock_guard<std::mutex> g(x.mu); x.conn.reset(); }
		VH_CHECK(x.wconn.expired() && x.wcli.expired(), "object-leak", "%s: connection object still alive (%ld references)", x.what, x.wconn.use_count()); if (x.peer >= 0) __real_close(x.peer); x.peer = -1; }
	if (client) { k.wt->get_looper()->push_stop_request(); k.wt->join(); k.wt.reset(); } else k.server.reset();
	for (int i = 0; vh::count_threads() > threads && i < 100000; i++) vh::usleep_(100);
	VH_CHECK(vh::count_fds() == fds, "fd-leak", "%d descriptors before, %d after", fds, vh::count_fds()); vh::stat("evaluations"); vh::stat("connections", n); vh::stat(client ? "client_cases" : "server_cases");
	if (vh::S().samples < 3) vh::sample("%s", vh::S().cur);
}
// The peer keeps writing and the data is unread when the connection is shut down: what was sent before must still arrive.
static void tail_case(Rng& r) {
	TcpServer s; std::atomic<int> up{ 0 }, closed{ 0 }; size_t total = r.range(400000, 900000); uint16_t port = 0; int peer = peer_socket(port, 4000);
	s.m_listener.on_master_thread_start = [&](TcpServer*, Looper*) { up = 1; }; s.m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr) { closed++; };
	s.m_listener.on_message = [&](TcpServer*, int32_t, TcpConnectionPtr c) { c->get_input_buf().reset(); std::string d(total, 'x'); c->send(d.data(), d.size()); char t = 'r'; for (int n = 0; n == 0;) { if (__real_write(peer, &t, 1) < 0 && errno != EAGAIN) break; vh::usleep_(1000); if (ioctl(c->get_socket(), FIONREAD, &n) != 0) break; } c->shutdown(); };
	s.bind(Address(g_ipStr, 0)); s.start(1); while (!up) vh::usleep_(100); bool ok = peer_connect(peer, s.get_bind_address(0).get_port()); VH_CHECK(ok, "connect", "connect"); char t = 'a'; (void)!__real_write(peer, &t, 1);
	size_t got = 0; std::vector<char> b(65536); int err = 0; vh::usleep_(20000); for (;;) { ssize_t n = __real_read(peer, b.data(), b.size()); if (n > 0) { got += (size_t)n; vh::tick("tail"); } else if (n == 0) break; else if (errno == EAGAIN) wait_fd(peer, POLLIN, 100); else { err = errno; break; } }
	if (got < total) vh::viol("tail-lost-unread", "shutdown with unread received data: the peer got %zu of %zu bytes sent before, then error %d", got, total, err); vh::stat("tail_cases"); vh::stat("evaluations");
	while (!closed) vh::usleep_(100); __real_close(peer); s.stop(); s.join();
}
// Far more is sent than the peer takes: all of it is kept and arrives once the peer reads.
static void backlog_case(Rng& r, long cno) {
	vh::setcase("case=%ld mode=backlog", cno); TcpServer s; std::atomic<int> up{ 0 }, closed{ 0 }, connected{ 0 }, completes{ 0 }, go{ 0 }; TcpConnectionPtr conn; std::mutex mu; uint16_t port = 0; int fds = vh::count_fds(), peer = peer_socket(port, 4000); int ns = (int)r.range(0, 3); size_t total = r.range(12u << 20, 90u << 20), each = total / (size_t)(ns + 1); uint64_t sd = r.next(); std::atomic<long> sent[5]; for (auto& v : sent) v = 0; std::atomic<int> ownDone{ 0 };
	s.m_listener.on_master_thread_start = [&](TcpServer*, Looper*) { t_lib = 1; up = 1; }; s.m_listener.on_work_thread_start = [&](TcpServer*, int32_t, Looper*) { t_lib = 1; }; s.m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr) { closed++; };
	auto fill = [&](TcpConnection* c, int id) { Rng q(sd + (uint64_t)id); uint32_t seq = 0; std::vector<char> b; for (size_t n = 0; n < each; ) { uint32_t len = (uint32_t)(q.chance(1, 30) ? q.range(1u << 20, 30u << 20) : q.chance(1, 3) ? q.range(60000, 900000) : q.below(60000)); if (len > each - n) len = (uint32_t)(each - n); make_frame(b, (uint32_t)id, seq++, len); c->send(b.data(), b.size()); n += b.size(); vh::tick("backlog-send"); } sent[id] = (long)seq; };
	s.m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr c) { c->set_on_send_complete([&](TcpConnectionPtr) { completes++; vh::tick("complete"); }); { std::lock_guard<std::mutex> l(mu); conn = c; } connected = 1; fill(c.get(), 0); ownDone = 1; };
	bool ok = s.bind(Address(g_ipStr, 0)) && s.start(1); VH_CHECK(ok, "start", "bind or start failed"); while (!up) vh::usleep_(100); if (r.chance(1, 2)) { f_short = 0; f_again = (int)r.range(3, 9); } ok = peer_connect(peer, s.get_bind_address(0).get_port()); VH_CHECK(ok, "connect", "connect"); while (!connected) vh::usleep_(100); std::vector<std::thread> ts; for (int i = 1; i <= ns; i++) ts.emplace_back([&, i] { fill(conn.get(), i); }); for (auto& t : ts) t.join(); while (!ownDone) vh::usleep_(100); faults_off();
	int big = 1 << 20; setsockopt(peer, SOL_SOCKET, SO_RCVBUF, &big, sizeof big); bool shut = r.chance(1, 2); if (shut) s.shutdown_connection(conn); FrameParser ps; std::vector<char> b(1 << 20); size_t want = 0, got = 0; for (int i = 0; i <= ns; i++) want += (size_t)sent[i];
	for (;;) { if (!shut && ps.frames == want && ps.clean()) break; ssize_t n = __real_read(peer, b.data(), b.size()); if (n > 0) { ps.feed(b.data(), (size_t)n, "backlog"); got += (size_t)n; vh::tick("peer-read"); if (ps.dead) break; } else if (n == 0) { VH_CHECK(shut, "closed-healthy", "the connection ends after %zu bytes", got); break; } else if (errno == EAGAIN) wait_fd(peer, POLLIN, 100); else { vh::viol("peer-reset", "error %d after %zu bytes", errno, got); break; } }
	VH_CHECK(ps.clean() && ps.frames == want, "send-lost-or-order", "%zu of %zu messages (%zu bytes) that were pending have arrived", ps.frames, want, got); if (!shut) { while (!completes) vh::usleep_(100); } vh::statmax("backlog_max_mb", (long)(got >> 20)); vh::stat("backlogs"); vh::stat("evaluations"); vh::distinct(vh::mix(sd, got)); { std::lock_guard<std::mutex> l(mu); conn.reset(); }
	__real_close(peer); s.stop(); s.join(); VH_CHECK(closed == 1, "close-missing", "%d close callbacks", (int)closed); VH_CHECK(vh::count_fds() == fds, "fd-leak", "%d descriptors before, %d after", fds, vh::count_fds());
}
// One send of more bytes than a 32 bit number (or one system call) can express.
static uint64_t word(size_t i) { return (uint64_t)i * 0x9E3779B97F4A7C15ull + 12345; }
static void huge_case(Rng& r, long cno, size_t bytes) {
	size_t avail = 0; { FILE* f = fopen("/proc/meminfo", "r"); char l[200]; while (f && fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %zu kB", &avail) == 1) break; if (f) fclose(f); } if ((avail >> 10) < (bytes >> 20) * 4 + 4000) return;      // not enough memory to try
	bool own = cno % 2 == 0; vh::setcase("case=%ld mode=huge own=%d bytes=%zu", cno, own, bytes); TcpServer s; std::atomic<int> up{ 0 }, closed{ 0 }, connected{ 0 }, completes{ 0 }; TcpConnectionPtr conn; std::mutex mu; uint16_t port = 0; int peer = peer_socket(port, 0); size_t nw = bytes / 8; std::vector<uint64_t> src(nw); for (size_t i = 0; i < nw; i++) src[i] = word(i); vh::tick("huge");
	s.m_listener.on_master_thread_start = [&](TcpServer*, Looper*) { up = 1; }; s.m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr) { closed++; };
	s.m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr c) { c->set_on_send_complete([&](TcpConnectionPtr) { completes++; }); if (own) c->send((const char*)src.data(), nw * 8); { std::lock_guard<std::mutex> l(mu); conn = c; } connected = 1; };
	bool ok = s.bind(Address(g_ipStr, 0)) && s.start(1); VH_CHECK(ok, "start", "bind or start failed"); while (!up) vh::usleep_(100); ok = peer_connect(peer, s.get_bind_address(0).get_port()); VH_CHECK(ok, "connect", "connect"); while (!connected) vh::usleep_(100); if (!own) conn->send((const char*)src.data(), nw * 8);
	std::vector<uint64_t> b(1 << 17); size_t got = 0, part = 0; bool bad = false; while (got + part < nw * 8 && !bad) { ssize_t n = __real_read(peer, (char*)b.data() + part, b.size() * 8 - part); if (n > 0) { vh::tick("peer-read"); size_t m = part + (size_t)n, w = m / 8, at = got / 8; uint64_t diff = 0; for (size_t i = 0; i < w; i++) diff |= at + i < nw ? b[i] ^ src[at + i] : 1; if (diff) { vh::viol("stream-altered", "a send of %zu bytes: something in the 8-byte words %zu..%zu is wrong", nw * 8, at, at + w); bad = true; } got += w * 8; part = m % 8; memmove(b.data(), b.data() + w, part); } else if (n == 0 || errno != EAGAIN) { vh::viol("peer-reset", "a send of %zu bytes: %s after %zu bytes", nw * 8, n ? strerror(errno) : "end of stream", got); bad = true; } else wait_fd(peer, POLLIN, 100); }
	if (!bad) { while (!completes) vh::usleep_(100); vh::usleep_(5000); char t; VH_CHECK(__real_read(peer, &t, 1) < 0 && errno == EAGAIN, "stream-altered", "more bytes than were sent"); } vh::stat(own ? "huge_own" : "huge_cross"); vh::stat("evaluations"); vh::distinct(vh::mix(bytes, own)); (void)r; conn.reset(); __real_close(peer); s.stop(); s.join(); VH_CHECK(closed == 1, "close-missing", "%d close callbacks", (int)closed);
}
int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); if (a.mode.empty()) a.mode = "stream"; vh::watchdog(); set_log_threshold(L_MAXIMUM_LEVEL);
	for (long c = 0; c < a.cases; c++) { if (a.only >= 0 && c != a.only) continue; Rng r(a.seed * 1000003 + (uint64_t)c); vh::tick("case"); pick_ip(); if (a.mode == "tail") tail_case(r); else if (a.mode == "backlog") backlog_case(r, c); else if (a.mode == "huge") huge_case(r, c, (size_t)a.geti("mb", 2200) << 20); else run_case(a, r, c); }
	fault_stats();
#if defined(__SANITIZE_ADDRESS__)
	if (a.geti("leaks", 0)) vh::leak_check();
#endif
	return vh::finish();
}
