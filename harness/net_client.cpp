// C12: connect, retry, disconnect of clients against refusing, silent, late, resetting and accepting servers.
#include "net.h"
#include <dirent.h>
#include <sys/timerfd.h>

enum { RUN_ID = 100 };
typedef std::function<void()> Fn;
static void run_packet(Packet* p) { Fn* f; memcpy(&f, p->get_packet_content(), sizeof f); (*f)(); delete f; }
struct World { WorkThread wt; std::thread::id tid; bool faults = false, watch = false; };
static void run_on(World& w, Fn f) { Fn* h = new Fn(f); char b[sizeof h]; memcpy(b, &h, sizeof h); w.wt.send_message(RUN_ID, sizeof h, b); }
static void run_wait(World& w, Fn f) { std::shared_ptr<std::atomic<int>> d(new std::atomic<int>(0)); run_on(w, [f, d] { f(); *d = 1; }); while (!*d) vh::usleep_(30); }

enum Kind { kAccept, kRefuse, kLate, kSilent, kReset, kUnreachable, kSilentThenAccept };
static const char* kindName[] = { "accept", "refuse", "late", "silent", "reset", "unreachable", "silent_then_accept" };
enum St { Idle, Connecting, Waiting, Connected, Ended, Cancelled, Closed, Failed };
static const char* stName[] = { "idle", "connecting", "waiting", "connected", "ended", "cancelled", "closed", "failed_at_once" };
enum Act { aNone, aSend, aDisconnect, aDisconnectConnect, aDrop, aShutdown };

struct Cx {
	World* w; int idx; Kind kind; Rng own{ 1 }; char what[80];
	TcpClientPtr cli; std::weak_ptr<TcpClient> wcli; std::weak_ptr<TcpConnection> wconn; uint16_t port = 0; int lfd = -1; std::vector<int> fill;
	// model, written on the looper's thread
	std::atomic<int> st{ Idle }, fails{ 0 }, succ{ 0 }, closes{ 0 }, callbacks{ 0 }, listening{ 0 }, reconnects{ 0 }, attempts{ 0 }, cancelAt{ 0 }, ended_by_us{ 0 };
	std::atomic<int64_t> waitUntil{ 0 }; std::atomic<uint32_t> waitMs{ 0 }; uint32_t lateFails = 0, maxFails = 0; std::atomic<uint32_t> seq{ 0 }, base{ 0 }, baseAtConnect{ 0 }, seqAtDisconnect{ 0 };
	Act inFail = aNone, inConnected = aNone, inMessage = aNone; int inFailAt = 0; size_t upTotal = 0; std::atomic<size_t> consumed{ 0 }; int peerEnd = 0;      // 0 close, 1 reset, 2 wait for the client
	std::atomic<int> decoy{ 0 }; uint16_t decoyPort = 0; int dfd = -1, failsAfter = 0;      // decoy: the first attempt goes to another address, where nobody listens
	std::atomic<int> dead{ 0 }; int inFailure = 0; uint32_t seqAtConnect = 0, oseq = 0; std::atomic<TcpClient*> look{ nullptr }; std::atomic<int> looking{ 0 };      // look: what other threads may use, until it is taken back
	void to(int s) { st = s; vh::tick("state"); }
};
static void unlook(Cx& x) { x.look = nullptr; while (x.looking) sched_yield(); }
static void drop(Cx& x) { unlook(x); TcpClientPtr h; h.swap(x.cli); x.dead = 1; vh::stat("dropped_last_reference"); }
static void send1(Cx& x) { if (!x.cli) return; std::vector<char> b; uint32_t len = (uint32_t)(x.own.chance(1, 2) ? x.own.below(100) : x.own.chance(1, 6) ? x.own.below(60000) : x.own.below(4000)); make_frame(b, 0, x.seq, len); int s = x.st; TcpConnection::State cs = x.cli->get_connection_state();
	if (s == Waiting && cs == TcpConnection::kConnecting) { int64_t now = vh::now_us(); VH_CHECK(now >= x.waitUntil - 1000, "retry-early", "%s: connecting again %.1f ms before the %u ms asked for were over", x.what, (x.waitUntil - now) * 1e-3, (uint32_t)x.waitMs); vh::stat("retries"); s = Connecting; x.to(Connecting); }
	if (s == Connecting && x.inFailure && cs == TcpConnection::kDisconnected) { x.cli->send(b.data(), b.size()); vh::stat("sent_failed_at_once"); return; }      // the attempt did not even begin
	if (s == Connecting) { VH_CHECK(cs == TcpConnection::kConnecting, "state", "%s: state %d while connecting", x.what, cs); x.seq++; x.cli->send(b.data(), b.size()); memset(b.data(), 0xEE, b.size()); vh::stat("sent_connecting"); }
	else if (s == Connected && cs == TcpConnection::kConnected) { x.seq++; x.cli->send(b.data(), b.size()); vh::stat("sent_connected"); }
	else if (s == Waiting || s == Ended || s == Cancelled) { VH_CHECK(cs == TcpConnection::kDisconnected, "state", "%s: state %d while %s", x.what, cs, stName[s]); x.cli->send(b.data(), b.size()); vh::stat("sent_unconnected"); } }      // goes nowhere
static void cancel(Cx& x) {      // disconnect() at any time
	if (!x.cli) return; int s = x.st; x.ended_by_us = 1; x.seqAtDisconnect = x.seq.load();
	if (s == Connecting || s == Waiting) { vh::stat(s == Connecting ? "cancel_connecting" : "cancel_waiting"); x.to(Cancelled); x.base = x.seq.load(); x.cli->disconnect(); x.cancelAt = x.callbacks.load(); VH_CHECK(x.cli->get_connection_state() == TcpConnection::kDisconnected, "state", "%s: state %d after disconnect", x.what, x.cli->get_connection_state()); }
	else if (s == Connected) { vh::stat("disconnect_connected"); x.cli->disconnect(); }
	else if (s != Idle) { vh::stat("disconnect_idle"); x.cli->disconnect(); if (s != Closed) x.base = x.seq.load(); } }
static void start(Cx& x) {      // connect() on the looper's thread
	x.attempts++; x.ended_by_us = 0; x.to(Connecting); bool ok = x.cli->connect(x.kind == kUnreachable ? Address("255.255.255.255", 9) : Address(g_ipStr, x.decoy == 1 ? x.decoyPort : x.port));
	if (!ok) { if (x.kind != kUnreachable && !n_socketErr && !n_nextErr) vh::viol("connect-false", "%s: connect() returned false", x.what); x.to(Failed); vh::stat("connect_false"); VH_CHECK(x.cli->get_connection_state() == TcpConnection::kDisconnected, "state", "%s: state %d after connect() failed", x.what, x.cli->get_connection_state()); }
	else { VH_CHECK(x.kind != kUnreachable, "connect-true", "%s: connect() to an unreachable address returned true", x.what); VH_CHECK(x.cli->get_connection_state() == TcpConnection::kConnecting, "state", "%s: state %d after connect()", x.what, x.cli->get_connection_state()); for (int i = (int)x.own.below(4); i > 0; i--) send1(x); } }
static uint32_t on_connected(Cx& x, TcpClientPtr c, TcpConnectionPtr conn, bool ok) {
	x.callbacks++; int s = x.st; int64_t now = vh::now_us(); vh::tick("connected callback");
	VH_CHECK(std::this_thread::get_id() == x.w->tid, "thread", "%s: callback on another thread", x.what); VH_CHECK(c.get() == x.wcli.lock().get(), "client", "%s: another client object", x.what);
	if (s == Waiting) { VH_CHECK(now >= x.waitUntil - 1000, "retry-early", "%s: the result of the next attempt came %.1f ms before the %u ms asked for were over", x.what, (x.waitUntil - now) * 1e-3, (uint32_t)x.waitMs); vh::stat("retries"); s = Connecting; x.to(Connecting); }
	if (s != Connecting) { vh::viol(s == Cancelled ? "callback-after-disconnect" : s == Connected ? "connected-twice" : "unexpected-connected", "%s: connected callback (%s) while %s", x.what, ok ? "success" : "failure", stName[s]); return 0; }
	VH_CHECK(ok == !!conn, "connection-argument", "%s: success %d with connection %p", x.what, ok, (void*)conn.get());
	if (ok) {
		x.succ++; VH_CHECK(x.decoy != 1, "false-success", "%s: success although nobody listens at the address asked for", x.what); VH_CHECK(x.listening || x.kind == kAccept || x.kind == kReset || x.kind == kSilentThenAccept, "false-success", "%s: success although no server is listening", x.what);
		x.wconn = conn; x.baseAtConnect = x.base.load(); x.seqAtConnect = x.seq; x.to(Connected); VH_CHECK(conn->get_state() == TcpConnection::kConnected && c->get_connection_state() == TcpConnection::kConnected, "state", "%s: state %d when connected", x.what, conn->get_state()); VH_CHECK(conn->get_peer_addr().get_port() == x.port || (x.kind == kReset && conn->get_peer_addr().get_port() == 0), "peer-address", "%s: peer port %u, not %u", x.what, conn->get_peer_addr().get_port(), x.port);
		for (int i = (int)x.own.below(4); i > 0; i--) send1(x);
		switch (x.inConnected) { case aDisconnect: cancel(x); break; case aShutdown: x.ended_by_us = 1; x.seqAtDisconnect = x.seq.load(); conn->shutdown(); break; default: break; }
		return x.own.chance(1, 3) ? 5 : 0;      // meaningless on success
	}
	if (x.decoy == 1) {      // now to the right one
		x.decoy = 2; vh::stat("decoy_failed"); if (x.own.chance(1, 3)) { cancel(x); x.cancelAt = 0; start(x); return x.own.chance(1, 2) ? 3 : 0; } x.to(Ended); return 0; }
	if (x.listening == 1) VH_CHECK(++x.failsAfter < 30, "retry-elsewhere", "%s: %d attempts failed since the server listens", x.what, x.failsAfter);
	int n = ++x.fails; VH_CHECK(x.kind != kAccept && x.kind != kSilentThenAccept && !(x.kind == kLate && x.listening == 2) , "false-failure", "%s: failure although the server accepts", x.what);
	vh::stat("failures"); x.inFailure = 1; if (x.own.chance(1, 3)) send1(x); else if (x.own.chance(1, 2)) VH_CHECK(c->get_connection_state() == TcpConnection::kConnecting || c->get_connection_state() == TcpConnection::kDisconnected, "state", "%s: state %d in the failure callback", x.what, c->get_connection_state());
	x.inFailure = 0; if (c->get_connection_state() == TcpConnection::kDisconnected) vh::stat("failed_at_once");
	uint32_t ms = (uint32_t)n >= x.maxFails ? 0 : (uint32_t)(x.own.chance(1, 4) ? 1 : x.own.range(1, 25));
	if (ms && !(x.inFail && x.inFailAt > n) && !(x.decoy == 2 && x.listening) && x.own.chance(1, 8)) { static const uint32_t big[] = { 65536, 65536 * 3, 1u << 24, 1u << 31, 0xFFFFFF00u, 4294968, 4294967296u / 1000 * 2, 2147484, 10000 }; ms = big[x.own.below(9)] + (uint32_t)x.own.below(40); vh::stat("long_waits"); }      // cancelled before it is over
	if (x.inFailAt == n) switch (x.inFail) { case aDisconnect: cancel(x); return ms; case aDisconnectConnect: cancel(x); vh::stat("reconnect_in_callback"); x.cancelAt = 0; start(x); return ms; case aDrop: drop(x); break; default: break; }
	if (ms && ms < 10000 && x.own.chance(1, 5)) { t_nextErr = 1 + (int)x.own.below(2); vh::stat("retry_to_fail_at_once"); }      // the next attempt (most likely this one's) cannot even begin
	if (ms) { x.waitMs = ms; x.waitUntil = vh::now_us() + (int64_t)ms * 1000; x.to(Waiting); } else x.to(Ended);
	if (x.kind == kLate && (uint32_t)n >= x.lateFails && !x.listening) { x.listening = 1; if (::listen(x.lfd, 16) != 0) vh::viol("harness", "listen %d", errno); }
	return ms;
}
static void on_message(Cx& x, TcpConnectionPtr c) {
	vh::tick("message"); VH_CHECK(x.st == Connected, "message-outside", "%s: message while %s", x.what, stName[x.st]); RingBuf& b = c->get_input_buf(); std::vector<char> t(b.size()); size_t n = b.memcpy_out(t.data(), t.size()), at = x.consumed;
	for (size_t i = 0; i < n; i++) if ((uint8_t)t[i] != upatt((uint32_t)x.idx, at + i)) { vh::viol("received-bytes", "%s: byte %zu is wrong", x.what, at + i); break; } x.consumed = at + n; VH_CHECK(at + n <= x.upTotal, "received-count", "%s: %zu bytes, the server writes %zu", x.what, at + n, x.upTotal);
	if (x.own.chance(1, 3)) send1(x); if (x.inMessage == aDisconnect && c->get_state() == TcpConnection::kConnected) cancel(x);
}
static void on_close(Cx& x, TcpConnectionPtr c) {
	vh::tick("close"); VH_CHECK(x.st == Connected, "close-outside", "%s: close callback while %s", x.what, stName[x.st]); VH_CHECK(++x.closes == 1, "close-twice", "%s: %d close callbacks", x.what, (int)x.closes); VH_CHECK(c->get_state() == TcpConnection::kDisconnected, "state", "%s: state %d in the close callback", x.what, c->get_state());
	if (x.own.chance(1, 4) && x.cli) x.cli->disconnect(); x.to(Closed);
}
static void make_client(Cx& x) {
	x.cli = std::make_shared<TcpClient>(x.w->wt.get_looper(), &x, x.idx); x.wcli = x.cli; if (x.w->watch) x.look = x.cli.get(); VH_CHECK(x.cli->get_connection_state() == TcpConnection::kDisconnected && x.cli->get_param() == &x, "state", "%s: fresh client", x.what);
	x.cli->m_listener.on_connected = [&x](TcpClientPtr c, TcpConnectionPtr n, bool ok) -> uint32_t { return on_connected(x, c, n, ok); }; x.cli->m_listener.on_message = [&x](TcpClientPtr, TcpConnectionPtr n) { on_message(x, n); }; x.cli->m_listener.on_close = [&x](TcpClientPtr, TcpConnectionPtr n) { on_close(x, n); };
}
// a wait no run can sit out: when the loop's timers are kernel timers, one of them has to be set to it
static void check_armed(Cx& x) {
	run_wait(*x.w, [&x] {
		if (x.st != Waiting || x.waitMs < 10000 || x.dead) return; int timers = 0; bool found = false; int64_t best = -1, want = x.waitUntil - vh::now_us(); DIR* d = opendir("/proc/self/fd"); if (!d) return;
		while (dirent* e = readdir(d)) { int f = atoi(e->d_name); char l[64]; std::string p = std::string("/proc/self/fd/") + e->d_name; ssize_t n = readlink(p.c_str(), l, sizeof l - 1); if (n <= 0) continue; l[n] = 0; if (!strstr(l, "[timerfd]")) continue; struct itimerspec v; if (timerfd_gettime(f, &v)) continue; timers++; int64_t left = (int64_t)v.it_value.tv_sec * 1000000 + v.it_value.tv_nsec / 1000; if (best < 0 || llabs(left - want) < llabs(best - want)) best = left; if (left >= want - 50000 && left <= want + want / 500 + 500000) found = true; }
		closedir(d); if (timers) { VH_CHECK(found, "retry-armed", "%s: the next attempt is due in %.3f s (%u ms were asked for), but no timer is set to that, the nearest to %.3f s", x.what, want * 1e-6, (uint32_t)x.waitMs, best * 1e-6); vh::stat("armed_checked"); }
	});
}
// the server side of one client, and the moments at which something is asked of the client from outside its callbacks
static void drive(Cx* px, uint64_t seed) {
	Cx& x = *px; Rng q(seed); std::vector<char> b(1 << 16); double t0 = vh::now(); Act ext = aNone; double extAt = 0; int pfd = -1; FrameParser ps; ps.anyStart = true; size_t up = 0; int accepted = 0; double fillAt = 0; bool peerErr = false, peerEnded = false;
	if (q.chance(1, 2) || x.kind == kSilent) { ext = q.chance(1, 5) ? aDrop : aDisconnect; extAt = t0 + (x.kind == kSilent || q.chance(1, 2) ? q.below(40) : q.below(4)) * 1e-3; } if (x.kind == kSilentThenAccept) { ext = aNone; fillAt = t0 + 0.005; }
	run_wait(*x.w, [&] { make_client(x); if (q.chance(1, 8)) { x.cli->disconnect(); vh::stat("disconnect_fresh"); } start(x); if (ext == aDisconnect && q.chance(1, 5)) { cancel(x); ext = aNone; } });
	for (;;) {
		bool any = false; double now = vh::now(); int s = x.st;
		if (fillAt && now > fillAt) { for (int f : x.fill) peer_reset(f); x.fill.clear(); for (int f; (f = __real_accept(x.lfd, 0, 0)) >= 0;) __real_close(f); fillAt = 0; }
		if (ext && now >= extAt) { Act e = ext; ext = aNone; run_wait(*x.w, [&x, e] { if (x.dead) return; int s2 = x.st; if (e == aDrop && s2 != Connected && s2 != Closed) drop(x); else if (e == aDrop || e == aDisconnect) cancel(x); }); any = true; }
		if (s == Waiting && x.waitMs >= 10000 && !ext) { check_armed(x); ext = q.chance(1, 3) ? aDrop : aDisconnect; extAt = now + (double)q.range(2, 60) * 1e-3; }
		if (s == Connecting && q.chance(1, 40)) { run_wait(*x.w, [&x] { send1(x); }); any = true; }
		if (pfd < 0 && (x.listening || x.kind == kAccept || x.kind == kReset) ) { int f = __real_accept(x.lfd, 0, 0); if (f >= 0) { any = true; accepted++; nonblock(f); if (x.kind == kReset) { if (q.chance(1, 2)) vh::usleep_((unsigned)q.below(500)); peer_reset(f);  } else { pfd = f; up = 0; } } }
		if (pfd < 0 && x.kind == kSilentThenAccept && !fillAt ) { int f = __real_accept(x.lfd, 0, 0); if (f >= 0) { any = true; accepted++; nonblock(f); pfd = f; up = 0; } }
		if (pfd >= 0) {
			if (up < x.upTotal) { size_t n = std::min<size_t>(x.upTotal - up, q.range(1, 3000)); for (size_t i = 0; i < n; i++) b[i] = (char)upatt((uint32_t)x.idx, up + i); ssize_t w = __real_send(pfd, b.data(), n, MSG_NOSIGNAL); if (w > 0) { up += (size_t)w; any = true; } else if (errno != EAGAIN) peerErr = true; }
			ssize_t r = __real_read(pfd, b.data(), q.chance(1, 4) ? q.range(1, 500) : b.size()); if (r > 0) { ps.feed(b.data(), (size_t)r, x.what); any = true; vh::tick("peer-read"); }
			else if (r == 0 || (r < 0 && errno != EAGAIN && errno != EINTR)) { if (r < 0) peerErr = true; __real_close(pfd); pfd = -1;  any = true; }
			else if (x.peerEnd != 2 && (s == Connected) && ps.count[0] == x.seq - x.baseAtConnect && up == x.upTotal && x.consumed == up && q.chance(1, 3)) { vh::stat("peer_ended"); peerEnded = true; if (x.peerEnd == 1) peer_reset(pfd); else __real_close(pfd); pfd = -1;  any = true; }
			else if (x.peerEnd == 2 && s == Connected && !ext && !x.ended_by_us && ps.count[0] == x.seq - x.baseAtConnect && up == x.upTotal) { vh::stat("client_ends"); run_wait(*x.w, [&x] { if (x.st == Connected) cancel(x); }); any = true; }
		}
		s = x.st; if (x.dead && s != Connected) break; if (s == Ended || s == Cancelled || s == Failed || (s == Closed && pfd < 0)) {
			if (s != Closed && x.reconnects == 0 && !x.dead && (x.decoy == 2 || q.chance(1, 2))) {      // the same client may be asked again
				bool did = false; run_wait(*x.w, [&] { if (x.dead || !(x.st == Ended || x.st == Cancelled || x.st == Failed)) return; x.reconnects++; x.base = x.seq.load(); x.cli->disconnect(); x.cancelAt = 0; start(x); did = true; }); if (did) { vh::stat("reconnects"); if (x.kind == kSilent || (x.kind != kSilentThenAccept && q.chance(1, 3))) { ext = aDisconnect; extAt = vh::now() + q.below(20) * 1e-3; } continue; } }
			else if (!ext) { int s3 = -1; run_wait(*x.w, [&] { s3 = x.st; }); if (s3 == s) break; } }
		if (!any) { pollfd pp[2] = { { pfd >= 0 ? pfd : -1, POLLIN, 0 }, { x.lfd, POLLIN, 0 } }; poll(pp, 2, 1); }
	}
	// nothing may come after the end
	int cb = x.callbacks, cl = x.closes; int st = x.st; vh::usleep_((unsigned)(st == Cancelled || x.dead ? std::min<uint32_t>(x.waitMs + 10, 40) * 1000 : 3000)); run_wait(*x.w, [] {}); VH_CHECK(x.callbacks == cb && x.closes == cl, "callback-after-end", "%s: %d more connected and %d more close callbacks after it was %s", x.what, x.callbacks - cb, x.closes - cl, stName[st]);
	while (pfd >= 0) { ssize_t r = __real_read(pfd, b.data(), b.size()); if (r > 0) ps.feed(b.data(), (size_t)r, x.what); else if (r == 0 || (errno != EAGAIN && errno != EINTR)) { if (r < 0) peerErr = true; __real_close(pfd); pfd = -1; } else wait_fd(pfd, POLLIN, 20); }
	if (ps.bytes && x.succ) {      // what arrived: everything sent since the last disconnect, once and in order
		uint32_t f = ps.first.count(0) ? ps.first[0] : x.baseAtConnect.load(); if (ps.otherAt >= 0) { vh::stat("watcher_delivered", ps.count[1]); if (x.seqAtConnect != x.baseAtConnect) vh::stat("watcher_behind_cached"); VH_CHECK(ps.otherAt >= (long)(x.seqAtConnect - x.baseAtConnect), "cached-overtaken", "%s: a message another thread sent after it saw the connection established arrived after %ld of the %u messages sent while connecting", x.what, ps.otherAt, x.seqAtConnect - x.baseAtConnect); VH_CHECK(ps.first[1] == 0, "watcher-order", "%s: first message of the other thread is %u", x.what, ps.first[1]); } VH_CHECK(f == x.baseAtConnect, "cached-first", "%s: the first message is %u, should be %u", x.what, f, (uint32_t)x.baseAtConnect); bool strict = !peerErr && !peerEnded && x.upTotal == 0 && x.kind != kReset; if (strict && x.ended_by_us) { VH_CHECK(ps.clean() && ps.count[0] == x.seqAtDisconnect - x.baseAtConnect, "cached-lost", "%s: %u messages arrived, %u were sent", x.what, ps.count[0], x.seqAtDisconnect - x.baseAtConnect); vh::stat("delivered_all"); } vh::stat("delivered", (long)ps.frames); }
	VH_CHECK(!ps.bytes || x.succ, "data-without-success", "%s: %zu bytes reached the server, but success was never reported", x.what, ps.bytes); VH_CHECK(x.closes == (x.succ ? 1 : 0), "close-count", "%s: %d success, %d close callbacks", x.what, (int)x.succ, (int)x.closes);
	if (x.succ && x.peerEnd == 0 && !x.ended_by_us && x.kind != kReset) VH_CHECK(x.consumed == up, "received-lost", "%s: %zu of %zu bytes received before the close", x.what, (size_t)x.consumed, up);
	run_wait(*x.w, [&x] { unlook(x); TcpClientPtr h; h.swap(x.cli); h.reset(); }); run_wait(*x.w, [] {}); VH_CHECK(x.wcli.expired() && x.wconn.expired(), "object-leak", "%s: client or connection still alive", x.what);
	for (int f : x.fill) peer_reset(f); x.fill.clear(); if (x.lfd >= 0) __real_close(x.lfd); if (x.dfd >= 0) __real_close(x.dfd); vh::stat(kindName[x.kind]); vh::stat((std::string("end_") + stName[st]).c_str()); vh::distinct(vh::mix(vh::mix(vh::mix(x.kind * 97 + st, x.fails), x.callbacks), x.seq));
}
// another thread looks at the clients' state all the time, and sends as soon as one is connected
static void watch_clients(std::vector<std::unique_ptr<Cx>>* cx, std::atomic<int>* stop, uint64_t seed) {
	Rng q(seed); std::vector<char> b; std::vector<int> last(cx->size(), -1), left(cx->size()); for (auto& n : left) n = (int)q.below(6); long n = 0;
	while (!*stop) {
		size_t i = q.below(cx->size()); Cx& x = *(*cx)[i]; x.looking++; TcpClient* c = x.look;
		if (c) for (int k = (int)q.range(1, 20); k > 0 && x.look.load(std::memory_order_relaxed); k--) { TcpConnection::State s = c->get_connection_state(); n++; VH_CHECK(c->get_param() == &x, "param", "%s: another parameter", x.what); VH_CHECK(s >= TcpConnection::kConnecting && s <= TcpConnection::kDisconnected && !(last[i] == TcpConnection::kConnected && s == TcpConnection::kConnecting) && !(last[i] == TcpConnection::kDisconnecting && s < TcpConnection::kDisconnecting), "state-back", "%s: state %d after %d", x.what, s, last[i]); last[i] = s;
			if (s == TcpConnection::kConnected && left[i] > 0) { left[i]--; make_frame(b, 1, x.oseq++, (uint32_t)q.below(3000)); c->send(b.data(), b.size()); memset(b.data(), 0xEE, b.size()); vh::stat("watcher_sends"); } }
		x.looking--; if (q.chance(1, 30)) vh::usleep_((unsigned)q.below(200)); else sched_yield();
	}
	vh::stat("watcher_states", n);
}
static void run_case(vh::Args& a, Rng& r, long cno) {
	int n = (int)r.range(1, (uint64_t)a.geti("clients", 6)); int fds0 = vh::count_fds(), thr0 = vh::count_threads(); bool slow = a.geti("slow", 0) != 0; vh::setcase("case=%ld clients=%d", cno, n); vh::tick("setup"); 
	{ World w; w.watch = r.chance(1, 2); w.wt.set_on_start([&w] { t_lib = 1; w.tid = std::this_thread::get_id(); return true; }); w.wt.set_on_message([](Packet* p) { run_packet(p); }); w.wt.start("client"); run_wait(w, [] {}); int base = vh::count_fds(); random_faults(r);
	std::vector<std::unique_ptr<Cx>> cx; std::vector<std::thread> ts; std::atomic<int> stopWatch{ 0 };
	for (int i = 0; i < n; i++) {
		Cx* x = new Cx; cx.emplace_back(x); x->w = &w; x->idx = i; x->own = Rng(r.next()); static const Kind ks[] = { kAccept, kAccept, kAccept, kRefuse, kRefuse, kLate, kLate, kLate, kSilent, kReset, kUnreachable, kSilent }; x->kind = slow && r.chance(1, 3) ? kSilentThenAccept : ks[r.below(12)];
		x->maxFails = x->kind == kLate ? 1000 : (uint32_t)r.range(1, 5); x->lateFails = (uint32_t)r.range(1, 4); x->inFail = r.chance(1, 3) ? (r.chance(1, 2) ? aDisconnect : r.chance(1, 2) ? aDrop : aDisconnectConnect) : aNone; x->inFailAt = (int)r.range(1, 3); x->inConnected = r.chance(1, 6) ? aDisconnect : r.chance(1, 8) ? aShutdown : aNone; x->inMessage = r.chance(1, 4) ? aDisconnect : aNone; x->upTotal = r.chance(1, 2) ? 0 : r.range(1, 20000); x->peerEnd = (int)r.below(3); if (x->kind == kReset) x->upTotal = 0;
		x->lfd = __real_socket(AF_INET, SOCK_STREAM, 0); sockaddr_in ad = loop_addr(0); if (::bind(x->lfd, (sockaddr*)&ad, sizeof ad) != 0) { vh::viol("harness", "bind %d", errno); vh::die(1); } x->port = port_of(x->lfd); if (x->kind != kUnreachable && r.chance(1, 6)) { x->decoy = 1; x->dfd = __real_socket(AF_INET, SOCK_STREAM, 0); sockaddr_in da = loop_addr(0); if (::bind(x->dfd, (sockaddr*)&da, sizeof da) != 0) { vh::viol("harness", "bind %d", errno); vh::die(1); } x->decoyPort = port_of(x->dfd); } nonblock(x->lfd); snprintf(x->what, sizeof x->what, "client %d (%s)", i, kindName[x->kind]);
		if (x->kind == kAccept || x->kind == kReset) { ::listen(x->lfd, 16); x->listening = 2; }
		if (x->kind == kSilent || x->kind == kSilentThenAccept) { ::listen(x->lfd, 0); for (int k = 0; k < 3; k++) { int f = __real_socket(AF_INET, SOCK_STREAM, 0); nonblock(f); sockaddr_in la = loop_addr(x->port); (void)!::connect(f, (sockaddr*)&la, sizeof la); x->fill.push_back(f); } vh::usleep_(200); }
	}
	std::thread wth; if (w.watch) wth = std::thread(watch_clients, &cx, &stopWatch, r.next());
	for (auto& x : cx) ts.emplace_back(drive, x.get(), r.next());
	for (auto& t : ts) t.join(); stopWatch = 1; if (w.watch) wth.join(); faults_off();
	run_wait(w, [] {}); for (int i = 0; vh::count_fds() != base && i < 5000; i++) vh::usleep_(100); VH_CHECK(vh::count_fds() == base, "fd-leak", "all clients are gone: %d descriptors before, %d after", base, vh::count_fds());
	vh::stat("clients", n); vh::stat("evaluations", n); w.wt.get_looper()->push_stop_request(); w.wt.join();  }
	for (int i = 0; vh::count_threads() > thr0 && i < 100000; i++) vh::usleep_(100); VH_CHECK(vh::count_fds() == fds0, "fd-leak", "%d descriptors before, %d after", fds0, vh::count_fds()); if (vh::S().samples < 3) vh::sample("%s", vh::S().cur);
}
int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); vh::watchdog(); set_log_threshold(L_MAXIMUM_LEVEL);
	for (long c = 0; c < a.cases; c++) { if (a.only >= 0 && c != a.only) continue; Rng r(a.seed * 1000003 + (uint64_t)c); vh::tick("case"); pick_ip(); run_case(a, r, c); }
	fault_stats();
#if defined(__SANITIZE_ADDRESS__)
	if (a.geti("leaks", 0)) vh::leak_check();
#endif
	return vh::finish();
}
