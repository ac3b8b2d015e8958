// C25: Address construction/comparison/copies, name look-ups, byte order.
#include <cy_core.h>
#include <cy_network.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include <unordered_set>
#include "vh.h"
using namespace cyclone;
using vh::Rng;

// ---- look-ups are answered by the monitor (lists of v4/v6 records, failures) ----------------------
struct Rec { bool v6; uint32_t ip; };
static bool g_fake = false, g_fail = false; static std::vector<Rec> g_list; static std::set<void*> g_live; static long g_calls = 0; static std::string g_asked;
extern "C" {
int __real_getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**);
void __real_freeaddrinfo(struct addrinfo*);
int __wrap_getaddrinfo(const char* n, const char* s, const struct addrinfo* h, struct addrinfo** out) {
	if (!g_fake) return __real_getaddrinfo(n, s, h, out);
	g_calls++; g_asked = n ? n : "(null)";
	if (g_fail) return EAI_NONAME;
	addrinfo* first = 0; addrinfo** tail = &first;
	for (auto& r : g_list) {
		if (h && h->ai_family == AF_INET && r.v6) continue;
		addrinfo* a = (addrinfo*)calloc(1, sizeof *a);
		if (r.v6) { auto* x = (sockaddr_in6*)calloc(1, sizeof(sockaddr_in6)); x->sin6_family = AF_INET6; memset(&x->sin6_addr, 0xEE, 16); a->ai_addr = (sockaddr*)x; a->ai_addrlen = sizeof *x; a->ai_family = AF_INET6; }
		else { auto* x = (sockaddr_in*)calloc(1, sizeof(sockaddr_in)); x->sin_family = AF_INET; x->sin_addr.s_addr = r.ip; a->ai_addr = (sockaddr*)x; a->ai_addrlen = sizeof *x; a->ai_family = AF_INET; }
		a->ai_socktype = SOCK_STREAM; a->ai_protocol = IPPROTO_TCP;
		*tail = a; tail = &a->ai_next;
	}
	if (!first) return EAI_NONAME;
	g_live.insert(first); *out = first; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo* a) {
	if (!g_live.count(a)) { __real_freeaddrinfo(a); return; }
	g_live.erase(a);
	while (a) { addrinfo* n = a->ai_next; free(a->ai_addr); free(a); a = n; }
}
}

static std::string dotted(uint32_t ip) { const uint8_t* b = (const uint8_t*)&ip; char s[32]; snprintf(s, sizeof s, "%u.%u.%u.%u", b[0], b[1], b[2], b[3]); return s; }
static uint32_t pickIp(Rng& r) {
	switch (r.below(6)) { case 0: return 0; case 1: return 0xFFFFFFFFu; case 2: return htonl(INADDR_LOOPBACK); case 3: return htonl((uint32_t)r.below(4)); case 4: { uint8_t b[4]; for (auto& x : b) x = (uint8_t)(r.chance(1, 3) ? 255 : r.chance(1, 3) ? 0 : r.below(256)); uint32_t v; memcpy(&v, b, 4); return v; } default: return (uint32_t)r.next(); }
}
static uint16_t pickPort(Rng& r) { static const uint16_t sp[] = { 0, 1, 255, 256, 0x00FF, 0xFF00, 0x7FFF, 0x8000, 65535, 80 }; return r.chance(1, 2) ? sp[r.below(10)] : (uint16_t)r.next(); }

static void expect(const char* how, const Address& a, uint32_t ip, uint16_t port, bool text = true) {
	vh::stat("evaluations"); vh::distinct(vh::mix(vh::mix(ip, port), how[0] * 256 + how[1]));
	if (text) VH_CHECK(dotted(ip) == a.get_ip(), "ip-text", "%s: get_ip() is '%.31s', the address is %s", how, a.get_ip(), dotted(ip).c_str());
	VH_CHECK(a.get_port() == port, "port", "%s: get_port() is %u, expected %u", how, a.get_port(), port);
	const sockaddr_in& s = a.get_sockaddr_in();
	VH_CHECK(s.sin_addr.s_addr == ip && s.sin_port == htons(port), "native", "%s: native form %08x:%04x, expected %08x:%04x", how, s.sin_addr.s_addr, s.sin_port, ip, htons(port));
}
// builds in a block of memory with the given previous content
template <class F> static void poisoned(Rng& r, F make) {
	alignas(16) char mem[2][sizeof(Address)];
	memset(mem[0], 0x5A, sizeof mem[0]); memset(mem[1], 0xC3, sizeof mem[1]);
	Address* a = make(mem[0]); Address* b = make(mem[1]);
	VH_CHECK(strncmp(a->get_ip(), b->get_ip(), 32) == 0 && a->get_port() == b->get_port() && *a == *b && memcmp(&a->get_sockaddr_in().sin_addr, &b->get_sockaddr_in().sin_addr, 4) == 0 && a->get_sockaddr_in().sin_family == b->get_sockaddr_in().sin_family, "undefined", "the value built depends on the memory's previous content: '%.31s':%u and '%.31s':%u", a->get_ip(), a->get_port(), b->get_ip(), b->get_port());
	a->~Address(); b->~Address(); vh::stat("poison_pairs");
}

static bool refText(const std::string& s, uint32_t& ip) {       // strict dotted quad
	uint8_t b[4]; size_t i = 0;
	for (int k = 0; k < 4; k++) {
		size_t st = i; unsigned v = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9' && i - st < 4) v = v * 10 + (unsigned)(s[i++] - '0');
		if (i == st || i - st > 3 || v > 255 || (i - st > 1 && s[st] == '0')) return false;
		b[k] = (uint8_t)v;
		if (k < 3) { if (i >= s.size() || s[i] != '.') return false; i++; }
	}
	if (i != s.size()) return false;
	memcpy(&ip, b, 4); return true;
}

static void value_case(Rng& r) {
	uint32_t ip = pickIp(r), ip2 = r.chance(1, 2) ? ip : pickIp(r); uint16_t p = pickPort(r), p2 = r.chance(1, 2) ? p : pickPort(r);
	if (r.chance(1, 4)) ip2 = ip ^ (1u << r.below(32)); if (r.chance(1, 4)) p2 = (uint16_t)(p ^ (1u << r.below(16)));
	vh::setcase("%s:%u %s:%u", dotted(ip).c_str(), p, dotted(ip2).c_str(), p2);
	char* txt = strdup(dotted(ip).c_str());
	Address a(txt, p); memset(txt, 'x', strlen(txt)); free(txt);
	expect("text", a, ip, p);
	sockaddr_in raw; memset(&raw, 0, sizeof raw); raw.sin_family = AF_INET; raw.sin_addr.s_addr = ip2; raw.sin_port = htons(p2);
	if (r.chance(1, 3)) memset(raw.sin_zero, (int)r.next(), sizeof raw.sin_zero);
	Address b(raw); memset(&raw, 0x33, sizeof raw);
	expect("raw", b, ip2, p2);
	bool same = ip == ip2 && p == p2; if (same) vh::stat("equal_pairs"); else vh::stat("unequal_pairs");
	VH_CHECK((a == b) == same && (b == a) == same && a == a, "equality", "== says %d for %s", a == b, same ? "equal addresses" : "different addresses");
	VH_CHECK((int)(a < b) + (int)(b < a) + (int)same == 1, "ordering", "a<b %d, b<a %d, equal %d", a < b, b < a, same);
	if (same) VH_CHECK(std::hash<Address>()(a) == std::hash<Address>()(b), "hash", "equal addresses with different hash");
	std::unordered_set<Address> us; us.insert(a); us.insert(b); VH_CHECK(us.size() == (same ? 1u : 2u) && us.count(a) && us.count(b), "set", "hash set of the two holds %zu", us.size());
	std::set<Address> os; os.insert(a); os.insert(b); VH_CHECK(os.size() == (same ? 1u : 2u), "set", "ordered set of the two holds %zu", os.size());
	Address* h = new Address(a); Address c(*h), d; Address e; e = *h; expect("copy", c, ip, p); expect("assign", e, ip, p);
	*h = b; expect("over", *h, ip2, p2); expect("copy", c, ip, p); expect("assign", e, ip, p); delete h; expect("copy", c, ip, p);
	Address& self = e; e = self; expect("self", e, ip, p);
	e = Address(); VH_CHECK(e == d && e.get_port() == 0 && e.get_sockaddr_in().sin_addr.s_addr == 0, "default", "default address is %08x:%u", e.get_sockaddr_in().sin_addr.s_addr, e.get_port());
	VH_CHECK(memchr(e.get_ip(), 0, 32) != 0, "default-text", "default address's text is not terminated");
	bool lo = r.chance(1, 2); Address f(p, lo); expect("port", f, lo ? htonl(INADDR_LOOPBACK) : 0, p);
	poisoned(r, [&](void* m) { return new (m) Address(p, lo); }); poisoned(r, [&](void* m) { return new (m) Address(); }); poisoned(r, [&](void* m) { return new (m) Address(c); });
	poisoned(r, [&](void* m) { return new (m) Address(dotted(ip).c_str(), p); });
	in_addr x; x.s_addr = ip; size_t need = dotted(ip).size() + 1, cap = r.chance(1, 2) ? need : r.range(1, 20); char* buf = (char*)malloc(cap); memset(buf, 7, cap);
	bool ok = socket_api::inet_ntop(x, buf, (socklen_t)cap); VH_CHECK(ok == (cap >= need), "ntop-result", "inet_ntop into %zu bytes (needs %zu) says %d", cap, need, ok);
	if (ok) VH_CHECK(dotted(ip) == buf, "ntop-text", "inet_ntop gives '%s'", buf);
	free(buf);
}
static void text_case(Rng& r) {
	std::string s = dotted(pickIp(r));
	int edits = (int)r.below(3); static const char alpha[] = "0123456789..: -xa/%";
	for (int i = 0; i < edits; i++) switch (r.below(4)) { case 0: if (!s.empty()) s.erase(r.below(s.size()), 1); break; case 1: s.insert(r.below(s.size() + 1), 1, alpha[r.below(sizeof alpha - 1)]); break; case 2: if (!s.empty()) s[r.below(s.size())] = alpha[r.below(sizeof alpha - 1)]; break; case 3: s = r.chance(1, 2) ? "" : s + "." + s; break; }
	if (r.chance(1, 12)) s = std::string(r.range(30, 400), (char)("1.x"[r.below(3)]));
	vh::setcase("text '%s'", s.c_str());
	uint32_t ip = 0; bool valid = refText(s, ip); vh::stat(valid ? "valid_text" : "invalid_text");
	in_addr x; x.s_addr = 0x01010101; char* c = (char*)malloc(s.size() + 1); memcpy(c, s.c_str(), s.size() + 1);
	bool ok = socket_api::inet_pton(c, x);
	VH_CHECK(ok == valid, "pton-result", "inet_pton says %d for '%s'", ok, c);
	if (valid) VH_CHECK(x.s_addr == ip, "pton-value", "inet_pton('%s') = %08x", c, x.s_addr);
	uint16_t p = pickPort(r); Address a(c, p); expect("parse", a, valid ? ip : 0, p);
	poisoned(r, [&](void* m) { return new (m) Address(c, p); });
	free(c);
}
static void socket_case(Rng& r) {
	int kind = (int)r.below(6); vh::setcase("socket kind %d", kind);
	auto local = [](int fd) { sockaddr_in s; socklen_t n = sizeof s; memset(&s, 0, n); getsockname(fd, (sockaddr*)&s, &n); return s; };
	auto both = [&](int fd, bool peer, uint32_t ip, uint16_t port) { Address a(peer, fd); expect(peer ? "peer" : "self-end", a, ip, port); poisoned(r, [&](void* m) { return new (m) Address(peer, fd); });
		sockaddr_in s; memset(&s, 0x11, sizeof s); bool ok = peer ? socket_api::getpeername(fd, s) : socket_api::getsockname(fd, s); vh::stat(ok ? "name_ok" : "name_failed"); if (ok) VH_CHECK(s.sin_addr.s_addr == ip && ntohs(s.sin_port) == port, "sockname", "name of the socket %08x:%u", s.sin_addr.s_addr, ntohs(s.sin_port)); return ok; };
	if (kind <= 1) {          // tcp connection on any loopback address
		int l = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(0x7F000001 + (uint32_t)r.below(200000)); 
		if (::bind(l, (sockaddr*)&s, sizeof s) != 0 || ::listen(l, 4) != 0) { close(l); return; }
		sockaddr_in ls = local(l); both(l, false, ls.sin_addr.s_addr, ntohs(ls.sin_port)); VH_CHECK(!both(l, true, 0, 0), "peername-result", "the peer of a listening socket was reported");
		int c = socket(AF_INET, SOCK_STREAM, 0); if (::connect(c, (sockaddr*)&ls, sizeof ls) == 0) {
			int s2 = ::accept(l, 0, 0); sockaddr_in cs = local(c);
			both(c, true, ls.sin_addr.s_addr, ntohs(ls.sin_port)); both(c, false, cs.sin_addr.s_addr, ntohs(cs.sin_port)); both(s2, true, cs.sin_addr.s_addr, ntohs(cs.sin_port)); both(s2, false, ls.sin_addr.s_addr, ntohs(ls.sin_port));
			VH_CHECK(Address(true, c) == Address(false, s2) && Address(false, c) == Address(true, s2), "ends", "the two ends of a connection disagree"); vh::stat("tcp_pairs");
			close(s2);
		}
		close(c); close(l);
	} else if (kind == 2) {   // unbound udp
		int u = socket(AF_INET, SOCK_DGRAM, 0); both(u, false, 0, 0); VH_CHECK(!both(u, true, 0, 0), "peername-result", "the peer of an unconnected socket was reported"); close(u);
	} else if (kind == 3) {   // bound through the library
		socket_t u = socket_api::create_socket(); Address want((uint16_t)0, true); if (socket_api::bind(u, want.get_sockaddr_in())) { sockaddr_in ls = local(u); both(u, false, htonl(INADDR_LOOPBACK), ntohs(ls.sin_port)); vh::stat("lib_bound"); } socket_api::close_socket(u);
	} else if (kind == 4) {   // not a socket
		int fds[2]; if (pipe(fds)) return; VH_CHECK(!both(fds[0], r.chance(1, 2), 0, 0), "badfd-result", "the name of a pipe was reported"); close(fds[0]); close(fds[1]);
	} else VH_CHECK(!both(-1, r.chance(1, 2), 0, 0), "badfd-result", "the name of no descriptor was reported");
}
static void resolve_case(Rng& r) {
	g_list.clear(); g_fail = r.chance(1, 5); int n = (int)r.below(6); bool have = false; uint32_t first = 0;
	for (int i = 0; i < n; i++) { Rec e{ r.chance(1, 2), pickIp(r) }; if (!e.v6 && !have) { have = true; first = e.ip; } g_list.push_back(e); }
	if (g_fail) have = false;
	sockaddr_in s; memset(&s, 0, sizeof s); uint16_t fam = r.chance(1, 2) ? AF_INET : (uint16_t)r.next(), port = pickPort(r); uint32_t before = pickIp(r); s.sin_family = fam; s.sin_port = htons(port); s.sin_addr.s_addr = before;
	vh::setcase("resolve %zu records fail=%d", g_list.size(), g_fail);
	g_fake = true; std::string name = "host" + std::to_string(r.below(1000)) + ".test"; bool ok = socket_api::resolve_hostname(name.c_str(), s); g_fake = false;
	VH_CHECK(ok == have, "resolve-result", "look-up says %d, %s IPv4 record", ok, have ? "there is an" : "there is no");
	VH_CHECK(g_asked == name, "resolve-name", "asked for %s", g_asked.c_str());
	VH_CHECK(s.sin_family == fam && s.sin_port == htons(port), "resolve-side", "port or family changed");
	if (ok && have) { bool in = false; for (auto& e : g_list) if (!e.v6 && e.ip == s.sin_addr.s_addr) in = true; VH_CHECK(in, "resolve-value", "%08x is not in the answer", s.sin_addr.s_addr); vh::stat("resolved"); }
	else vh::stat("resolve_failed");
	VH_CHECK(g_live.empty(), "resolve-leak", "%zu look-up results not released", g_live.size()); g_live.clear();
	vh::stat("evaluations"); vh::distinct(vh::mix(first, (uint64_t)n * 4 + g_fail));
}
int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); vh::watchdog(); set_log_threshold(L_MAXIMUM_LEVEL);
	Rng base(a.seed);
	for (uint32_t x = 0; x < 65536; x++) { uint8_t b[2] = { (uint8_t)(x >> 8), (uint8_t)x }; uint16_t be; memcpy(&be, b, 2); VH_CHECK(socket_api::ntoh_16(be) == x && socket_api::ntoh_16((uint16_t)x) == be, "ntoh16", "%04x", x); }
	vh::stat("ntoh16", 65536);
	for (long i = 0; i < a.cases * 40; i++) { uint32_t x = i < 32 ? 1u << i : i < 64 ? ~(1u << (i - 32)) : (uint32_t)base.next(); uint8_t b[4] = { (uint8_t)(x >> 24), (uint8_t)(x >> 16), (uint8_t)(x >> 8), (uint8_t)x }; uint32_t be; memcpy(&be, b, 4); VH_CHECK(socket_api::ntoh_32(be) == x && socket_api::ntoh_32(socket_api::ntoh_32(x)) == x, "ntoh32", "%08x", x); vh::stat("ntoh32"); }
	{ sockaddr_in s; memset(&s, 0, sizeof s); VH_CHECK(socket_api::resolve_hostname("127.3.2.1", s) && s.sin_addr.s_addr == htonl(0x7F030201), "resolve-numeric", "numeric name gives %08x", s.sin_addr.s_addr); }
	for (long c = 0; c < a.cases; c++) {
		if (a.only >= 0 && c != a.only) continue;
		Rng r(a.seed * 1000003 + (uint64_t)c); vh::tick("address");
		unsigned k = (unsigned)r.below(10); if (k < 4) value_case(r); else if (k < 7) text_case(r); else if (k < 8) socket_case(r); else resolve_case(r);
	}
	return vh::finish();
}
