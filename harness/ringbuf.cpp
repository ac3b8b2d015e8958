// C01: RingBuf against a byte-deque model, all operations, exact-size heap blocks (ASan sees
// any access outside).
#include "vh.h"
#include <cy_core.h>
#include <cy_crypt.h>
using namespace cyclone;
typedef std::vector<uint8_t> Bytes;

static uint32_t ref_adler(const uint8_t* p, size_t n) {
	uint32_t a = 1, b = 0;
	for (size_t i = 0; i < n; i++) { a = (a + p[i]) % 65521; b = (b + a) % 65521; }
	return (b << 16) | a;
}
struct Blk { // exact-size heap block
	uint8_t* p; size_t n;
	explicit Blk(size_t n_) : p((uint8_t*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, 0xA5, n_ ? n_ : 1); }
	~Blk() { free(p); }
};
static void full_check(const RingBuf& b, const Bytes& m, const char* op) {
	VH_CHECK(b.size() == m.size(), "size", "after %s size()=%zu model=%zu", op, b.size(), m.size());
	VH_CHECK(b.empty() == m.empty(), "empty", "after %s empty()=%d model size=%zu", op, b.empty(), m.size());
	VH_CHECK(b.capacity() >= b.size() && b.get_free_size() == b.capacity() - b.size(), "free", "after %s cap=%zu free=%zu size=%zu", op, b.capacity(), b.get_free_size(), b.size());
	VH_CHECK(b.full() == (b.size() == b.capacity()), "full", "after %s full()=%d cap=%zu size=%zu", op, b.full(), b.capacity(), b.size());
	Blk d(m.size());
	size_t n = b.peek(0, d.p, m.size());
	VH_CHECK(n == m.size() && (n == 0 || memcmp(d.p, m.data(), n) == 0), "content", "after %s content differs from model (size %zu, peek %zu)", op, m.size(), n);
}
// More content than a 32 bit number counts. The content is a list of pieces of one endless byte pattern with marks in it.
static const size_t PER = 65521, CH = 16u << 20;
struct Huge {
	std::vector<uint8_t> tile, tmp; std::set<size_t> marks; std::vector<std::pair<size_t, size_t>> m, om; size_t pos = 0;
	Huge() : tile(CH + PER), tmp(CH) { for (size_t i = 0; i < tile.size(); i++) { uint32_t x = (uint32_t)(i % PER) * 2654435761u; tile[i] = (uint8_t)((x >> 20) % 255); } }
	static size_t total(const std::vector<std::pair<size_t, size_t>>& v) { size_t t = 0; for (auto& e : v) t += e.second; return t; }
	static void cut(std::vector<std::pair<size_t, size_t>>& v, size_t n, std::vector<std::pair<size_t, size_t>>* to) { while (n) { auto& e = v[0]; size_t k = std::min(n, e.second); if (to) to->push_back({ e.first, k }); e.first += k; e.second -= k; n -= k; if (!e.second) v.erase(v.begin()); } }
	// n <= CH bytes of the pattern at p
	bool same(const uint8_t* d, size_t p, size_t n) { while (n) { auto k = marks.lower_bound(p); size_t run = k == marks.end() || *k >= p + n ? n : *k - p; if (run && memcmp(d, &tile[p % PER], run)) return false; d += run; p += run; n -= run; if (n) { if (*d != 255) return false; d++; p++; n--; } } return true; }
	void put(RingBuf& b, size_t n) { m.push_back({ pos, n }); while (n) { vh::tick("huge"); auto k = marks.lower_bound(pos); size_t run = std::min({ n, CH, k == marks.end() ? n : *k - pos }); if (run) b.memcpy_into(&tile[pos % PER], run); else { uint8_t f = 255; b.memcpy_into(&f, 1); run = 1; } pos += run; n -= run; } }
	bool all(const uint8_t* d, const std::vector<std::pair<size_t, size_t>>& v) { for (auto& e : v) for (size_t i = 0; i < e.second; ) { size_t n = std::min(CH, e.second - i); vh::tick("huge"); if (!same(d, e.first + i, n)) return false; d += n; i += n; } return true; }
	void check(RingBuf& b, const std::vector<std::pair<size_t, size_t>>& v, const char* what) {
		size_t t = total(v); VH_CHECK(b.size() == t && b.get_free_size() == b.capacity() - t && b.empty() == (t == 0), "size", "%s: size %zu free %zu capacity %zu, %zu bytes are stored", what, b.size(), b.get_free_size(), b.capacity(), t); size_t at = 0; vh::stat("evaluations");
		for (auto& e : v) for (size_t i = 0; i < e.second; ) { size_t n = std::min(CH, e.second - i); vh::tick("huge"); size_t k = b.peek(at, tmp.data(), n); if (k != n || !same(tmp.data(), e.first + i, n)) { vh::viol("content", "%s: the %zu bytes at %zu of %zu are not what was put in (peek %zu)", what, n, at, t, k); return; } i += n; at += n; }
	}
	ssize_t find(const std::vector<std::pair<size_t, size_t>>& v, size_t from) { size_t at = 0; ssize_t best = -1; for (auto& e : v) { for (auto k = marks.lower_bound(e.first); k != marks.end() && *k < e.first + e.second; ++k) { size_t o = at + (*k - e.first); if (o >= from && best < 0) best = (ssize_t)o; } at += e.second; } return best; }
};
static uint32_t adler_fast(uint32_t c, const uint8_t* p, size_t n) { uint64_t a = c & 0xffff, b = c >> 16; while (n) { size_t k = std::min<size_t>(n, 5552); n -= k; while (k--) { a += *p++; b += a; } a %= 65521; b %= 65521; } return (uint32_t)(b << 16 | a); }
static void huge_case(vh::Rng& r) {
	size_t avail = 0; { FILE* f = fopen("/proc/meminfo", "r"); char l[200]; while (f && fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %zu kB", &avail) == 1) break; if (f) fclose(f); } if ((avail >> 20) < 22) return;
	const size_t G4 = (size_t)1 << 32, G1 = (size_t)1 << 30; Huge h; RingBuf b(5 * G1 + (size_t)r.below(5000)), other((size_t)r.below(100)); vh::setcase("huge capacity %zu", b.capacity()); size_t dis = G1 - (size_t)r.below(100000000), fin = G4 + 200000000 + (size_t)r.below(100000000);
	h.marks = { dis + 100 + r.below(1000), dis + (G4 >> 1) + r.below(100) - 50, dis + G4 + 7 + r.below(1000), dis + fin - 1 }; h.put(b, G1 + (size_t)r.below(1000)); { size_t k = b.discard(dis); VH_CHECK(k == dis, "discard-count", "discard(%zu) returned %zu", dis, k); Huge::cut(h.m, dis, nullptr); } h.put(b, fin - b.size()); VH_CHECK(b.size() == fin, "size", "size %zu, not %zu", b.size(), fin); h.check(b, h.m, "filled");
	auto searches = [&](RingBuf& q, std::vector<std::pair<size_t, size_t>>& v, const char* w) { size_t t = Huge::total(v); for (size_t from : { (size_t)0, (size_t)2000, G4 / 2 - 60, G4 / 2 + 60, G4 - 1, G4, G4 + 1, G4 + 2000, t - 1, t, t + G4 }) { vh::tick("huge"); ssize_t e = from < t ? h.find(v, from) : -1, g = q.search(from, 255); VH_CHECK(g == e, "search", "%s: search from %zu of %zu gives %zd, not %zd", w, from, t, g, e); vh::stat("huge_searches"); } };
	searches(b, h.m, "filled");
	{ size_t off = r.below(50000000), n = G4 + 1 + r.below(9999); uint32_t e = 1; std::vector<uint8_t> t(CH); for (size_t i = 0; i < n; ) { size_t k = std::min(CH, n - i); b.peek(off + i, t.data(), k); e = adler_fast(e, t.data(), k); i += k; vh::tick("huge"); } uint32_t g = b.checksum(off, n); VH_CHECK(g == e, "checksum", "checksum(%zu,%zu) is %u, not %u", off, n, g, e); VH_CHECK(b.checksum(fin - 5, G4) == 1 && b.checksum(G4 * 2, 1) == 1, "checksum", "checksum over the end"); }
	{ vh::tick("huge"); uint8_t* q = b.normalize(); VH_CHECK(h.all(q, h.m), "normalize", "normalized content of %zu bytes differs", b.size()); h.check(b, h.m, "normalized"); }
	size_t n = G4 + 777 + r.below(100000); { std::vector<std::pair<size_t, size_t>> took; uint8_t* out = (uint8_t*)malloc(n + 16); memset(out + n, 0x5A, 16); size_t k = b.memcpy_out(out, n); vh::tick("huge"); VH_CHECK(k == n && out[n] == 0x5A && out[n + 15] == 0x5A, "take-count", "memcpy_out(%zu) returned %zu", n, k); Huge::cut(h.m, n, &took); VH_CHECK(h.all(out, took), "take-bytes", "memcpy_out(%zu) gave wrong bytes", n); h.check(b, h.m, "taken"); b.memcpy_into(out, n); vh::tick("huge"); for (auto& e : took) h.m.push_back(e); free(out); h.check(b, h.m, "put back"); searches(b, h.m, "put back"); }
	{ size_t w = G4 + 5 + r.below(100000); size_t k = b.moveto(other, w); vh::tick("huge"); VH_CHECK(k == w, "move-count", "moveto(%zu) returned %zu", w, k); Huge::cut(h.m, w, &h.om); h.check(other, h.om, "moved"); h.check(b, h.m, "moved from"); }
	{ size_t k = other.discard(G4 + 1); VH_CHECK(k == G4 + 1, "discard-count", "discard(%zu) returned %zu", G4 + 1, k); Huge::cut(h.om, G4 + 1, nullptr); h.check(other, h.om, "discarded"); }
	vh::stat("huge_buffers"); vh::distinct(vh::mix(fin, dis));
}
int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv);
	set_log_threshold(L_MAXIMUM_LEVEL);
	vh::watchdog(30);
	if (a.mode == "huge") { for (long c = 0; c < a.cases; c++) { vh::Rng r(a.seed * 1000003ull + (uint64_t)c); huge_case(r); } return vh::finish(); }
	long maxcap = a.geti("maxcap", 40), nops = a.geti("ops", 60);
	for (long c = 0; c < a.cases; c++) {
		if (a.only >= 0 && c != a.only) continue;
		vh::Rng r(a.seed * 1000003ull + (uint64_t)c);
		size_t cap = r.chance(1, 8) ? (size_t)r.below(3) : (size_t)r.below((uint64_t)maxcap);
		bool dflt = r.chance(1, 20);
		RingBuf* pb = dflt ? new RingBuf() : new RingBuf(cap);
		RingBuf& b = *pb;
		if (dflt) cap = b.capacity();
		VH_CHECK(b.capacity() == cap && b.empty() && b.size() == 0, "init", "RingBuf(%zu) cap=%zu", cap, b.capacity());
		RingBuf other((size_t)r.below(20)); Bytes om;
		Bytes m; uint8_t seq = (uint8_t)r.next();
		std::string trace;
		vh::tick("ringbuf");
		for (long o = 0; o < nops; o++) {
			size_t sz = m.size(), cp = b.capacity(), fr = b.get_free_size();
			// amounts biased to the boundaries of what is stored / free
			size_t big[] = { (size_t)-1, (size_t)-1 - sz, ((size_t)-1) / 2 + 1, (size_t)-1 - cp };
			size_t amount;
			switch (r.below(6)) {
			case 0: amount = sz ? (size_t)r.below(sz + 1) : 0; break;
			case 1: amount = sz + (size_t)r.below(3) - (sz ? 1 : 0); break;
			case 2: amount = fr + (size_t)r.below(3) - (fr ? 1 : 0); break;
			case 3: amount = (size_t)r.below(cp + 4); break;
			case 4: amount = (size_t)r.below(5); break;
			default: amount = (size_t)r.below((uint64_t)maxcap / 2 + 2); break;
			}
			bool huge = r.chance(1, 12);
			size_t off = r.chance(1, 3) ? 0 : (size_t)r.below(sz + 3);
			if (r.chance(1, 40)) off = big[r.below(4)];
			int op = (int)r.below(12);
			char opd[100]; 
			snprintf(opd, sizeof opd, "op%d(off=%zd,n=%zd%s;sz=%zu,cap=%zu)", op, (ssize_t)off, (ssize_t)amount, huge ? ",huge" : "", sz, cp);
			trace += opd; trace += ' ';
			if (trace.size() > 1500) trace.erase(0, trace.size() - 1500);
			vh::setcase("seed=%llu case=%ld cap=%zu ops: %s", (unsigned long long)a.seed, c, cap, trace.c_str());
			uint64_t sig = vh::mix(vh::mix(vh::mix(vh::mix(vh::mix(op, cp), sz), off), amount), huge);
			if (sz || amount) vh::distinct(sig);
			vh::stat("evaluations");
			switch (op) {
			case 0: case 1: case 2: { // put
				Blk s(amount);
				for (size_t i = 0; i < amount; i++) s.p[i] = (r.below(4) ? seq++ : (uint8_t)r.below(3));
				Bytes before(m);
				b.memcpy_into(s.p, amount);
				m.insert(m.end(), s.p, s.p + amount);
				if (amount > fr) vh::stat("grown"); else VH_CHECK(b.capacity() == cp, "put-capacity", "capacity changed %zu->%zu although %zu fit in %zu", cp, b.capacity(), amount, fr);
				vh::stat("put");
			} break;
			case 3: case 4: { // take
				size_t want = huge ? big[r.below(4)] : amount; size_t ex = std::min(want, sz);
				Blk d(ex);
				size_t n = b.memcpy_out(d.p, want);
				VH_CHECK(n == ex, "take-count", "memcpy_out(%zd) returned %zu expected %zu", (ssize_t)want, n, ex);
				VH_CHECK(ex == 0 || memcmp(d.p, m.data(), ex) == 0, "take-bytes", "memcpy_out(%zu) gave wrong bytes", want);
				m.erase(m.begin(), m.begin() + (long)ex);
				vh::stat("take");
			} break;
			case 5: { // discard
				size_t want = huge ? big[r.below(4)] : amount; size_t ex = std::min(want, sz);
				size_t n = b.discard(want);
				VH_CHECK(n == ex, "discard-count", "discard(%zd) returned %zu expected %zu", (ssize_t)want, n, ex);
				m.erase(m.begin(), m.begin() + (long)ex);
				vh::stat("discard");
			} break;
			case 6: { // peek
				size_t want = huge ? big[r.below(4)] : amount; size_t ex = off > sz ? 0 : std::min(want, sz - off);
				bool nul = r.chance(1, 15);
				Blk d(ex);
				size_t n = b.peek(off, nul ? nullptr : d.p, want);
				if (nul) ex = 0;
				VH_CHECK(n == ex, "peek-count", "peek(%zd,%zd) returned %zu expected %zu", (ssize_t)off, (ssize_t)want, n, ex);
				VH_CHECK(ex == 0 || memcmp(d.p, m.data() + off, ex) == 0, "peek-bytes", "peek(%zu,%zu) gave wrong bytes", off, want);
				vh::stat("peek");
			} break;
			case 7: { // search
				uint8_t v = sz && r.below(3) ? m[r.chance(1, 3) ? 0 : r.below(sz)] : (uint8_t)r.next();
				ssize_t ex = -1;
				for (size_t i = off; i < sz; i++) if (m[i] == v) { ex = (ssize_t)i; break; }
				ssize_t p = b.search(off, v);
				VH_CHECK(p == ex, "search", "search(%zd,%d) returned %zd expected %zd (size %zu)", (ssize_t)off, v, p, ex, sz);
				vh::stat(ex >= 0 ? "search_hit" : "search_miss");
			} break;
			case 8: { // checksum
				size_t want = huge ? big[r.below(4)] : amount;
				if (!huge && off <= sz && r.below(3)) want = (size_t)r.below(sz - off + 1);
				uint32_t ex = 1;
				if (off <= sz && want <= sz - off) ex = ref_adler(m.data() + off, want);
				uint32_t v = b.checksum(off, want);
				VH_CHECK(v == ex, "checksum", "checksum(%zd,%zd)=%u expected %u (size %zu)", (ssize_t)off, (ssize_t)want, v, ex, sz);
				vh::stat("checksum");
			} break;
			case 9: { // normalize
				uint8_t* p = b.normalize();
				VH_CHECK(sz == 0 || memcmp(p, m.data(), sz) == 0, "normalize", "normalize() content differs (size %zu)", sz);
				VH_CHECK(b.capacity() == cp, "normalize-cap", "capacity changed");
				vh::stat("normalize");
			} break;
			case 10: { // moveto / move back
				if (r.below(3)) {
					size_t want = huge ? big[r.below(4)] : amount; size_t ex = std::min(want, sz);
					size_t n = b.moveto(other, want);
					VH_CHECK(n == ex, "move-count", "moveto(%zd) returned %zu expected %zu", (ssize_t)want, n, ex);
					om.insert(om.end(), m.begin(), m.begin() + (long)ex); m.erase(m.begin(), m.begin() + (long)ex);
				} else {
					size_t want = (size_t)r.below(om.size() + 2), ex = std::min(want, om.size());
					size_t n = other.moveto(b, want);
					VH_CHECK(n == ex, "move-count", "moveto(%zd) returned %zu expected %zu", (ssize_t)want, n, ex);
					m.insert(m.end(), om.begin(), om.begin() + (long)ex); om.erase(om.begin(), om.begin() + (long)ex);
				}
				full_check(other, om, "moveto(other)");
				vh::stat("moveto");
			} break;
			case 11: {
				if (r.chance(1, 4)) { b.reset(); m.clear(); VH_CHECK(b.capacity() == cp, "reset-cap", "capacity changed"); vh::stat("reset"); }
				else {
					size_t need = r.below(2) ? cp + (size_t)r.below(5) : (size_t)1 << r.below(maxcap > 1000 ? 17 : 8);
					if (r.chance(1, 3)) need = need ? need - 1 : 0;
					b.resize(need);
					VH_CHECK(b.capacity() >= need, "resize-capacity", "resize(%zu) leaves capacity %zu (was %zu)", need, b.capacity(), cp);
					VH_CHECK(b.capacity() >= cp, "resize-shrinks", "resize(%zu) shrank capacity %zu -> %zu", need, cp, b.capacity());
					vh::stat("resize");
				}
			} break;
			}
			full_check(b, m, opd);
		}
		if (c < 2) vh::sample("cap=%zu ops: %.300s", cap, trace.c_str());
		delete pb;
	}
	return vh::finish();
}
