// C17..C20: reference-model monitors for the crypt module. Every call runs on exact-size heap blocks
// (ASan red zones right behind them) with canary bytes around in-block offsets.
#include <set>
#include "vh.h"
#include <cy_core.h>
#include <cy_crypt.h>
using namespace cyclone;
using vh::Rng;

// ------------------------------------------------------------------ blocks
struct Block {                       // [pad | data | end of allocation]
	uint8_t* base; size_t off, len;
	Block(Rng& r, size_t len_, size_t off_) : off(off_), len(len_) {
		base = (uint8_t*)malloc(off + len + (off + len == 0));
		for (size_t i = 0; i < off; i++) base[i] = 0xA5;
		fill(r);
	}
	void fill(Rng& r) {
		int k = (int)r.below(6);
		uint8_t c = k == 0 ? 0 : k == 1 ? 0xFF : (uint8_t)r.next();
		for (size_t i = 0; i < len; i++) base[off + i] = k <= 2 ? c : (uint8_t)r.next();
	}
	~Block() { free(base); }
	uint8_t* p() { return base + off; }
	bool padOk() const { for (size_t i = 0; i < off; i++) if (base[i] != 0xA5) return false; return true; }
	std::vector<uint8_t> copy() { return std::vector<uint8_t>(p(), p() + len); }
};

// ------------------------------------------------------------------ AES-128 reference from FIPS-197 definitions
static uint8_t gmul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (uint8_t)((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); b >>= 1; } return r; }
static uint8_t SB[256], IS[256];
static void aes_tables() {
	for (int x = 0; x < 256; x++) {
		uint8_t inv = 0;
		if (x) for (int y = 1; y < 256; y++) if (gmul((uint8_t)x, (uint8_t)y) == 1) { inv = (uint8_t)y; break; }
		uint8_t s = 0;
		for (int i = 0; i < 8; i++) {
			int b = (inv >> i) ^ (inv >> ((i + 4) & 7)) ^ (inv >> ((i + 5) & 7)) ^ (inv >> ((i + 6) & 7)) ^ (inv >> ((i + 7) & 7)) ^ (0x63 >> i);
			s |= (uint8_t)((b & 1) << i);
		}
		SB[x] = s;
	}
	for (int x = 0; x < 256; x++) IS[SB[x]] = (uint8_t)x;
}
struct RefAes {
	uint8_t w[176];
	explicit RefAes(const uint8_t* key) {
		memcpy(w, key, 16); uint8_t rc = 1;
		for (int i = 16; i < 176; i += 4) {
			uint8_t t[4]; memcpy(t, w + i - 4, 4);
			if (i % 16 == 0) { uint8_t x = t[0]; t[0] = SB[t[1]] ^ rc; t[1] = SB[t[2]]; t[2] = SB[t[3]]; t[3] = SB[x]; rc = gmul(rc, 2); }
			for (int j = 0; j < 4; j++) w[i + j] = w[i - 16 + j] ^ t[j];
		}
	}
	void ark(uint8_t* s, int r) const { for (int i = 0; i < 16; i++) s[i] ^= w[r * 16 + i]; }
	void enc(uint8_t* s) const {
		ark(s, 0);
		for (int r = 1; r <= 10; r++) {
			uint8_t t[16];
			for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) t[c * 4 + i] = SB[s[((c + i) & 3) * 4 + i]];
			for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++)
				s[c * 4 + i] = r == 10 ? t[c * 4 + i] : (uint8_t)(gmul(t[c * 4 + i], 2) ^ gmul(t[c * 4 + ((i + 1) & 3)], 3) ^ t[c * 4 + ((i + 2) & 3)] ^ t[c * 4 + ((i + 3) & 3)]);
			ark(s, r);
		}
	}
};
static void refCbc(const RefAes& a, std::vector<uint8_t>& d, uint8_t* iv) {
	for (size_t i = 0; i < d.size(); i += 16) {
		for (int j = 0; j < 16; j++) d[i + j] ^= iv[j];
		a.enc(&d[i]); memcpy(iv, &d[i], 16);
	}
}
static bool kat() {  // the reference itself is checked against FIPS-197 appendix B/C
	uint8_t k[16], p[16]; static const uint8_t e[16] = { 0x69,0xc4,0xe0,0xd8,0x6a,0x7b,0x04,0x30,0xd8,0xcd,0xb7,0x80,0x70,0xb4,0xc5,0x5a };
	for (int i = 0; i < 16; i++) { k[i] = (uint8_t)i; p[i] = (uint8_t)(i * 0x11); }
	RefAes a(k); a.enc(p); return memcmp(p, e, 16) == 0;
}

static int same(const void* a, const void* b, size_t n) { return n ? memcmp(a, b, n) : 0; }
static void run_aes(vh::Args& a) {
	aes_tables();
	if (!kat()) { fprintf(stderr, "reference AES is wrong\n"); exit(3); }
	Rng r(a.seed);
	static const uint8_t defiv[16] = { 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15 };
	struct Ctx { Rijndael* aes; RefAes ref; };
	std::vector<Ctx> live;
	// every single byte value through every byte position of key and text
	for (long c = 0; c < a.cases; c++) {
		vh::tick("aes");
		if (live.size() < 4 || r.chance(1, 6)) {
			uint8_t* key = (uint8_t*)malloc(16);
			int k = (int)r.below(5);
			for (int i = 0; i < 16; i++) key[i] = k == 0 ? 0 : k == 1 ? 0xFF : (uint8_t)r.next();
			if (k == 2) { memset(key, 0, 16); key[r.below(16)] = (uint8_t)(1 << r.below(8)); }
			Ctx x = { new Rijndael(key), RefAes(key) };
			memset(key, 0xDD, 16); free(key);       // the object must not keep the caller's key block
			if (live.size() >= 6) { size_t i = r.below(live.size()); delete live[i].aes; live.erase(live.begin() + (long)i); }
			live.push_back(x); vh::stat("keys");
		}
		Ctx& x = live[r.below(live.size())];
		size_t nb = r.chance(1, 30) ? r.range(20, 400) : r.chance(1, 30) ? 0 : r.range(1, 9);
		size_t off = r.below(20);
		bool inplace = r.chance(1, 2), useiv = r.chance(2, 3);
		vh::setcase("aes seed=%llu case=%ld blocks=%zu off=%zu inplace=%d iv=%d", (unsigned long long)a.seed, c, nb, off, inplace, useiv);
		Block in(r, nb * 16, off), out(r, nb * 16, r.below(20));
		std::vector<uint8_t> plain = in.copy(), want = plain;
		Block iv(r, 16, r.below(4));
		uint8_t iv0[16], ivr[16];
		memcpy(iv0, useiv ? iv.p() : defiv, 16); memcpy(ivr, iv0, 16);
		refCbc(x.ref, want, ivr);
		uint8_t* dst = inplace ? in.p() : out.p();
		// one call, or consecutive calls carrying the vector along (only possible with a caller's vector)
		size_t cut[4]; int pieces = 1; cut[0] = nb;
		if (useiv && r.chance(1, 2)) { pieces = (int)r.range(2, 4); size_t rest = nb; for (int i = 0; i + 1 < pieces; i++) { cut[i] = r.below(rest + 1); rest -= cut[i]; } cut[pieces - 1] = rest; for (int i = 0; i < pieces; i++) if (!cut[i]) vh::stat("empty_pieces"); }
		size_t pos = 0;
		for (int i = 0; i < pieces; i++) { x.aes->encrypt(in.p() + pos, dst + pos, cut[i] * 16, useiv ? iv.p() : nullptr); pos += cut[i] * 16; }
		VH_CHECK(same(dst, want.data(), want.size()) == 0, "aes-encrypt", "ciphertext differs from AES-128-CBC (blocks=%zu)", nb);
		if (!inplace) VH_CHECK(same(in.p(), plain.data(), plain.size()) == 0, "aes-input-changed", "encrypt changed its input");
		if (useiv) VH_CHECK(memcmp(iv.p(), ivr, 16) == 0, "aes-iv-carry", "vector after encrypt is not the last cipher block");
		VH_CHECK(in.padOk() && out.padOk() && iv.padOk(), "aes-outside", "bytes in front of a block were changed");
		// decrypt with another cut
		memcpy(iv.p(), iv0, 16);
		Block c2(r, nb * 16, r.below(20)); if (nb) memcpy(c2.p(), want.data(), want.size());
		Block o2(r, nb * 16, r.below(20));
		bool ip2 = r.chance(1, 2); uint8_t* d2 = ip2 ? c2.p() : o2.p();
		pieces = 1; cut[0] = nb;
		if (useiv && r.chance(1, 2)) { pieces = (int)r.range(2, 4); size_t rest = nb; for (int i = 0; i + 1 < pieces; i++) { cut[i] = r.below(rest + 1); rest -= cut[i]; } cut[pieces - 1] = rest; for (int i = 0; i < pieces; i++) if (!cut[i]) vh::stat("empty_pieces"); }
		pos = 0;
		for (int i = 0; i < pieces; i++) { x.aes->decrypt(c2.p() + pos, d2 + pos, cut[i] * 16, useiv ? iv.p() : nullptr); pos += cut[i] * 16; }
		VH_CHECK(same(d2, plain.data(), plain.size()) == 0, "aes-decrypt", "decrypting the ciphertext does not give the text back (blocks=%zu)", nb);
		if (!ip2) VH_CHECK(same(c2.p(), want.data(), want.size()) == 0, "aes-input-changed", "decrypt changed its input");
		if (useiv) VH_CHECK(memcmp(iv.p(), ivr, 16) == 0, "aes-iv-carry", "vector after decrypt is not the last cipher block");
		VH_CHECK(memcmp(Rijndael::DefaultIV, defiv, 16) == 0, "aes-default-iv", "the default vector changed");
		VH_CHECK(c2.padOk() && o2.padOk(), "aes-outside", "bytes in front of a block were changed");
		vh::stat("evaluations"); if (pieces > 1) vh::stat("chained"); if (inplace) vh::stat("inplace"); if (!useiv) vh::stat("default_iv");
		vh::distinct(vh::mix(vh::mix(nb, off), vh::mix(inplace * 2 + useiv, pieces) + vh::hash64(want.data(), want.size() > 16 ? 16 : want.size())));
	}
	for (auto& x : live) delete x.aes;
}

// ------------------------------------------------------------------ DH over 2^128-159
typedef unsigned __int128 u128;
static const u128 P128 = (~(u128)0) - 158;
static u128 addmod(u128 a, u128 b) { u128 s = a + b; if (s < a) { s += 159; } if (s >= P128) s -= P128; return s; }
static u128 mulmod(u128 a, u128 b) {           // schoolbook 256 bit product, folded with 2^128 = 159 (mod P)
	uint64_t x[2] = { (uint64_t)a, (uint64_t)(a >> 64) }, y[2] = { (uint64_t)b, (uint64_t)(b >> 64) }, w[4] = { 0, 0, 0, 0 };
	for (int i = 0; i < 2; i++) { u128 c = 0; for (int j = 0; j < 2; j++) { c += (u128)x[i] * y[j] + w[i + j]; w[i + j] = (uint64_t)c; c >>= 64; } w[i + 2] = (uint64_t)c; }
	u128 lo = ((u128)w[1] << 64) | w[0], hi = ((u128)w[3] << 64) | w[2];
	// hi*159 = h1*2^128 + h0
	u128 t0 = (u128)(uint64_t)hi * 159, t1 = (u128)(uint64_t)(hi >> 64) * 159 + (t0 >> 64);
	u128 h0 = ((t1 & (u128)UINT64_MAX) << 64) | (uint64_t)t0; u128 h1 = t1 >> 64;
	if (lo >= P128) lo -= P128;
	if (h0 >= P128) h0 -= P128;
	return addmod(addmod(lo, h0), h1 * 159);
}
static u128 powmod(u128 a, u128 e) { if (a >= P128) a -= P128; u128 r = 1; for (int i = 127; i >= 0; i--) { r = mulmod(r, r); if ((e >> i) & 1) r = mulmod(r, a); } return r; }
static u128 toU(const dhkey_t& k) { return ((u128)k.dq.high << 64) | k.dq.low; }
static dhkey_t toK(u128 v) { dhkey_t k; k.dq.low = (uint64_t)v; k.dq.high = (uint64_t)(v >> 64); return k; }

static int rand_feed[64]; static int rand_n = 0, rand_i = 0; static long rand_used = 0;
extern "C" int __real_rand(void);
extern "C" int __wrap_rand(void) { if (rand_i < rand_n) { rand_used++; return rand_feed[rand_i++]; } return __real_rand(); }

static u128 pickKey(Rng& r) {
	switch (r.below(9)) {
	case 0: return r.below(6);
	case 1: return ~(u128)0 - r.below(400);
	case 2: return P128 - 3 + r.below(6);
	case 3: return (u128)1 << r.below(128);
	case 4: return ((u128)1 << r.below(128)) - 1;
	case 5: return (u128)r.next();
	case 6: return (u128)r.next() << 64;
	default: return ((u128)r.next() << 64) | r.next();
	}
}
#define HEX(v) (unsigned long long)((v) >> 64), (unsigned long long)(v)
static void run_dh(vh::Args& a) {
	Rng r(a.seed);
	srand((unsigned)a.seed);
	dhkey_t G = toK(5);
	for (long c = 0; c < a.cases; c++) {
		vh::tick("dh");
		u128 ka = pickKey(r), kb = pickKey(r);
		vh::setcase("dh seed=%llu case=%ld a=%016llx%016llx b=%016llx%016llx", (unsigned long long)a.seed, c, HEX(ka), HEX(kb));
		dhkey_t pa = toK(ka), pb = toK(kb), A, B, sa, sb;
		memset(&A, 0x5A, sizeof A); memset(&B, 0xA5, sizeof B);
		if (r.chance(1, 2)) {       // through the pair generator, with the random source steered
			for (int i = 0; i < 16; i++) rand_feed[i] = pa.bytes[i] | (int)(r.next() & 0x7fffff00);
			rand_n = 16; rand_i = 0; 
			dhkey_t priv; memset(&priv, 0xEE, sizeof priv);
			DH_generate_key_pair(A, priv); rand_n = rand_i = 0;
			if (toU(priv) == ka) vh::stat("steered");
			ka = toU(priv); pa = priv;
			dhkey_t priv2; DH_generate_key_pair(B, priv2); kb = toU(priv2); pb = priv2;
			vh::stat("pairs");
		} else { DH_generate_key_secret(A, pa, G); DH_generate_key_secret(B, pb, G); }
		u128 rA = powmod(5, ka), rB = powmod(5, kb);
		VH_CHECK(toU(A) == rA, "dh-public", "public key of %016llx%016llx is %016llx%016llx, should be %016llx%016llx", HEX(ka), HEX(toU(A)), HEX(rA));
		VH_CHECK(toU(B) == rB, "dh-public", "public key of %016llx%016llx is %016llx%016llx, should be %016llx%016llx", HEX(kb), HEX(toU(B)), HEX(rB));
		dhkey_t keepA = A, keepB = B, kpa = pa, kpb = pb;
		DH_generate_key_secret(sa, pa, B);
		DH_generate_key_secret(sb, pb, A);
		u128 s1 = powmod(rB, ka);
		VH_CHECK(toU(sa) == toU(sb), "dh-agree", "the two sides derive different secrets: a=%016llx%016llx b=%016llx%016llx", HEX(ka), HEX(kb));
		VH_CHECK(toU(sa) == s1, "dh-secret", "secret is %016llx%016llx, should be %016llx%016llx", HEX(toU(sa)), HEX(s1));
		VH_CHECK(toU(A) < P128 && toU(B) < P128 && toU(sa) < P128 && toU(sb) < P128, "dh-range", "a key is not below the prime");
		VH_CHECK(!memcmp(&keepA, &A, 16) && !memcmp(&keepB, &B, 16) && !memcmp(&kpa, &pa, 16) && !memcmp(&kpb, &pb, 16), "dh-input-changed", "inputs were modified");
		// any received public value
		u128 base = pickKey(r); dhkey_t pub = toK(base), s;
		DH_generate_key_secret(s, pa, pub);
		u128 w = powmod(base, ka);
		VH_CHECK(toU(s) == w, "dh-power", "%016llx%016llx ^ %016llx%016llx is %016llx%016llx, should be %016llx%016llx", HEX(base), HEX(ka), HEX(toU(s)), HEX(w));
		vh::stat("evaluations", 5);
		if (ka == 0 || kb == 0) vh::stat("zero_key"); if (ka >= P128 || kb >= P128) vh::stat("key_ge_prime"); if (base >= P128) vh::stat("base_ge_prime");
		vh::distinct(vh::mix((uint64_t)ka ^ (uint64_t)(ka >> 64) * 3, (uint64_t)kb ^ (uint64_t)(kb >> 64) * 7));
		if (c < 2) vh::sample("a=%016llx%016llx public=%016llx%016llx secret=%016llx%016llx", HEX(ka), HEX(toU(A)), HEX(toU(sa)));
	}
	vh::stat("rand_steps_steered", rand_used);
}

// ------------------------------------------------------------------ Adler-32
static uint32_t refAdler(uint32_t prev, const uint8_t* p, size_t n) {
	uint32_t x = prev & 0xffff, y = prev >> 16;
	for (size_t i = 0; i < n; i++) { x = (x + p[i]) % 65521; y = (y + x) % 65521; }
	return y << 16 | x;
}
static void run_adler(vh::Args& a) {
	Rng r(a.seed);
	VH_CHECK(refAdler(1, (const uint8_t*)"Wikipedia", 9) == 0x11E60398, "reference", "reference is wrong");
	VH_CHECK(INITIAL_ADLER == 1u && adler32(0xdeadbeef, nullptr, 0) == 1u, "adler-initial", "wrong initial value");
	long big = a.geti("big", 40);
	for (long c = 0; c < a.cases; c++) {
		vh::tick("adler");
		size_t n;
		switch (r.below(8)) {
		case 0: n = r.below(4); break;
		case 1: case 2: n = r.below(40); break;
		case 3: n = 5552 * r.range(1, 3) - 20 + r.below(40); break;
		case 4: n = r.below(12000); break;
		default: n = r.below(600);
		}
		if (c < big) n = r.range(50000, 700000);
		Block b(r, n, r.below(9));
		if (r.chance(1, 5)) memset(b.p(), 0xFF, n);
		uint32_t prev = 1;
		switch (r.below(5)) {
		case 0: prev = (uint32_t)(65520u << 16 | 65520u); break;
		case 1: prev = (uint32_t)(r.below(65521) << 16 | r.below(65521)); break;
		case 2: prev = (uint32_t)((65521 - 1 - r.below(4)) << 16 | (65520 - r.below(300))); break;
		case 3: prev = 0; break;
		}
		vh::setcase("adler seed=%llu case=%ld n=%zu off=%zu prev=%08x", (unsigned long long)a.seed, c, n, b.off, prev);
		std::vector<uint8_t> before = b.copy();
		uint32_t w = refAdler(prev, b.p(), n), g = adler32(prev, b.p(), n);
		VH_CHECK(g == w, "adler-value", "adler32 of %zu bytes from %08x is %08x, should be %08x", n, prev, g, w);
		// split into pieces, some of them empty
		uint32_t v = prev; size_t pos = 0; int pieces = 0;
		while (pos < n || r.chance(1, 3)) {
			size_t k = r.chance(1, 4) ? r.below(3) : r.chance(1, 4) ? 5552 : r.below(n - pos + 1);
			if (k > n - pos) k = n - pos;
			uint8_t* piece = (uint8_t*)malloc(k + (k == 0)); memcpy(piece, b.p() + pos, k);     // its own exact block
			v = adler32(v, piece, k); free(piece);
			pos += k; if (k == 0) vh::stat("empty_piece");
			if (++pieces > 200) { v = adler32(v, b.p() + pos, n - pos); pos = n; break; }
		}
		VH_CHECK(v == w, "adler-split", "checksum of %zu bytes in %d pieces is %08x, should be %08x", n, pieces, v, w);
		VH_CHECK(before == b.copy() && b.padOk(), "adler-changed", "the block was changed");
		vh::stat("evaluations", 2); vh::stat("pieces", pieces); vh::statmax("max_len", (long long)n);
		vh::distinct(vh::mix(n, vh::mix(b.off, prev)));
	}
}

// ------------------------------------------------------------------ xorshift128+
struct RefXs { uint64_t s[2]; uint64_t next() { uint64_t s1 = s[0]; const uint64_t s0 = s[1]; s[0] = s0; s1 ^= s1 << 23; s[1] = s1 ^ s0 ^ (s1 >> 17) ^ (s0 >> 26); return s[1] + s0; } };
static void refCipher(uint8_t* p, size_t n, RefXs& s) { for (size_t i = 0; i < n; i += 8) { uint64_t k = s.next(); for (size_t j = i; j < n && j < i + 8; j++) p[j] ^= (uint8_t)(k >> (8 * (j - i))); } }
static void run_xs(vh::Args& a) {
	Rng r(a.seed);
	srand((unsigned)a.seed);
	XorShift128 prevmade = { 0, 0 };
	{	// a made state owes nothing to what the object held before: every bit takes both values
		XorShift128 o1 = { 0, 0 }, a0 = { ~0ull, ~0ull }; std::set<std::pair<uint64_t, uint64_t>> seen;
		for (int i = 0; i < 200; i++) { XorShift128 x = { 0, 0 }, y = { ~0ull, ~0ull }; x.make(); y.make(); o1.seed0 |= x.seed0; o1.seed1 |= x.seed1; a0.seed0 &= y.seed0; a0.seed1 &= y.seed1; seen.insert({ x.seed0, x.seed1 }); seen.insert({ y.seed0, y.seed1 }); }
		VH_CHECK(o1.seed0 == ~0ull && o1.seed1 == ~0ull && a0.seed0 == 0 && a0.seed1 == 0, "xs-make-stale", "after 400 new states some bits never left their old value: %llx %llx %llx %llx", (unsigned long long)~o1.seed0, (unsigned long long)~o1.seed1, (unsigned long long)a0.seed0, (unsigned long long)a0.seed1);
		VH_CHECK(seen.size() == 400, "xs-make-repeats", "400 new states, %zu different", seen.size()); vh::stat("made_fresh", 400);
	}
	for (long c = 0; c < a.cases; c++) {
		vh::tick("xorshift");
		XorShift128 st;
		switch (r.below(5)) {
		case 0: st.seed0 = r.below(3); st.seed1 = r.below(3); break;
		case 1: st.seed0 = ~0ull; st.seed1 = ~0ull - r.below(2); break;
		case 2: st.seed0 = prevmade.seed0; st.seed1 = prevmade.seed1; st.make(); prevmade = st; vh::stat("made"); break;
		default: st.seed0 = r.next(); st.seed1 = r.next();
		}
		RefXs ref = { { st.seed0, st.seed1 } };
		vh::setcase("xs seed=%llu case=%ld s0=%llx s1=%llx", (unsigned long long)a.seed, c, (unsigned long long)st.seed0, (unsigned long long)st.seed1);
		{ XorShift128 g = st; RefXs q = ref; int k = (int)r.below(40); for (int i = 0; i < k; i++) { uint64_t x = g.next(), y = q.next(); VH_CHECK(x == y, "xs-sequence", "number %d is %llx, should be %llx", i, (unsigned long long)x, (unsigned long long)y); } }
		size_t n = r.chance(1, 20) ? r.below(20000) : r.below(r.chance(1, 2) ? 30 : 300);
		Block b(r, n, r.below(17));
		std::vector<uint8_t> plain = b.copy(), want = plain;
		vh::setcase("xs seed=%llu case=%ld n=%zu off=%zu s0=%llx s1=%llx", (unsigned long long)a.seed, c, n, b.off, (unsigned long long)st.seed0, (unsigned long long)st.seed1);
		RefXs rs = ref; refCipher(want.data(), n, rs);
		XorShift128 e = st; xorshift128(b.p(), n, e);
		VH_CHECK(!n || memcmp(b.p(), want.data(), n) == 0, "xs-cipher", "ciphertext of %zu bytes (offset %zu) differs from the documented key stream", n, b.off);
		VH_CHECK(e.seed0 == rs.s[0] && e.seed1 == rs.s[1], "xs-state", "state after %zu bytes is not the one after %zu numbers", n, (n + 7) / 8);
		VH_CHECK(b.padOk(), "xs-outside", "bytes in front of the block changed");
		XorShift128 d = st; xorshift128(b.p(), n, d);
		VH_CHECK(!n || memcmp(b.p(), plain.data(), n) == 0, "xs-invert", "applying the cipher twice does not restore %zu bytes", n);
		VH_CHECK(d.seed0 == e.seed0 && d.seed1 == e.seed1, "xs-state", "state depends on the data");
		// several calls at multiples of eight
		XorShift128 m = st; size_t pos = 0; int calls = 0;
		while (pos < n) {
			size_t k = 8 * r.below((n - pos) / 8 + 2); if (k > n - pos || calls > 50) k = n - pos;
			uint8_t* piece = (uint8_t*)malloc(k + 1) ; memcpy(piece + 1, b.p() + pos, k);
			xorshift128(piece + 1, k, m); memcpy(b.p() + pos, piece + 1, k); free(piece); pos += k; calls++;
		}
		VH_CHECK(!n || memcmp(b.p(), want.data(), n) == 0, "xs-split", "encrypting %zu bytes in %d calls differs from one call", n, calls);
		vh::stat("evaluations", 3); vh::stat("split_calls", calls); if (n & 7) vh::stat("tails");
		vh::distinct(vh::mix(vh::mix(n, b.off), st.seed0 ^ st.seed1));
	}
}

int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); vh::watchdog(60);
	if (a.mode == "aes") run_aes(a); else if (a.mode == "dh") run_dh(a); else if (a.mode == "adler") run_adler(a); else if (a.mode == "xs") run_xs(a); else return 3;
	return vh::finish();
}
