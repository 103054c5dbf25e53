// C26 secure_rng.h (AES-256 in counter mode), C27 rng.h (xoshiro256**).
// The engine under test also drives the random library of this program.
#ifdef P_C26
#include "secure_rng.h"
#define VH_ENGINE AES_RNG
#else
#include "rng.h"
#define VH_ENGINE Xoshiro256ss
#endif
#include "vh.h"
#include <random>
static_assert(std::is_same_v<RandomEngine, VH_ENGINE>);
static_assert(std::uniform_random_bit_generator<VH_ENGINE>);
static_assert(std::is_same_v<VH_ENGINE::result_type, std::uint64_t> && VH_ENGINE::min() == 0 && VH_ENGINE::max() == ~0ull);

// 64 bit words, often sparse or extreme
static uint64_t word(pbt::Ctx& c) {
	switch (c.below(5)) {
		case 0: return 0;
		case 1: return ~0ull;
		case 2: return 1ull << c.below(64);
		case 3: return c.below(256);
		default: return c.bits();
	}
}

#ifdef P_C26
// --- AES-256 as in FIPS 197, computed from its definition -------------------
static uint8_t mul(uint8_t a, uint8_t b) {
	uint8_t r = 0;
	for (int i = 0; i < 8; i++) { if (b >> i & 1) r ^= a; a = (uint8_t)(a << 1 ^ (a >> 7 ? 0x1b : 0)); }
	return r;
}
static const std::array<uint8_t, 256>& sbox() {
	static const auto s = [] {
		std::array<uint8_t, 256> r{};
		for (int x = 0; x < 256; x++) {
			uint8_t inv = 0;
			for (int y = 1; y < 256 && x; y++) if (mul((uint8_t)x, (uint8_t)y) == 1) inv = (uint8_t)y;
			uint8_t b = 0x63;
			for (int k = 0; k < 5; k++) b ^= (uint8_t)(inv << k | inv >> (8 - k));
			r[(size_t)x] = b;
		}
		return r;
	}();
	return s;
}
static AES::Block refAES(const AES::Key& key, const AES::Block& in) {
	auto& S = sbox();
	std::array<std::array<uint8_t, 4>, 60> w{};
	uint8_t rc = 1;
	for (size_t i = 0; i < 60; i++) {
		if (i < 8) { for (size_t k = 0; k < 4; k++) w[i][k] = key[4 * i + k]; continue; }
		auto t = w[i - 1];
		if (i % 8 == 0) { t = {S[t[1]], S[t[2]], S[t[3]], S[t[0]]}; t[0] ^= rc; rc = mul(rc, 2); }
		else if (i % 8 == 4) for (auto& x : t) x = S[x];
		for (size_t k = 0; k < 4; k++) w[i][k] = w[i - 8][k] ^ t[k];
	}
	AES::Block s = in; // s[4*col+row]
	auto addKey = [&](size_t r) { for (size_t i = 0; i < 16; i++) s[i] ^= w[4 * r + i / 4][i % 4]; };
	addKey(0);
	for (size_t r = 1; r <= 14; r++) {
		AES::Block t{};
		for (size_t col = 0; col < 4; col++) for (size_t row = 0; row < 4; row++) t[4 * col + row] = S[s[4 * ((col + row) % 4) + row]];
		if (r < 14) for (size_t col = 0; col < 4; col++) for (size_t row = 0; row < 4; row++)
			s[4 * col + row] = mul(t[4 * col + row], 2) ^ mul(t[4 * col + (row + 1) % 4], 3) ^ t[4 * col + (row + 2) % 4] ^ t[4 * col + (row + 3) % 4];
		else s = t;
		addKey(r);
	}
	return s;
}
template<typename A> static std::string hex(const A& a) { std::string r; char b[4]; for (auto x : a) { snprintf(b, 4, "%02x", x); r += b; } return r; }
template<typename A> static A block(pbt::Ctx& c) {
	A a{};
	switch (c.below(5)) {
		case 0: break;
		case 1: a.fill(0xff); break;
		case 2: a.fill((uint8_t)c.below(256)); break;
		case 3: a[(size_t)c.below(a.size())] = (uint8_t)(1u << c.below(8)); break;
		default: for (auto& x : a) x = (uint8_t)c.below(256);
	}
	for (auto k = c.below(4); k > 0; k--) a[(size_t)c.below(a.size())] = (uint8_t)c.below(256);
	return a;
}
PBT_PROP(cipher, 60000, 2000000) {
	static const bool anchored = [] { // FIPS 197, C.3
		AES::Key k{}; AES::Block b{}; for (size_t i = 0; i < 32; i++) k[i] = (uint8_t)i; for (size_t i = 0; i < 16; i++) b[i] = (uint8_t)(i * 17);
		if (hex(refAES(k, b)) != "8ea2b7ca516745bfeafc49904b496089") { fprintf(stderr, "the reference is wrong\n"); _exit(3); }
		return true;
	}();
	(void)anchored;
	auto key = block<AES::Key>(c); auto b = block<AES::Block>(c);
	PBT_NOTE << "key " << hex(key) << " block " << hex(b) << "\n";
	c.nontrivial();
	AES aes(key);
	const AES& a = aes;
	auto was = b;
	auto got = a(b);
	PBT_CHECK(got == refAES(key, b), "AES gives ", hex(got), " instead of ", hex(refAES(key, b)));
	PBT_CHECK(was == b && a(b) == got, "a second encryption differs");
	AES other(block<AES::Key>(c));
	(void)other(b);
	AES copy = aes;
	other = copy;
	PBT_CHECK(aes(b) == got && copy(b) == got && other(b) == got, "a copy encrypts differently");
	b = got;
	PBT_CHECK(copy(b) == refAES(key, b), "AES gives ", hex(copy(b)), " for ", hex(b));
}
// the same in constant expressions
template<uint8_t X> constexpr AES::Block compiled() {
	AES::Key k{}; AES::Block b{};
	for (size_t i = 0; i < 32; i++) k[i] = (uint8_t)(i * 7 + X);
	for (size_t i = 0; i < 16; i++) b[i] = (uint8_t)(i * 31 ^ X);
	return AES(k)(b);
}
static constexpr std::array<AES::Block, 8> COMPILED{compiled<0>(), compiled<1>(), compiled<35>(), compiled<77>(), compiled<128>(), compiled<180>(), compiled<222>(), compiled<255>()};
static constexpr uint8_t COMPILED_X[] = {0, 1, 35, 77, 128, 180, 222, 255};
PBT_PROP(constantExpression, 16, 16) {
	size_t i = (size_t)c.below(8); c.nontrivial();
	AES::Key k{}; AES::Block b{};
	for (size_t j = 0; j < 32; j++) k[j] = (uint8_t)(j * 7 + COMPILED_X[i]);
	for (size_t j = 0; j < 16; j++) b[j] = (uint8_t)(j * 31 ^ COMPILED_X[i]);
	PBT_CHECK(COMPILED[i] == refAES(k, b), "AES in a constant expression gives ", hex(COMPILED[i]));
}
struct Ref { // the generator: a little endian counter which is advanced before each number
	AES::Key key; AES::Block iv;
	explicit Ref(const AES::Key& k, const AES::Block& i) : key(k), iv(i) {}
	explicit Ref(uint64_t seed) : key(), iv() {
		static const uint8_t pi[48] = {0x32, 0x43, 0xf6, 0xa8, 0x88, 0x5a, 0x30, 0x8d, 0x31, 0x31, 0x98, 0xa2, 0xe0, 0x37, 0x07, 0x34, 0x4a, 0x40, 0x93, 0x82, 0x22, 0x99, 0xf3, 0x1d, 0x00, 0x82, 0xef, 0xa9, 0x8e, 0xc4, 0xe6, 0xc8,
			0x94, 0x52, 0x82, 0x1e, 0x63, 0x8d, 0x01, 0x37, 0x7b, 0xe5, 0x46, 0x6c, 0xf3, 0x4e, 0x90, 0xc6};
		std::copy(pi, pi + 32, key.begin()); std::copy(pi + 32, pi + 48, iv.begin());
		for (size_t i = 0; i < 8; i++) iv[i] ^= (uint8_t)(seed >> 8 * i);
	}
	uint64_t operator()() {
		unsigned carry = 1;
		for (auto& x : iv) { carry += x; x = (uint8_t)carry; carry >>= 8; }
		auto e = refAES(key, iv);
		uint64_t r = 0;
		for (size_t i = 0; i < 16; i++) r ^= (uint64_t)e[i] << 8 * (i % 8);
		return r;
	}
};
static std::pair<AES_RNG, Ref> fresh(pbt::Ctx& c) {
	if (c.coin()) { auto s = word(c); PBT_NOTE << "seed " << s << "\n"; return {AES_RNG(s), Ref(s)}; }
	auto k = block<AES::Key>(c); auto iv = block<AES::Block>(c);
	if (c.coin()) { // about to carry into a later byte
		size_t n = 1 + (size_t)c.below(16);
		for (size_t i = 0; i < n; i++) iv[i] = 0xff;
		iv[0] = (uint8_t)(0xff - c.below(6));
	}
	PBT_NOTE << "key " << hex(k) << " iv " << hex(iv) << "\n";
	return {AES_RNG(k, iv), Ref(k, iv)};
}
#else
struct Ref { // Blackman, Vigna: xoshiro256** 1.0, jumps as the 2^128th power of the transition matrix
	using State = std::array<uint64_t, 4>;
	State s;
	explicit Ref(const State& x) : s(x) {}
	explicit Ref(uint64_t seed) : s{0x3243F6a8885a308dull ^ seed, 0x313198a2e0370734ull ^ seed, 0x4a4093822299f31dull ^ seed, 0x0082efa98ec4e6c8ull ^ seed} { jump(); }
	static uint64_t rotl(uint64_t x, int k) { return x << k | x >> (64 - k); }
	static State step(State s) {
		uint64_t t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
		return s;
	}
	uint64_t operator()() { uint64_t r = rotl(s[1] * 5, 7) * 9; s = step(s); return r; }
	using Matrix = std::array<State, 256>; // images of the unit vectors
	static State apply(const Matrix& m, const State& x) {
		State r{};
		for (size_t i = 0; i < 256; i++) if (x[i / 64] >> (i % 64) & 1) for (size_t k = 0; k < 4; k++) r[k] ^= m[i][k];
		return r;
	}
	static const Matrix& jumpMatrix() {
		static const Matrix J = [] {
			Matrix m{};
			for (size_t i = 0; i < 256; i++) { State e{}; e[i / 64] = 1ull << (i % 64); m[i] = step(e); }
			for (int k = 0; k < 128; k++) { Matrix q{}; for (size_t i = 0; i < 256; i++) q[i] = apply(m, m[i]); m = q; }
			return m;
		}();
		return J;
	}
	void jump() { s = apply(jumpMatrix(), s); }
};
static std::pair<Xoshiro256ss, Ref> fresh(pbt::Ctx& c) {
	if (c.coin()) {
		uint64_t s = c.chance(1, 6) ? c.pick<uint64_t>({0x3243F6a8885a308dull, 0x313198a2e0370734ull, 0x4a4093822299f31dull, 0x0082efa98ec4e6c8ull}) : word(c);
		PBT_NOTE << "seed " << s << "\n";
		Xoshiro256ss g(s); auto probe = g; bool zero = true;
		for (int i = 0; i < 8; i++) zero &= probe() == 0;
		PBT_CHECK(!zero, "the state is all zero");
		return {g, Ref(s)};
	}
	Ref::State s{word(c), word(c), word(c), word(c)};
	PBT_NOTE << "state " << pbt::seq(s) << "\n";
	return {Xoshiro256ss(s), Ref(s)};
}
PBT_PROP(largestState, 300, 3000) { // every single bit and every pair of jump and draw orders
	Ref::State s{}; size_t i = (size_t)c.below(256); s[i / 64] = 1ull << (i % 64);
	PBT_NOTE << "bit " << i << "\n"; c.nontrivial();
	Xoshiro256ss a(s), b(s);
	auto k = c.below(20);
	a.jump(); for (uint64_t j = 0; j < k; j++) (void)a();
	for (uint64_t j = 0; j < k; j++) (void)b();
	b.jump();
	for (int j = 0; j < 8; j++) PBT_CHECK(a() == b(), "jump and draws do not commute");
}
#endif
PBT_PROP(streams, 20000, 500000) {
	using G = VH_ENGINE;
	std::vector<std::pair<G, Ref>> gs{fresh(c)};
	size_t steps = (size_t)c.rarely(1, 30, 600);
	uint64_t drawn = 0;
	for (size_t t = 0; t < steps; t++) {
		size_t i = (size_t)c.below(gs.size());
		switch (c.weighted({6, 1, 1, 1, 1})) {
			case 0:
				for (auto k = c.chance(1, 40) ? c.range(200, 700) : c.range(1, 6); k > 0; k--) {
					uint64_t got = gs[i].first(), want = gs[i].second(); drawn++;
					PBT_CHECK(got == want, "number ", drawn, " of generator ", i, " is ", got, " instead of ", want);
				}
				break;
			case 1: PBT_NOTE << "copy " << i << "\n"; if (gs.size() < 6) gs.push_back(gs[i]); break;
			case 2: { size_t j = (size_t)c.below(gs.size()); PBT_NOTE << "assign " << i << "=" << j << "\n"; gs[i] = gs[j]; break; }
			case 3: if (gs.size() < 6) gs.push_back(fresh(c)); break;
			default:
#ifdef P_C27
				PBT_NOTE << "jump " << i << "\n"; gs[i].first.jump(); gs[i].second.jump();
#else
				{ G moved = std::move(gs[i].first); gs[i].first = std::move(moved); }
#endif
		}
	}
	for (auto& [g, r] : gs) for (int k = 0; k < 6; k++) PBT_CHECK(g() == r(), "streams differ at the end");
	if (drawn > 1) c.nontrivial();
}
// the random library draws exactly the words of the engine, and equal seeds give equal results
PBT_PROP(library, 10000, 200000) {
	uint64_t seed = word(c), other = word(c);
	PBT_NOTE << "seed " << seed << "\n";
	if (seed > 1) c.nontrivial();
	auto draw = [&](uint64_t s) {
		std::vector<Integer> r;
		Random::seed(s);
		for (int i = 0; i < 6; i++) r.push_back(Random::integer(1'000'000'000'000));
		r.push_back(Random::integer(-5, 3));
		for (auto x : Random::perm(5)) r.push_back(x);
		for (int i = 0; i < 8; i++) r.push_back(Random::bit());
		r.push_back((Integer)(Random::real(0, 1) * 1e15));
		return r;
	};
	auto a = draw(seed), x = draw(other), b = draw(seed);
	PBT_CHECK(a == b, "equal seeds give ", pbt::seq(a), " and ", pbt::seq(b));
	PBT_CHECK(seed == other || a != x, "seeds ", seed, " and ", other, " give the same numbers");
	for (int i = 0; i < 6; i++) PBT_CHECK(a[(size_t)i] >= 0 && a[(size_t)i] < 1'000'000'000'000, "integer out of range");
	std::vector<int> v(20); std::iota(v.begin(), v.end(), 0); auto w = v;
	VH_ENGINE g1(seed), g2(seed); // also with the standard library
	std::shuffle(v.begin(), v.end(), g1); std::shuffle(w.begin(), w.end(), g2);
	PBT_CHECK(v == w && g1() == g2(), "equal seeds shuffle differently");
}
