// C11 modular arithmetic, C12 primes
#include "vh.h"
using i128 = __int128;

static Integer refMod(Integer x, Integer m) { i128 r = (i128)x % m; if (r < 0) r += m; return (Integer)r; }
static Integer refGcd(Integer a, Integer b) { i128 x = a < 0 ? -(i128)a : a, y = b < 0 ? -(i128)b : b; while (y) { i128 t = x % y; x = y; y = t; } return (Integer)x; }
static Integer refMul(Integer a, Integer b, Integer m) { return (Integer)(((i128)refMod(a, m) * refMod(b, m)) % m); }
static Integer refPow(Integer b, Integer e, Integer m) {
	i128 r = 1 % m, x = refMod(b, m);
	for (; e; e >>= 1) { if (e & 1) r = r * x % m; x = x * x % m; }
	return (Integer)r;
}

#ifdef P_C11
static Integer genMod(pbt::Ctx& c) {
	switch (c.weighted({2, 2, 2, 2, 2, 1})) {
		case 0: return c.range(1, 12);
		case 1: return c.range(1, 5000);
		case 2: return (Integer)((1ull << 32) + (uint64_t)c.range(-40, 40));                // switch between the two multipliers
		case 3: { Integer x = c.i64() & INT64_MAX; return x ? x : 1; }
		case 4: { Integer x = (Integer)((1ull << c.range(1, 62)) + (uint64_t)c.range(-2, 2)); return x > 0 ? x : 1; }
		default: return INT64_MAX - (Integer)c.below(5);
	}
}
// operand: anywhere, or next to a multiple of the modulus
static Integer genOp(pbt::Ctx& c, Integer m) {
	switch (c.weighted({3, 2, 2, 2})) {
		case 0: return c.i64();
		case 1: return c.range(-20, 20);
		case 2: { Integer k = c.range(-3, 3); i128 x = (i128)k * m + (i128)c.range(-2, 2); return x > INT64_MAX ? INT64_MAX : x < INT64_MIN ? INT64_MIN : (Integer)x; }
		default: return m - 1 - (Integer)c.below(std::min<uint64_t>((uint64_t)m, 3));
	}
}

PBT_PROP(applyMod, 400000, 8000000) {
	Integer m = genMod(c), x = genOp(c, m);
	PBT_NOTE << "applyMod(" << x << "," << m << ")";
	if (x < 0 || x >= m) c.nontrivial();
	Integer r = applyMod(x, m);
	PBT_CHECK(r == refMod(x, m), "applyMod(", x, ",", m, ")=", r, " expected ", refMod(x, m));
}
PBT_PROP(mulMod, 400000, 8000000) {
	Integer m = genMod(c), a = genOp(c, m), b = genOp(c, m);
	PBT_NOTE << "mulMod(" << a << "," << b << "," << m << ")";
	if (m > 2 && refMod(a, m) > 1 && refMod(b, m) > 1) c.nontrivial();
	c.label(m > (Integer)0x100000000ll ? "mod>2^32" : "mod<=2^32");
	Integer r = mulMod(a, b, m);
	PBT_CHECK(r == refMul(a, b, m), "mulMod(", a, ",", b, ",", m, ")=", r, " expected ", refMul(a, b, m));
	PBT_CHECK(mulMod(b, a, m) == r, "mulMod not commutative for ", a, ",", b, ",", m);
}
PBT_PROP(powMod, 200000, 3000000) {
	Integer m = genMod(c), a = genOp(c, m);
	Integer e;
	switch (c.weighted({3, 2, 2, 1})) {
		case 0: e = (Integer)c.below(6); break;
		case 1: e = (Integer)c.below(2000); break;
		case 2: e = c.i64() & INT64_MAX; break;
		default: e = INT64_MAX - (Integer)c.below(3);
	}
	PBT_NOTE << "powMod(" << a << "," << e << "," << m << ")";
	if (m > 2 && e > 1) c.nontrivial();
	c.label(m > (Integer)0x100000000ll ? "mod>2^32" : "mod<=2^32");
	if (e == 0) c.label("exponent 0");
	if (m == 1) c.label("modulus 1");
	Integer r = powMod(a, e, m);
	PBT_CHECK(r == refPow(a, e, m), "powMod(", a, ",", e, ",", m, ")=", r, " expected ", refPow(a, e, m));
}
PBT_PROP(multInv, 300000, 5000000) {
	Integer m = genMod(c), a = genOp(c, m);
	PBT_NOTE << "multInv(" << a << "," << m << ")";
	Integer g = refGcd(refMod(a, m), m);
	c.label(g == 1 ? "invertible" : "not invertible");
	if (a < 0) c.label("negative operand");
	if (m > 2) c.nontrivial();
	Integer r = multInv(a, m);
	if (g != 1) PBT_CHECK(r == -1, "multInv(", a, ",", m, ")=", r, " but gcd is ", g);
	else {
		PBT_CHECK(0 <= r && r < m, "multInv(", a, ",", m, ")=", r, " is not a residue");
		PBT_CHECK(refMul(a, r, m) == 1 % m, "multInv(", a, ",", m, ")=", r, " is no inverse");
	}
}
PBT_PROP(domain, 4000, 40000) {
	// moduli <= 0 and negative exponents are refused, not computed
	Integer a = c.i64(), b = c.i64(), m = c.chance(1, 2) ? -(Integer)c.below(10) : (c.i64() | INT64_MIN);
	if (m > 0) m = 0;
	PBT_NOTE << "a=" << a << " b=" << b << " m=" << m;
	c.nontrivial();
	auto refused = [&](auto&& f) { auto o = outcome(f); return o.end == End::Exception; };
	PBT_CHECK(refused([&] { mulMod(a, b, m); }), "mulMod accepts modulus ", m);
	PBT_CHECK(refused([&] { powMod(a, b & INT64_MAX, m); }), "powMod accepts modulus ", m);
	PBT_CHECK(refused([&] { multInv(a, m); }), "multInv accepts modulus ", m);
	Integer e = b | INT64_MIN;
	PBT_CHECK(refused([&] { powMod(a, e, 1 + (m & 0xffff)); }), "powMod accepts exponent ", e);
}
PBT_PROP(signDist, 100000, 1000000) {
	Integer a = c.i64() / 4, b = c.i64() / 4;
	PBT_NOTE << a << " " << b;
	if (a != b) c.nontrivial();
	PBT_CHECK(sign(a) == (a > 0 ? 1 : a < 0 ? -1 : 0), "sign(", a, ")=", sign(a));
	Integer d = a > b ? a - b : b - a;
	PBT_CHECK(dist(a, b) == d && dist(b, a) == d, "dist(", a, ",", b, ")=", dist(a, b));
	UInteger ua = (UInteger)a, ub = (UInteger)b; // unsigned: no wrap around
	PBT_CHECK(dist(ua, ub) == (ua > ub ? ua - ub : ub - ua), "dist of unsigned ", ua, ",", ub);
	Real r = (Real)a / 1024;
	PBT_CHECK(sign(r) == (r > 0 ? 1 : r < 0 ? -1 : 0), "sign(", r, ")");
}
#endif

#ifdef P_C12
static bool trial(Integer n) {
	if (n < 2) return false;
	for (Integer d = 2; d <= n / d; d++) if (n % d == 0) return false;
	return true;
}
// independent reference for 64 bit: Miller-Rabin to the first 12 prime bases (proven below 3.3e24)
static bool refPrime(Integer n) {
	if (n < 2) return false;
	for (Integer p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n == p) return true; if (n % p == 0) return false; }
	Integer d = n - 1; int s = 0;
	while (!(d & 1)) { d >>= 1; s++; }
	for (Integer p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
		Integer x = refPow(p, d, n);
		if (x == 1 || x == n - 1) continue;
		bool ok = false;
		for (int i = 1; i < s && !ok; i++) { x = (Integer)((i128)x * x % n); ok = x == n - 1; }
		if (!ok) return false;
	}
	return true;
}
static Integer nextPrime(Integer n) { while (!refPrime(n)) n++; return n; }
// composites that are hard for probabilistic tests: known strong pseudoprimes / Carmichael numbers
static const Integer hard[] = {2047, 3277, 4033, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321,
	3825123056546413051, 561, 1105, 1729, 41041, 825265, 321197185, 5394826801, 232250619601, 9746347772161, 1436697831295441,
	60977817398996785, 7156857700403137441, 1791562810662585767, 4835703278458516698 + 1, 132 * 132 + 1, 4681, 15841, 29341, 
	46633, 52633, 88357, 104653, 3057601, 4682833, 5044033, 6787327, 9439201, 6135585, 3828001, 2113, 3281, 486737, 1194649, 12327121};
#ifndef P_WIDE
PBT_PROP(isPrimeSmall, 60000, 300000) {
	Integer n = c.range(-50, 2000000);
	PBT_NOTE << n;
	c.label(trial(n) ? "prime" : "composite");
	if (n > 131) c.nontrivial();
	PBT_CHECK(isPrime(n) == trial(n), "isPrime(", n, ")=", isPrime(n));
}
PBT_PROP(isPrimeDense, 800, 8000) { // blocks of consecutive numbers, exhaustive near powers of two and small squares
	Integer b;
	switch (c.weighted({2, 2, 2})) {
		case 0: b = (Integer)c.below(300000); break;
		case 1: b = (Integer)((1ull << c.range(1, 62)) - c.below(60)); break;
		default: { Integer p = (Integer)c.below(3000000000ull); b = p * p - 20; }
	}
	PBT_NOTE << "block at " << b;
	c.nontrivial();
	for (Integer n = b; n < b + 64 && n > 0; n++) PBT_CHECK(isPrime(n) == refPrime(n), "isPrime(", n, ")=", isPrime(n));
}
PBT_PROP(isPrimeHard, 120000, 1500000) {
	Integer n;
	size_t k = c.weighted({2, 3, 3, 2, 3, 2, 1, 2});
	switch (k) {
		case 0: n = hard[c.below(sizeof hard / sizeof *hard)]; break;
		case 1: { Integer p = nextPrime((Integer)c.below(3000000000ull)); n = p <= 3037000499ll ? p * p : p; break; }    // square of a prime
		case 2: { Integer p = nextPrime((Integer)c.below(1u << c.range(1, 31))); Integer q = nextPrime((Integer)c.below(1u << c.range(1, 31))); n = p * q; break; }
		case 3: n = nextPrime((Integer)(c.bits() >> c.range(2, 60))); break;
		case 4: { // p, 2p-1 / 3p-2 style strong pseudoprime candidates
			Integer p = nextPrime((Integer)c.below(1u << c.range(2, 30))); Integer m = c.range(2, 4); Integer q = m * (p - 1) + 1; n = p * q; if (n / p != q || n < 0) n = p; break; }
		case 5: { Integer a = c.range(1, 2000000 / 18); // Carmichael (6k+1)(12k+1)(18k+1)
			i128 x = (i128)(6 * a + 1) * (12 * a + 1) * (18 * a + 1); n = x > INT64_MAX ? 6 * a + 1 : (Integer)x; break; }
		case 7: { // divisors of the bases in published witness sets, literals of the code
			n = c.pick<Integer>({407521, 299210837, 73, 193, 325, 9375, 28178, 450775, 9780504, 1795265022, 1, 2, 3, 5, 13, 4759123141, 1122004669633, 21652684502221, 61, 7});
			if (c.coin()) n = (Integer)(c.literal() & INT64_MAX);
			break;
		}
		default: n = c.i64();
	}
	if (n < 0) c.label("negative");
	PBT_NOTE << n;
	c.label(pbt::cat("class ", k));
	c.nontrivial();
	bool e = refPrime(n);
	c.label(e ? "prime" : "composite");
	PBT_CHECK(isPrime(n) == e, "isPrime(", n, ")=", isPrime(n), " expected ", e);
}
PBT_PROP(primesList, 3000, 30000) {
	Integer lo, len;
	switch (c.weighted({3, 3, 2, 2, 1})) {
		case 0: lo = c.range(-30, 60); len = c.range(1, 200); break;
		case 1: lo = (Integer)c.below(3000000); len = c.range(1, 5000); break;
		case 2: { Integer p = nextPrime(c.range(3, 60000)); lo = p * p - c.range(0, 40); len = c.range(1, 90); break; } // around squares: the sieve/primality hand-over
 		case 3: lo = (Integer)(c.bits() >> c.range(3, 40)); len = c.range(1, 300); break;
		default: len = c.range(1, 2000); lo = INT64_MAX - len - (Integer)c.below(10); c.label("next to 2^63"); break;
	}
	PBT_NOTE << "primes(" << lo << "," << lo + len << ")";
	if (len > 3) c.nontrivial();
	auto v = primes(lo, lo + len);
	std::vector<Integer> e;
	for (Integer i = lo; i < lo + len; i++) if (refPrime(i)) e.push_back(i);
	c.label(e.empty() ? "no primes" : "primes in range");
	PBT_CHECK(v == e, "primes(", lo, ",", lo + len, ") = ", pbt::seq(v), " expected ", pbt::seq(e));
	if (lo <= 0 && lo + len > 0) { auto w = primes(lo + len); PBT_CHECK(w == e, "primes(", lo + len, ") differs from primes(", lo, ",", lo + len, ")"); }
}
PBT_PROP(primesPrefix, 40, 400) {
	Integer u = c.range(1, 200000);
	PBT_NOTE << "primes(" << u << ")";
	c.nontrivial();
	std::vector<bool> comp((size_t)u + 1);
	std::vector<Integer> e;
	for (Integer i = 2; i < u; i++) { if (!comp[(size_t)i]) { e.push_back(i); for (Integer j = i * i; j < u; j += i) comp[(size_t)j] = true; } }
	PBT_CHECK(primes(u) == e, "primes(", u, ") is not the list of all primes below it");
}
#endif
#ifdef P_WIDE
PBT_PROP(primesWide, 1, 6) { // ranges with more than 2^30 numbers
	Integer lo = c.chance(1, 3) ? c.range(-5, 5) : (Integer)(c.bits() >> c.range(4, 40)), len = (1ll << 30) + c.range(1 << 22, 1 << 27), hi = lo + len;
	PBT_NOTE << "primes(" << lo << "," << hi << ")";
	c.nontrivial();
	auto v = primes(lo, hi);
	for (std::size_t i = 1; i < v.size(); i++) if (v[i - 1] >= v[i]) PBT_CHECK(false, "primes(", lo, ",", hi, ") is not increasing at ", v[i]);
	PBT_CHECK(v.empty() || (v.front() >= lo && v.back() < hi), "primes(", lo, ",", hi, ") leaves the range");
	auto window = [&](Integer a, Integer b) {
		a = std::max(a, lo); b = std::min(b, hi);
		std::vector<Integer> e, g(std::lower_bound(v.begin(), v.end(), a), std::lower_bound(v.begin(), v.end(), b));
		for (Integer i = a; i < b; i++) if (refPrime(i)) e.push_back(i);
		PBT_CHECK(g == e, "primes(", lo, ",", hi, ") within [", a, ",", b, ") is ", pbt::seq(g), " expected ", pbt::seq(e));
	};
	window(lo, lo + 3000);
	window(hi - 3000, hi);
	for (Integer at : {lo + (1ll << 30), lo + (1ll << 29), 1ll << 30}) window(at - 2000, at + 2000);
	for (int k = 0; k < 20; k++) { Integer at = lo + (Integer)c.below((UInteger)len); window(at - 500, at + 500); }
	if (lo <= 2) { // the number of primes below 2^30 is known
		Integer below = std::lower_bound(v.begin(), v.end(), 1ll << 30) - v.begin();
		PBT_CHECK(below == 54400028, "primes(", lo, ",", hi, ") lists ", below, " primes below 2^30");
	}
}
#else
PBT_PROP(randomPrime, 4000, 60000) {
	Integer lo, hi;
	switch (c.weighted({2, 2, 2})) {
		case 0: lo = c.range(-20, 60); hi = lo + c.range(1, 80); break;
		case 1: lo = (Integer)c.below(1000000); hi = lo + c.range(1, 4000); break;
		default: lo = (Integer)(c.bits() >> c.range(2, 30)); hi = c.coin() ? lo + c.range(1, 100000) : INT64_MAX - (Integer)c.below(5); if (c.coin()) lo = 0;
	}
	if (lo >= hi) hi = lo + 1;
	PBT_NOTE << "Random::prime(" << lo << "," << hi << ")";
	Random::seed(c.bits());
	bool has = false;
	Integer span = hi - lo;
	if (span < 0 || span > 4000) has = true; // (prime gaps below 2^63 are < 1600)
	else for (Integer x = std::max<Integer>(lo, 2); x < hi && !has; x++) has = refPrime(x);
	c.label(has ? "has primes" : "no primes");
	if (has) c.nontrivial();
	Integer r = -7;
	auto o = outcome([&] { r = Random::prime(lo, hi); });
	if (!has) { PBT_CHECK(o.end == End::Exception, "Random::prime(", lo, ",", hi, ") returned ", r, " but the range has no prime"); return; }
	if (o.end == End::Exception) {
		// the search is randomised: on a sparse range it may legitimately give up; never on a dense one
		Integer cnt = 0;
		if (span > 0 && span <= 4000) for (Integer x = std::max<Integer>(lo, 2); x < hi; x++) cnt += refPrime(x);
		c.label("gave up");
		PBT_CHECK(span > 0 && span <= 4000 && !(cnt * 4 >= span && span > 12), "Random::prime(", lo, ",", hi, ") found no prime although there are many");
		return;
	}
	PBT_CHECK(lo <= r && r < hi, "Random::prime(", lo, ",", hi, ")=", r, " outside the range");
	PBT_CHECK(refPrime(r), "Random::prime(", lo, ",", hi, ")=", r, " is not prime");
}
PBT_PROP(everyPrime, 3000, 60000) { // every prime of the range is possible
	Integer lo = c.coin() ? c.range(-3, 60) : (Integer)(c.bits() >> c.range(2, 58)), hi = lo + c.range(1, c.coin() ? 12 : 60);
	if (hi < lo) lo = 0, hi = 20;
	std::set<Integer> all;
	for (Integer x = std::max<Integer>(lo, 2); x < hi; x++) if (refPrime(x)) all.insert(x);
	if (c.coin() && !all.empty()) { // a bound next to a prime
		Integer p = *std::next(all.begin(), (long)c.below(all.size()));
		if (c.coin()) { hi = p + c.range(0, 1); all.erase(all.lower_bound(hi), all.end()); }
		else { lo = p + c.range(0, 1); all.erase(all.begin(), all.lower_bound(lo)); }
		if (lo >= hi) { hi = lo + 1; all.clear(); if (lo >= 2 && refPrime(lo)) all.insert(lo); }
	}
	PBT_NOTE << "Random::prime(" << lo << "," << hi << ")";
	if (!all.empty()) c.nontrivial();
	Random::seed(c.bits());
	auto left = all;
	for (size_t i = 0; i < 60 * all.size() + 2 && !(left.empty() && !all.empty()); i++) {
		Integer r = -7;
		auto o = outcome([&] { r = (lo == 0 && i % 2) ? Random::prime(hi) : Random::prime(lo, hi); });
		if (o.end == End::Exception) continue;
		PBT_CHECK(all.count(r), "Random::prime(", lo, ",", hi, ")=", r, " is no prime of the range");
		left.erase(r);
	}
	if (!left.empty()) PBT_CHECK(false, "Random::prime(", lo, ",", hi, ") never draws ", *left.begin());
}
#endif
#endif
