// C16 ranges of random numbers, C17 random sequences: driven by an engine whose
// words are chosen by the generator (extreme words included), then pseudo random
#include "pbt.h"
#include <bits/stdc++.h>
struct ScriptEngine {
	using result_type = std::uint64_t;
	static inline pbt::Ctx* ctx = nullptr;
	static inline uint64_t state = 0;
	static inline int left = 0, zeros = 0, mode = 0;
	static inline long drawn = 0;
	ScriptEngine() = default;
	explicit ScriptEngine(result_type s) { state = s; }
	static constexpr result_type min() { return 0; }
	static constexpr result_type max() { return ~0ull; }
	void seed(result_type s) { state = s; }
	void discard(unsigned long long n) { while (n-- > 0) (*this)(); }
	static uint64_t mix() { uint64_t z = state += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	result_type operator()() {
		drawn++;
		if (!ctx || left <= 0) return mix();
		left--;
		uint64_t w;
		switch (mode == 1 ? 8 : ctx->below(9)) {
			case 0: w = 0; break;
			case 1: w = ~0ull; break;
			case 2: w = 1ull << ctx->below(64); break;
			case 3: w = ~(1ull << ctx->below(64)); break;
			case 4: w = ctx->below(4096); break;
			case 5: w = ~ctx->below(4096); break;
			case 6: w = ~0ull << ctx->below(64); break;
			case 7: w = (1ull << 63) + (uint64_t)ctx->range(-3, 3); break;
			default: w = mix();
		}
		if (w == 0 && ++zeros > 8) w = mix() | 1; // real() underflows after that
		if (w != 0) zeros = 0;
		return w;
	}
	static void start(pbt::Ctx& c) {
		ctx = &c; state = c.bits(); zeros = 0; drawn = 0;
		mode = c.chance(1, 3); // purely pseudo random
		left = mode ? 0 : (int)c.small(0, 60);
	}
};
#define VH_ENGINE ScriptEngine
#include "vh.h"

static Real genReal(pbt::Ctx& c) {
	switch (c.below(9)) {
		case 0: return (Real)c.range(-5, 5);
		case 1: return (Real)c.i64();
		case 2: return std::ldexp((Real)c.range(-1000, 1000), (int)c.range(-40, 40));
		case 3: return c.pick<Real>({1e300L, -1e300L, LDBL_MAX, -LDBL_MAX, LDBL_MAX / 2, 1e4000L});
		case 4: return c.pick<Real>({LDBL_MIN, -LDBL_MIN, 3.6e-4951L, -3.6e-4951L, 1e-300L, DBL_MIN});
		case 5: return (Real)(int64_t)c.bits() / 4096;
		case 6: return c.pick<Real>({0.0L, -0.0L, 1.0L, -1.0L, 0.5L});
		default: return (Real)c.range(-1000000, 1000000) / 1000;
	}
}

#ifdef P_C16
PBT_PROP(integers, 300000, 6000000) {
	ScriptEngine::start(c);
	Integer lo = c.i64(), up = c.i64();
	if (c.chance(1, 3)) up = lo < INT64_MAX - 4 ? lo + c.range(1, 4) : INT64_MAX;
	if (c.chance(1, 6)) { lo = INT64_MIN + c.range(0, 3); up = INT64_MAX - c.range(0, 3); }
	if (up < lo) std::swap(lo, up);
	PBT_NOTE << "[" << lo << "," << up << ")";
	int n = (int)c.range(1, 4);
	if (lo == up) {
		auto o = outcome([&] { switch (c.below(4)) { case 0: (void)Random::integer(lo, up); break; case 1: (void)Random::maximum(lo, up, 1 + (Integer)c.below(9)); break; case 2: (void)Random::minimum(lo, up, 1 + (Integer)c.below(9)); break; default: (void)Random::prime(lo, up); } });
		PBT_CHECK(o.end == End::Exception, "an empty range is not refused");
		return;
	}
	c.nontrivial();
	while (n-- > 0) {
		Integer x;
		auto o = outcome([&] { x = Random::integer(lo, up); });
		PBT_CHECK(o.end == End::Value, "raised ", o.what);
		PBT_CHECK(lo <= x && x < up, "gave ", x);
		if (lo == 0) { x = Random::integer(up); PBT_CHECK(0 <= x && x < up, "integer(", up, ") gave ", x); }
	}
	int b = (int)Random::bit();
	PBT_CHECK(b == 0 || b == 1, "bit");
	auto o = outcome([&] { (void)Random::integer(up, lo); });
	PBT_CHECK(o.end == End::Exception, "integer(", up, ",", lo, ") is not refused");
	o = outcome([&] { (void)Random::integer(-std::abs(c.range(0, INT64_MAX))); });
	PBT_CHECK(o.end == End::Exception, "integer(upper) with upper <= 0 is not refused");
}
PBT_PROP(extremes, 300000, 6000000) { // maximum, minimum, minmax
	ScriptEngine::start(c);
	Integer lo = c.i64(), up = c.i64();
	if (c.chance(1, 3)) up = lo < INT64_MAX - 4 ? lo + c.range(1, 4) : INT64_MAX;
	if (c.chance(1, 6)) { lo = INT64_MIN + c.range(0, 3); up = INT64_MAX - c.range(0, 3); }
	if (up < lo) std::swap(lo, up);
	if (lo == up) c.discard();
	Integer n = c.coin() ? c.range(1, 8) : c.pick<Integer>({1, 4, 5, 6, 100, 1000000, 1LL << 40, INT64_MAX});
	PBT_NOTE << "[" << lo << "," << up << ") n=" << n;
	c.nontrivial();
	auto test = [&](const char* what, auto f, Integer l) {
		Integer x = 0;
		auto o = outcome([&] { x = f(); });
		PBT_CHECK(o.end == End::Value, what, " raised ", o.what);
		PBT_CHECK(l <= x && x < up, what, " gave ", x);
	};
	test("maximum", [&] { return Random::maximum(lo, up, n); }, lo);
	test("minimum", [&] { return Random::minimum(lo, up, n); }, lo);
	test("minmax", [&] { return Random::minmax(lo, up, n); }, lo);
	test("minmax(-n)", [&] { return Random::minmax(lo, up, -n); }, lo);
	if (up > 0) {
		test("maximum(upper)", [&] { return Random::maximum(up, n); }, 0);
		test("minimum(upper)", [&] { return Random::minimum(up, n); }, 0);
		test("minmax(upper)", [&] { return Random::minmax(up, c.coin() ? n : -n); }, 0);
	}
	auto bad = [&](const char* what, auto f) { auto o = outcome([&] { (void)f(); }); PBT_CHECK(o.end == End::Exception, what, " is not refused"); };
	bad("maximum of a reversed range", [&] { return Random::maximum(up, lo, n); });
	bad("minimum of a reversed range", [&] { return Random::minimum(up, lo, n); });
	bad("maximum of no numbers", [&] { return Random::maximum(lo, up, c.range(-3, 0)); });
	bad("minimum of no numbers", [&] { return Random::minimum(lo, up, c.range(-3, 0)); });
	bad("minmax of no numbers", [&] { return Random::minmax(lo, up, 0); });
}
PBT_PROP(reals, 300000, 6000000) {
	ScriptEngine::start(c);
	Real x = Random::real();
	PBT_CHECK(x >= 0 && x < 1, "real() gave ", x);
	Real lo = genReal(c), up = genReal(c);
	if (c.chance(1, 4)) { up = lo; for (auto k = c.range(1, 3); k > 0; k--) up = std::nextafter(up, (Real)INFINITY); }
	if (up < lo) std::swap(lo, up);
	PBT_NOTE << "[" << lo << "," << up << ")";
	if (!std::isfinite(up)) c.discard();
	auto bad = [&](const char* what, auto f) { auto o = outcome([&] { (void)f(); }); PBT_CHECK(o.end == End::Exception, what, " is not refused"); };
	bad("reversed range", [&] { return Random::real(up, lo); });
	Real odd = c.pick<Real>({INFINITY, -INFINITY, NAN});
	bad("not finite bound", [&] { return c.coin() ? Random::real(odd, up) : Random::real(lo, odd); });
	bad("not finite upper", [&] { return Random::real(odd); });
	bad("upper <= 0", [&] { return Random::real(-std::abs(lo)); });
	if (!(lo < up)) return;
	c.nontrivial();
	for (int i = 0; i < 3; i++) {
		auto o = outcome([&] { x = Random::real(lo, up); });
		PBT_CHECK(o.end == End::Value, "raised ", o.what);
		PBT_CHECK(lo <= x && x < up, "gave ", x);
		if (up > 0) { x = Random::real(up); PBT_CHECK(0 <= x && x < up, "real(", up, ") gave ", x); }
	}
}
PBT_PROP(unitReal, 500000, 8000000) { // many draws with hostile words
	ScriptEngine::start(c);
	ScriptEngine::left = 100;
	c.nontrivial();
	for (int i = 0; i < 8; i++) { Real x = Random::real(); PBT_CHECK(x >= 0 && x < 1, "real() gave ", x); }
}
PBT_PROP(normals, 150000, 3000000) {
	ScriptEngine::start(c);
	Real mean = c.coin() ? (Real)c.range(-100, 100) : (Real)c.i64();
	Real sd = c.pick<Real>({0, 1e-9L, 0.01L, 0.5L, 1, 2, 10, 12345, 1e9L, 1e30L});
	PBT_NOTE << "mean " << mean << " stddev " << sd;
	Real x = 0;
	auto o = outcome([&] { x = Random::normal(mean, sd); });
	PBT_CHECK(o.end == End::Value && std::isfinite(x), "normal gave ", x, " ", o.what);
	Real a = (Real)c.range(-30, 15) / 10, b = a + (Real)c.range(1, 20) / 10;
	Real lo = mean + a * sd, up = mean + b * sd;
	if (c.chance(1, 5)) up = INFINITY;
	if (c.chance(1, 5)) lo = -INFINITY;
	if (sd == 0 || lo == up || std::abs(mean) > 1e6L * sd) { lo = mean - sd * c.pick<Real>({0, 1, 2}); up = mean + sd * c.pick<Real>({1, 2}) + c.pick<Real>({0, 1}); if (up == mean) up = std::nextafter(mean, (Real)INFINITY); }
	PBT_NOTE << " [" << lo << "," << up << ")";
	c.nontrivial();
	o = outcome([&] { x = Random::normal(lo, up, mean, sd); });
	PBT_CHECK(o.end == End::Value, "raised ", o.what);
	PBT_CHECK(lo <= x && x < up, "gave ", x);
	auto bad = [&](const char* what, auto f) { auto o = outcome([&] { (void)f(); }); PBT_CHECK(o.end == End::Exception, what, " is not refused"); };
	bad("empty range", [&] { return c.coin() ? Random::normal(up, lo, mean, sd) : Random::normal(up, up, mean, sd); });
	bad("NaN bound", [&] { return c.coin() ? Random::normal(NAN, up, mean, sd) : Random::normal(lo, NAN, mean, sd); });
	bad("negative deviation", [&] { return c.coin() ? Random::normal(mean, -sd - 1) : Random::normal(lo, up, mean, -sd - 0.5L); });
}
PBT_PROP(exponentials, 150000, 3000000) {
	ScriptEngine::start(c);
	Real lambda = c.pick<Real>({1e-9L, 0.001L, 0.5L, 1, 2, 10, 1e6L, 1e18L});
	Real x = 0;
	auto o = outcome([&] { x = Random::exponential(lambda); });
	PBT_CHECK(o.end == End::Value && x >= 0 && std::isfinite(x), "exponential(", lambda, ") gave ", x, " ", o.what);
	Real lo = c.coin() ? (Real)c.range(-100, 100) : (Real)c.i64();
	Real up = lo + (Real)c.range(1, 50) / 10 / lambda;
	if (!(lo < up)) up = std::nextafter(lo, (Real)INFINITY);
	if (c.chance(1, 4)) up = c.coin() ? INFINITY : std::abs(lo) * 2 + 1000 / lambda;
	PBT_NOTE << "lambda " << lambda << " [" << lo << "," << up << ")";
	c.nontrivial();
	o = outcome([&] { x = Random::exponential(lo, up, lambda); });
	PBT_CHECK(o.end == End::Value, "raised ", o.what);
	PBT_CHECK(lo <= x && x < up, "gave ", x);
	auto bad = [&](const char* what, auto f) { auto o = outcome([&] { (void)f(); }); PBT_CHECK(o.end == End::Exception, what, " is not refused"); };
	bad("empty range", [&] { return c.coin() ? Random::exponential(up, lo, lambda) : Random::exponential(lo, lo, lambda); });
	bad("NaN bound", [&] { return c.coin() ? Random::exponential(NAN, up, lambda) : Random::exponential(lo, NAN, lambda); });
	bad("lambda <= 0", [&] { Real l = c.coin() ? 0.0L : -lambda; return c.coin() ? Random::exponential(l) : Random::exponential(lo, up, l); });
}
PBT_PROP(geometrics, 150000, 3000000) {
	ScriptEngine::start(c);
	Real p = c.pick<Real>({0.5L, 0.1L, 0.9L, 0.999999999L, 1e-3L, 1e-9L, 1e-15L, 1e-18L, 1e-19L, 1e-20L, 1e-25L});
	Integer x = 0;
	PBT_NOTE << "p " << p;
	if (p >= 1e-19L) {
		auto o = outcome([&] { x = Random::geometric(p); });
		PBT_CHECK(o.end == End::Value && x >= 0, "geometric gave ", x, " ", o.what);
	}
	Integer lo = c.coin() ? c.range(-100, 100) : c.i64(), up;
	Real need = std::max(1.0L, 0.02L / p); // enough room to accept within reasonable time
	if (need >= 9e18L || (Real)lo + need >= 9.2e18L) { p = 0.5L; lo = std::min(lo, INT64_MAX - 1); need = 1; PBT_NOTE << " p 0.5"; }
	Integer room = (Integer)std::min<Real>((Real)INT64_MAX - (Real)lo, 9e18L);
	if (lo < 0 && c.chance(1, 8)) up = INT64_MAX - c.range(0, 3);
	else up = lo + std::min<Integer>(room, (Integer)need + c.range(0, 20));
	if (up <= lo) up = lo + 1;
	PBT_NOTE << " [" << lo << "," << up << ")";
	c.nontrivial();
	auto o = outcome([&] { x = Random::geometric(lo, up, p); });
	PBT_CHECK(o.end == End::Value, "raised ", o.what);
	PBT_CHECK(lo <= x && x < up, "gave ", x);
	auto bad = [&](const char* what, auto f) { auto o = outcome([&] { (void)f(); }); PBT_CHECK(o.end == End::Exception, what, " is not refused"); };
	bad("empty range", [&] { return c.coin() ? Random::geometric(up, lo, p) : Random::geometric(up, up, p); });
	Real q = c.pick<Real>({-0.1L, -1.0L, 1.1L, 100.0L, -1e-30L});
	bad("p outside of [0,1]", [&] { return c.coin() ? Random::geometric(q) : Random::geometric(lo, up, q); });
	bad("p = 0", [&] { return c.coin() ? Random::geometric(0) : Random::geometric(lo, up, 0); });
}
PBT_PROP(binomials, 150000, 3000000) {
	ScriptEngine::start(c);
	Integer n = c.weighted({4, 3, 2}) == 0 ? c.range(0, 40) : c.coin() ? c.range(0, 100000) : c.pick<Integer>({0, 1, 1LL << 31, 1LL << 40, 1LL << 52, INT64_MAX / 2, INT64_MAX});
	Real p = c.coin() ? (Real)c.range(0, 1000) / 1000 : c.pick<Real>({0, 1, 0.5L, 1e-18L, 1e-20L, 1e-30L, 1 - 1e-18L, 1e-300L, 9.5L / (Real)std::max<Integer>(n, 10)});
	PBT_NOTE << "n " << n << " p " << p;
	c.nontrivial();
	Integer x = 0;
	auto o = outcome([&] { x = Random::binomial(n, p); });
	PBT_CHECK(o.end == End::Value, "raised ", o.what);
	PBT_CHECK(x >= 0 && x <= n, "gave ", x);
	if (p == 0) PBT_CHECK(x == 0, "p=0 gave ", x);
	if (p == 1) PBT_CHECK(x == n, "p=1 gave ", x);
	if (n < (1LL << 50)) {
		Real mean = (Real)n * p, sd = std::sqrt(mean * (1 - p)) + 1;
		Integer lo = (Integer)std::floor(mean - (Real)c.range(0, 20) / 10 * sd), up = (Integer)std::ceil(mean + (Real)c.range(0, 20) / 10 * sd) + 1;
		PBT_NOTE << " [" << lo << "," << up << ")";
		o = outcome([&] { x = Random::binomial(lo, up, n, p); });
		PBT_CHECK(o.end == End::Value, "raised ", o.what);
		PBT_CHECK(lo <= x && x < up && 0 <= x && x <= n, "gave ", x);
		auto bad = [&](const char* what, auto f) { auto o = outcome([&] { (void)f(); }); PBT_CHECK(o.end == End::Exception, what, " is not refused"); };
		bad("empty range", [&] { return c.coin() ? Random::binomial(up, lo, n, p) : Random::binomial(up, up, n, p); });
		Real q = c.pick<Real>({-0.1L, 1.1L, -3, 2, NAN});
		bad("p outside of [0,1]", [&] { return c.coin() ? Random::binomial(n, q) : Random::binomial(lo, up, n, q); });
		bad("negative n", [&] { Integer m = -c.range(1, 9); return c.coin() ? Random::binomial(m, p) : Random::binomial(lo, up, m, p); });
	}
}
PBT_PROP(choices, 100000, 2000000) { // discrete and select
	ScriptEngine::start(c);
	c.nontrivial();
	auto ok = [&](Integer x, std::initializer_list<int> possible) { PBT_CHECK(std::find(possible.begin(), possible.end(), (int)x) != possible.end(), "discrete gave ", x); };
	ok(Random::discrete<1>(), {0});
	ok(Random::discrete<1, 1>(), {0, 1});
	ok(Random::discrete<0, 3, 0, 0, 2, 0>(), {1, 4});
	ok(Random::discrete<0, 0, 5>(), {2});
	ok(Random::discrete<7, 0, 0>(), {0});
	ok(Random::discrete<1000000000000, 1, 1000000000000>(), {0, 1, 2});
	std::vector<Integer> v;
	for (auto k = c.range(0, 5); k > 0; k--) v.push_back(c.i64());
	std::string s; for (size_t i = 0; i < v.size(); i++) s += (char)c.below(256);
	if (v.empty()) {
		auto o = outcome([&] { switch (c.below(4)) { case 0: (void)Random::select(v); break; case 1: (void)Random::select(v.begin(), v.end()); break; case 2: (void)Random::select(std::as_const(v)); break; default: (void)Random::select(s); } });
		PBT_CHECK(o.end == End::Exception, "selecting of nothing is not refused");
	} else {
		Integer& x = Random::select(v);
		PBT_CHECK(&x >= v.data() && &x < v.data() + v.size(), "select(container) does not refer to an element");
		Integer& y = Random::select(v.begin(), v.end());
		PBT_CHECK(&y >= v.data() && &y < v.data() + v.size(), "select(first, last) does not refer to an element");
		Integer z = Random::select(std::as_const(v));
		PBT_CHECK(std::count(v.begin(), v.end(), z), "select(const container) gave ", z);
		PBT_CHECK(s.find(Random::select(s)) != std::string::npos, "select(string)");
		PBT_CHECK(s.find(Random::select(std::string_view(s))) != std::string::npos, "select(string_view)");
		std::deque<Integer> d(v.begin(), v.end());
		PBT_CHECK(std::count(v.begin(), v.end(), Random::select(d)), "select(deque)");
	}
	Integer arr[3] = {c.i64(), c.i64(), c.i64()};
	Integer& a = Random::select(arr);
	PBT_CHECK(&a >= arr && &a < arr + 3, "select(array) does not refer to an element");
	const Integer carr[2] = {arr[0], arr[1]};
	Integer b = Random::select(carr);
	PBT_CHECK(b == arr[0] || b == arr[1], "select(const array)");
	b = Random::select({arr[0], arr[2]});
	PBT_CHECK(b == arr[0] || b == arr[2], "select({...})");
	b = Random::select(std::make_pair(arr[0], arr[1]));
	PBT_CHECK(b == arr[0] || b == arr[1], "select(pair)");
	b = Random::select(std::complex<Integer>(arr[0], arr[1]));
	PBT_CHECK(b == arr[0] || b == arr[1], "select(complex)");
}
#endif

#ifdef P_C17
static std::string show(const std::vector<Integer>& v) { return v.size() > 40 ? pbt::cat(v.size(), " values") : pbt::seq(v); }
#define MUST(expr) do { auto o_ = outcome([&] { expr; }); PBT_CHECK(o_.end == End::Value, #expr " raised ", o_.what); } while (0)
#define BAD(what, expr) do { auto o_ = outcome([&] { (void)(expr); }); PBT_CHECK(o_.end == End::Exception, what, ": " #expr " is not refused"); } while (0)
struct Range { Integer lo, up; };
static Range genRange(pbt::Ctx& c, Integer atLeast) { // up - lo >= atLeast
	Integer lo;
	Range r;
	switch (c.below(6)) {
		case 0: lo = INT64_MIN + c.range(0, 3); break;
		case 1: lo = INT64_MAX - atLeast - c.range(0, 3); break;
		case 2: lo = c.i64(); break;
		default: lo = c.range(-50, 50);
	}
	if (lo > INT64_MAX - atLeast) lo = INT64_MAX - atLeast;
	r.lo = lo;
	uint64_t room = (uint64_t)INT64_MAX - (uint64_t)lo;
	uint64_t w = (uint64_t)atLeast + (c.coin() ? c.below(3) : c.coin() ? c.below(100) : c.bits() >> c.below(64));
	if (c.chance(1, 3)) w = (uint64_t)atLeast;
	r.up = (Integer)((uint64_t)lo + std::min(w, room));
	return r;
}
static bool distinctVals(std::vector<Integer> v) { std::sort(v.begin(), v.end()); return std::adjacent_find(v.begin(), v.end()) == v.end(); }
PBT_PROP(ordered, 200000, 4000000) { // distinct, multiple, increasing, ...
	ScriptEngine::start(c);
	Integer n = c.chance(1, 50) ? c.range(100, 400) : c.range(0, 12);
	int kind = (int)c.below(6);
	bool diff = kind == 0 || kind == 2 || kind == 3;
	auto [lo, up] = genRange(c, diff ? n : n > 0);
	bool upperOnly = lo <= 0 && up > 0 && c.coin() && (!diff || up >= n);
	if (upperOnly) lo = 0;
	PBT_NOTE << "kind " << kind << " count " << n << " [" << lo << "," << up << ")";
	if (n > 1) c.nontrivial();
	std::vector<Integer> v;
	switch (kind) {
		case 0: MUST(v = upperOnly ? Random::distinct(n, up) : Random::distinct(n, lo, up)); break;
		case 1: MUST(v = upperOnly ? Random::multiple(n, up) : Random::multiple(n, lo, up)); break;
		case 2: MUST(v = upperOnly ? Random::increasing(n, up) : Random::increasing(n, lo, up)); break;
		case 3: MUST(v = upperOnly ? Random::decreasing(n, up) : Random::decreasing(n, lo, up)); break;
		case 4: MUST(v = upperOnly ? Random::nonDecreasing(n, up) : Random::nonDecreasing(n, lo, up)); break;
		default: MUST(v = upperOnly ? Random::nonIncreasing(n, up) : Random::nonIncreasing(n, lo, up)); break;
	}
	PBT_NOTE << ": " << show(v);
	PBT_CHECK((Integer)v.size() == n, "gave ", v.size(), " values");
	for (auto x : v) PBT_CHECK(lo <= x && x < up, "value ", x, " is out of range");
	if (diff) PBT_CHECK(distinctVals(v), "values are not different");
	if (kind == 2 || kind == 4) PBT_CHECK(std::is_sorted(v.begin(), v.end()), "not in order");
	if (kind == 3 || kind == 5) PBT_CHECK(std::is_sorted(v.rbegin(), v.rend()), "not in order");
	Integer m = c.range(1, 6), k = m + c.range(1, 5), base = c.range(-9, 9);
	switch (kind) {
		case 0: BAD("too small range", Random::distinct(k, base, base + m)); BAD("negative count", Random::distinct(-m, base, base + m)); break;
		case 1: BAD("empty range", Random::multiple(k, base, base - (Integer)c.below(2))); break;
		case 2: BAD("too small range", Random::increasing(k, base, base + m)); break;
		case 3: BAD("too small range", Random::decreasing(k, base, base + m)); break;
		case 4: BAD("empty range", Random::nonDecreasing(k, base, base - (Integer)c.below(2))); break;
		default: BAD("empty range", Random::nonIncreasing(k, base, base - (Integer)c.below(2)));
	}
}
static Integer genOffset(pbt::Ctx& c, Integer n) {
	switch (c.below(5)) {
		case 0: return 0;
		case 1: return INT64_MIN + c.range(0, 2);
		case 2: return INT64_MAX - n - c.range(0, 2);
		case 3: return std::min(c.i64(), INT64_MAX - n);
		default: return c.range(-30, 30);
	}
}
// values of a permutation relative to the offset, checked
static std::vector<Integer> rel(pbt::Ctx& c, const std::vector<Integer>& v, Integer n, Integer off) {
	PBT_CHECK((Integer)v.size() == n, "gave ", v.size(), " values instead of ", n);
	std::vector<Integer> r;
	std::vector<char> seen((size_t)n);
	for (auto x : v) {
		uint64_t d = (uint64_t)x - (uint64_t)off;
		PBT_CHECK(x >= off && d < (uint64_t)n, "value ", x, " is outside of the permutation with offset ", off);
		PBT_CHECK(!seen[d], "value ", x, " occurs twice");
		seen[d] = 1;
		r.push_back((Integer)d);
	}
	return r;
}
PBT_PROP(permutations, 200000, 4000000) {
	ScriptEngine::start(c);
	Integer n = c.chance(1, 50) ? c.range(100, 400) : c.range(0, 12);
	Integer off = genOffset(c, n);
	if (n > 1) c.nontrivial();
	std::vector<Integer> v;
	switch (c.below(3)) {
		case 0: {
			PBT_NOTE << "perm(" << n << ", " << off << ")";
			if (off == 0 && c.coin()) MUST(v = Random::perm(n)); else MUST(v = Random::perm(n, off));
			rel(c, v, n, off);
			BAD("negative count", Random::perm(-1 - (Integer)c.below(5)));
			break;
		}
		case 1: {
			std::vector<Integer> cyc;
			for (Integer left = n; left > 0;) { Integer k = c.coin() ? 1 : c.range(1, left); cyc.push_back(k); left -= k; }
			if (!cyc.empty() && c.coin()) std::rotate(cyc.begin(), cyc.begin() + (long)c.below(cyc.size()), cyc.end());
			PBT_NOTE << "perm(cycles " << show(cyc) << ", " << off << ")";
			if (off == 0 && c.coin()) MUST(v = Random::perm(cyc)); else MUST(v = Random::perm(cyc, off));
			PBT_NOTE << ": " << show(v);
			auto r = rel(c, v, n, off);
			std::vector<char> seen((size_t)n);
			std::multiset<Integer> got, want(cyc.begin(), cyc.end());
			for (size_t i = 0; i < r.size(); i++) if (!seen[i]) { Integer len = 0; for (size_t j = i; !seen[j]; j = (size_t)r[j]) { seen[j] = 1; len++; } got.insert(len); }
			PBT_CHECK(got == want, "cycle lengths are ", pbt::seq(got), " instead of ", pbt::seq(want));
			auto broken = cyc;
			broken.insert(broken.begin() + (long)c.below(cyc.size() + 1), c.range(-4, 0));
			PBT_NOTE << " broken " << show(broken);
			BAD("not positive cycle length", Random::perm(broken, off));
			break;
		}
		default: {
			std::vector<Integer> fix;
			for (auto k = c.small(0, n); k > 0; k--) fix.push_back(c.coin() || fix.empty() ? off + c.range(0, n - 1) : c.pickFrom(fix));
			PBT_NOTE << "perm(" << n << ", fix " << show(fix) << ", " << off << ")";
			if (off == 0 && c.coin()) MUST(v = Random::perm(n, fix)); else MUST(v = Random::perm(n, fix, off));
			PBT_NOTE << ": " << show(v);
			rel(c, v, n, off);
			for (auto x : fix) PBT_CHECK(v[(size_t)(x - off)] == x, x, " is no fixpoint");
			auto broken = fix;
			if (off > -1000 && off < 1000) {
				Integer out = c.coin() ? off - 1 - (Integer)c.below(3) : off + n + (Integer)c.below(3);
				broken.insert(broken.begin() + (long)c.below(fix.size() + 1), out);
				BAD("fixpoint outside of the permutation", Random::perm(n, broken, off));
			}
		}
	}
}
PBT_PROP(partitions, 200000, 4000000) {
	ScriptEngine::start(c);
	Integer k = c.chance(1, 50) ? c.range(50, 200) : c.range(1, 12);
	Integer mn = c.weighted({3, 3, 2}) == 0 ? 1 : c.coin() ? c.range(-5, 6) : c.pick<Integer>({0, -1, 2, 1000000, -1000000, 1LL << 40});
	Integer n = std::max<Integer>(1, mn * k) + (c.coin() ? (Integer)c.below(3) : c.coin() ? (Integer)c.below(1000) : (Integer)(c.bits() >> (2 + c.below(60))));
	PBT_NOTE << "partition(" << n << ", " << k << ", " << mn << ")";
	if (k > 1) c.nontrivial();
	std::vector<Integer> v;
	if (mn == 1 && c.coin()) MUST(v = Random::partition(n, k)); else MUST(v = Random::partition(n, k, mn));
	PBT_NOTE << ": " << show(v);
	PBT_CHECK((Integer)v.size() == k, "gave ", v.size(), " summands");
	__int128 sum = 0;
	for (auto x : v) { sum += x; PBT_CHECK(x >= mn, "summand ", x, " is too small"); }
	PBT_CHECK(sum == n, "sum is ", (Integer)sum);
	Integer m = std::max<Integer>(1, std::min<Integer>(mn, 1000));
	BAD("too many summands", Random::partition(m * k - 1 - (Integer)c.below((uint64_t)(m * k - 1) + 1), k, m));
	BAD("n <= 0", Random::partition(-(Integer)c.below(5), k, mn));
	BAD("k <= 0", Random::partition(n, -(Integer)c.below(5), mn));
}
PBT_PROP(texts, 150000, 3000000) {
	ScriptEngine::start(c);
	Integer n = c.chance(1, 50) ? c.range(100, 1000) : c.range(0, 20);
	if (n > 0) c.nontrivial();
	std::string s;
	MUST(s = Random::string(n));
	PBT_NOTE << "string(" << n << "): " << pbt::quote(s);
	PBT_CHECK((Integer)s.size() == n && s.find_first_not_of("abcdefghijklmnopqrstuvwxyz") == std::string::npos, "string(n) is ", pbt::quote(s));
	std::string alpha;
	for (auto k = c.range(1, 8); k > 0; k--) alpha += (char)c.below(256);
	MUST(s = Random::string(n, alpha));
	PBT_CHECK((Integer)s.size() == n && s.find_first_not_of(alpha) == std::string::npos, "string(n, ", pbt::quote(alpha), ") is ", pbt::quote(s));
	BAD("empty alphabet", Random::string(n, ""));
	BAD("negative length", Random::string(-1 - (Integer)c.below(9)));
	char open = '(', close = ')';
	if (c.coin()) { open = (char)c.range('A', 'M'); close = (char)c.range('N', 'Z'); MUST(s = Random::bracketSequence(n, open, close)); }
	else MUST(s = Random::bracketSequence(n));
	PBT_NOTE << " brackets " << s;
	PBT_CHECK((Integer)s.size() == 2 * n, "bracketSequence has length ", s.size());
	Integer depth = 0;
	for (char x : s) { PBT_CHECK(x == open || x == close, "unexpected character"); depth += x == open ? 1 : -1; PBT_CHECK(depth >= 0, "not balanced: ", s); }
	PBT_CHECK(depth == 0, "not balanced: ", s);
	BAD("negative length", Random::bracketSequence(-1 - (Integer)c.below(9)));
}
PBT_PROP(largeSequences, 40, 600) { // nothing may depend on the size
	Random::seed(c.bits());
	c.nontrivial();
	Integer n = c.range(5000, c.coin() ? 40000 : 300000), off = c.pick<Integer>({0, 1, -5, 1000000007, 4000000000000000000});
	Integer lo = c.i64in(-1000000000000000000, 1000000000000000000), up = lo + n + c.pick<Integer>({0, 1, 1000, 1000000000, 1000000000000000000});
	std::vector<Integer> v;
	auto sized = [&](const char* what) { PBT_CHECK((Integer)v.size() == n, what, "(", n, ") gave ", v.size(), " values"); };
	auto within = [&](const char* what) { sized(what); for (auto x : v) PBT_CHECK(lo <= x && x < up, what, ": value ", x, " is not in [", lo, ",", up, ")"); };
	switch (c.below(8)) {
		case 0: v = Random::perm(n, off); (void)rel(c, v, n, off); break;
		case 1: {
			std::vector<Integer> cyc; Integer part = c.range(1, n);
			for (Integer left = n; left > 0;) { Integer k = std::min(left, c.coin() ? part : 1 + (Integer)c.below(50)); cyc.push_back(k); left -= k; if (cyc.size() > 300) { cyc.push_back(left); break; } }
			if (cyc.back() == 0) cyc.pop_back();
			v = Random::perm(cyc, off);
			auto r = rel(c, v, n, off);
			std::vector<char> seen((size_t)n); std::multiset<Integer> got, want(cyc.begin(), cyc.end());
			for (size_t i = 0; i < r.size(); i++) if (!seen[i]) { Integer len = 0; for (size_t j = i; !seen[j]; j = (size_t)r[j]) { seen[j] = 1; len++; } got.insert(len); }
			PBT_CHECK(got == want, "cycle lengths of a permutation of ", n);
			break;
		}
		case 2: {
			std::vector<Integer> fix; Integer step = c.range(1, 9); for (Integer i = c.range(0, 5); i < n; i += step) fix.push_back(off + i);
			v = Random::perm(n, fix, off); (void)rel(c, v, n, off);
			for (auto x : fix) PBT_CHECK(v[(size_t)(x - off)] == x, x, " is no fixpoint");
			break;
		}
		case 3: v = Random::distinct(n, lo, up); within("distinct"); PBT_CHECK(distinctVals(v), "distinct(", n, ") repeats a value"); break;
		case 4: { bool inc = c.coin(); v = inc ? Random::increasing(n, lo, up) : Random::decreasing(n, lo, up); within("increasing"); PBT_CHECK(distinctVals(v), "in/decreasing repeats a value"); PBT_CHECK(inc ? std::is_sorted(v.begin(), v.end()) : std::is_sorted(v.rbegin(), v.rend()), "in/decreasing(", n, ") is not sorted"); break; }
		case 5: { bool inc = c.coin(); v = inc ? Random::nonDecreasing(n, lo, up) : Random::nonIncreasing(n, lo, up); within("nonDecreasing"); PBT_CHECK(inc ? std::is_sorted(v.begin(), v.end()) : std::is_sorted(v.rbegin(), v.rend()), "nonIn/Decreasing(", n, ") is not sorted"); break; }
		case 6: {
			Integer mn = c.pick<Integer>({0, 1, 7, 1000000000}), sum = mn * n + c.pick<Integer>({1, 1000, 1000000000000});
			v = Random::partition(sum, n, mn); sized("partition");
			Integer s = 0; for (auto x : v) { s += x; PBT_CHECK(x >= mn, "summand ", x, " is too small"); }
			PBT_CHECK(s == sum, "sum is ", s, " instead of ", sum);
			break;
		}
		default: {
			auto t = Random::string(n, "ab"), b = Random::bracketSequence(n);
			PBT_CHECK((Integer)t.size() == n && t.find_first_not_of("ab") == std::string::npos && (Integer)std::count(t.begin(), t.end(), 'a') > n / 3 && (Integer)std::count(t.begin(), t.end(), 'b') > n / 3, "string(", n, ")");
			Integer d = 0; PBT_CHECK((Integer)b.size() == 2 * n, "bracketSequence(", n, ") has length ", b.size());
			for (char x : b) { d += x == '(' ? 1 : -1; PBT_CHECK(d >= 0 && (x == '(' || x == ')'), "bracketSequence(", n, ") is not balanced"); }
			PBT_CHECK(d == 0, "bracketSequence(", n, ") is not balanced");
		}
	}
}
PBT_PROP(rearranging, 200000, 4000000) { // shuffle, rotate
	ScriptEngine::start(c);
	std::vector<Integer> v;
	for (auto k = c.range(0, 12); k > 0; k--) v.push_back(c.coin() ? c.range(0, 3) : c.i64());
	if (v.size() > 1) c.nontrivial();
	size_t from = c.below(v.size() + 1), to = from + c.below(v.size() - from + 1);
	auto w = v;
	switch (c.below(6)) {
		case 0: { Random::shuffle(w); auto a = v, b = w; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); PBT_CHECK(a == b, "shuffle changed the elements of ", show(v), " to ", show(w)); break; }
		case 1: {
			Random::shuffle(w.begin() + (long)from, w.begin() + (long)to);
			for (size_t i = 0; i < v.size(); i++) if (i < from || i >= to) PBT_CHECK(v[i] == w[i], "shuffle touched position ", i, " outside of the range");
			auto a = v, b = w; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
			PBT_CHECK(a == b, "shuffle changed the elements");
			break;
		}
		case 2: case 3: {
			bool all = c.coin();
			if (all) { from = 0; to = v.size(); }
			if (from == to) break;
			Integer r = 0;
			if (all && c.coin()) MUST(r = Random::rotate(w)); else MUST(r = Random::rotate(w.begin() + (long)from, w.begin() + (long)to));
			PBT_CHECK(0 <= r && r < (Integer)(to - from), "rotate returned ", r);
			for (size_t i = 0; i < v.size(); i++) {
				size_t j = i < from || i >= to ? i : from + (i - from + (size_t)r) % (to - from);
				PBT_CHECK(w[i] == v[j], "rotated by ", r, ": ", show(v), " became ", show(w));
			}
			break;
		}
		case 4: {
			std::pair<Integer, Integer> p(1, 2); Random::shuffle(p);
			PBT_CHECK((p == std::pair<Integer, Integer>(1, 2)) || (p == std::pair<Integer, Integer>(2, 1)), "shuffle(pair)");
			std::complex<Integer> z(1, 2); Random::shuffle(z);
			PBT_CHECK(z == std::complex<Integer>(1, 2) || z == std::complex<Integer>(2, 1), "shuffle(complex)");
			break;
		}
		default: {
			std::string s; for (auto x : v) s += (char)('a' + x % 26);
			auto t = s; Random::shuffle(t); auto a = s, b = t; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
			PBT_CHECK(a == b, "shuffle(string)");
			Integer arr[4] = {1, 2, 3, 4}; Random::shuffle(arr); Integer chk[4]; std::copy(arr, arr + 4, chk); std::sort(chk, chk + 4);
			PBT_CHECK(chk[0] == 1 && chk[1] == 2 && chk[2] == 3 && chk[3] == 4, "shuffle(array)");
			std::deque<Integer> d(v.begin(), v.end()); Random::shuffle(d);
			auto e = v; std::vector<Integer> f(d.begin(), d.end()); std::sort(e.begin(), e.end()); std::sort(f.begin(), f.end());
			PBT_CHECK(e == f, "shuffle(deque)");
		}
	}
}
#endif
