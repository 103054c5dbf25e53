// C33: arguments outside the domain of a function raise an error, arguments at
// its border do not. A family is a function; a case picks one, draws arguments
// around the border of its domain and knows by the definition whether they are
// inside.
#include "vh.h"
#ifdef P_GRAPH
#include "graph_gen.h"
#endif

namespace {
using I = Integer;
const I BIG = INT64_MAX, SMALL = -BIG; // -2^63 only where the function has no arithmetic on its arguments

struct Run {
	pbt::Ctx& c;
	std::string what;
	bool valid = true;
	void note(const std::string& s) { what = s; PBT_NOTE << s; }
	template<typename F> void judge(bool ok, F&& f) {
		valid = ok;
		c.nontrivial();
		c.label(ok ? "inside" : "outside");
		auto o = outcome([&] { f(); });
		PBT_CHECK(o.end != End::Exit, what, " ends the program with a verdict");
		if (ok) PBT_CHECK(o.end == End::Value, what, " is refused: ", o.what);
		else PBT_CHECK(o.end == End::Exception, what, " is outside of the domain but no error is raised");
	}
};
I around(pbt::Ctx& c, I border) { return border + c.pick<I>({-1, 0, 1}); }

// lower and upper of a half-open range which is empty or not
std::pair<I, I> bounds(pbt::Ctx& c, bool wide) {
	I lo = c.pick<I>({0, 0, 1, -1, 7, -1000, 1'000'000'000'000}), d = c.pick<I>({-3, -1, 0, 0, 1, 1, 2, 50});
	if (wide && c.chance(1, 4)) return c.pick<std::pair<I, I>>({{INT64_MIN, BIG}, {BIG, INT64_MIN}, {INT64_MIN, INT64_MIN}, {BIG, BIG}, {BIG - 1, BIG}, {INT64_MIN, INT64_MIN + 1}, {0, INT64_MIN}, {BIG, 0}, {-1, BIG}});
	return {lo, lo + d};
}
const Real NaN = std::numeric_limits<Real>::quiet_NaN(), INF = std::numeric_limits<Real>::infinity(), TINY = std::numeric_limits<Real>::denorm_min();
}

#ifndef P_GRAPH
PBT_PROP(arithmetic, 120000, 2000000) {
	Run r{c, "", true};
	auto mod = c.pick<I>({0, -1, 1, 2, -7, 7, BIG, SMALL, INT64_MIN, BIG - 1, 0});
	I a = c.pick<I>({0, 1, -1, 5, BIG, SMALL, 123456789}), b = c.pick<I>({0, 1, -1, 3, BIG, 999});
	switch (c.below(9)) {
		case 0: r.note(pbt::cat("mulMod(", a, ",", b, ",", mod, ")")); r.judge(mod > 0, [&] { (void)mulMod(a, b, mod); }); break;
		case 1: r.note(pbt::cat("powMod(", a, ",", b, ",", mod, ")")); r.judge(mod > 0 && b >= 0, [&] { (void)powMod(a, b, mod); }); break;
		case 2: r.note(pbt::cat("multInv(", a, ",", mod, ")")); r.judge(mod > 0, [&] { (void)multInv(a, mod); }); break;
		case 3: {
			I lo = c.pick<I>({0, 2, 3, 100, -5, 1'000'000}), up = lo + c.pick<I>({-50, -1, 0, 1, 2, 40});
			r.note(pbt::cat("primes(", lo, ",", up, ")"));
			r.judge(lo < up, [&] { (void)primes(lo, up); });
			break;
		}
		case 4: {
			I lo = around(c, 0), up = lo + c.pick<I>({-2, -1, 0, 1, 9});
			r.note(pbt::cat("thueMorse(", lo, ",", up, ")"));
			r.judge(0 <= lo && lo < up, [&] { (void)thueMorse(lo, up); });
			break;
		}
		case 5: {
			I n = c.pick<I>({-2, -1, 0, 1, 2, 33});
			r.note(pbt::cat("thueMorse(", n, ")"));
			r.judge(n > 0, [&] { (void)thueMorse(n); });
			break;
		}
		case 6: {
			I from = c.range(-5, 5), to = c.range(-5, 5), step = c.pick<I>({0, 0, 1, -1, 3, -3});
			r.note(pbt::cat("range(", from, ",", to, ",", step, ")"));
			r.judge(step != 0, [&] { (void)range(from, to, step); });
			break;
		}
		case 7: {
			Real at = c.pick<Real>({0, -0.0L, TINY, -TINY, 1, -1, NaN, INF, -INF, 1e-6L, -1e-6L}), rt = c.pick<Real>({0, -0.0L, TINY, -TINY, 0.5L, -0.5L, NaN, INF, -INF});
			Real x = c.pick<Real>({0, 1, -1, NaN, INF, 1e-9L}), y = c.pick<Real>({0, 1, -1, NaN, -INF, 1e-9L});
			r.note(pbt::cat("floatEqual/Less/Greater(", x, ",", y, ",", at, ",", rt, ")"));
			bool ok = at >= 0 && rt >= 0;
			// less and greater need no tolerance where the order alone decides
			int f = (int)c.below(3);
			if ((f == 1 && x <= y) || (f == 2 && x >= y)) f = 0;
			switch (f) {
				case 0: r.judge(ok, [&] { (void)ValidateBase::floatEqual(x, y, at, rt); }); break;
				case 1: r.judge(ok, [&] { (void)ValidateBase::floatLess(x, y, at, rt); }); break;
				default: r.judge(ok, [&] { (void)ValidateBase::floatGreater(x, y, at, rt); });
			}
			break;
		}
		default: {
			Real t = c.pick<Real>({0, -0.0L, TINY, -TINY, 1, -1, NaN, INF, -INF});
			Real x = c.pick<Real>({0, 1, NaN, INF});
			r.note(pbt::cat("floatEqual/Less/Greater(", x, ",", x, ",", t, ")"));
			switch (std::isnan(x) ? c.below(3) : 0) {
				case 0: r.judge(t >= 0, [&] { (void)ValidateBase::floatEqual(x, x, t); }); break;
				case 1: r.judge(t >= 0, [&] { (void)ValidateBase::floatLess(x, x, t); }); break;
				default: r.judge(t >= 0, [&] { (void)ValidateBase::floatGreater(x, x, t); });
			}
		}
	}
}

PBT_PROP(polygonCoordinates, 60000, 1000000) {
	Run r{c, "", true};
	const I L = 0x3FFF'FFFF;
	size_t n = c.below(5), bad = n ? c.below(n) : 0;
	std::vector<std::pair<I, I>> p;
	for (size_t i = 0; i < n; i++) p.emplace_back(c.pick<I>({0, 3, L, -L, 17}), c.pick<I>({0, 5, L, -L, -4}));
	bool ok = true;
	if (n && c.coin()) {
		I x = c.pick<I>({L + 1, -L - 1, L + 1, -L - 1, 1LL << 31, BIG, SMALL, L, -L});
		ok = x == L || x == -L;
		(c.coin() ? p[bad].first : p[bad].second) = x;
	}
	auto show = [&] { std::string s; for (auto& q : p) s += pbt::cat(" (", q.first, ",", q.second, ")"); return s; };
	switch (c.below(6)) {
		case 0: r.note("isConvex" + show()); r.judge(ok, [&] { (void)isConvex(p); }); break;
		case 1: r.note("isStrictlyConvex" + show()); r.judge(ok, [&] { (void)isStrictlyConvex(p); }); break;
		case 2: r.note("isSimple" + show()); r.judge(ok, [&] { (void)isSimple(p); }); break;
		case 3: r.note("isCCW" + show()); r.judge(ok, [&] { (void)isCCW(p); }); break;
		case 4: r.note("isCCW of iterators" + show()); r.judge(ok, [&] { (void)isCCW(p.begin(), p.end()); }); break;
		default: r.note("isSimple of iterators" + show()); r.judge(ok, [&] { (void)isSimple(p.begin(), p.end()); });
	}
}

PBT_PROP(randomNumbers, 200000, 3000000) {
	Run r{c, "", true};
	Random::seed(c.bits());
	auto [lo, up] = bounds(c, true);
	Real p = c.pick<Real>({0, -0.0L, 1, 0.5L, -TINY, 1 + 1e-18L, 1.5L, -1, NaN, INF, -INF, 1e-3L});
	I n = c.pick<I>({-2, -1, 0, 1, 2, 5, 9});
	auto rb = [&] { return c.pick<Real>({0, 1, -1, 1, 2.5L, NaN, INF, -INF, 100}); };
	switch (c.below(20)) {
		case 0: case 1: r.note(pbt::cat("Random::integer(", lo, ",", up, ")")); r.judge(lo < up, [&] { (void)Random::integer(lo, up); }); break;
		case 2: r.note(pbt::cat("Random::integer(", up, ")")); r.judge(up > 0, [&] { (void)Random::integer(up); }); break;
		case 3: { Real u = c.pick<Real>({0, -0.0L, TINY, 1, -1, NaN, INF, -INF, 1e4000L, -TINY}); if (u == TINY) u = 1e-4000L; r.note(pbt::cat("Random::real(", u, ")")); r.judge(std::isfinite(u) && u > 0, [&] { (void)Random::real(u); }); break; }
		case 4: { Real x = rb(), y = rb(); r.note(pbt::cat("Random::real(", x, ",", y, ")")); r.judge(std::isfinite(x) && std::isfinite(y) && x < y, [&] { (void)Random::real(x, y); }); break; }
		case 5: { Real s = c.pick<Real>({0, -0.0L, -TINY, 1, -1, NaN, -INF, 3}), m = c.pick<Real>({0, -5, 1e9L}); r.note(pbt::cat("Random::normal(", m, ",", s, ")")); r.judge(s >= 0, [&] { (void)Random::normal(m, s); }); break; }
		case 6: {
			Real x = c.pick<Real>({-1, -INF, NaN, 0, -2, 1}), y = c.pick<Real>({1, INF, NaN, 0, 2, -1}), s = c.pick<Real>({-TINY, 1, -1, NaN, -INF, 0.5L});
			bool ok = x < y && s >= 0;
			Real m = std::isfinite(x) && std::isfinite(y) ? (x + y) / 2 : std::isfinite(x) ? x + 1 : std::isfinite(y) ? y - 1 : 0;
			r.note(pbt::cat("Random::normal(", x, ",", y, ",", m, ",", s, ")"));
			r.judge(ok, [&] { (void)Random::normal(x, y, m, s); });
			break;
		}
		case 7: { Real l = c.pick<Real>({0, -0.0L, -TINY, 1, -1, NaN, -INF, 7}); r.note(pbt::cat("Random::exponential(", l, ")")); r.judge(l > 0, [&] { (void)Random::exponential(l); }); break; }
		case 8: {
			Real x = c.pick<Real>({-1, -INF, NaN, 0, -2, 1, INF}), y = c.pick<Real>({1, INF, NaN, 0, 2, -1, -INF}), l = c.pick<Real>({0, -0.0L, -TINY, 1, -1, NaN, -INF, 2});
			r.note(pbt::cat("Random::exponential(", x, ",", y, ",", l, ")"));
			r.judge(std::isfinite(x) && x < y && l > 0, [&] { (void)Random::exponential(x, y, l); });
			break;
		}
		case 9: { Real q = c.pick<Real>({0, -0.0L, 1, 0.5L, -0.5L, 1.5L, NaN, INF, -INF, 0.999L}); r.note(pbt::cat("Random::geometric(", q, ")")); r.judge(0 < q && q < 1, [&] { (void)Random::geometric(q); }); break; }
		case 10: { Real q = c.pick<Real>({0, -0.0L, 1, 0.5L, -0.5L, 1.5L, NaN, INF, -INF, 0.999L}); r.note(pbt::cat("Random::geometric(", lo, ",", up, ",", q, ")")); r.judge(lo < up && 0 < q && q < 1, [&] { (void)Random::geometric(lo, up, q); }); break; }
		case 11: r.note(pbt::cat("Random::binomial(", n, ",", p, ")")); r.judge(n >= 0 && p >= 0 && p <= 1, [&] { (void)Random::binomial(n, p); }); break;
		case 12: {
			I l = c.range(-2, 2), u = l + c.pick<I>({-2, -1, 0, 20}); // 0 <= n, and the range reaches n/2 if it is not empty
			Real q = c.pick<Real>({0.5L, 0.5L, -0.5L, 2, NaN});
			I k = c.pick<I>({-1, 8, 8});
			r.note(pbt::cat("Random::binomial(", l, ",", u, ",", k, ",", q, ")"));
			r.judge(l < u && k >= 0 && q == 0.5L, [&] { (void)Random::binomial(l, u, k, q); });
			break;
		}
		case 13: r.note(pbt::cat("Random::maximum(", lo, ",", up, ",", n, ")")); r.judge(lo < up && n > 0, [&] { (void)Random::maximum(lo, up, n); }); break;
		case 14: r.note(pbt::cat("Random::minimum(", lo, ",", up, ",", n, ")")); r.judge(lo < up && n > 0, [&] { (void)Random::minimum(lo, up, n); }); break;
		case 15: r.note(pbt::cat("Random::minmax(", lo, ",", up, ",", n, ")")); r.judge(lo < up && n != 0, [&] { (void)Random::minmax(lo, up, n); }); break;
		case 16: r.note(pbt::cat("Random::maximum/minimum/minmax(", up, ",", n, ")")); switch (c.below(3)) {
			case 0: r.judge(up > 0 && n > 0, [&] { (void)Random::maximum(up, n); }); break;
			case 1: r.judge(up > 0 && n > 0, [&] { (void)Random::minimum(up, n); }); break;
			default: r.judge(up > 0 && n != 0, [&] { (void)Random::minmax(up, n); });
		} break;
		case 17: { // ranges with and without a prime, never one that is hard to find
			auto [l, u, ok] = c.pick<std::tuple<I, I, bool>>({{2, 3, true}, {3, 2, false}, {2, 2, false}, {0, 2, false}, {0, 3, true}, {-5, 2, false}, {-3, 3, true}, {24, 29, false}, {24, 30, true}, {8, 11, false}, {8, 12, true}, {90, 97, false}, {SMALL, 2, false}, {BIG, 2, false}, {3, 4, true}, {4, 5, false}, {14, 17, false}, {INT64_MIN, INT64_MIN + 9, false}, {-9, -2, false}});
			r.note(pbt::cat("Random::prime(", l, ",", u, ")"));
			r.judge(ok, [&, l = l, u = u] { (void)Random::prime(l, u); });
			break;
		}
		case 18: { I u = c.pick<I>({-1, 0, 1, 2, 3, 4, SMALL}); r.note(pbt::cat("Random::prime(", u, ")")); r.judge(u > 2, [&] { (void)Random::prime(u); }); break; }
		default: {
			std::vector<I> v((size_t)c.pick<I>({0, 0, 1, 2}), 7);
			const auto& cv = v;
			std::string s(v.size(), 'x');
			r.note(pbt::cat("select or rotate of ", v.size(), " elements"));
			bool ok = !v.empty();
			switch (c.below(7)) {
				case 0: r.judge(ok, [&] { (void)Random::select(v); }); break;
				case 1: r.judge(ok, [&] { (void)Random::select(cv); }); break;
				case 2: r.judge(ok, [&] { (void)Random::select(v.begin(), v.end()); }); break;
				case 3: r.judge(ok, [&] { (void)Random::rotate(v); }); break;
				case 4: r.judge(ok, [&] { (void)Random::rotate(v.begin(), v.end()); }); break;
				case 5: r.judge(ok, [&] { (void)Random::select(s); }); break;
				default: r.judge(true, [&] { Random::shuffle(v); }); // shuffling nothing is fine
			}
		}
	}
}

PBT_PROP(randomSequences, 150000, 2000000) {
	Run r{c, "", true};
	Random::seed(c.bits());
	I lo = c.pick<I>({0, 0, 1, -7, 1'000'000'000'000, -1'000'000'000'000}), len = c.pick<I>({-2, -1, 0, 1, 2, 6}), up = lo + len;
	I cnt = c.coin() ? around(c, std::max<I>(0, len)) : c.pick<I>({-2, -1, 0, 1, 2, 7, -1'000'000'000, INT64_MIN / 2});
	switch (c.below(16)) {
		case 0: r.note(pbt::cat("Random::distinct(", cnt, ",", lo, ",", up, ")")); r.judge(0 <= cnt && cnt <= len, [&] { (void)Random::distinct(cnt, lo, up); }); break;
		case 1: r.note(pbt::cat("Random::increasing(", cnt, ",", lo, ",", up, ")")); r.judge(0 <= cnt && cnt <= len, [&] { (void)Random::increasing(cnt, lo, up); }); break;
		case 2: r.note(pbt::cat("Random::decreasing(", cnt, ",", lo, ",", up, ")")); r.judge(0 <= cnt && cnt <= len, [&] { (void)Random::decreasing(cnt, lo, up); }); break;
		case 3: r.note(pbt::cat("Random::distinct/increasing/decreasing(", cnt, ",", len, ")")); switch (c.below(3)) {
			case 0: r.judge(0 <= cnt && cnt <= len, [&] { (void)Random::distinct(cnt, len); }); break;
			case 1: r.judge(0 <= cnt && cnt <= len, [&] { (void)Random::increasing(cnt, len); }); break;
			default: r.judge(0 <= cnt && cnt <= len, [&] { (void)Random::decreasing(cnt, len); });
		} break;
		case 4: r.note(pbt::cat("Random::multiple(", cnt, ",", lo, ",", up, ")")); r.judge(cnt == 0 || (0 <= cnt && len > 0), [&] { (void)Random::multiple(cnt, lo, up); }); break;
		case 5: r.note(pbt::cat("Random::nonDecreasing/nonIncreasing(", cnt, ",", lo, ",", up, ")")); switch (c.below(2)) {
			case 0: r.judge(cnt == 0 || (0 <= cnt && len > 0), [&] { (void)Random::nonDecreasing(cnt, lo, up); }); break;
			default: r.judge(cnt == 0 || (0 <= cnt && len > 0), [&] { (void)Random::nonIncreasing(cnt, lo, up); });
		} break;
		case 6: r.note(pbt::cat("Random::perm(", cnt, ",", lo, ")")); r.judge(cnt >= 0, [&] { (void)Random::perm(cnt, lo); }); break;
		case 7: {
			std::vector<I> cyc;
			for (size_t i = 0, k = c.below(4); i < k; i++) cyc.push_back(c.pick<I>({1, 2, 3, 1}));
			bool ok = true;
			if (!cyc.empty() && c.coin()) { cyc[c.below(cyc.size())] = c.pick<I>({0, -1, -2, SMALL}); ok = false; }
			r.note(pbt::cat("Random::perm(cycles ", pbt::seq(cyc), ",", lo, ")"));
			r.judge(ok, [&] { (void)Random::perm(cyc, lo); });
			break;
		}
		case 8: {
			I n = c.pick<I>({0, 1, 3, 5, -1});
			std::vector<I> fix;
			bool ok = n >= 0;
			for (I i = 0; i < n; i++) if (c.chance(1, 3)) fix.push_back(lo + i);
			if (c.coin()) { ok = false; fix.insert(fix.begin() + (std::ptrdiff_t)c.below(fix.size() + 1), lo + c.pick<I>({-1, std::max<I>(n, 0), std::max<I>(n, 0) + 1, -5})); }
			r.note(pbt::cat("Random::perm(", n, ", fix ", pbt::seq(fix), ",", lo, ")"));
			r.judge(ok, [&] { (void)Random::perm(n, fix, lo); });
			break;
		}
		case 9: case 10: {
			I n = c.pick<I>({-1, 0, 1, 2, 5, 12}), k = c.pick<I>({-1, 0, 1, 2, 3, 5, 6, 12, 13}), mn = c.pick<I>({1, 1, 0, 2, 3, -1, 12, 13});
			r.note(pbt::cat("Random::partition(", n, ",", k, ",", mn, ")"));
			r.judge(n > 0 && k > 0 && k * mn <= n, [&] { (void)Random::partition(n, k, mn); });
			break;
		}
		case 11: {
			I n = c.pick<I>({-1, 0, 1, 30, SMALL, 0x1'0000'0000, BIG});
			std::string a = c.pick<std::string>({"", "a", "ab", std::string(1, '\0')});
			r.note(pbt::cat("Random::string(", n, ",", pbt::quote(a), ")"));
			r.judge(n >= 0 && n <= 30 && !a.empty(), [&] { (void)Random::string(n, a); });
			break;
		}
		case 12: {
			I n = c.pick<I>({-1, 0, 1, 30, SMALL, 0x8000'0000, BIG});
			r.note(pbt::cat("Random::bracketSequence(", n, ")"));
			r.judge(n >= 0 && n <= 30, [&] { (void)Random::bracketSequence(n); });
			break;
		}
		case 13: case 14: {
			I dim = c.pick<I>({-1, 0, 1, 2, 3, 5, 10, 0x3FFF'FFFF, 0x4000'0000, BIG, 0x3FFF'FFFE});
			I n = dim > 1 && dim <= 10 && c.coin() ? around(c, 8 * dim - 8) : c.pick<I>({-1, 0, 1, 2, 3, 4, 7});
			bool ok = n >= 3 && dim > 1 && dim <= 0x3FFF'FFFF && n <= 8 * dim - 8;
			if (ok && dim <= 10 && n > dim + 2) { ok = true; if (n > 2 * dim) c.discard(); } // correct but may take long
			r.note(pbt::cat("Random::convex(", n, ",", dim, ")"));
			r.judge(ok, [&] { (void)Random::convex(n, dim); });
			break;
		}
		default: {
			I dim = c.pick<I>({-1, 2, 3, 5, 10, 0x1FFF'FFFF, 0x2000'0000, BIG});
			I n = dim > 0 && dim <= 10 ? around(c, c.coin() ? dim : 0) : c.pick<I>({-1, 0, 1, 5});
			r.note(pbt::cat("Random::nonCollinearPoints(", n, ",", dim, ")"));
			r.judge(n >= 0 && n < dim && dim <= 0x1FFF'FFFF, [&] { (void)Random::nonCollinearPoints(n, dim); });
		}
	}
}

// what is given as a name, a path or a piece of text
static std::string oddName(pbt::Ctx& c, bool& ok) {
	std::string s = c.pick<std::string>({"x", "--n", "a-b", "_[", "name"});
	switch (c.below(3)) {
		case 0: ok = true; return s;
		case 1: ok = false; return "";
		default: ok = false; s.insert(c.below(s.size() + 1), 1, c.pick<char>({' ', '\n', '\t', '\r', '\f', '\v'})); return s;
	}
}
PBT_PROP(namesAndTexts, 120000, 2000000) {
	Run r{c, "", true};
	std::vector<std::string> args = {"prog", "--n", "5", "x", "--r", "1.5", "--two", "1", "2", "--none"};
	std::vector<char*> argv;
	for (auto& a : args) argv.push_back(a.data());
	std::ostringstream sink;
	OutputStream out(sink);
	switch (c.below(12)) {
		case 0: { CommandParser p((int)argv.size(), argv.data()); bool ok; auto s = oddName(c, ok); r.note("command " + pbt::quote(s)); r.judge(ok, [&] { (void)p[s]; }); break; }
		case 1: { CommandParser p((int)argv.size(), argv.data()); bool ok; auto s = oddName(c, ok); r.note("raw " + pbt::quote(s)); r.judge(ok, [&] { (void)p.getRaw(s); }); break; }
		case 2: {
			CommandParser p((int)argv.size(), argv.data());
			I i = c.pick<I>({-1, 0, 1, 9, 10, 11, BIG, SMALL});
			r.note(pbt::cat("argument ", i));
			r.judge(0 <= i && i < 10, [&] { (void)p[i]; });
			break;
		}
		case 3: {
			CommandParser p((int)argv.size(), argv.data());
			auto [cmd, ok] = c.pick<std::pair<const char*, int>>({{"--n", 0}, {"--r", 1}, {"--two", 2}, {"--none", 3}, {"--missing", 3}});
			int what = (int)c.below(4);
			r.note(pbt::cat("value ", what, " of ", cmd));
			bool good = what == 0 ? ok != 3 : what == 1 ? ok == 0 || ok == 2 : what == 2 ? ok != 3 : ok == 2 || (ok == 0 && what == 3);
			std::string s = cmd;
			switch (what) {
				case 0: r.judge(good, [&] { (void)p[s].asString(); }); break;
				case 1: r.judge(good, [&] { (void)p[s].asInteger(); }); break;
				case 2: r.judge(good, [&] { (void)p[s].asReal(); }); break;
				default: r.judge(good, [&] { (void)p[s].template asStrings<2>(); });
			}
			break;
		}
		case 4: {
			auto more = args;
			bool ok = true;
			if (c.coin()) { ok = false; more.insert(more.begin() + 1 + (std::ptrdiff_t)c.below(more.size()), c.pick<std::string>({"--n", "--r", "--two", "--none"})); }
			std::vector<char*> av;
			for (auto& a : more) av.push_back(a.data());
			r.note("arguments " + pbt::seq(more));
			r.judge(ok, [&] { CommandParser p((int)av.size(), av.data()); });
			break;
		}
		case 5: {
			std::istringstream in("5 x\n");
			InputStream s(in, true, true, out, Verdicts::Verdict(43));
			bool ok; auto e = oddName(c, ok);
			if (ok) { in.str(e); }
			r.note("expectString " + pbt::quote(e));
			r.judge(ok, [&] { s.expectString(e); });
			break;
		}
		case 6: case 7: {
			std::istringstream in("1 2 3\n4 5\n");
			InputStream s(in, c.coin(), true, out, Verdicts::Verdict(43));
			char sep = c.pick<char>({' ', '\n', '\t', ',', '\0', 'x', '\r'});
			bool ok = sep == ' ' || sep == '\n';
			if (sep == '\n') in.str("1\n2\n3");
			if (c.below(4) == 0) { // no separator at all between no or one element
				I k = c.range(0, 1);
				r.note(pbt::cat("integers with separator ", (int)sep, " of ", k));
				auto o = outcome([&] { (void)s.integers(0, 9, k, sep); });
				PBT_CHECK(o.end != End::Exit, "ends with a verdict");
				if (ok) PBT_CHECK(o.end == End::Value, "refused");
				break;
			}
			r.note(pbt::cat("separator ", (int)sep));
			switch (c.below(3)) {
				case 0: r.judge(ok, [&] { (void)s.integers(0, 9, 3, sep); }); break;
				case 1: r.judge(ok, [&] { (void)s.strings(3, sep); }); break;
				default: r.judge(ok, [&] { (void)s.reals(0, 9, 3, sep); });
			}
			break;
		}
		case 8: {
			std::filesystem::path path = c.pick<std::string>({"/nonexistent/x", "", "/dev/null", "/dev", "/dev/null/x"});
			bool ok = path == "/dev/null";
			r.note("output file " + path.string());
			r.judge(ok, [&] { OutputStream o(path, std::ios_base::out); });
			break;
		}
		case 9: {
			std::filesystem::path path = c.pick<std::string>({"/nonexistent/x", "", "/dev/null", "/dev/null/x"});
			r.note("input file " + path.string());
			r.judge(path == "/dev/null", [&] { InputStream i(path, true, true, out, Verdicts::Verdict(43)); });
			break;
		}
		case 10: {
			bool ok; auto s = oddName(c, ok);
			r.note("constraint " + pbt::quote(s));
			ConstraintsLogger l;
			r.judge(ok, [&] { (void)l[s]; });
			break;
		}
		default: {
			int a = (int)c.below(2), b = (int)c.below(2);
			r.note(pbt::cat("constraint of type ", a, " then ", b));
			ConstraintsLogger l;
			auto log = [&](int t) { if (t == 0) l["n"].log(0_int, 9_int, 3_int); else l["n"].log(0.0_real, 9.0_real, 3.0_real); };
			log(a);
			r.judge(a == b, [&] { log(b); });
		}
	}
}

PBT_PROP(settingsAfterInit, 40000, 500000) { // and they keep their value
	Run r{c, "", true};
	r.note("a setting is changed after init");
	bool on = c.coin();
	Real t = c.pick<Real>({0, 1, 0.25L});
	bool cs = ValidateBase::caseSensitive, ws = ValidateBase::spaceSensitive;
	Real at = ValidateBase::floatAbsTol, rt = ValidateBase::floatRelTol;
	switch (c.below(4)) {
		case 0: r.judge(false, [&] { ValidateBase::caseSensitive = on; }); break;
		case 1: r.judge(false, [&] { ValidateBase::spaceSensitive = on; }); break;
		case 2: r.judge(false, [&] { ValidateBase::floatAbsTol = t; }); break;
		default: r.judge(false, [&] { ValidateBase::floatRelTol = t; });
	}
	PBT_CHECK((bool)ValidateBase::caseSensitive == cs && (bool)ValidateBase::spaceSensitive == ws && (Real)ValidateBase::floatAbsTol == at && (Real)ValidateBase::floatRelTol == rt, "the refused change has an effect");
}

// a stream which was never given a text: a local object in memory that held
// something else, an object on the heap, and one that was moved into
PBT_PROP(noStream, 40000, 400000) {
	Run r{c, "", true};
	std::ostringstream sink;
	OutputStream out(sink);
	std::istringstream text("1 1");
	alignas(InputStream) static unsigned char memory[sizeof(InputStream)];
	auto fill = (int)c.below(256);
	std::memset(memory, fill, sizeof(memory));
	asm volatile("" : : "r"(memory) : "memory");
	struct Destroy { void operator()(InputStream* s) const { s->~InputStream(); } };
	std::unique_ptr<InputStream, Destroy> hold(new (memory) InputStream);
	InputStream& s = *hold;
	bool ok = false;
	int how = (int)c.below(4);
	if (how == 0) { InputStream other; s = std::move(other); }
	if (how == 1) { s = InputStream(text, c.coin(), c.coin(), out, Verdicts::Verdict(43)); ok = true; }
	bool reads = true;
	std::function<void()> f;
	std::string name;
	auto call = [&](std::string n, std::function<void()> g) { name = n; f = g; };
	ConstraintsLogger logger;
	auto& con = logger["n"];
	switch (c.below(16)) {
		case 0: call("noteof", [&] { s.noteof(); }); break;
		case 1: call("string", [&] { (void)s.string(); }); break;
		case 2: call("integer", [&] { (void)s.integer(); }); break;
		case 3: call("integer in", [&] { (void)s.integer(0, 5); }); break;
		case 4: call("integer logged", [&] { (void)s.integer(0, 5, con); }); break;
		case 5: call("real", [&] { (void)s.real(); }); break;
		case 6: call("real in", [&] { (void)s.real(0, 5); }); break;
		case 7: call("realStrict", [&] { (void)s.realStrict(0, 5, 0, 3); }); break;
		case 8: call("expectString", [&] { s.expectString("1"); }); break;
		case 9: call("expectInt", [&] { s.expectInt(1); }); break;
		case 10: call("expectReal", [&] { s.expectReal(1); }); break;
		case 11: call("integers", [&] { (void)s.integers(0, 5, 1); }); break;
		case 12: call("strings", [&] { (void)s.strings(1); }); break;
		case 13: call("string of a pattern", [&] { (void)s.string(std::regex("[0-9]"), 1, 2); }); break;
		case 14: call("eof", [&] { s.eof(); }); reads = false; break;
		default: call("space", [&] { s.space(); }); reads = false;
	}
	r.note(name + (ok ? " of a stream" : " of no stream") + pbt::cat(", memory held ", fill, ", way ", how));
	if (reads || !ok) r.judge(ok, f);
}

#else
template<bool DIR> static void graphs(pbt::Ctx& c) {
	using G = std::conditional_t<DIR, DiGraph<I>, Graph<I>>;
	Run r{c, "", true};
	Random::seed(c.bits());
	I lo = c.pick<I>({0, 0, 1, -3, 1000}), n = c.range(0, 5), hi = lo + n;
	G g(lo, hi);
	std::vector<std::pair<I, I>> es;
	for (I i = 0; i < n; i++) for (I j = i + 1; j < n; j++) if (c.coin()) { g.addEdge(lo + i, lo + j, i); es.emplace_back(lo + i, lo + j); }
	I before = g.edgeCount();
	auto vertex = [&](bool& ok) -> I { if (n && c.coin()) { ok = true; return c.range(lo, hi - 1); } ok = false; return c.pick<I>({lo - 1, hi, hi + 1, lo - 7, BIG, SMALL}); };
	switch (c.below(14)) {
		case 0: { I d = c.pick<I>({-2, -1, 0, 1, 3}); r.note(pbt::cat("Graph(", lo, ",", lo + d, ")")); r.judge(d >= 0, [&] { G h(lo, lo + d); }); break; }
		case 1: { I d = c.pick<I>({-2, -1, 0, 1, 3}); r.note(pbt::cat("range(", lo, ",", lo + d, ")")); r.judge(d >= 0, [&] { (void)g.range(lo, lo + d); }); break; }
		case 2: case 3: case 4: case 5: {
			bool a, b;
			I u = vertex(a), v = vertex(b);
			const G& k = g;
			int what = (int)c.below(6);
			r.note(pbt::cat("graph [", lo, ",", hi, "), call ", what, " for ", u, " and ", v));
			switch (what) {
				case 0: r.judge(a && b && u != v, [&] { g.addEdge(u, v, 3); }); break;
				case 1: r.judge(a && b, [&] { (void)g.hasEdge(u, v); }); break;
				case 2: r.judge(a && b, [&] { (void)g.findEdge(u, v); }); break;
				case 3: r.judge(a && b, [&] { (void)k.findEdge(u, v); }); break;
				case 4: r.judge(a && b, [&] { (void)g.eraseEdge(u, v); }); break;
				default: r.judge(a && b && u != v, [&] { g.addEdge(u, v); });
			}
			break;
		}
		case 6: { bool a; I u = vertex(a); r.note(pbt::cat("degree of ", u, " in [", lo, ",", hi, ")")); r.judge(a, [&] { (void)g.degree(u); }); break; }
		case 7: { bool a; I u = vertex(a); r.note(pbt::cat("neighbours of ", u, " in [", lo, ",", hi, ")")); r.judge(a, [&] { for (auto e : g[u]) (void)e.to; }); break; }
		case 8: { I i = c.pick<I>({0, before - 1, before, before + 1, -1, BIG}); r.note(pbt::cat("edge ", i, " of ", before)); r.judge(0 <= i && i < before, [&] { (void)g.getEdgeById((size_t)i); }); break; }
		case 9: case 10: {
			std::vector<I> p = range(lo, hi);
			for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[c.below(i)]);
			bool ok = true;
			if (c.coin()) {
				ok = false;
				switch (p.empty() ? 0 : c.below(5)) {
					case 0: p.push_back(hi); break; // a permutation of something else
					case 1: p.pop_back(); break;
					case 2: p[c.below(p.size())] = c.coin() ? hi : lo - 1; break;
					case 3: for (auto& x : p) x++; break;
					default: if (p.size() < 2) p[0] = hi; else p[0] = p[1];
				}
				if (c.chance(1, 4) || isPerm(p, lo)) { if (p.size() == (size_t)n && isPerm(p, lo)) ok = true; }
			}
			if (ok != ((I)p.size() == n && (bool)isPerm(p, lo))) ok = (I)p.size() == n && (bool)isPerm(p, lo);
			if ((I)p.size() != n && isPerm(p, lo)) { if ((I)p.size() < n) c.discard(); c.discard(); }
			r.note(pbt::cat("graph [", lo, ",", hi, ") permutate ", pbt::seq(p)));
			r.judge(ok, [&] { g.permutate(p); });
			break;
		}
		case 11: {
			I k = c.range(0, 6), all = DIR ? k * (k - 1) : k * (k - 1) / 2, m = c.pick<I>({-1, 0, all - 1, all, all + 1, BIG / 4, SMALL});
			r.note(pbt::cat("randomGraph(", k, ",", m, ")"));
			r.judge(0 <= m && m <= all, [&] { (void)randomGraph<I, DIR>(k, m); });
			break;
		}
		case 12: {
			I k = c.range(0, 4), l = c.range(0, 4), all = (DIR ? 2 : 1) * k * l, m = c.pick<I>({-1, 0, all - 1, all, all + 1, BIG / 4, SMALL});
			r.note(pbt::cat("randomBipartite(", k, ",", l, ",", m, ")"));
			r.judge(0 <= m && m <= all, [&] { (void)randomBipartite<I, DIR>(k, l, m); });
			break;
		}
		default: {
			Real p = c.pick<Real>({0, -0.0L, 1, 0.5L, -1e-9L, 1 + 1e-9L, NaN, INF, -INF});
			I k = c.range(0, 5);
			bool ok = p >= 0 && p <= 1;
			int what = (int)c.below(3);
			r.note(pbt::cat("random graph of kind ", what, " with ", k, " vertices and p = ", p));
			switch (what) {
				case 0: r.judge(ok, [&] { (void)randomGraph<I, DIR>(k, p); }); break;
				case 1: r.judge(ok, [&] { (void)randomBipartite<I, DIR>(k, k, p); }); break;
				default: r.judge(ok, [&] { (void)randomGrowingGraph<I>(k, p); });
			}
		}
	}
	if (!r.valid) { // a refused call leaves the graph as it was
		PBT_CHECK(g.edgeCount() == before && g.nodeCount() == n && g.getMinId() == lo, "the refused call changed the graph");
		for (auto [u, v] : es) PBT_CHECK(g.hasEdge(u, v), "the refused call removed an edge");
	}
}
PBT_PROP(undirected, 120000, 1500000) { graphs<false>(c); }
PBT_PROP(directed, 120000, 1500000) { graphs<true>(c); }
PBT_PROP(families, 60000, 600000) {
	Run r{c, "", true};
	Random::seed(c.bits());
	switch (c.below(3)) {
		case 0: { I n = c.pick<I>({-1, 0, 1, 2, 63, 64, SMALL, BIG}); r.note(pbt::cat("ffWorstcase(", n, ")")); r.judge(0 < n && n <= 63, [&] { (void)ffWorstcase(n); }); break; }
		case 1: { I n = c.pick<I>({-1, 0, 1, 2, 61, SMALL, BIG}); if (c.chance(1, 500)) n = 60; r.note(pbt::cat("mcmfWorstcase(", n, ")")); r.judge(0 < n && n <= 60, [&] { (void)mcmfWorstcase(n); }); break; }
		default: {
			auto [d, ok] = c.pick<std::pair<std::vector<I>, bool>>({{{}, true}, {{0}, true}, {{1}, false}, {{-1}, false}, {{1, 1}, true}, {{2, 1}, false}, {{2, 2}, false}, {{2, 1, 1}, true}, {{3, 1, 1}, false}, {{1, -1}, false}, {{0, 0, -1}, false}, {{3, 3, 1, 1}, false}, {{2, 2, 2}, true}, {{1, 1, 1}, false}, {{BIG, 1}, false}, {{SMALL, 0}, false}});
			r.note("degrees " + pbt::seq(d));
			r.judge(ok, [&, &d = d] { (void)randomGraph<I>(d); });
		}
	}
}
#endif
