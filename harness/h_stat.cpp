// C18 distributions
#include "vh.h"
#include "stat.h"
using Vec = std::vector<Integer>;
static void judge(pbt::Ctx& c, const char* what, const stat::Chi& r, const std::string& detail = "") {
	PBT_CHECK(r.p > stat::ALPHA, what, " is not distributed as documented: chi^2 = ", r.chi, " with ", r.df, " degrees of freedom ", detail);
}
static void uniformCells(pbt::Ctx& c, const char* what, const std::vector<double>& obs) {
	double n = 0; for (double x : obs) n += x;
	judge(c, what, stat::chi2(obs, std::vector<double>(obs.size(), 1.0 / (double)obs.size()), n), pbt::seq(std::vector<double>(obs.begin(), obs.begin() + (long)std::min<size_t>(24, obs.size()))));
}
static void ksTest(pbt::Ctx& c, const char* what, const std::vector<double>& u) {
	for (double x : u) PBT_CHECK(x >= 0 && x <= 1, what, ": value outside of the support");
	double p = stat::ks(u);
	PBT_CHECK(p > stat::ALPHA, what, " is not distributed as documented (Kolmogorov-Smirnov bound ", p, ")");
	std::vector<double> cells(32);
	for (double x : u) cells[std::min<size_t>(31, (size_t)(x * 32))]++;
	uniformCells(c, what, cells);
}
// all outcomes equally likely
template<typename T, typename F> static void uniformOver(pbt::Ctx& c, const char* what, const std::set<T>& all, F&& draw, long per = 150) {
	std::map<T, size_t> id;
	for (auto& x : all) id.emplace(x, id.size());
	std::vector<double> obs(all.size());
	long n = std::max<long>(3000, per * (long)all.size());
	for (long i = 0; i < n; i++) {
		auto it = id.find(draw());
		PBT_CHECK(it != id.end(), what, ": impossible result");
		obs[it->second]++;
	}
	uniformCells(c, what, obs);
}
static std::set<Vec> permsOf(Vec v) { std::sort(v.begin(), v.end()); std::set<Vec> r; do r.insert(v); while (std::next_permutation(v.begin(), v.end())); return r; }
static Vec iota(Integer n, Integer off = 0) { Vec v((size_t)n); std::iota(v.begin(), v.end(), off); return v; }

static const long N = 20000;
PBT_PROP(integers, 400, 20000) {
	Random::seed(c.bits());
	c.nontrivial();
	if (c.coin()) {
		Integer s = c.range(2, 120), lo = c.coin() ? c.range(-100, 100) : c.pick<Integer>({INT64_MIN, INT64_MAX - s, 0});
		PBT_NOTE << "integer(" << lo << "," << lo << "+" << s << ")";
		std::vector<double> obs((size_t)s);
		bool zero = lo == 0 && c.coin();
		for (long i = 0; i < N; i++) { Integer x = (zero ? Random::integer(s) : Random::integer(lo, lo + s)) - lo; PBT_CHECK(x >= 0 && x < s, "out of range"); obs[(size_t)x]++; }
		uniformCells(c, "integer", obs);
	} else { // huge ranges: buckets and residues
		uint64_t s = c.coin() ? c.pick<uint64_t>({3ull << 62, (1ull << 63) + 1, 3ull << 61, 5ull << 61, ~0ull, (1ull << 62) * 3 - 1, 6148914691236517205ull * 2, 1ull << 33, 3ull << 40}) : std::max<uint64_t>(1000000, c.bits() >> c.below(20));
		Integer lo = s > (uint64_t)INT64_MAX ? INT64_MIN : c.range(-1000, 0);
		Integer up = (Integer)((uint64_t)lo + s);
		PBT_NOTE << "integer(" << lo << "," << up << ")";
		size_t b = (size_t)c.range(2, 50);
		uint64_t m = (uint64_t)c.range(2, 9), run = s / b;
		std::vector<double> top(b + 1), low((size_t)m), pt(b + 1, (double)run / (double)s), pl((size_t)m);
		pt[b] = 1 - (double)run / (double)s * (double)b; if (pt[b] < 1e-9) pt[b] = 0;
		for (uint64_t r = 0; r < m; r++) pl[r] = ((double)(s / m) + (r < s % m)) / (double)s;
		for (long i = 0; i < N; i++) { uint64_t d = (uint64_t)Random::integer(lo, up) - (uint64_t)lo; PBT_CHECK(d < s, "out of range"); top[std::min<uint64_t>(b, d / run)]++; low[d % m]++; }
		judge(c, "integer (high part)", stat::chi2(top, pt, N));
		judge(c, "integer (residues)", stat::chi2(low, pl, N));
	}
}
PBT_PROP(bits, 100, 5000) {
	Random::seed(c.bits());
	c.nontrivial();
	std::vector<double> ones(64), pairs(4);
	int last = 0;
	double b1 = 0;
	for (long i = 0; i < N; i++) {
		uint64_t w = (uint64_t)Random::integer();
		for (int k = 0; k < 64; k++) ones[(size_t)k] += (double)(w >> k & 1);
		int b = Random::bit(); b1 += b; pairs[(size_t)(2 * last + b)]++; last = b;
	}
	for (size_t k = 0; k < 64; k++) judge(c, "bits of integer()", stat::chi2({ones[k], N - ones[k]}, {0.5, 0.5}, N), pbt::cat("bit ", k));
	judge(c, "bit()", stat::chi2({b1, N - b1}, {0.5, 0.5}, N));
	uniformCells(c, "pairs of bit()", pairs);
}
PBT_PROP(reals, 300, 15000) {
	Random::seed(c.bits());
	c.nontrivial();
	Real lo = 0, up = 1;
	int mode = (int)c.below(3);
	if (mode == 1) up = c.pick<Real>({1e-300L, 0.3L, 7, 1e20L, 1e3000L});
	if (mode == 2) { lo = (Real)c.range(-1000, 1000) / 7; up = lo + c.pick<Real>({0.001L, 1, 1000, 1e10L}); }
	PBT_NOTE << "real in [" << lo << "," << up << ") mode " << mode;
	std::vector<double> u, expo(40), pe(40);
	for (size_t k = 0; k < 40; k++) pe[k] = std::ldexp(1.0, -(int)std::min<size_t>(k + 1, 39));
	std::vector<double> low(8);
	for (long i = 0; i < N; i++) {
		Real x = mode == 0 ? Random::real() : mode == 1 ? Random::real(up) : Random::real(lo, up);
		Real v = (x - lo) / (up - lo);
		u.push_back((double)v);
		if (mode < 2) {
			int e = 0; Real m = std::frexp(v, &e);
			expo[(size_t)std::min(39, -e)]++;
			if (mode == 0) low[(size_t)((m * 1048576 - std::floor(m * 1048576)) * 8)]++; // low bits of the mantissa
		}
	}
	ksTest(c, "real", u);
	if (mode < 2) judge(c, "real (binary exponent)", stat::chi2(expo, pe, N));
	if (mode == 0) uniformCells(c, "real (mantissa)", low);
}
PBT_PROP(discrete, 60, 3000) {
	Random::seed(c.bits());
	c.nontrivial();
	std::vector<double> a(3), b(6), d(4), e(2);
	for (long i = 0; i < N; i++) {
		a[(size_t)Random::discrete<1, 2, 3>()]++;
		b[(size_t)Random::discrete<0, 5, 1, 0, 4, 2>()]++;
		d[(size_t)Random::discrete<1, 1, 1, 1>()]++;
		e[(size_t)Random::discrete<9, 1>()]++;
	}
	judge(c, "discrete<1,2,3>", stat::chi2(a, {1 / 6.0, 2 / 6.0, 3 / 6.0}, N));
	PBT_CHECK(b[0] == 0 && b[3] == 0, "discrete chose a value of weight 0");
	judge(c, "discrete<0,5,1,0,4,2>", stat::chi2({b[1], b[2], b[4], b[5]}, {5 / 12.0, 1 / 12.0, 4 / 12.0, 2 / 12.0}, N));
	uniformCells(c, "discrete<1,1,1,1>", d);
	judge(c, "discrete<9,1>", stat::chi2(e, {0.9, 0.1}, N));
}
static double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
PBT_PROP(normals, 300, 15000) {
	Random::seed(c.bits());
	c.nontrivial();
	double mean = (double)c.range(-50, 50), sd = c.pick<double>({0.01, 0.5, 1, 2, 3, 100, 1e6});
	std::vector<double> u;
	if (c.coin()) {
		PBT_NOTE << "normal(" << mean << "," << sd << ")";
		for (long i = 0; i < N; i++) u.push_back(Phi(((double)Random::normal(mean, sd) - mean) / sd));
	} else {
		double a = (double)c.range(-20, 12) / 10, b = a + (double)c.range(2, 30) / 10;
		double lo = c.chance(1, 5) ? -INFINITY : mean + a * sd, up = c.chance(1, 5) ? INFINITY : mean + b * sd;
		PBT_NOTE << "normal(" << lo << "," << up << "," << mean << "," << sd << ")";
		double pl = Phi((lo - mean) / sd), pu = Phi((up - mean) / sd);
		for (long i = 0; i < N; i++) { double x = (double)Random::normal(lo, up, mean, sd); u.push_back(std::clamp((Phi((x - mean) / sd) - pl) / (pu - pl), -0.0, 1.0)); }
	}
	ksTest(c, "normal", u);
	double corr = 0; // successive draws are independent
	for (size_t i = 1; i < u.size(); i++) corr += (u[i] - 0.5) * (u[i - 1] - 0.5);
	PBT_CHECK(std::fabs(corr) / std::sqrt((double)N) * 12 < 8, "successive normal numbers are correlated");
}
PBT_PROP(exponentials, 200, 10000) {
	Random::seed(c.bits());
	c.nontrivial();
	double l = c.pick<double>({0.001, 0.5, 1, 3, 1000});
	std::vector<double> u;
	if (c.coin()) {
		PBT_NOTE << "exponential(" << l << ")";
		for (long i = 0; i < N; i++) u.push_back(1 - std::exp(-l * (double)Random::exponential(l)));
	} else {
		double lo = (double)c.range(0, 20), w = (double)c.range(1, 40) / 10 / l, up = c.chance(1, 5) ? INFINITY : lo + w;
		PBT_NOTE << "exponential(" << lo << "," << up << "," << l << ")";
		double top = 1 - std::exp(-l * (up - lo));
		for (long i = 0; i < N; i++) u.push_back(std::min(1.0, (1 - std::exp(-l * ((double)Random::exponential(lo, up, l) - lo))) / top));
	}
	ksTest(c, "exponential", u);
}
PBT_PROP(geometrics, 200, 10000) {
	Random::seed(c.bits());
	c.nontrivial();
	double p = (double)c.range(5, 950) / 1000;
	Integer lo = 0, up = 4000;
	bool bounded = c.coin();
	if (bounded) { lo = c.range(0, 30); up = lo + c.range(1, 30); }
	PBT_NOTE << "geometric p=" << p << (bounded ? pbt::cat(" [", lo, ",", up, ")") : "");
	size_t n = (size_t)(up - lo);
	std::vector<double> prob(n), obs(n);
	double top = 1 - std::pow(1 - p, (double)n);
	for (size_t k = 0; k < n; k++) prob[k] = p * std::pow(1 - p, (double)k) / top;
	for (long i = 0; i < N; i++) { Integer x = (bounded ? Random::geometric(lo, up, p) : Random::geometric(p)) - lo; PBT_CHECK(x >= 0 && x < (Integer)n, "geometric gave ", x); obs[(size_t)x]++; }
	judge(c, "geometric", stat::chi2(obs, prob, N));
}
PBT_PROP(binomials, 600, 30000) {
	Random::seed(c.bits());
	c.nontrivial();
	Integer n = c.weighted({3, 3, 1}) == 0 ? c.range(1, 30) : c.coin() ? c.range(20, 300) : c.range(300, 100000);
	double p = c.weighted({4, 1}) == 0 ? (double)c.range(1, 999) / 1000 : 11.0 / (double)std::max<Integer>(n, 12);
	size_t m = (size_t)n + 1;
	std::vector<double> prob(m), obs(m);
	for (size_t k = 0; k < m; k++) prob[k] = std::exp(std::lgamma((double)n + 1) - std::lgamma((double)k + 1) - std::lgamma((double)n - (double)k + 1) + (double)k * std::log(p) + (double)(n - (Integer)k) * std::log1p(-p));
	Integer lo = 0, up = n + 1;
	bool bounded = c.chance(1, 3);
	if (bounded) {
		double mean = (double)n * p, sd = std::sqrt(mean * (1 - p)) + 1;
		lo = std::max<Integer>(-1, (Integer)(mean - (double)c.range(0, 20) / 10 * sd)); up = std::min<Integer>(n + 2, (Integer)(mean + (double)c.range(0, 20) / 10 * sd) + 2);
		double sum = 0;
		for (size_t k = 0; k < m; k++) { if ((Integer)k < lo || (Integer)k >= up) prob[k] = 0; sum += prob[k]; }
		for (auto& x : prob) x /= sum;
	}
	PBT_NOTE << "binomial n=" << n << " p=" << p << (bounded ? pbt::cat(" [", lo, ",", up, ")") : "");
	long cnt = N * 3;
	for (long i = 0; i < cnt; i++) { Integer x = bounded ? Random::binomial(lo, up, n, p) : Random::binomial(n, p); PBT_CHECK(x >= 0 && x <= n && x >= lo && x < up, "binomial gave ", x); obs[(size_t)x]++; }
	judge(c, "binomial", stat::chi2(obs, prob, (double)cnt));
}
// large n: the standardised number is normal up to 1/sqrt(npq), a rare event is Poisson distributed
PBT_PROP(largeBinomials, 120, 6000) {
	Random::seed(c.bits());
	c.nontrivial();
	Integer n = (1LL << c.range(32, 50)) + c.range(-1000, 1000);
	if (c.coin()) {
		Real p = c.coin() ? 0.5L : (Real)c.range(10, 990) / 1000, sd = std::sqrt((Real)n * p * (1 - p));
		PBT_NOTE << "binomial n=" << n << " p=" << p;
		std::vector<double> u;
		for (long i = 0; i < N; i++) u.push_back(Phi((double)(((Real)Random::binomial(n, p) - (Real)n * p) / sd)));
		ksTest(c, "binomial", u);
	} else {
		double l = c.pick<double>({0.5, 3, 9.5, 10.5, 40, 150});
		n = std::min(n, Integer(1) << 46);
		bool swap = c.chance(1, 3);
		if (swap) n = std::min(n, Integer(1) << 36);
		Real p = (Real)l / (Real)n;
		PBT_NOTE << "binomial n=" << n << " p=" << (swap ? "1-" : "") << p;
		size_t m = 400;
		std::vector<double> prob(m), obs(m);
		for (size_t k = 0; k < m; k++) prob[k] = std::exp((double)k * std::log(l) - l - std::lgamma((double)k + 1));
		for (long i = 0; i < N; i++) { Integer x = Random::binomial(n, swap ? 1 - p : p); if (swap) x = n - x; PBT_CHECK(x >= 0 && x < (Integer)m, "binomial gave ", x); obs[(size_t)x]++; }
		judge(c, "binomial", stat::chi2(obs, prob, N));
	}
}
static double distance(Integer n, Real p, long cnt) { // largest difference of the distribution functions
	std::vector<double> u;
	Real sd = std::sqrt((Real)n * p * (1 - p));
	for (long i = 0; i < cnt; i++) u.push_back(Phi((double)(((Real)Random::binomial(n, p) - (Real)n * p) / sd)));
	std::sort(u.begin(), u.end());
	double d = 0;
	for (size_t i = 0; i < u.size(); i++) d = std::max({d, std::fabs(u[i] - (double)i / (double)cnt), std::fabs(u[i] - (double)(i + 1) / (double)cnt)});
	return d;
}
PBT_PROP(hugeBinomials, 20, 600) { // see also the known finding below
	Random::seed(c.bits());
	c.nontrivial();
	Integer n = c.coin() ? INT64_MAX - (Integer)c.below(5) : (1LL << c.range(50, 62)) + c.range(-1000, 1000);
	Real p = c.coin() ? 0.5L : (Real)c.range(10, 990) / 1000;
	PBT_NOTE << "binomial n=" << n << " p=" << p;
	double d = distance(n, p, N);
	PBT_CHECK(d < 0.1, "binomial is far from the binomial distribution, distance ", d);
}
// Known finding: the logarithms of factorials beyond about 2^55 are not exact enough for their differences
PBT_PROP(preciseHugeBinomials, 3, 20) {
	Random::seed(c.bits());
	c.nontrivial();
	Integer n = c.pick<Integer>({INT64_MAX, (1LL << 62) + 1});
	PBT_NOTE << "binomial n=" << n << " p=0.5";
	double d = distance(n, 0.5L, 20 * N);
	PBT_CHECK(d < 7.0 / std::sqrt(20.0 * (double)N), "binomial with more than 2^55 trials is imprecise, distance ", d);
}
PBT_PROP(extremes, 400, 20000) { // minimum, maximum
	Random::seed(c.bits());
	c.nontrivial();
	Integer r = c.range(2, 40), n = c.coin() ? c.range(1, 4) : c.range(5, 30), lo = c.range(-50, 50);
	int how = (int)c.below(4);
	bool mx = how % 2 == 0, zero = c.coin();
	if (zero) lo = 0;
	PBT_NOTE << (mx ? "maximum" : "minimum") << " of " << n << " in [" << lo << "," << lo + r << ")";
	std::vector<double> prob((size_t)r), obs((size_t)r);
	for (Integer k = 0; k < r; k++) { // maximum equals k
		double q = std::pow((double)(k + 1) / (double)r, (double)n) - std::pow((double)k / (double)r, (double)n);
		prob[(size_t)(mx ? k : r - 1 - k)] = q;
	}
	for (long i = 0; i < N; i++) {
		Integer x;
		if (zero) x = how == 0 ? Random::maximum(r, n) : how == 1 ? Random::minimum(r, n) : Random::minmax(r, mx ? n : -n);
		else x = how == 0 ? Random::maximum(lo, lo + r, n) : how == 1 ? Random::minimum(lo, lo + r, n) : Random::minmax(lo, lo + r, mx ? n : -n);
		x -= lo;
		PBT_CHECK(x >= 0 && x < r, "out of range");
		obs[(size_t)x]++;
	}
	judge(c, mx ? "maximum" : "minimum", stat::chi2(obs, prob, N));
}
PBT_PROP(shuffles, 400, 20000) { // shuffle, rotate, select
	Random::seed(c.bits());
	c.nontrivial();
	Integer n = c.range(2, 5);
	switch (c.below(7)) {
		case 0: { auto v = iota(n); uniformOver(c, "shuffle", permsOf(v), [&] { auto w = v; Random::shuffle(w); return w; }); break; }
		case 1: { auto v = iota(n); uniformOver(c, "shuffle(first, last)", permsOf(v), [&] { auto w = v; Random::shuffle(w.begin(), w.end()); return w; }); break; }
		case 2: { // large: position of one element and the order of two
			n = c.range(6, 60);
			Integer e = c.range(0, n - 1), f = (e + 1 + c.range(0, n - 2)) % n;
			std::vector<double> pos((size_t)n), order(2), diff((size_t)n);
			for (long i = 0; i < N / 4; i++) {
				auto w = iota(n); Random::shuffle(w);
				auto a = std::find(w.begin(), w.end(), e) - w.begin(), b = std::find(w.begin(), w.end(), f) - w.begin();
				pos[(size_t)a]++; order[a < b]++; diff[(size_t)((b - a + n) % n)]++;
			}
			uniformCells(c, "position after shuffle", pos); uniformCells(c, "order of two elements after shuffle", order);
			diff.erase(diff.begin()); uniformCells(c, "distance of two elements after shuffle", diff);
			break;
		}
		case 3: { n = c.range(1, 12); std::set<Vec> all; auto v = iota(n); for (Integer i = 0; i < n; i++) { auto w = v; std::rotate(w.begin(), w.begin() + i, w.end()); all.insert(w); }
			bool cont = c.coin(); uniformOver(c, "rotate", all, [&] { auto w = v; if (cont) Random::rotate(w); else Random::rotate(w.begin(), w.end()); return w; }); break; }
		case 4: { n = c.range(1, 20); auto v = iota(n); std::set<Integer> all(v.begin(), v.end()); const auto& cv = v;
			int how = (int)c.below(3); uniformOver(c, "select", all, [&] { return how == 0 ? Random::select(v) : how == 1 ? Random::select(cv) : Random::select(v.begin(), v.end()); }); break; }
		case 5: {
			std::set<Integer> all{1, 2};
			uniformOver(c, "select(pair)", all, [&] { return Random::select(std::make_pair<Integer, Integer>(1, 2)); });
			uniformOver(c, "select(complex)", all, [&] { return Random::select(std::complex<Integer>(1, 2)); });
			uniformOver(c, "shuffle(pair)", all, [&] { std::pair<Integer, Integer> p(1, 2); Random::shuffle(p); return p.first; });
			uniformOver(c, "shuffle(complex)", all, [&] { std::complex<Integer> p(1, 2); Random::shuffle(p); return p.real(); });
			break;
		}
		default: {
			std::set<Integer> all{1, 2, 3, 4, 5};
			const Integer arr[5] = {1, 2, 3, 4, 5}; Integer mut[5] = {1, 2, 3, 4, 5};
			uniformOver(c, "select(const array)", all, [&] { return Random::select(arr); });
			uniformOver(c, "select(array)", all, [&] { return Random::select(mut); });
			auto v = iota(4, 1);
			uniformOver(c, "shuffle(array)", permsOf(v), [&] { Integer a[4] = {1, 2, 3, 4}; Random::shuffle(a); return Vec(a, a + 4); });
		}
	}
}
PBT_PROP(perms, 400, 20000) {
	Random::seed(c.bits());
	c.nontrivial();
	Integer n = c.range(1, 5), off = c.pick<Integer>({0, 0, 1, -3, 1000});
	auto all = permsOf(iota(n, off));
	switch (c.below(3)) {
		case 0: uniformOver(c, "perm", all, [&] { return off == 0 ? Random::perm(n) : Random::perm(n, off); }); break;
		case 1: {
			Vec cyc; for (Integer left = n; left > 0;) { Integer k = c.range(1, left); cyc.push_back(k); left -= k; }
			PBT_NOTE << "cycles " << pbt::seq(cyc);
			std::set<Vec> ok; auto want = cyc; std::sort(want.begin(), want.end());
			for (auto& p : all) { Vec got; std::vector<char> seen((size_t)n); for (size_t i = 0; i < (size_t)n; i++) if (!seen[i]) { Integer len = 0; for (size_t j = i; !seen[j]; j = (size_t)(p[j] - off)) { seen[j] = 1; len++; } got.push_back(len); } std::sort(got.begin(), got.end()); if (got == want) ok.insert(p); }
			uniformOver(c, "perm(cycles)", ok, [&] { return off == 0 ? Random::perm(cyc) : Random::perm(cyc, off); });
			break;
		}
		default: {
			n = c.range(1, 6); all = permsOf(iota(n, off));
			Vec fix; for (auto k = c.range(0, n); k > 0; k--) fix.push_back(off + c.range(0, n - 1));
			PBT_NOTE << "n " << n << " fix " << pbt::seq(fix) << " offset " << off;
			std::set<Vec> ok; for (auto& p : all) { bool good = true; for (auto x : fix) good &= p[(size_t)(x - off)] == x; if (good) ok.insert(p); }
			uniformOver(c, "perm(fix)", ok, [&] { return off == 0 ? Random::perm(n, fix) : Random::perm(n, fix, off); }, 80);
		}
	}
}
static void tuples(Integer lo, Integer up, size_t n, Vec& cur, const std::function<void(const Vec&)>& f) {
	if (cur.size() == n) { f(cur); return; }
	for (Integer x = lo; x < up; x++) { cur.push_back(x); tuples(lo, up, n, cur, f); cur.pop_back(); }
}
PBT_PROP(sequences, 500, 25000) {
	Random::seed(c.bits());
	c.nontrivial();
	Integer w = c.range(1, 6), lo = c.pick<Integer>({0, 0, 5, -7, INT64_MIN, INT64_MAX - 6});
	size_t n = (size_t)c.range(0, w <= 3 ? 4 : 3);
	int kind = (int)c.below(4);
	if (kind != 1) n = (size_t)std::min<Integer>((Integer)n, w);
	std::set<Vec> all; Vec cur;
	tuples(lo, lo + w, n, cur, [&](const Vec& v) {
		std::set<Integer> s(v.begin(), v.end());
		bool inc = true, dec = true;
		for (size_t i = 1; i < v.size(); i++) { inc &= v[i - 1] < v[i]; dec &= v[i - 1] > v[i]; }
		if (kind == 1 || (kind == 0 && s.size() == v.size()) || (kind == 2 && inc) || (kind == 3 && dec)) all.insert(v);
	});
	PBT_NOTE << "kind " << kind << " count " << n << " [" << lo << "," << lo + w << ")";
	Integer k = (Integer)n, up = lo + w;
	bool z = lo == 0;
	switch (kind) {
		case 0: uniformOver(c, "distinct", all, [&] { return z ? Random::distinct(k, up) : Random::distinct(k, lo, up); }, 100); break;
		case 1: uniformOver(c, "multiple", all, [&] { return z ? Random::multiple(k, up) : Random::multiple(k, lo, up); }, 100); break;
		case 2: uniformOver(c, "increasing", all, [&] { return z ? Random::increasing(k, up) : Random::increasing(k, lo, up); }); break;
		default: uniformOver(c, "decreasing", all, [&] { return z ? Random::decreasing(k, up) : Random::decreasing(k, lo, up); });
	}
}
// documented: "Each possible output has the same probability".  Known finding:
// sorted independent draws are returned instead; anything else is an alarm.
static void nonStrict(pbt::Ctx& c, bool uniformOnly) {
	Random::seed(c.bits());
	c.nontrivial();
	Integer w = c.range(2, 5), lo = c.pick<Integer>({0, 5, -7});
	size_t n = (size_t)c.range(2, 4);
	bool up = c.coin();
	std::map<Vec, double> iid; Vec cur; double total = 0;
	tuples(lo, lo + w, n, cur, [&](const Vec& v) { auto s = v; std::sort(s.begin(), s.end()); if (!up) std::reverse(s.begin(), s.end()); iid[s]++; total++; });
	std::vector<double> uni(iid.size(), 1.0 / (double)iid.size()), ind, obs(iid.size());
	std::map<Vec, size_t> id;
	for (auto& [v, k] : iid) { id.emplace(v, id.size()); ind.push_back(k / total); }
	Integer k = (Integer)n;
	bool z = lo == 0;
	PBT_NOTE << (up ? "nonDecreasing" : "nonIncreasing") << " count " << n << " [" << lo << "," << lo + w << ")";
	for (long i = 0; i < N; i++) {
		Vec v = up ? z ? Random::nonDecreasing(k, w) : Random::nonDecreasing(k, lo, lo + w) : z ? Random::nonIncreasing(k, w) : Random::nonIncreasing(k, lo, lo + w);
		auto it = id.find(v);
		PBT_CHECK(it != id.end(), "impossible result");
		obs[it->second]++;
	}
	bool uniform = stat::chi2(obs, uni, N).p > stat::ALPHA, sorted = stat::chi2(obs, ind, N).p > stat::ALPHA;
	if (uniformOnly) PBT_CHECK(uniform || !sorted, "nonDecreasing/nonIncreasing are distributed like sorted independent draws, not uniformly");
	else PBT_CHECK(uniform || sorted, "nonDecreasing/nonIncreasing are neither uniform nor distributed like sorted independent draws");
}
PBT_PROP(nonStrictUniform, 40, 400) { nonStrict(c, true); }
PBT_PROP(nonStrictSequences, 200, 8000) { nonStrict(c, false); }
PBT_PROP(largeDistinct, 150, 6000) {
	Random::seed(c.bits());
	c.nontrivial();
	Integer w = c.coin() ? c.range(20, 100) : c.range(1000, 1000000000), n = std::min<Integer>(w, c.range(2, 40)), lo = c.range(-1000, 1000);
	PBT_NOTE << "distinct(" << n << ", " << lo << ", " << lo + w << ")";
	size_t b = 10, at = (size_t)c.range(0, n - 1);
	std::vector<double> cell(b), prob(b), all(b), order(2);
	for (size_t k = 0; k < b; k++) prob[k] = (double)((Integer)(k + 1) * w / (Integer)b - (Integer)k * w / (Integer)b) / (double)w;
	auto of = [&](Integer x) { size_t k = 0; while (x - lo >= (Integer)(k + 1) * w / (Integer)b) k++; return k; };
	for (long i = 0; i < 4000; i++) {
		auto v = Random::distinct(n, lo, lo + w);
		for (auto x : v) PBT_CHECK(x >= lo && x < lo + w, "out of range");
		cell[of(v[at])]++; order[v[0] < v[(size_t)n - 1]]++;
	}
	judge(c, "single value of distinct", stat::chi2(cell, prob, 4000));
	uniformCells(c, "order of distinct", order);
}
PBT_PROP(partitions, 200, 10000) {
	Random::seed(c.bits());
	c.nontrivial();
	Integer k = c.range(1, 4), mn = c.range(1, 3), n = k * mn + c.range(0, 6);
	PBT_NOTE << "partition(" << n << ", " << k << ", " << mn << ")";
	std::set<Vec> all; Vec cur;
	tuples(mn, n + 1, (size_t)k - 1, cur, [&](const Vec& v) { Integer last = n; for (auto x : v) last -= x; if (last >= mn) { auto w = v; w.push_back(last); all.insert(w); } });
	uniformOver(c, "partition", all, [&] { return mn == 1 ? Random::partition(n, k) : Random::partition(n, k, mn); });
}
PBT_PROP(texts, 200, 10000) {
	Random::seed(c.bits());
	c.nontrivial();
	if (c.coin()) {
		Integer n = c.range(1, 6); // Catalan(6) = 132
		std::set<std::string> all;
		for (int m = 0; m < 1 << (2 * n); m++) { std::string s; int d = 0; bool ok = true; for (int i = 0; i < 2 * n; i++) { bool o = !(m >> i & 1); s += o ? '(' : ')'; d += o ? 1 : -1; ok &= d >= 0; } if (ok && d == 0) all.insert(s); }
		PBT_NOTE << "bracketSequence(" << n << ")";
		uniformOver(c, "bracketSequence", all, [&] { return Random::bracketSequence(n); });
	} else {
		Integer n = c.range(1, 3);
		std::string alpha = c.pick<std::string>({"ab", "xyz", "0123", "q"});
		std::set<std::string> all{""};
		for (Integer i = 0; i < n; i++) { std::set<std::string> t; for (auto& s : all) for (char ch : alpha) t.insert(s + ch); all = t; }
		uniformOver(c, "string", all, [&] { return Random::string(n, alpha); });
		std::vector<double> let(26);
		for (long i = 0; i < 2000; i++) for (char ch : Random::string(10)) { PBT_CHECK(ch >= 'a' && ch <= 'z', "letter"); let[(size_t)(ch - 'a')]++; }
		uniformCells(c, "letters", let);
	}
}
PBT_PROP(primes, 60, 3000) { // every prime of the range equally likely
	Random::seed(c.bits());
	Integer lo = c.range(0, 300), up = lo + c.range(20, 200);
	std::set<Integer> all;
	for (Integer x = std::max<Integer>(2, lo); x < up; x++) { bool p = true; for (Integer d = 2; d * d <= x; d++) p &= x % d != 0; if (p) all.insert(x); }
	PBT_NOTE << "prime(" << lo << "," << up << ")";
	if (all.size() < 2) c.discard();
	c.nontrivial();
	uniformOver(c, "prime", all, [&] { return Random::prime(lo, up); });
}
