// C15 polygon predicates, C20 random point sets
#include "vh.h"
#include <complex>
using L = __int128;
struct P { Integer x, y; bool operator==(const P& o) const { return x == o.x && y == o.y; } };
static L crs(const P& a, const P& b, const P& c) { return ((L)b.x - a.x) * ((L)c.y - a.y) - ((L)b.y - a.y) * ((L)c.x - a.x); }
static L dt(const P& a, const P& b, const P& c) { return ((L)b.x - a.x) * ((L)c.x - a.x) + ((L)b.y - a.y) * ((L)c.y - a.y); }
static std::string showPts(const std::vector<P>& v) { std::string s; for (auto& p : v) s += pbt::cat("(", p.x, ",", p.y, ") "); return s; }

// --- oracles -----------------------------------------------------------------
// counter-clockwise boundary of a convex polygon of positive area traversed once:
// all points lie on the boundary of their hull and go around it in strict order
static bool refConvex(const std::vector<P>& p) {
	size_t n = p.size();
	auto s = p;
	std::sort(s.begin(), s.end(), [](auto& a, auto& b) { return std::tie(a.x, a.y) < std::tie(b.x, b.y); });
	s.erase(std::unique(s.begin(), s.end()), s.end());
	if (s.size() < 3) return false;
	std::vector<P> h;
	for (int half = 0; half < 2; half++) {
		size_t base = h.size();
		for (auto& q : s) {
			while (h.size() >= base + 2 && crs(h[h.size() - 2], h.back(), q) <= 0) h.pop_back();
			h.push_back(q);
		}
		h.pop_back();
		std::reverse(s.begin(), s.end());
	}
	if (h.size() < 3) return false;
	std::vector<std::pair<size_t, L>> key;
	for (auto& q : p) {
		bool on = false;
		for (size_t i = 0; i < h.size() && !on; i++) {
			const P &a = h[i], &b = h[(i + 1) % h.size()];
			if (crs(a, b, q) != 0) continue;
			L d = dt(a, b, q), len = dt(a, b, b);
			if (d >= 0 && d < len) { key.emplace_back(i, d); on = true; }
		}
		if (!on) return false;
	}
	size_t descents = 0;
	for (size_t i = 0; i < n; i++) {
		auto &a = key[i], &b = key[(i + 1) % n];
		if (a == b) return false;
		descents += b < a;
	}
	return descents == 1;
}
static int sgn(L v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static bool onSeg(const P& a, const P& b, const P& q) { return crs(a, b, q) == 0 && dt(q, a, b) <= 0; }
static bool touch(const P& a, const P& b, const P& c, const P& d) {
	if (onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b)) return true;
	return sgn(crs(a, b, c)) * sgn(crs(a, b, d)) < 0 && sgn(crs(c, d, a)) * sgn(crs(c, d, b)) < 0;
}
static bool refSimple(const std::vector<P>& p) {
	size_t n = p.size();
	for (size_t i = 0; i < n; i++) if (p[i] == p[(i + 1) % n]) return false;
	for (size_t i = 0; i < n; i++) {
		const P &a = p[i], &b = p[(i + 1) % n];
		for (size_t j = i + 1; j < n; j++) {
			const P &c = p[j], &d = p[(j + 1) % n];
			bool next = j == i + 1, prev = (j + 1) % n == i;
			if (next || prev) { // may share only the common vertex
				if (next && (onSeg(a, b, d) || onSeg(b, d, a))) return false;
				if (prev && (onSeg(a, b, c) || onSeg(c, a, b))) return false;
			} else if (touch(a, b, c, d)) return false;
		}
	}
	return true;
}
static L area2(const std::vector<P>& p) { L r = 0; for (size_t i = 0; i < p.size(); i++) { auto &a = p[i], &b = p[(i + 1) % p.size()]; r += (L)a.x * b.y - (L)a.y * b.x; } return r; }

#ifdef P_C15
static const Integer MAXC = 0x3FFF'FFFF;
static std::vector<P> hullOf(std::vector<P> s, bool keep) {
	std::sort(s.begin(), s.end(), [](auto& a, auto& b) { return std::tie(a.x, a.y) < std::tie(b.x, b.y); });
	s.erase(std::unique(s.begin(), s.end()), s.end());
	if (s.size() < 3) return s;
	std::vector<P> h;
	for (int half = 0; half < 2; half++) {
		size_t base = h.size();
		for (auto& q : s) {
			while (h.size() >= base + 2 && (keep ? crs(h[h.size() - 2], h.back(), q) < 0 : crs(h[h.size() - 2], h.back(), q) <= 0)) h.pop_back();
			h.push_back(q);
		}
		h.pop_back();
		std::reverse(s.begin(), s.end());
	}
	return h;
}
static std::vector<P> genPoly(pbt::Ctx& c) {
	Integer dim = c.pick<Integer>({1, 2, 3, 5, 10, 100, MAXC});
	auto pt = [&] { P p; if (c.coin()) { p.x = c.range(-dim, dim); p.y = c.range(-dim, dim); } else { p.x = c.pick<Integer>({-dim, 0, dim}); p.y = c.pick<Integer>({-dim, 0, dim}); } return p; };
	size_t n = (size_t)c.rarely(3, 12, 150);
	std::vector<P> v;
	switch (c.weighted({3, 4, 3, 2, 2})) {
		case 0: for (size_t i = 0; i < n; i++) v.push_back(pt()); break;
		case 1: { for (size_t i = 0; i < n + 3; i++) v.push_back(pt()); v = hullOf(v, c.coin()); break; }
		case 2: { // star shaped: sorted around a point, mostly simple
			for (size_t i = 0; i < n; i++) v.push_back(pt());
			P o = pt();
			std::stable_sort(v.begin(), v.end(), [&](const P& a, const P& b) { return std::atan2((double)(a.y - o.y), (double)(a.x - o.x)) < std::atan2((double)(b.y - o.y), (double)(b.x - o.x)); });
			break;
		}
		case 3: { // orthogonal walk
			P p = pt();
			for (size_t i = 0; i < n; i++) { v.push_back(p); if (i % 2) p.x = std::clamp<Integer>(p.x + c.range(-3, 3), -dim, dim); else p.y = std::clamp<Integer>(p.y + c.range(-3, 3), -dim, dim); }
			break;
		}
		default: { // a monotone zigzag closed by a long edge
			Integer x = -std::min<Integer>(dim, 20);
			for (size_t i = 0; i < n && x <= dim; i++) { v.push_back({x, c.range(-std::min<Integer>(dim, 4), std::min<Integer>(dim, 4))}); x += c.range(0, 2); }
		}
	}
	if (v.size() < 3) { while (v.size() < 3) v.push_back(pt()); }
	// disturbances which are degenerate in interesting ways
	for (size_t k = c.weighted({6, 3, 2}); k > 0; k--) {
		size_t i = c.below(v.size());
		P a = v[i], b = v[(i + 1) % v.size()];
		switch (c.below(9)) {
			case 0: v.insert(v.begin() + (long)i, v[i]); break;
			case 1: v[i] = v[c.below(v.size())]; break;
			case 2: if ((a.x + b.x) % 2 == 0 && (a.y + b.y) % 2 == 0) v.insert(v.begin() + (long)i + 1, {(a.x + b.x) / 2, (a.y + b.y) / 2}); break; // on an edge
			case 3: { P m{(a.x + b.x) / 2, (a.y + b.y) / 2}; v.insert(v.begin() + (long)i + 1, m); if (c.coin()) v.insert(v.begin() + (long)i + 1, b); break; } // spike
			case 4: if (v.size() <= 40) { auto w = v; v.insert(v.end(), w.begin(), w.end()); } break; // traversed twice
			case 5: std::reverse(v.begin(), v.end()); break;
			case 6: if (v.size() > 3) v.erase(v.begin() + (long)i); break;
			case 7: std::swap(v[i], v[c.below(v.size())]); break;
			default: { P& p = v[i]; p.x = std::clamp<Integer>(p.x + c.range(-1, 1), -MAXC, MAXC); p.y = std::clamp<Integer>(p.y + c.range(-1, 1), -MAXC, MAXC); }
		}
	}
	if (c.coin()) std::rotate(v.begin(), v.begin() + (long)c.below(v.size()), v.end());
	if (v.size() > 1 && dim < 1000 && c.chance(1, 6)) { // move to a corner of the supported area
		Integer mx = 0; for (auto& p : v) mx = std::max({mx, std::abs(p.x), std::abs(p.y)});
		Integer dx = c.pick<Integer>({MAXC - mx, mx - MAXC, 0}), dy = c.pick<Integer>({MAXC - mx, mx - MAXC, 0});
		for (auto& p : v) { p.x += dx; p.y += dy; }
	}
	if (c.chance(1, 4)) { // scale to large coordinates
		Integer mx = 1; for (auto& p : v) mx = std::max({mx, std::abs(p.x), std::abs(p.y)});
		Integer f = MAXC / mx;
		for (auto& p : v) { p.x *= f; p.y *= f; }
	}
	return v;
}
template<typename F> static void withTypes(pbt::Ctx& c, const std::vector<P>& v, F&& f) {
	switch (c.below(6)) {
		case 0: { std::vector<std::pair<Integer, Integer>> w; for (auto& p : v) w.emplace_back(p.x, p.y); f(w); break; }
		case 1: { std::vector<std::complex<Integer>> w; for (auto& p : v) w.emplace_back(p.x, p.y); f(w); break; }
		case 2: { std::deque<std::array<Integer, 2>> w; for (auto& p : v) w.push_back({p.x, p.y}); f(w); break; }
		case 3: { std::vector<std::tuple<Integer, Integer>> w; for (auto& p : v) w.emplace_back(p.x, p.y); f(w); break; }
		default: f(v);
	}
}
PBT_PROP(polygons, 250000, 8000000) {
	auto v = genPoly(c);
	PBT_NOTE << showPts(v);
	bool conv = refConvex(v), simple = refSimple(v), strict = conv;
	for (size_t i = 0; i < v.size(); i++) if (crs(v[i], v[(i + 1) % v.size()], v[(i + 2) % v.size()]) == 0) strict = false;
	c.label(conv ? strict ? "strictly convex" : "convex" : simple ? "simple" : "neither");
	if (simple || conv || v.size() > 3) c.nontrivial();
	withTypes(c, v, [&](const auto& w) {
		PBT_CHECK(isConvex(w) == conv, "isConvex is ", !conv);
		PBT_CHECK(isConvex(w.begin(), w.end()) == conv, "isConvex(first, last) is ", !conv);
		PBT_CHECK(isStrictlyConvex(w) == strict, "isStrictlyConvex is ", !strict);
		PBT_CHECK(isStrictlyConvex(w.begin(), w.end()) == strict, "isStrictlyConvex(first, last) is ", !strict);
		PBT_CHECK(isSimple(w) == simple, "isSimple is ", !simple);
		PBT_CHECK(isSimple(w.begin(), w.end()) == simple, "isSimple(first, last) is ", !simple);
		if (simple) {
			bool ccw = area2(v) > 0;
			PBT_CHECK(isCCW(w) == ccw, "isCCW is ", !ccw);
			PBT_CHECK(isCCW(w.begin(), w.end()) == ccw, "isCCW(first, last) is ", !ccw);
		}
	});
}
PBT_PROP(largeSimple, 4000, 60000) { // many edges: star shaped or monotone polygons, one vertex disturbed
	size_t n = (size_t)c.range(13, 150);
	std::vector<P> v;
	Integer dim = c.pick<Integer>({30, 1000, 1000000, MAXC});
	if (c.coin()) {
		for (size_t i = 0; i < n; i++) { double a = 2 * 3.14159265358979 * (double)i / (double)n, r = (double)c.range(dim / 2, dim); v.push_back({(Integer)(r * std::cos(a)), (Integer)(r * std::sin(a))}); }
		if (c.coin()) std::reverse(v.begin(), v.end());
	} else { // comb
		Integer step = std::max<Integer>(1, dim / (Integer)n);
		for (size_t i = 0; i < n; i++) v.push_back({-dim / 2 + (Integer)i * step, c.coin() ? c.range(0, dim / 2) : 0});
		v.push_back({-dim / 2 + (Integer)n * step, -c.range(1, dim / 2)});
		v.push_back({-dim / 2, -c.range(1, dim / 2)});
	}
	if (c.coin()) v[c.below(v.size())] = {c.range(-dim, dim), c.range(-dim, dim)};
	if (c.coin()) for (auto& p : v) std::swap(p.x, p.y);
	std::rotate(v.begin(), v.begin() + (long)c.below(v.size()), v.end());
	PBT_NOTE << showPts(v);
	bool simple = refSimple(v), conv = refConvex(v);
	c.label(simple ? "simple" : "not simple");
	c.nontrivial();
	PBT_CHECK(isSimple(v) == simple, "isSimple is ", !simple);
	PBT_CHECK(isConvex(v) == conv, "isConvex is ", !conv);
	if (simple) PBT_CHECK(isCCW(v) == (area2(v) > 0), "isCCW");
}
PBT_PROP(products, 100000, 2000000) {
	auto co = [&] { return c.coin() ? c.range(-100, 100) : c.coin() ? c.pick<Integer>({MAXC, -MAXC}) : c.range(-MAXC, MAXC); };
	P a{co(), co()}, b{co(), co()}, d{co(), co()};
	PBT_NOTE << showPts({a, b, d});
	c.nontrivial();
	P o{0, 0};
	auto eq = [&](const char* what, Integer got, L want) { PBT_CHECK((L)got == want, what, " is ", got); };
	eq("dot(a,b)", dot(a, b), dt(o, a, b));
	eq("cross(a,b)", cross(a, b), crs(o, a, b));
	eq("cross(a,b,c)", cross(a, b, d), crs(a, b, d));
	using Q = std::pair<Integer, Integer>;
	eq("dot(pair,pair)", dot(Q(a.x, a.y), Q(b.x, b.y)), dt(o, a, b));
	eq("cross(pair,pair)", cross(Q(a.x, a.y), Q(b.x, b.y)), crs(o, a, b));
	eq("cross(pairs)", cross(Q(a.x, a.y), Q(b.x, b.y), Q(d.x, d.y)), crs(a, b, d));
	using C = std::complex<Integer>;
	eq("cross(complex,complex,complex)", cross(C(a.x, a.y), C(b.x, b.y), C(d.x, d.y)), crs(a, b, d));
	eq("dot(complex,complex)", dot(C(a.x, a.y), C(b.x, b.y)), dt(o, a, b));
}
PBT_PROP(refusedCoordinates, 20000, 300000) {
	auto v = genPoly(c);
	size_t i = c.below(v.size());
	Integer big = c.pick<Integer>({MAXC + 1, -MAXC - 1, INT64_MAX, INT64_MIN + 1, 1LL << 40, 1LL << 31});
	(c.coin() ? v[i].x : v[i].y) = big;
	PBT_NOTE << showPts(v);
	c.nontrivial();
	int which = (int)c.below(4);
	auto o = outcome([&] { switch (which) { case 0: (void)isConvex(v); break; case 1: (void)isStrictlyConvex(v); break; case 2: (void)isSimple(v); break; default: (void)isCCW(v); } });
	PBT_CHECK(o.end == End::Exception, "coordinates beyond the supported ones are not refused (predicate ", which, ")");
}
#endif

#ifdef P_C20
struct Pt { Integer x = 0, y = 0; Pt() = default; Pt(Integer a, Integer b) : x(a), y(b) {} };
template<typename T> static std::vector<P> conv(const std::vector<T>& v) { std::vector<P> r; for (auto& p : v) r.push_back({(Integer)getX(p), (Integer)getY(p)}); return r; }
PBT_PROP(convexPolygons, 60000, 1500000) {
	Random::seed(c.bits());
	Integer dim = c.weighted({4, 2, 1}) == 0 ? c.range(2, 12) : c.coin() ? c.range(2, 2000) : c.pick<Integer>({2, 3, 1000000, 0x3FFF'FFFF});
	Integer n = c.coin() ? c.range(3, 10) : c.range(3, 60);
	if (c.chance(1, 40)) n = c.range(100, 1000);
	n = std::min<Integer>(n, dim > 5 || c.coin() ? 4 * dim - 4 : 6 * dim - 6); // beyond that almost every attempt is rejected
	n = std::max<Integer>(n, 3);
	PBT_NOTE << "convex(" << n << ", " << dim << ")";
	std::vector<P> v;
	auto o = outcome([&] {
		switch (c.below(4)) {
			case 0: v = conv(Random::convex(n, dim)); break;
			case 1: v = conv(Random::convex<std::complex<Integer>>(n, dim)); break;
			case 2: v = conv(Random::convex<Pt>(n, dim)); break;
			default: v = conv(Random::convex<std::tuple<Integer, Integer>>(n, dim));
		}
	});
	if (n > 4 * dim) c.label("many points");
	PBT_CHECK(o.end == End::Value, "raised ", o.what);
	c.nontrivial();
	PBT_NOTE << ": " << showPts(v);
	PBT_CHECK((Integer)v.size() == n, "gave ", v.size(), " points");
	Integer x0 = dim, x1 = -dim, y0 = dim, y1 = -dim;
	for (auto& p : v) {
		PBT_CHECK(p.x > -dim && p.x < dim && p.y > -dim && p.y < dim, "point (", p.x, ",", p.y, ") lies outside of (-", dim, ",", dim, ")");
		x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y);
	}
	PBT_CHECK(x0 == 1 - dim && x1 == dim - 1 && y0 == 1 - dim && y1 == dim - 1, "polygon spans [", x0, ",", x1, "]x[", y0, ",", y1, "]");
	PBT_CHECK(refConvex(v), "points are no convex polygon in counter-clockwise order");
	PBT_CHECK(isConvex(v), "isConvex refuses the polygon");
}
PBT_PROP(nonCollinear, 40000, 800000) {
	Random::seed(c.bits());
	Integer dim = c.weighted({4, 2, 1}) == 0 ? c.range(2, 30) : c.coin() ? c.range(2, 500) : c.pick<Integer>({2, 3, 4, 5, 6, 7, 1000, 100000, 1000000});
	Integer n = c.coin() ? c.range(1, 12) : c.coin() ? dim : c.range(1, std::min<Integer>(dim, 60));
	n = std::min<Integer>(n, std::min<Integer>(dim - 1, 80));
	PBT_NOTE << "nonCollinearPoints(" << n << ", " << dim << ")";
	std::vector<P> v;
	auto o = outcome([&] {
		switch (c.below(3)) {
			case 0: v = conv(Random::nonCollinearPoints(n, dim)); break;
			case 1: v = conv(Random::nonCollinearPoints<std::complex<Integer>>(n, dim)); break;
			default: v = conv(Random::nonCollinearPoints<Pt>(n, dim)); break;
		}
	});
	PBT_CHECK(o.end == End::Value, "raised ", o.what);
	if (n > 2) c.nontrivial();
	PBT_NOTE << ": " << showPts(v);
	PBT_CHECK((Integer)v.size() == n, "gave ", v.size(), " points");
	for (auto& p : v) PBT_CHECK(p.x > -dim && p.x < dim && p.y > -dim && p.y < dim, "point (", p.x, ",", p.y, ") lies outside of (-", dim, ",", dim, ")");
	for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) {
		PBT_CHECK(!(v[i] == v[j]), "point (", v[i].x, ",", v[i].y, ") occurs twice");
		for (size_t k = 0; k < j; k++) PBT_CHECK(crs(v[i], v[j], v[k]) != 0, "points ", k, ", ", j, ", ", i, " are collinear");
	}
}
PBT_PROP(invalidParameters, 20000, 200000) {
	bool cv = c.coin();
	Integer n, dim, limit = cv ? 0x3FFF'FFFF : 0x1FFF'FFFF;
	switch (c.below(4)) {
		case 0: n = cv ? c.range(-5, 2) : c.range(-9, -1); dim = c.range(2, 100); break; // too few
		case 1: dim = cv ? c.range(-100, 0) : c.range(-100, 1); n = c.range(3, 10); break;
		case 2: dim = c.range(2, 50); n = cv ? c.range(8 * dim - 7, 8 * dim + 20) : c.range(dim, dim + 20); break; // too many
		default: dim = c.coin() ? limit + c.range(1, 20) : c.pick<Integer>({INT64_MAX, INT64_MAX - 1, 1LL << 62, 1LL << 40, 1LL << 31}); n = c.range(3, 9);
	}
	PBT_NOTE << (cv ? "convex(" : "nonCollinearPoints(") << n << ", " << dim << ")";
	c.nontrivial();
	auto o = outcome([&] { if (cv) (void)Random::convex(n, dim); else (void)Random::nonCollinearPoints(n, dim); });
	PBT_CHECK(o.end == End::Exception, "invalid parameters are not refused");
}
#endif
