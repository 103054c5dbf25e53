// C34 generators and strict validators fit together: what the generator functions and
// output streams produce is read back by a strict validator, whose predicates and
// graph_val.h's answers agree with what the generator promises
#include "vh.h"
#include "graph_gen.h"
// both headers call their classes Graph and DiGraph
#define Graph ValGraph
#define DiGraph ValDiGraph
#include "graph_val.h"
#undef Graph
#undef DiGraph

// while a changed document is read a difference is only noted
static bool judging = true, differs = false;
#define JUDGE(cond, ...) do { if (judging) PBT_CHECK(cond, __VA_ARGS__); else if (!(cond)) differs = true; } while (0)

// --- a document and the strict way to read it --------------------------------
struct Item {
	const char* what;
	std::function<void(OutputStream&)> print;
	std::function<void(pbt::Ctx&, InputStream&)> read;    // reads, compares
	std::function<void(pbt::Ctx&, InputStream&)> misread; // the same with bounds which exclude what was printed; may be empty
};
static void readSep(InputStream& in, char s) { if (s == SPACE) in.space(); else in.newline(); }
// bounds around the values of v, sometimes as tight as possible
static std::pair<Integer, Integer> around(pbt::Ctx& c, const std::vector<Integer>& v) {
	auto [a, b] = std::minmax_element(v.begin(), v.end());
	Integer lo = *a, hi = *b + 1;
	if (c.coin()) lo = c.coin() ? std::numeric_limits<Integer>::min() : lo - (lo > -LARGE ? c.range(0, 9) : 0);
	if (c.coin()) hi = c.coin() ? std::numeric_limits<Integer>::max() : hi + (hi < LARGE ? c.range(0, 9) : 0);
	return {lo, hi};
}
static std::pair<Integer, Integer> missing(pbt::Ctx& c, const std::vector<Integer>& v) {
	auto [a, b] = std::minmax_element(v.begin(), v.end());
	if (c.coin()) return {*a + 1, std::numeric_limits<Integer>::max()};
	return {std::numeric_limits<Integer>::min(), *b};
}
static Item integerItem(pbt::Ctx& c) {
	Integer x = c.coin() ? c.i64() : Random::integer(c.range(-50, 0), c.range(1, 50));
	if (x == std::numeric_limits<Integer>::max()) x--;
	std::vector<Integer> v = {x};
	return {"integer", [=](OutputStream& os) { os << x; },
		[=](pbt::Ctx& c, InputStream& in) { auto [lo, hi] = around(c, v); Integer y = c.chance(1, 4) ? in.integer() : in.integer(lo, hi); JUDGE(x == y, "printed ", x, ", read ", y); },
		[=](pbt::Ctx& c, InputStream& in) { if (c.coin()) in.expectInt(x ^ ((Integer)1 << c.below(60))); else { auto [lo, hi] = missing(c, v); (void)in.integer(lo, hi); } }};
}
static Item realItem(pbt::Ctx& c) {
	int d = (int)c.range(0, 9);
	Real x;
	switch (c.below(5)) {
		case 0: x = Random::real(); break;
		case 1: x = Random::normal(0, 100); break;
		case 2: x = (Real)c.range(-1000000, 1000000) / 1024; break;
		case 3: x = Random::exponential(0.01); break;
		default: x = Random::real(-1e9_real, 1e9_real); break;
	}
	if (std::abs(x) > 1e12_real) x = 1;
	Real err = 0.5_real * std::pow(10.0_real, -d) * (1 + 1e-6_real) + std::abs(x) * 1e-17_real;
	return {"real", [=](OutputStream& os) { os << std::setprecision(d) << x; os << std::setprecision(DEFAULT_PRECISION); },
		[=](pbt::Ctx& c, InputStream& in) {
			Real y = judging && c.chance(1, 4) ? in.real() : in.realStrict(x - 1, x + 1, c.coin() ? d : 0, c.coin() ? d + 1 : 20);
			JUDGE(std::abs(x - y) <= err, "printed ", x, " with ", d, " decimals, read ", y);
		},
		[=](pbt::Ctx& c, InputStream& in) {
			switch (c.below(4)) {
				case 0: (void)in.realStrict(-1e18_real, x - 1, 0, 30); break;
				case 1: (void)in.realStrict(x + 1, 1e18_real, 0, 30); break;
				case 2: (void)in.realStrict(-1e18_real, 1e18_real, d + 1, 30); break;
				default: (void)in.realStrict(-1e18_real, 1e18_real, 0, d);
			}
		}};
}
static Item stringItem(pbt::Ctx& c) {
	static const std::vector<std::string> alphabets = {std::string(LOWER), std::string(UPPER), std::string(LETTER), std::string(DIGITS), std::string(ALPHA_NUMERIC), std::string(CONSONANT), std::string(VOWEL), "ab", "!~#", std::string(BRACKETS)};
	size_t which = c.below(alphabets.size());
	const std::string& al = alphabets[which];
	Integer n = c.rarely(1, 12, 400);
	std::string s = Random::string(n, al);
	return {"string", [=](OutputStream& os) { os << s; },
		[=](pbt::Ctx& c, InputStream& in) {
			std::string t;
			if (c.chance(1, 4)) { in.expectString(s); t = s; }
			else if (c.chance(1, 3)) t = in.string();
			else t = in.string(n - c.range(0, 1), n + c.range(1, 3));
			JUDGE(s == t, "printed ", s, ", read ", t);
			for (char x : t) JUDGE(al.find(x) != std::string::npos, "letter ", x, " is not in ", al);
			if (which == 0) JUDGE(isLower(t), "not lower: ", t);
			if (which == 1) JUDGE(isUpper(t), "not upper: ", t);
			if (which == 2) JUDGE(isLetter(t), "not letters: ", t);
			if (which == 3) JUDGE(isDigit(t), "not digits: ", t);
			if (which == 5) JUDGE(isConsonant(t), "not consonants: ", t);
			if (which == 6) JUDGE(isVowel(t), "not vowels: ", t);
		},
		[=](pbt::Ctx& c, InputStream& in) {
			switch (c.below(4)) {
				case 0: (void)in.string(n + 1, n + 10); break;
				case 1: (void)in.string(0, n); break;
				case 2: { std::string t = s; t[c.below(t.size())] ^= 2; in.expectString(t); break; }
				default: in.expectString(c.coin() ? s + "x" : s.size() > 1 ? s.substr(1) : s + s);
			}
		}};
}
static Item bracketItem(pbt::Ctx& c) {
	Integer n = c.rarely(1, 10, 100);
	auto [o, d] = c.pick<std::pair<char, char>>({{'(', ')'}, {'[', ']'}, {'a', 'b'}});
	std::string s = Random::bracketSequence(n, o, d);
	return {"brackets", [=](OutputStream& os) { os << s; },
		[=](pbt::Ctx& c, InputStream& in) {
			std::string t = in.string(std::regex(o == '(' ? "[()]*" : o == '[' ? "[\\[\\]]*" : "[ab]*"), 2 * n, 2 * n + 1);
			JUDGE(s == t, "printed ", s, ", read ", t);
			Integer h = 0;
			for (char x : t) { h += x == o ? 1 : -1; JUDGE(h >= 0, t, " is no bracket sequence"); }
			JUDGE(h == 0, t, " is no bracket sequence");
		},
		[=](pbt::Ctx& c, InputStream& in) { (void)in.string(std::regex(c.coin() ? "[0-9]*" : o == '(' ? "\\(*" : o == '[' ? "\\[*" : "a*")); }};
}
static void sequencePromise(pbt::Ctx& c, int kind, const std::vector<Integer>& v, Integer offset) {
	if (!judging) return;
	switch (kind) {
		case 0: JUDGE(isPerm(v, offset), pbt::seq(v), " is no permutation"); break;
		case 1: JUDGE(areDistinct(v), pbt::seq(v), " is not distinct"); break;
		case 2: JUDGE(areIncreasing(v), pbt::seq(v), " is not increasing"); break;
		case 3: JUDGE(areDecreasing(v), pbt::seq(v), " is not decreasing"); break;
		case 4: JUDGE(areNonDecreasing(v), pbt::seq(v), " decreases"); break;
		case 5: JUDGE(areNonIncreasing(v), pbt::seq(v), " increases"); break;
		case 6: for (Integer x : v) JUDGE(isPrime(x), x, " is not prime"); break;
		case 7: JUDGE(std::accumulate(v.begin(), v.end(), 0_int) == offset, pbt::seq(v), " is no partition of ", offset); break;
		case 8: { // a permutation with the wanted cycle lengths
			JUDGE(isPerm(v), pbt::seq(v), " is no permutation");
			std::vector<bool> seen(v.size()); Integer cycles = 0;
			for (size_t i = 0; i < v.size(); i++) { if (seen[i]) continue; cycles++; for (size_t j = i; !seen[j]; j = (size_t)v[j]) seen[j] = true; }
			JUDGE(cycles == offset, pbt::seq(v), " has ", cycles, " cycles instead of ", offset);
			break;
		}
		default: break;
	}
}
static Item vectorItem(pbt::Ctx& c) {
	Integer n = c.rarely(1, 12, 300), lo = c.range(-1000, 1000), hi = lo + n + c.rarely(0, 20, 2000), offset = c.range(-20, 20);
	int kind = (int)c.below(11);
	bool wide = c.chance(1, 4); // numbers of any size
	if (wide) { lo = c.i64in(-4000000000000000000, 3000000000000000000); hi = lo + n + c.i64in(0, 5000000000000000000); offset = c.i64in(-4000000000000000000, 4000000000000000000); }
	std::vector<Integer> v, original;
	switch (kind) {
		case 0: v = Random::perm(n, offset); break;
		case 1: v = Random::distinct(n, lo, hi); break;
		case 2: v = Random::increasing(n, lo, hi); break;
		case 3: v = Random::decreasing(n, lo, hi); break;
		case 4: v = Random::nonDecreasing(n, lo, hi); break;
		case 5: v = Random::nonIncreasing(n, lo, hi); break;
		case 6: n = std::min<Integer>(n, 12); for (Integer i = 0; i < n; i++) if (wide) { Integer a = c.i64in(0, INT64_MAX - 200000); v.push_back(Random::prime(a, a + 100000)); } else v.push_back(Random::prime(c.pick<Integer>({0, 100, 1000000}), c.pick<Integer>({1000, 2000, 2000000}) + 1000000)); break;
		case 7: { Integer min = wide ? c.i64in(0, 1000000000000000) : c.range(0, 3), sum = n * min + (wide ? c.i64in(1, 1000000000000000000) : c.range(1, 500)); v = Random::partition(sum, n, min); offset = sum; break; }
		case 8: { Integer k = c.range(1, 5); std::vector<Integer> cyc; for (Integer i = 0; i < k; i++) cyc.push_back(c.range(1, 5)); v = Random::perm(cyc); n = (Integer)v.size(); offset = k; break; }
		case 9: v = original = Random::multiple(n, lo, wide ? hi : lo + std::max<Integer>(1, n)); Random::shuffle(v); break;
		default: v = Random::multiple(n, lo, hi);
	}
	JUDGE((Integer)v.size() == n, "a sequence of ", n, " has ", v.size(), " elements");
	char sep = c.coin() ? SPACE : NEWLINE;
	int how = (int)c.below(3);
	return {"integers", [=](OutputStream& os) {
			if (how == 0 || sep == NEWLINE) os << join(v, sep);
			else if (how == 1) os << v;
			else os << join(v.begin(), v.end());
		},
		[=](pbt::Ctx& c, InputStream& in) {
			auto [a, b] = around(c, v);
			std::vector<Integer> w = sep == SPACE && c.coin() ? in.integers(a, b, n) : in.integers(a, b, n, sep);
			JUDGE(v == w, "printed ", pbt::seq(v), ", read ", pbt::seq(w));
			sequencePromise(c, kind, w, offset);
			if (kind == 9) JUDGE(isPerm(w, original), pbt::seq(w), " is not a permutation of ", pbt::seq(original));
		},
		[=](pbt::Ctx& c, InputStream& in) { auto [a, b] = missing(c, v); (void)in.integers(a, b, n, sep); }};
}
static Item stringsItem(pbt::Ctx& c) {
	Integer n = c.range(1, 8);
	std::vector<std::string> v;
	Integer lo = 100, hi = 0;
	for (Integer i = 0; i < n; i++) { v.push_back(Random::string(c.range(1, 9))); lo = std::min<Integer>(lo, (Integer)v.back().size()); hi = std::max<Integer>(hi, (Integer)v.back().size()); }
	char sep = c.coin() ? SPACE : NEWLINE;
	return {"strings", [=](OutputStream& os) { os << join(v, sep); },
		[=](pbt::Ctx& c, InputStream& in) { auto w = in.strings(lo, hi + 1, n, sep); JUDGE(v == w, "printed ", pbt::seq(v), ", read ", pbt::seq(w)); },
		[=](pbt::Ctx& c, InputStream& in) { if (c.coin()) (void)in.strings(lo + 1, 100, n, sep); else (void)in.strings(0, hi, n, sep); }};
}
static Item nestedItem(pbt::Ctx& c) {
	Integer n = c.range(1, 5), m = c.range(1, 5);
	std::vector<std::vector<Integer>> v;
	for (Integer i = 0; i < n; i++) v.push_back(Random::multiple(m, -100, 100));
	auto flat = flatten(v);
	int how = (int)c.below(3);
	return {"matrix", [=](OutputStream& os) {
			if (how == 0) os << v;
			else if (how == 1) os << join(v, NEWLINE);
			else for (size_t i = 0; i < v.size(); i++) { if (i > 0) os << NEWLINE; os << join(v[i]); }
		},
		[=](pbt::Ctx& c, InputStream& in) {
			for (Integer i = 0; i < n; i++) {
				if (i > 0) readSep(in, how == 0 ? SPACE : NEWLINE);
				auto w = in.integers(-100, 100, m);
				JUDGE(w == v[(size_t)i], "printed row ", pbt::seq(v[(size_t)i]), ", read ", pbt::seq(w));
			}
		}, {}};
}
static Item tupleItem(pbt::Ctx& c) {
	Integer a = c.range(-99, 99), b = c.range(-99, 99); std::string s = Random::string(c.range(1, 5), UPPER);
	int how = (int)c.below(4);
	return {"tuple", [=](OutputStream& os) {
			if (how == 0) os << std::make_tuple(a, s, b);
			else if (how == 1) os << std::make_pair(a, std::make_pair(s, b));
			else if (how == 2) os << join({a, s, b});
			else os << a << SPACE << s << DEFAULT_SEPARATOR << b;
		},
		[=](pbt::Ctx& c, InputStream& in) {
			JUDGE(in.integer(-99, 100) == a, "first element of ", a, ",", s, ",", b); in.space();
			JUDGE(in.string(1, 6) == s, "second element of ", a, ",", s, ",", b); in.space();
			JUDGE(in.integer(-99, 100) == b, "third element of ", a, ",", s, ",", b);
		}, [=](pbt::Ctx&, InputStream& in) { (void)in.integer(-99, 100); in.space(); (void)in.integer(-99, 100); }};
}
static Item pointsItem(pbt::Ctx& c) {
	using P = std::pair<Integer, Integer>;
	std::vector<P> v; Integer dim; bool convex = c.coin();
	bool wide = c.chance(1, 4);
	if (convex) { Integer n = c.range(3, 12); dim = n + (wide ? c.i64in(2, (1 << 28)) : c.range(2, 50)); v = Random::convex(n, dim); }
	else { Integer n = c.range(1, 12); dim = n + (wide ? c.i64in(2, (1 << 28)) : c.range(2, 50)); v = Random::nonCollinearPoints(n, dim); }
	Integer n = (Integer)v.size();
	std::vector<Integer> all; for (auto [x, y] : v) { all.push_back(x); all.push_back(y); }
	return {convex ? "convex" : "points", [=](OutputStream& os) { os << join(v, NEWLINE); },
		[=](pbt::Ctx& c, InputStream& in) {
			std::vector<P> w;
			for (Integer i = 0; i < n; i++) { if (i > 0) in.newline(); Integer x = in.integer(-dim, dim + 1); in.space(); w.emplace_back(x, in.integer(-dim, dim + 1)); }
			JUDGE(v == w, "the points differ");
			if (convex) {
				JUDGE(isConvex(w) && isSimple(w) && isCCW(w), "the convex polygon is convex: ", (bool)isConvex(w), " simple: ", isSimple(w), " ccw: ", isCCW(w));
				std::reverse(w.begin(), w.end());
				JUDGE(!isConvex(w) && isSimple(w) && !isCCW(w), "the reversed polygon is still counter clockwise");
			} else {
				for (size_t i = 0; i < w.size(); i++) for (size_t j = 0; j < i; j++) {
					JUDGE(w[i] != w[j], "the points are not distinct");
					for (size_t k = 0; k < j; k++) JUDGE(cross(w[i], w[j], w[k]) != 0, "three points are collinear");
				}
			}
		},
		[=](pbt::Ctx& c, InputStream& in) {
			auto [a, b] = missing(c, all);
			for (Integer i = 0; i < n; i++) { if (i > 0) in.newline(); (void)in.integer(a, b); in.space(); (void)in.integer(a, b); }
		}};
}
// --- graphs -------------------------------------------------------------------
struct Promise { int tree = -1, forest = -1, connected = -1, bipartite = -1, dag = -1; Integer rooted = -2; std::vector<Integer> degrees; };
template<typename E> static E mkE(Integer x) { if constexpr (std::is_same_v<E, NoData>) return {}; else return E(x); }
template<typename E, bool DIR, typename G> static Item graphItem(G g, Promise p, const char* name) {
	constexpr bool W = !std::is_same_v<E, NoData>;
	using V = std::conditional_t<DIR, ValDiGraph, ValGraph>;
	Integer lo = g.getMinId(), n = g.nodeCount(), m = g.edgeCount();
	auto gen = std::make_shared<G>(std::move(g));
	auto readIt = [=](pbt::Ctx& c, InputStream& in, Integer a, Integer b) -> V {
		JUDGE(in.integer(n, n + 1) == n, "vertices"); in.space();
		JUDGE(in.integer(m, m + 1) == m, "edges");
		V val(lo, lo + n);
		for (Integer i = 0; i < m; i++) {
			in.newline();
			Integer x = in.integer(a, b); in.space();
			Integer y = in.integer(a, b);
			val.addEdge(x, y);
			auto e = std::as_const(*gen).findEdge(x, y);
			JUDGE(e.has_value(), name, ": edge ", x, "-", y, " was read, but not generated");
			if constexpr (W) { in.space(); if (!e) { (void)in.integer(); continue; } Integer w = in.integer(); JUDGE(w == e->data, name, ": data of ", x, "-", y, " is ", e->data, ", read ", w); }
		}
		return val;
	};
	return {name, [=](OutputStream& os) { os << *gen; },
		[=](pbt::Ctx& c, InputStream& in) {
			V val = readIt(c, in, lo, lo + n);
			if (!judging) return;
			JUDGE(val.nodeCount() == n && (Integer)val.size() == n && val.edgeCount() == m, name, ": size");
			JUDGE(!val.hasSelfloop(), name, ": self loop at ", val.hasSelfloop().value_or(-1));
			JUDGE(!val.hasMultiedge(), name, ": multi edge");
			const G& cg = *gen;
			for (Integer v = lo; v < lo + n; v++) {
				std::set<Integer> want; for (const auto& e : cg[v]) want.insert(e.to);
				JUDGE(val[v] == want, name, ": neighbours of ", v, " differ");
				if constexpr (DIR) JUDGE(val.outDegree(v) == cg.degree(v), name, ": degree of ", v, " differs");
				else JUDGE(val.degree(v) == cg.degree(v), name, ": degree of ", v, " differs");
				if (n <= 12) for (Integer w = lo; w < lo + n; w++) JUDGE(val.hasEdge(v, w) == cg.hasEdge(v, w), name, ": hasEdge(", v, ",", w, ") differs");
			}
			if constexpr (!DIR) {
				if (p.connected >= 0) JUDGE(val.isConnected() == (p.connected == 1), name, ": isConnected is ", val.isConnected());
				if (p.tree >= 0) JUDGE(val.isTree() == (p.tree == 1), name, ": isTree is ", val.isTree());
				if (p.forest >= 0) JUDGE(val.isForest() == (p.forest == 1), name, ": isForest is ", val.isForest());
				if (p.bipartite >= 0) JUDGE(val.isBipartite() == (p.bipartite == 1), name, ": isBipartite is ", val.isBipartite());
				for (size_t i = 0; i < p.degrees.size(); i++) JUDGE(val.degree(lo + (Integer)i) == p.degrees[i], name, ": degree of ", i, " is not ", p.degrees[i]);
			} else {
				auto order = val.isDAG();
				if (p.dag >= 0) JUDGE(order.has_value() == (p.dag == 1), name, ": isDAG is ", order.has_value());
				if (order) {
					std::map<Integer, size_t> pos; for (size_t i = 0; i < order->size(); i++) pos[(*order)[i]] = i;
					JUDGE((Integer)pos.size() == n, name, ": the topological order misses vertices");
					for (const auto& e : cg.getEdges()) JUDGE(pos.at(e.from) < pos.at(e.to), name, ": edge ", e.from, "-", e.to, " against the topological order");
				}
				if (p.rooted != -2) {
					auto r = val.isTree();
					JUDGE(r.has_value() == (p.rooted >= 0), name, ": isTree is ", r.has_value());
					if (r) JUDGE(*r == lo + p.rooted, name, ": root is ", *r);
				}
			}
		},
		m == 0 ? std::function<void(pbt::Ctx&, InputStream&)>() : [=](pbt::Ctx& c, InputStream& in) {
			std::vector<Integer> all; for (const auto& e : std::as_const(*gen).getEdges()) { all.push_back(e.from); all.push_back(e.to); }
			auto [a, b] = missing(c, all);
			(void)readIt(c, in, a, b);
		}};
}
template<typename E> static Item anyGraph(pbt::Ctx& c) {
	Integer n = c.chance(1, 40) ? c.rarely(20, 60, 300) : c.range(1, 10), k = c.range(1, 6);
	Graph<E> g; Promise p; const char* name = "";
	auto treeP = [&] { p.tree = p.forest = p.connected = p.bipartite = 1; };
	switch (c.below(18)) {
		case 0: g = randomTree<E>(n); treeP(); name = "randomTree"; break;
		case 1: { Integer m = c.range(0, n * (n - 1) / 2); g = randomGraph<E>(n, m); p.tree = m == n - 1 ? -1 : 0; if (m >= n) p.forest = 0; if (m < n - 1) p.connected = 0; name = "randomGraph"; break; }
		case 2: { Integer m = c.range(0, n * k); g = randomBipartite<E>(n, k, m); p.bipartite = 1; if (m == n * k) p.connected = 1; name = "randomBipartite"; break; }
		case 3: g = clique<E>(n); p.connected = 1; p.forest = p.tree = p.bipartite = n <= 2; name = "clique"; break;
		case 4: g = bipartite<E>(n, k); p.connected = p.bipartite = 1; p.tree = p.forest = n == 1 || k == 1; name = "bipartite"; break;
		case 5: g = path<E>(n); treeP(); name = "path"; break;
		case 6: n += 2; g = cycle<E>(n); p.connected = 1; p.tree = p.forest = 0; p.bipartite = n % 2 == 0; name = "cycle"; break;
		case 7: g = star<E>(n); treeP(); name = "star"; break;
		case 8: n += 2; g = wheel<E>(n); p.connected = 1; p.tree = p.forest = p.bipartite = 0; name = "wheel"; break;
		case 9: g = grid<E>(n > 10 ? 5 : n, k); p.connected = p.bipartite = 1; p.tree = p.forest = std::min(n > 10 ? 5 : n, k) == 1; name = "grid"; break;
		case 10: { Integer d = c.range(1, 5); g = hypercube<E>(d); p.connected = p.bipartite = 1; p.tree = p.forest = d == 1; name = "hypercube"; break; }
		case 11: g = completeTree<E>(c.range(2, 4), c.range(1, 3)); treeP(); name = "completeTree"; break;
		case 12: g = broom<E>(k, n); treeP(); name = "broom"; break;
		case 13: n = std::min<Integer>(n, 12) + 3; g = lolly<E>(k, n); p.connected = 1; p.bipartite = p.tree = p.forest = 0; name = "lolly"; break;
		case 14: { std::vector<Integer> code; for (Integer i = 0; i + 2 < n; i++) code.push_back(c.range(0, n - 1)); g = pruefer<E>(code); n = std::max<Integer>(n, 2); treeP(); p.degrees.assign((size_t)n, 1); for (Integer x : code) p.degrees[(size_t)x]++; name = "pruefer"; break; }
		case 15: { auto h = randomGraph<NoData>(n, c.range(0, n * (n - 1) / 2)); std::vector<Integer> d; for (Integer v = 0; v < n; v++) d.push_back(h.degree(v)); g = randomGraph<E>(d); p.degrees = d; name = "randomGraph(degrees)"; break; }
		case 16: g = independent<E>(n); p.forest = 1; p.bipartite = 1; p.connected = p.tree = n == 1; name = "independent"; break;
		default: { Integer d = c.range(1, 4); g = booleanLattice<E>(d); p.connected = p.bipartite = 1; name = "booleanLattice"; }
	}
	if constexpr (!std::is_same_v<E, NoData>) for (auto e : g.getEdges()) e.data = (Integer)c.range(-1000, 1000);
	bool same = true; // the vertices still have their places (degrees)
	// operations which keep the promise
	for (Integer i = c.small(0, 3); i > 0; i--) {
		switch (c.below(5)) {
			case 0: g.setMinId(c.pick<Integer>({1, 1, 2, -3, 1000, 1000000000})); break;
			case 1: g.permutateEdges(); break;
			case 2: g.permutate(); same = false; break;
			case 3: { Graph<E> h = g; g = h; break; }
			default: { // another component which is a tree
				if (p.tree < 0 && p.connected < 0) break;
				if (p.degrees.size()) break;
				g.append(randomTree<E>(c.range(1, 4)));
				p.tree = p.connected = 0;
			}
		}
	}
	if (!same) p.degrees.clear();
	// a directed graph out of it
	if (c.chance(1, 3)) {
		Integer m = g.edgeCount();
		Promise q;
		DiGraph<E> d;
		if (c.coin()) { d = g.directed(); q.dag = m == 0; q.rooted = g.nodeCount() == 1 ? 0 : -1; name = "directed"; }
		else { d = g.directed([](Integer a, Integer b) { return a < b; }); q.dag = 1; name = "directed by order"; }
		if (q.dag == 1 && c.coin()) d.permutate();
		if (c.coin()) { d.reverse(); }
		return graphItem<E, true>(std::move(d), q, name);
	}
	return graphItem<E, false>(std::move(g), p, name);
}
template<typename E> static Item anyDiGraph(pbt::Ctx& c) {
	Integer n = c.chance(1, 40) ? c.rarely(20, 60, 300) : c.range(1, 10), k = c.range(1, 5);
	DiGraph<E> g; Promise p; const char* name = "";
	switch (c.below(9)) {
		case 0: g = randomTree<E, true>(n); p.dag = 1; p.rooted = 0; name = "directed randomTree"; break;
		case 1: { Integer m = c.range(0, n * (n - 1)); g = randomGraph<E, true>(n, m); if (m != n - 1) p.rooted = -1; name = "directed randomGraph"; break; }
		case 2: g = clique<E, true>(n); p.dag = 1; p.rooted = n <= 2 ? 0 : -1; name = "directed clique"; break;
		case 3: g = path<E, true>(n); p.dag = 1; p.rooted = 0; name = "directed path"; break;
		case 4: n = std::max<Integer>(n, 2) + 1; g = cycle<E, true>(n); p.dag = 0; p.rooted = -1; name = "directed cycle"; break;
		case 5: g = star<E, true>(n); p.dag = 1; p.rooted = 0; name = "directed star"; break;
		case 6: g = completeTree<E, true>(c.range(2, 4), c.range(1, 3)); p.dag = 1; p.rooted = 0; name = "directed completeTree"; break;
		case 7: g = bipartite<E, true>(n, k); p.dag = 1; p.rooted = n == 1 ? 0 : k == 1 && n > 1 ? -1 : -1; name = "directed bipartite"; break;
		default: g = rado<E, true>(n); p.dag = 1; name = "directed rado";
	}
	if constexpr (!std::is_same_v<E, NoData>) for (auto e : g.getEdges()) e.data = (Integer)c.range(-1000, 1000);
	for (Integer i = c.small(0, 3); i > 0; i--) {
		switch (c.below(5)) {
			case 0: g.setMinId(c.pick<Integer>({1, 1, 2, -3, 1000})); break;
			case 1: g.permutateEdges(); break;
			case 2: { Integer shift = c.range(0, g.nodeCount() - 1); std::vector<Integer> q; for (Integer v = 0; v < g.nodeCount(); v++) q.push_back(g.getMinId() + (v + shift) % g.nodeCount()); g.permutate(q); if (p.rooted >= 0) p.rooted = (p.rooted + shift) % g.nodeCount(); break; }
			case 3: if (g.nodeCount() > 1) { Integer r = p.rooted; p.rooted = r >= 0 && g.nodeCount() == 2 ? 1 - r : -2; } g.reverse(); break;
			default: { Graph<E> u = g.undirected(); Promise q; if (p.rooted >= 0) q.tree = q.connected = q.forest = q.bipartite = 1; return graphItem<E, false>(std::move(u), q, "undirected"); }
		}
	}
	return graphItem<E, true>(std::move(g), p, name);
}
static Item graphOf(pbt::Ctx& c) {
	switch (c.below(4)) {
		case 0: return anyGraph<NoData>(c);
		case 1: return anyGraph<Integer>(c);
		case 2: return anyDiGraph<NoData>(c);
		default: return anyDiGraph<Integer>(c);
	}
}
static Item anyItem(pbt::Ctx& c) {
	switch (c.below(11)) {
		case 0: return integerItem(c);
		case 1: return realItem(c);
		case 2: return stringItem(c);
		case 3: return bracketItem(c);
		case 4: case 5: return vectorItem(c);
		case 6: return stringsItem(c);
		case 7: return nestedItem(c);
		case 8: return tupleItem(c);
		case 9: return pointsItem(c);
		default: return graphOf(c);
	}
}
struct Script { std::vector<Item> items; std::vector<char> seps; std::string doc; };
static Script script(pbt::Ctx& c, size_t count, bool graphs) {
	Script s;
	Random::seed(c.bits());
	for (size_t i = 0; i < count; i++) { s.items.push_back(graphs ? graphOf(c) : anyItem(c)); s.seps.push_back(c.coin() ? SPACE : NEWLINE); c.label(s.items.back().what); }
	s.seps.back() = NEWLINE;
	std::ostringstream text;
	{
		OutputStream os(text);
		for (size_t i = 0; i < count; i++) {
			s.items[i].print(os);
			if (s.seps[i] == SPACE) os << SPACE;
			else switch (c.below(3)) { case 0: os << NEWLINE; break; case 1: os << std::endl; break; default: os << "\n"; }
		}
	}
	s.doc = text.str();
	PBT_NOTE << "document " << pbt::quote(s.doc) << "\n";
	return s;
}
// reads the document; bad: the item which is read with bounds that exclude it. Returns the number of items read
static size_t readAll(pbt::Ctx& c, const Script& s, const std::string& doc, size_t bad, Outcome& o, std::string& msg) {
	std::istringstream text(doc); std::ostringstream err; OutputStream out(err);
	size_t done = 0;
	o = outcome([&] {
		InputStream in(text, true, true, out, Verdicts::WA);
		for (size_t i = 0; i < s.items.size(); i++) {
			(i == bad ? s.items[i].misread : s.items[i].read)(c, in);
			done = i + 1;
			readSep(in, s.seps[i]);
		}
		in.eof();
	});
	msg = err.str();
	return done;
}
static void roundTrip(pbt::Ctx& c, const Script& s) {
	Outcome o; std::string msg;
	readAll(c, s, s.doc, (size_t)-1, o, msg);
	PBT_CHECK(o.end == End::Value && msg.empty(), "the printed document is not accepted: ", msg, o.what, " ", pbt::quote(s.doc.substr(0, 300)));
	size_t bad = c.below(s.items.size());
	if (s.items[bad].misread) {
		size_t done = readAll(c, s, s.doc, bad, o, msg);
		PBT_CHECK(o.end == End::Exit && o.code == H_CODE(43) && done == bad, s.items[bad].what, " is accepted with bounds that exclude it, items read: ", done, " of ", s.items.size(), " ", msg, o.what);
	}
	// any change of the white space, and a number with another form, is refused
	std::string d = s.doc;
	static const std::string white = " \n\t\r\v\f";
	auto isWhite = [](char x) { return white.find(x) != std::string::npos; };
	std::vector<size_t> places, starts;
	for (size_t i = 0; i < d.size(); i++) { if (isWhite(d[i])) places.push_back(i); else if (i == 0 || isWhite(d[i - 1])) starts.push_back(i); }
	size_t at = c.pickFrom(places), st = c.pickFrom(starts);
	const char* how = ""; bool token = false;
	switch (c.below(7)) {
		case 0: d.erase(at, 1); how = "without a separator"; break;
		case 1: d.insert(at, 1, d[at]); how = "with a doubled separator"; break;
		case 2: { char x = c.pickFrom(white); if (x == d[at]) x = white[(white.find(x) + 1) % white.size()]; d[at] = x; how = "with another separator"; break; }
		case 3: d.insert(c.below(d.size() + 1), 1, c.pickFrom(white)); how = "with white space inserted"; break;
		case 4: d.insert(st, 1, c.pick<char>({'0', '+'})); how = "with a changed token"; token = true; break;
		case 5: d.resize(d.size() - 1 - c.below(std::min<size_t>(d.size(), 4))); how = "cut off"; break;
		default: d += c.pick<char>({'x', '0', '\0', '\n', '\x1a'}); how = "with something appended";
	}
	judging = false; differs = false;
	readAll(c, s, d, (size_t)-1, o, msg);
	judging = true;
	if (o.end == End::Value && token && differs) return; // it is just another string
	PBT_CHECK(o.end == End::Exit && o.code == H_CODE(43), "a document ", how, " is accepted: ", pbt::quote(d.substr(0, 300)), " instead of ", pbt::quote(s.doc.substr(0, 300)), o.what);
}
PBT_PROP(documents, 40000, 800000) {
	Script s = script(c, (size_t)c.range(1, 6), false);
	if (s.items.size() > 1) c.nontrivial();
	roundTrip(c, s);
}
PBT_PROP(graphFiles, 30000, 600000) {
	Script s = script(c, c.chance(1, 5) ? 2 : 1, true);
	if (s.doc.size() > 12) c.nontrivial();
	roundTrip(c, s);
}
