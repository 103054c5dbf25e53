// C21 graph objects, C22 graph operations, C23 named families, C24 random graphs,
// C18G uniform random trees  (graph_gen.h)
#include "vh.h"
#include "graph_gen.h"
#include "stat.h"
// only the public names: Graph<E> and DiGraph<E>
template<typename E, bool DIR> using GraphType = std::conditional_t<DIR, DiGraph<E>, Graph<E>>;
using VP = std::pair<Integer, Integer>;

// --- reference: a map from vertex pairs to data ------------------------------
template<typename E> struct DataOf { using T = E; static T get(const E& e) { return e; } };
template<> struct DataOf<NoData> { using T = int; static int get(const NoData&) { return 0; } };
template<typename E, bool DIR> struct Model {
	using D = typename DataOf<E>::T;
	Integer lo = 0, n = 0;
	std::map<VP, D> m;
	VP key(Integer a, Integer b) const { return DIR || a < b ? VP(a, b) : VP(b, a); }
	bool has(Integer a, Integer b) const { return m.count(key(a, b)) > 0; }
	void add(Integer a, Integer b, D d = D{}) { m[key(a, b)] = d; }
	bool operator==(const Model& o) const { return lo == o.lo && n == o.n && m == o.m; }
	Integer up() const { return lo + n; }
	std::string show() const {
		std::ostringstream s; s << (DIR ? "digraph" : "graph") << " [" << lo << "," << up() << "):";
		for (auto& [k, d] : m) s << " " << k.first << "-" << k.second << ":" << d;
		return s.str();
	}
};
template<typename E> static E mk(Integer x) {
	if constexpr (std::is_same_v<E, NoData>) return {};
	else if constexpr (std::is_same_v<E, std::string>) return x == 0 ? std::string() : std::to_string(x);
	else return E(x);
}
template<typename E> static typename DataOf<E>::T mkD(Integer x) { return DataOf<E>::get(mk<E>(x)); }
template<typename W> static auto dataOf(const W& e) {
	if constexpr (requires { e.data; }) return e.data; else return 0;
}
template<typename E, bool DIR> static Model<E, DIR> modelFrom(const GraphType<E, DIR>& g) {
	Model<E, DIR> m; m.lo = g.getMinId(); m.n = g.nodeCount();
	for (const auto& e : g.getEdges()) m.add(e.from, e.to, dataOf(e));
	return m;
}
template<typename E> static auto modelOf(const Graph<E>& g) { return modelFrom<E, false>(g); }
template<typename E> static auto modelOf(const DiGraph<E>& g) { return modelFrom<E, true>(g); }
// everything observable agrees with the model
template<typename E, bool DIR> static void agree(pbt::Ctx& c, std::type_identity_t<GraphType<E, DIR>>& g, const Model<E, DIR>& m, const char* when) {
	using D = typename DataOf<E>::T;
	const auto& cg = g;
	PBT_CHECK(g.getMinId() == m.lo && g.nodeCount() == m.n && g.size() == (size_t)m.n && g.getNextId() == m.up(), when, ": vertices are [", g.getMinId(), ",", g.getNextId(), ") (", g.nodeCount(), ") instead of [", m.lo, ",", m.up(), ")");
	PBT_CHECK(g.edgeCount() == (Integer)m.m.size(), when, ": edgeCount is ", g.edgeCount(), ", expected ", m.show());
	std::map<VP, D> seen;
	std::vector<VP> order;
	for (const auto& e : cg.getEdges()) {
		PBT_CHECK(m.has(e.from, e.to), when, ": getEdges has ", e.from, "-", e.to, ", expected ", m.show());
		PBT_CHECK(seen.emplace(m.key(e.from, e.to), dataOf(e)).second, when, ": getEdges has ", e.from, "-", e.to, " twice");
		order.emplace_back(e.from, e.to);
	}
	PBT_CHECK(seen == m.m, when, ": edges or data differ, expected ", m.show());
	seen.clear();
	for (auto e : g.getEdges()) seen.emplace(m.key(e.from, e.to), dataOf(e));
	PBT_CHECK(seen == m.m, when, ": not const getEdges differs");
	seen.clear();
	for (size_t i = 0; i < m.m.size(); i++) {
		auto e = cg.getEdgeById(i); auto f = g.getEdgeById(i);
		PBT_CHECK(e.from == f.from && e.to == f.to && dataOf(e) == dataOf(f), when, ": getEdgeById differs by constness");
		PBT_CHECK(seen.emplace(m.key(e.from, e.to), dataOf(e)).second, when, ": getEdgeById gives an edge twice");
	}
	PBT_CHECK(seen == m.m, when, ": edges by id differ");
	auto o = outcome([&] { (void)cg.getEdgeById(m.m.size() + c.below(3)); });
	PBT_CHECK(o.end == End::Exception, when, ": getEdgeById out of range is not refused");
	std::vector<size_t> degs;
	for (auto d : cg.getDegrees()) degs.push_back((size_t)d);
	PBT_CHECK((Integer)degs.size() == m.n, when, ": getDegrees has ", degs.size(), " entries");
	if (m.n > 150) { // only the pairs with an edge and some others
		std::vector<size_t> deg((size_t)m.n, 0);
		for (auto& [k, d] : m.m) {
			deg[(size_t)(k.first - m.lo)]++; if (!DIR) deg[(size_t)(k.second - m.lo)]++;
			auto f = g.findEdge(k.first, k.second);
			PBT_CHECK(cg.hasEdge(k.first, k.second) && f && f->from == k.first && f->to == k.second && dataOf(*f) == d, when, ": edge ", k.first, "-", k.second, " is not found");
			PBT_CHECK(g.hasEdge(k.second, k.first) == m.has(k.second, k.first), when, ": hasEdge(", k.second, ",", k.first, ")");
		}
		for (int i = 0; i < 200; i++) {
			Integer a = m.lo + (Integer)(((uint64_t)i * 2654435761u + 12345) % (uint64_t)m.n), b = m.lo + (Integer)(((uint64_t)i * 40503u + 977) % (uint64_t)m.n);
			PBT_CHECK(g.hasEdge(a, b) == (a != b && m.has(a, b)), when, ": hasEdge(", a, ",", b, ")");
		}
		PBT_CHECK(degs == deg, when, ": degrees differ");
		size_t total = 0;
		for (Integer v = m.lo; v < m.up(); v++) {
			PBT_CHECK(g.degree(v) == (Integer)deg[(size_t)(v - m.lo)], when, ": degree of ", v, " is ", g.degree(v));
			for (const auto& e : cg[v]) {
				PBT_CHECK(e.from == v && m.has(v, e.to) && m.m.at(m.key(v, e.to)) == dataOf(e), when, ": edge ", e.from, "-", e.to, " at ", v);
				total++;
			}
			if (deg[(size_t)(v - m.lo)] < 2000) { std::set<Integer> all; for (const auto& e : cg[v]) all.insert(e.to); PBT_CHECK(all.size() == deg[(size_t)(v - m.lo)], when, ": an edge twice at ", v); }
		}
		PBT_CHECK(total == (DIR ? 1 : 2) * m.m.size(), when, ": ", total, " edges at all vertices");
		std::ostringstream text, want;
		text << cg;
		want << m.n << " " << m.m.size();
		for (auto [a, b] : order) { want << "\n" << a << " " << b; if constexpr (!std::is_same_v<E, NoData>) want << " " << m.m.at(m.key(a, b)); }
		PBT_CHECK(text.str() == want.str(), when, ": prints something else");
		return;
	}
	for (Integer v = m.lo; v < m.up(); v++) {
		std::map<Integer, D> want, got, got2;
		for (Integer w = m.lo; w < m.up(); w++) {
			bool h = v != w && m.has(v, w);
			PBT_CHECK(g.hasEdge(v, w) == h, when, ": hasEdge(", v, ",", w, ") is ", !h, ", expected ", m.show());
			auto f = g.findEdge(v, w); auto cf = cg.findEdge(v, w);
			PBT_CHECK(f.has_value() == h && cf.has_value() == h, when, ": findEdge(", v, ",", w, ") ", h ? "finds nothing" : "finds something", ", expected ", m.show());
			if (h) {
				D d = m.m.at(m.key(v, w));
				want[w] = d;
				PBT_CHECK(f->from == v && f->to == w && dataOf(*f) == d, when, ": findEdge(", v, ",", w, ") gives another edge");
				PBT_CHECK(cf->from == v && cf->to == w && dataOf(*cf) == d, when, ": const findEdge(", v, ",", w, ") gives another edge");
			}
		}
		size_t cnt = 0;
		for (const auto& e : cg[v]) { PBT_CHECK(e.from == v, when, ": edge at ", v, " starts at ", e.from); got[e.to] = dataOf(e); cnt++; }
		for (auto e : g[v]) { PBT_CHECK(e.from == v, when, ": edge at ", v, " starts at ", e.from); got2[e.to] = dataOf(e); }
		PBT_CHECK(got == want && got2 == want && cnt == want.size(), when, ": edges at ", v, " differ, expected ", m.show());
		PBT_CHECK(g.degree(v) == (Integer)want.size() && degs[(size_t)(v - m.lo)] == want.size(), when, ": degree of ", v, " is ", g.degree(v));
	}
	std::ostringstream text, want;
	text << cg;
	want << m.n << " " << m.m.size();
	for (auto [a, b] : order) { want << "\n" << a << " " << b; if constexpr (!std::is_same_v<E, NoData>) want << " " << m.m.at(m.key(a, b)); }
	PBT_CHECK(text.str() == want.str(), when, ": prints ", pbt::quote(text.str()), " instead of ", pbt::quote(want.str()));
	std::ostringstream text2; { OutputStream os(text2); os << cg; }
	PBT_CHECK(text2.str() == want.str(), when, ": prints ", pbt::quote(text2.str()), " to an OutputStream instead of ", pbt::quote(want.str()));
}
static Integer genLo(pbt::Ctx& c) {
	if (c.chance(3, 8)) return 0;
	if (c.coin()) return c.range(-9, 9);
	if (c.coin()) return c.pick<Integer>({1000000000000, -1000000000000, 1, -1});
	Integer b = (Integer)1 << c.range(3, 40); // around powers of two and their multiples
	if (c.coin()) b *= c.range(1, 5);
	return (c.coin() ? b : -b) + (c.coin() ? 0 : c.range(-9, 9));
}
template<typename E, bool DIR> struct Gen { GraphType<E, DIR> g; Model<E, DIR> m; };
template<typename E, bool DIR> static Gen<E, DIR> genGraph(pbt::Ctx& c, Integer maxN, bool unique = false, Integer minN = 0) {
	Integer n = c.range(minN, maxN), lo = genLo(c);
	Gen<E, DIR> r{GraphType<E, DIR>(lo, lo + n), {}};
	r.m.lo = lo; r.m.n = n;
	Integer k = n < 2 ? 0 : c.coin() ? c.range(0, 2 * n) : c.range(0, n * (n - 1));
	Integer id = 1;
	for (; k > 0; k--) {
		Integer a = lo + c.range(0, n - 1), b = lo + c.range(0, n - 1);
		if (a == b) continue;
		if (unique && r.m.has(a, b)) continue;
		Integer d = unique ? id++ : c.range(0, 9);
		r.g.addEdge(a, b, mk<E>(d)); r.m.add(a, b, mkD<E>(d));
	}
	return r;
}
template<typename E, bool DIR> static void same(pbt::Ctx& c, const char* what, std::type_identity_t<GraphType<E, DIR>> g, const Model<E, DIR>& want) {
	agree(c, g, want, what);
}
template<typename F> static void anyGraphType(pbt::Ctx& c, F&& f) {
	switch (c.below(6)) {
		case 0: f.template operator()<NoData, false>(); break;
		case 1: f.template operator()<NoData, true>(); break;
		case 2: f.template operator()<Integer, false>(); break;
		case 3: f.template operator()<Integer, true>(); break;
		case 4: f.template operator()<std::string, false>(); break;
		default: f.template operator()<std::string, true>();
	}
}

#ifdef P_C21
template<typename E, bool DIR> static void history(pbt::Ctx& c) {
	Integer n = c.chance(1, 40) ? c.range(8, 70) : c.range(0, 7), lo = 0;
	GraphType<E, DIR> g = [&] { if (c.coin()) return GraphType<E, DIR>(n); lo = genLo(c); return GraphType<E, DIR>(lo, lo + n); }();
	Model<E, DIR> m; m.lo = lo; m.n = n;
	PBT_NOTE << m.show() << "\n";
	agree(c, g, m, "new graph");
	size_t steps = (size_t)c.rarely(1, 40, 600);
	bool erased = false, late = false;
	for (size_t s = 0; s < steps; s++) {
		Integer a = m.lo + c.range(0, std::max<Integer>(0, n - 1)), b = m.lo + c.range(0, std::max<Integer>(0, n - 1));
		VP ex{a, b};
		if (!m.m.empty() && c.coin()) { auto it = m.m.begin(); std::advance(it, (long)c.below(m.m.size())); ex = it->first; if (!DIR && c.coin()) std::swap(ex.first, ex.second); }
		Integer val = c.range(0, 9);
		const char* what = "";
		switch (n == 0 ? 8 + c.below(5) : c.below(14)) {
			case 0: case 1: case 2: case 3: {
				what = "addEdge";
				if (c.chance(1, 5)) { a = ex.first; b = ex.second; }
				PBT_NOTE << "add " << a << " " << b << " " << val << "\n";
				if (a == b) {
					auto o = outcome([&] { g.addEdge(a, b); });
					PBT_CHECK(o.end == End::Exception, "a self loop is not refused");
				} else if (c.coin()) { auto e = g.addEdge(a, b, mk<E>(val)); m.add(a, b, mkD<E>(val)); PBT_CHECK(e.from == a && e.to == b && dataOf(e) == mkD<E>(val), "addEdge returns another edge"); late |= erased; }
				else { auto e = g.addEdge(a, b); m.add(a, b); PBT_CHECK(e.from == a && e.to == b && dataOf(e) == mkD<E>(0), "addEdge returns another edge"); late |= erased; }
				break;
			}
			case 4: case 5: case 6: {
				what = "eraseEdge";
				PBT_NOTE << "erase " << ex.first << " " << ex.second << "\n";
				bool had = ex.first != ex.second && m.m.erase(m.key(ex.first, ex.second)) > 0, got;
				if (had && c.coin()) { auto e = g.findEdge(ex.first, ex.second); PBT_CHECK(e.has_value(), "findEdge"); got = g.eraseEdge(*e); }
				else got = g.eraseEdge(ex.first, ex.second);
				PBT_CHECK(got == had, "eraseEdge(", ex.first, ",", ex.second, ") returned ", got);
				erased |= had;
				break;
			}
			case 7: case 8: {
				what = "write through an edge";
				if constexpr (!std::is_same_v<E, NoData>) if (!m.m.empty() && m.has(ex.first, ex.second)) {
					auto& d = m.m[m.key(ex.first, ex.second)];
					PBT_NOTE << "write " << ex.first << " " << ex.second << " " << val << "\n";
					switch (c.below(5)) {
						case 0: { auto e = g.findEdge(ex.first, ex.second); PBT_CHECK(e.has_value(), "findEdge"); if (c.coin()) e->data = mk<E>(val); else **e = mk<E>(val); d = mkD<E>(val); break; }
						case 1: { auto e = g.addEdge(ex.first, ex.second, mk<E>(val)); e.data = mk<E>(val + 1); d = mkD<E>(val + 1); break; }
						case 2: for (auto e : g[ex.first]) if (e.to == ex.second) *e = mk<E>(val); d = mkD<E>(val); break;
						case 3: { size_t id = c.below(m.m.size()); auto e = g.getEdgeById(id); e.data = mk<E>(val); m.m[m.key(e.from, e.to)] = mkD<E>(val); break; }
						default: for (auto e : g.getEdges()) e.data = mk<E>(val); for (auto& [k, x] : m.m) x = mkD<E>(val);
					}
				}
				break;
			}
			case 9: { what = "setMinId"; Integer x = genLo(c); PBT_NOTE << "setMinId " << x << "\n"; auto& r = g.setMinId(x); PBT_CHECK(&r == &g, "setMinId returns another graph"); std::map<VP, typename DataOf<E>::T> t; for (auto& [k, d] : m.m) t[{k.first - m.lo + x, k.second - m.lo + x}] = d; m.m = t; m.lo = x; break; }
			case 10: { what = "normalize"; PBT_NOTE << "normalize\n"; auto& r = g.normalize(); PBT_CHECK(&r == &g, "normalize returns another graph"); std::map<VP, typename DataOf<E>::T> t; for (auto& [k, d] : m.m) t[{k.first - m.lo, k.second - m.lo}] = d; m.m = t; m.lo = 0; break; }
			case 11: { // copies are independent
				what = "copy";
				PBT_NOTE << "copy\n";
				GraphType<E, DIR> h = c.coin() ? GraphType<E, DIR>(g) : g.copy();
				auto mh = m;
				agree(c, h, mh, "copy");
				if (n >= 2) { if (!m.m.empty()) { auto k = m.m.begin()->first; h.eraseEdge(k.first, k.second); mh.m.erase(m.key(k.first, k.second)); } h.addEdge(m.lo, m.lo + 1, mk<E>(7)); mh.add(m.lo, m.lo + 1, mkD<E>(7)); }
				agree(c, h, mh, "changed copy");
				if (c.coin()) { g = h; m = mh; what = "assignment"; h.setMinId(5); } // h dies afterwards
				break;
			}
			case 12: if (c.chance(2, 3)) { // over another graph, of another size and numbering
				what = "assignment over another graph";
				Integer on = c.range(0, 9), ol = genLo(c);
				PBT_NOTE << "assignment over another graph on " << ol << "+" << on << "\n";
				GraphType<E, DIR> h(ol, ol + on);
				for (auto k = on < 2 ? 0 : c.range(0, 6); k > 0; k--) { Integer x = c.range(0, on - 1), y = c.range(0, on - 1); if (x != y) h.addEdge(ol + x, ol + y, mk<E>(1)); }
				auto& r = h = g;
				PBT_CHECK(&r == &h, "assignment gives another graph");
				agree(c, h, m, "assigned graph");
				if (c.coin()) { if (n >= 2) h.addEdge(m.lo, m.lo + 1, mk<E>(3)); h.setMinId(m.lo + 1); agree(c, g, m, "graph after its copy changed"); }
				else g = c.coin() ? std::move(h) : h;
				break;
			} else { what = "self assignment"; PBT_NOTE << "self assignment\n"; auto& r = g; g = r; break; }
			default: { // out of range
				what = "refused call";
				Integer bad = c.coin() ? m.lo - 1 - (Integer)c.below(3) : m.up() + (Integer)c.below(3);
				PBT_NOTE << "out of range " << bad << "\n";
				auto o = outcome([&] {
					switch (c.below(8)) {
						case 0: g.addEdge(bad, a); break; case 1: g.addEdge(a, bad); break;
						case 2: (void)g.hasEdge(bad, a); break; case 3: (void)g.findEdge(a, bad); break;
						case 4: (void)g.degree(bad); break; case 5: (void)g[bad]; break;
						case 6: g.eraseEdge(bad, a); break; default: g.eraseEdge(a, bad);
					}
				});
				PBT_CHECK(o.end == End::Exception, "vertex ", bad, " is not refused");
			}
		}
		agree(c, g, m, what);
	}
	if (late) c.nontrivial();
}
PBT_PROP(histories, 60000, 1200000) { anyGraphType(c, [&]<typename E, bool DIR>() { history<E, DIR>(c); }); }
PBT_PROP(largeHistories, 1500, 40000) { // more vertices and edges, checked at the end
	anyGraphType(c, [&]<typename E, bool DIR>() {
		Integer n = c.range(10, 40), lo = genLo(c);
		GraphType<E, DIR> g(lo, lo + n); Model<E, DIR> m; m.lo = lo; m.n = n;
		for (auto k = c.range(50, 400); k > 0; k--) {
			Integer a = lo + c.range(0, n - 1), b = lo + c.range(0, n - 1);
			if (a == b) continue;
			if (c.chance(2, 5)) { bool had = m.m.erase(m.key(a, b)) > 0; PBT_CHECK(g.eraseEdge(a, b) == had, "eraseEdge(", a, ",", b, ")"); }
			else { Integer d = c.range(0, 99); g.addEdge(a, b, mk<E>(d)); m.add(a, b, mkD<E>(d)); }
			if (c.chance(1, 30)) { Integer x = genLo(c); g.setMinId(x); std::map<VP, typename DataOf<E>::T> t; for (auto& [q, d] : m.m) t[{q.first - lo + x, q.second - lo + x}] = d; m.m = t; m.lo = lo = x; }
		}
		c.nontrivial();
		PBT_NOTE << m.show();
		agree(c, g, m, "after the history");
	});
}
// edges with data of any printable type: the printed form is that of their parts
static std::string txt(Integer v) { return std::to_string(v); }
static std::string txt(Real v) { char b[600]; snprintf(b, sizeof b, "%.6Lf", v); return b; }
static std::string txt(const std::string& v) { return v; }
template<typename A, typename B> static std::string txt(const std::pair<A, B>& v) { return txt(v.first) + " " + txt(v.second); }
template<typename T> static std::string txt(const std::vector<T>& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : " ") + txt(x); return r; }
template<typename T> static T genData(pbt::Ctx& c) {
	if constexpr (std::is_same_v<T, Integer>) return c.i64();
	else if constexpr (std::is_same_v<T, Real>) return (Real)c.range(-1000000, 1000000) / 64;
	else if constexpr (std::is_same_v<T, std::string>) return std::string((size_t)c.range(1, 5), (char)c.range('a', 'z'));
	else if constexpr (std::is_same_v<T, std::vector<Integer>>) { T r; for (auto k = c.range(1, 4); k > 0; k--) r.push_back(c.range(-9, 9)); return r; }
	else { T r; r.first = genData<decltype(r.first)>(c); r.second = genData<decltype(r.second)>(c); return r; }
}
template<typename T, bool DIR> static void printed(pbt::Ctx& c) {
	Integer n = c.range(0, 6), lo = genLo(c);
	GraphType<T, DIR> g(lo, lo + n);
	std::map<VP, T> m;
	for (auto k = n < 2 ? 0 : c.range(0, 12); k > 0; k--) {
		Integer a = lo + c.range(0, n - 1), b = lo + c.range(0, n - 1);
		if (a == b) continue;
		T d = genData<T>(c);
		if (c.coin()) g.addEdge(a, b, d); else g.addEdge(a, b, T(d));
		if (!DIR && a > b) std::swap(a, b);
		m[{a, b}] = d;
	}
	if (m.size() > 1) c.nontrivial();
	std::string want = txt(n) + " " + txt((Integer)m.size());
	std::ostringstream os, one;
	OutputStream out(os), out1(one);
	out << std::as_const(g);
	size_t cnt = 0;
	for (const auto& e : std::as_const(g).getEdges()) {
		VP k{e.from, e.to}; if (!DIR && k.first > k.second) std::swap(k.first, k.second);
		PBT_CHECK(m.count(k), "edge ", e.from, " ", e.to, " was never added");
		std::string t = txt(e.from) + " " + txt(e.to) + " " + txt(m.at(k));
		one.str(""); out1 << e;
		PBT_CHECK(one.str() == t, "edge is printed as ", pbt::quote(one.str()), " instead of ", pbt::quote(t));
		want += "\n" + t; cnt++;
	}
	PBT_NOTE << pbt::quote(want);
	PBT_CHECK(cnt == m.size(), "number of edges");
	PBT_CHECK(os.str() == want, "graph is printed as ", pbt::quote(os.str()), " instead of ", pbt::quote(want));
}
PBT_PROP(printing, 8000, 200000) {
	switch (c.below(8)) {
		case 0: printed<Integer, false>(c); break;
		case 1: printed<Real, false>(c); break;
		case 2: printed<std::pair<Integer, Integer>, false>(c); break;
		case 3: printed<std::vector<Integer>, true>(c); break;
		case 4: printed<std::pair<std::string, Real>, true>(c); break;
		case 5: printed<Real, true>(c); break;
		case 6: printed<std::vector<Integer>, false>(c); break;
		default: printed<std::string, true>(c);
	}
}
#endif

#ifdef P_C22
template<typename E, bool DIR> static void ops(pbt::Ctx& c, Integer maxG = 7, Integer maxH = 5) {
	using M = Model<E, DIR>;
	auto [g, m] = genGraph<E, DIR>(c, maxG);
	auto [h, mh] = genGraph<E, DIR>(c, maxH);
	if (c.coin() && mh.n > 0) { // make overlapping numberings common
		Integer x = m.lo + c.range(-3, 8); h.setMinId(x); decltype(mh.m) t; for (auto& [q, d] : mh.m) t[{q.first - mh.lo + x, q.second - mh.lo + x}] = d; mh.m = t; mh.lo = x;
	}
	PBT_NOTE << m.show() << " / " << mh.show() << " : ";
	if (m.m.size() > 1) c.nontrivial();
	auto unchanged = [&](const char* what) { agree(c, g, m, what); agree(c, h, mh, what); };
	auto pairs = [&](const M& x, auto&& f) { for (auto& [k, d] : x.m) { f(k.first, k.second, d); } };
	(void)pairs;
	switch (c.below(17)) {
		case 0: { // combine
			if (m.n == 0 || mh.n == 0) break;
			if (std::abs(m.lo - mh.lo) > 100) break;
			PBT_NOTE << "combine";
			M w; w.lo = std::min(m.lo, mh.lo); w.n = std::max(m.up(), mh.up()) - w.lo; w.m = m.m;
			for (auto& [k, d] : mh.m) w.m[k] = d;
			auto& r = g.combine(h);
			PBT_CHECK(&r == &g, "combine returns another graph");
			agree(c, g, w, "combine"); agree(c, h, mh, "operand of combine");
			g.combine(g); agree(c, g, w, "combine with itself");
			break;
		}
		case 1: { // append
			PBT_NOTE << "append";
			bool self = c.chance(1, 4);
			M w = m; const M& o = self ? m : mh; w.n += o.n;
			for (auto& [k, d] : o.m) w.add(k.first - o.lo + m.up(), k.second - o.lo + m.up(), d);
			auto& r = self ? g.append(g) : g.append(h);
			PBT_CHECK(&r == &g, "append returns another graph");
			agree(c, g, w, self ? "append itself" : "append"); agree(c, h, mh, "operand of append");
			break;
		}
		case 2: { // range
			Integer a = m.lo + c.range(-3, 8), b = a + c.range(0, 8);
			PBT_NOTE << "range " << a << " " << b;
			M w; w.lo = a; w.n = b - a;
			for (auto& [k, d] : m.m) if (k.first >= a && k.first < b && k.second >= a && k.second < b) w.m[k] = d;
			same(c, "range", g.range(a, b), w); unchanged("operand of range");
			auto o = outcome([&] { (void)g.range(a, a - 1); });
			PBT_CHECK(o.end == End::Exception, "reversed range is not refused");
			break;
		}
		case 3: {
			PBT_NOTE << "complement";
			M w; w.lo = m.lo; w.n = m.n;
			for (Integer a = m.lo; a < m.up(); a++) for (Integer b = m.lo; b < m.up(); b++) if (a != b && !m.has(a, b)) w.add(a, b);
			same(c, "complement", g.complement(), w); unchanged("operand of complement");
			break;
		}
		case 4: case 5: { // permutate(perm)
			std::vector<Integer> p; for (Integer i = 0; i < m.n; i++) p.push_back(m.lo + i);
			for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[c.below(i)]);
			PBT_NOTE << "permutate " << pbt::seq(p);
			M w; w.lo = m.lo; w.n = m.n;
			for (auto& [k, d] : m.m) w.add(p[(size_t)(k.first - m.lo)], p[(size_t)(k.second - m.lo)], d);
			Random::seed(c.bits());
			auto& r = g.permutate(p);
			PBT_CHECK(&r == &g, "permutate returns another graph");
			agree(c, g, w, "permutate(perm)");
			if (m.n > 1) {
				p[0] = p[1];
				auto o = outcome([&] { g.permutate(p); });
				PBT_CHECK(o.end == End::Exception, "permutate with no permutation is not refused");
				agree(c, g, w, "refused permutate");
			}
			break;
		}
		case 6: {
			PBT_NOTE << "permutateEdges";
			Random::seed(c.bits());
			auto& r = g.permutateEdges();
			PBT_CHECK(&r == &g, "permutateEdges returns another graph");
			agree(c, g, m, "permutateEdges");
			break;
		}
		case 7: { // permutate(): some renaming
			if (m.n > 6) break;
			PBT_NOTE << "permutate()";
			Random::seed(c.bits());
			g.permutate();
			M got = modelOf(g);
			agree(c, g, got, "permutate()");
			std::vector<Integer> p; for (Integer i = 0; i < m.n; i++) p.push_back(m.lo + i);
			bool found = false;
			do { M w; w.lo = m.lo; w.n = m.n; for (auto& [k, d] : m.m) w.add(p[(size_t)(k.first - m.lo)], p[(size_t)(k.second - m.lo)], d); found = w == got; } while (!found && std::next_permutation(p.begin(), p.end()));
			PBT_CHECK(found, "permutate() is no renaming of ", m.show(), ": ", got.show());
			break;
		}
		case 8: { // cartesian product
			PBT_NOTE << "cartesian";
			M w; w.n = m.n * mh.n;
			auto id = [&](Integer a, Integer b) { return (b - mh.lo) * m.n + (a - m.lo); };
			for (auto& [k, d] : m.m) for (Integer b = mh.lo; b < mh.up(); b++) w.add(id(k.first, b), id(k.second, b));
			for (auto& [k, d] : mh.m) for (Integer a = m.lo; a < m.up(); a++) w.add(id(a, k.first), id(a, k.second));
			same(c, "cartesian", g.cartesian(h), w); unchanged("operand of cartesian");
			break;
		}
		case 9: if constexpr (!DIR) { // tensor product
			PBT_NOTE << "product";
			M w; w.n = m.n * mh.n;
			auto id = [&](Integer a, Integer b) { return (b - mh.lo) * m.n + (a - m.lo); };
			for (Integer a = m.lo; a < m.up(); a++) for (Integer a2 = m.lo; a2 < m.up(); a2++) for (Integer b = mh.lo; b < mh.up(); b++) for (Integer b2 = mh.lo; b2 < mh.up(); b2++)
				if (m.has(a, a2) && mh.has(b, b2)) w.add(id(a, b), id(a2, b2));
			same(c, "product", g.product(h), w); unchanged("operand of product");
		} break;
		case 10: if constexpr (!DIR) { // strong product, either numbering
			PBT_NOTE << "strongProduct";
			M w1, w2; w1.n = w2.n = m.n * mh.n;
			auto adj = [](const M& x, Integer a, Integer b) { return a == b || x.has(a, b); };
			for (Integer a = m.lo; a < m.up(); a++) for (Integer a2 = m.lo; a2 < m.up(); a2++) for (Integer b = mh.lo; b < mh.up(); b++) for (Integer b2 = mh.lo; b2 < mh.up(); b2++) {
				if ((a == a2 && b == b2) || !adj(m, a, a2) || !adj(mh, b, b2)) continue;
				w1.add((b - mh.lo) * m.n + (a - m.lo), (b2 - mh.lo) * m.n + (a2 - m.lo));
				w2.add((a - m.lo) * mh.n + (b - mh.lo), (a2 - m.lo) * mh.n + (b2 - mh.lo));
			}
			auto r = g.strongProduct(h);
			if (modelOf(r) == w1) same(c, "strongProduct", r, w1); else same(c, "strongProduct", r, w2);
			unchanged("operand of strongProduct");
		} break;
		case 11: { // line graph: vertices are the edges in their order
			PBT_NOTE << "lineGraph";
			std::vector<VP> e; for (const auto& x : std::as_const(g).getEdges()) e.emplace_back(x.from, x.to);
			M w; w.n = (Integer)e.size();
			for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e.size(); j++) {
				if (i == j) continue;
				bool adj = DIR ? e[i].second == e[j].first : e[i].first == e[j].first || e[i].first == e[j].second || e[i].second == e[j].first || e[i].second == e[j].second;
				if (adj) w.add((Integer)i, (Integer)j);
			}
			same(c, "lineGraph", g.lineGraph(), w); unchanged("operand of lineGraph");
			break;
		}
		case 12: case 13: { // power, transitive closure
			bool all = c.coin();
			Integer k = all ? m.n + 5 : c.range(0, 7);
			PBT_NOTE << (all ? "transitiveClosure" : "power ") << k;
			M w; w.lo = m.lo; w.n = m.n;
			for (Integer s = m.lo; s < m.up(); s++) {
				std::map<Integer, Integer> dist{{s, 0}};
				for (Integer d = 0; d < k; d++) { auto cur = dist; for (auto [v, dv] : cur) if (dv == d) for (Integer x = m.lo; x < m.up(); x++) if (x != v && m.has(v, x)) dist.emplace(x, d + 1); }
				for (auto [v, dv] : dist) if (v != s) w.add(s, v);
			}
			same(c, all ? "transitiveClosure" : "power", all ? g.transitiveClosure() : g.power(k), w); unchanged("operand of power");
			break;
		}
		case 14: if constexpr (DIR) { // undirected
			PBT_NOTE << "undirected";
			auto r = g.undirected();
			Model<E, false> w; w.lo = m.lo; w.n = m.n;
			for (auto& [k, d] : m.m) w.add(k.first, k.second, d);
			auto got = modelOf(r);
			for (auto& [k, d] : got.m) { // data of either direction
				bool ok = (m.has(k.first, k.second) && m.m.at(k) == d) || (m.has(k.second, k.first) && m.m.at({k.second, k.first}) == d);
				PBT_CHECK(ok, "undirected: data of ", k.first, "-", k.second, " is of no direction");
				if (w.m.count(k)) w.m[k] = d;
			}
			agree(c, r, w, "undirected"); unchanged("operand of undirected");
		} else { // directed
			PBT_NOTE << "directed";
			Model<E, true> w; w.lo = m.lo; w.n = m.n;
			int how = (int)c.below(4);
			uint64_t salt = c.bits() | 1;
			auto pred = [salt](Integer a, Integer b) { return ((uint64_t)(a * 31 + b) * salt >> 60) < 9; };
			auto pred3 = [salt](Integer a, Integer b, const E& e) { return ((uint64_t)(a * 31 + b + (Integer)std::hash<std::string>()(pbt::cat(DataOf<E>::get(e))) % 7) * salt >> 60) < 9; };
			for (auto& [k, d] : m.m) for (auto [a, b] : {k, VP(k.second, k.first)}) {
				bool in = how == 0;
				if (how == 1 || how == 2) in = pred(a, b);
				if (how == 3) in = pred3(a, b, [&] { if constexpr (std::is_same_v<E, NoData>) return NoData{}; else return d; }());
				if (in) w.add(a, b, d);
			}
			GraphType<E, true> r = how == 0 ? g.directed() : how == 1 ? g.directed(pred) : how == 2 ? g.directed([pred](Integer a, Integer b) { return pred(a, b); }) : g.directed(pred3);
			agree(c, r, w, "directed"); unchanged("operand of directed");
		} break;
		case 15: if constexpr (DIR) {
			PBT_NOTE << "reverse";
			M w; w.lo = m.lo; w.n = m.n;
			for (auto& [k, d] : m.m) w.add(k.second, k.first, d);
			auto& r = g.reverse();
			PBT_CHECK(&r == &g, "reverse returns another graph");
			agree(c, g, w, "reverse");
			g.reverse(); agree(c, g, m, "reverse twice");
		} break;
		default: { // subgraph: some of the edges
			Integer k = c.range(0, (Integer)m.m.size() + 2);
			PBT_NOTE << "subgraph " << k;
			Random::seed(c.bits());
			auto r = g.subgraph(k);
			M got = modelOf(r);
			PBT_CHECK((Integer)got.m.size() == std::min<Integer>(k, (Integer)m.m.size()), "subgraph(", k, ") has ", got.m.size(), " edges");
			for (auto& [e, d] : got.m) PBT_CHECK(m.m.count(e) && m.m.at(e) == d, "subgraph has a new edge ", e.first, "-", e.second);
			PBT_CHECK(got.lo == m.lo && got.n == m.n, "subgraph has other vertices");
			agree(c, r, got, "subgraph"); unchanged("operand of subgraph");
		}
	}
}
PBT_PROP(operations, 150000, 3000000) { anyGraphType(c, [&]<typename E, bool DIR>() { ops<E, DIR>(c); }); }
PBT_PROP(mediumOperations, 600, 12000) { anyGraphType(c, [&]<typename E, bool DIR>() { ops<E, DIR>(c, 40, 24); }); }
template<typename E, bool DIR> static void largeOps(pbt::Ctx& c) { // thousands of vertices
	using M = Model<E, DIR>;
	uint64_t rs = c.bits();
	auto rnd = [&](uint64_t k) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return k ? (rs * 0x2545F4914F6CDD1Dull >> 20) % k : 0; };
	rs |= 1;
	auto make = [&](Integer n, Integer k, Integer lo) {
		Gen<E, DIR> r{GraphType<E, DIR>(lo, lo + n), {}};
		r.m.lo = lo; r.m.n = n;
		bool hub = c.coin();
		for (Integer i = 0; n > 1 && i < k; i++) {
			Integer a = lo + (Integer)rnd(hub && i % 3 == 0 ? 3 : (uint64_t)n), b = lo + (Integer)rnd((uint64_t)n);
			if (a == b || r.m.has(a, b)) continue;
			r.g.addEdge(a, b, mk<E>(i + 1)); r.m.add(a, b, mkD<E>(i + 1));
		}
		return r;
	};
	Integer n = c.pick<Integer>({200, 257, 1000, 3000}) + c.range(-1, 1), k = n * c.pick<Integer>({1, 2, 5});
	auto [g, m] = make(n, k, genLo(c));
	PBT_NOTE << (DIR ? "digraph" : "graph") << " with " << n << " vertices, " << m.m.size() << " edges: ";
	c.nontrivial();
	Random::seed(c.bits());
	switch (c.below(12)) {
		case 0: {
			PBT_NOTE << "append";
			auto [h, mh] = make(c.range(1, 1500), 2000, genLo(c));
			M w = m; w.n += mh.n;
			for (auto& [q, d] : mh.m) w.add(q.first - mh.lo + m.up(), q.second - mh.lo + m.up(), d);
			g.append(h); agree(c, g, w, "append"); agree(c, h, mh, "operand of append");
			break;
		}
		case 1: {
			PBT_NOTE << "combine";
			auto [h, mh] = make(c.range(1, 1500), 2000, m.lo + c.range(-500, 2000));
			M w; w.lo = std::min(m.lo, mh.lo); w.n = std::max(m.up(), mh.up()) - w.lo; w.m = m.m;
			for (auto& [q, d] : mh.m) w.m[q] = d;
			g.combine(h); agree(c, g, w, "combine"); agree(c, h, mh, "operand of combine");
			break;
		}
		case 2: {
			Integer a = m.lo + c.range(-10, n), b = a + c.range(0, n + 20);
			PBT_NOTE << "range " << a << " " << b;
			M w; w.lo = a; w.n = b - a;
			for (auto& [q, d] : m.m) if (q.first >= a && q.first < b && q.second >= a && q.second < b) w.m[q] = d;
			same(c, "range", g.range(a, b), w);
			break;
		}
		case 3: {
			auto [h, mh] = make(c.range(100, 300), c.range(0, 20000), genLo(c));
			PBT_NOTE << "complement of another on " << mh.n;
			M w; w.lo = mh.lo; w.n = mh.n;
			for (Integer a = mh.lo; a < mh.up(); a++) for (Integer b = mh.lo; b < mh.up(); b++) if (a != b && !mh.has(a, b)) w.add(a, b);
			same(c, "complement", h.complement(), w); agree(c, h, mh, "operand of complement");
			break;
		}
		case 4: {
			PBT_NOTE << "permutate(perm)";
			std::vector<Integer> p; for (Integer i = 0; i < m.n; i++) p.push_back(m.lo + i);
			for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[rnd(i)]);
			M w; w.lo = m.lo; w.n = m.n;
			for (auto& [q, d] : m.m) w.add(p[(size_t)(q.first - m.lo)], p[(size_t)(q.second - m.lo)], d);
			g.permutate(p); agree(c, g, w, "permutate(perm)");
			break;
		}
		case 5: { // a renaming: the edges are told apart by their data
			PBT_NOTE << "permutate(), permutateEdges()";
			bool edges = c.coin();
			if (edges) { g.permutateEdges(); agree(c, g, m, "permutateEdges"); }
			g.permutate();
			M got = modelOf(g);
			agree(c, g, got, "permutate()");
			PBT_CHECK(got.lo == m.lo && got.n == m.n && got.m.size() == m.m.size(), "permutate() changes the size");
			auto incident = [](const M& x) {
				std::map<Integer, std::pair<std::multiset<typename M::D>, std::multiset<typename M::D>>> at;
				for (Integer v = x.lo; v < x.up(); v++) at[v];
				for (auto& [q, d] : x.m) { at[q.first].first.insert(d); if (DIR) at[q.second].second.insert(d); else at[q.second].first.insert(d); }
				std::multiset<std::pair<std::multiset<typename M::D>, std::multiset<typename M::D>>> r;
				for (auto& [v, s] : at) r.insert(s);
				return r;
			};
			PBT_CHECK(incident(m) == incident(got), "permutate() is no renaming");
			break;
		}
		case 6: {
			PBT_NOTE << "cartesian";
			Gen<E, DIR> x = make(c.range(2, 70), 150, genLo(c)), y = make(c.range(2, 50), 100, genLo(c));
			M w; w.n = x.m.n * y.m.n;
			auto id = [&](Integer a, Integer b) { return (b - y.m.lo) * x.m.n + (a - x.m.lo); };
			for (auto& [q, d] : x.m.m) for (Integer b = y.m.lo; b < y.m.up(); b++) w.add(id(q.first, b), id(q.second, b));
			for (auto& [q, d] : y.m.m) for (Integer a = x.m.lo; a < x.m.up(); a++) w.add(id(a, q.first), id(a, q.second));
			same(c, "cartesian", x.g.cartesian(y.g), w);
			break;
		}
		case 7: {
			PBT_NOTE << "lineGraph";
			Gen<E, DIR> x = make(c.range(2, 400), c.range(100, 500), genLo(c));
			std::vector<VP> e; for (const auto& y : std::as_const(x.g).getEdges()) e.emplace_back(y.from, y.to);
			M w; w.n = (Integer)e.size();
			for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e.size(); j++) {
				if (i == j) continue;
				if (DIR ? e[i].second == e[j].first : e[i].first == e[j].first || e[i].first == e[j].second || e[i].second == e[j].first || e[i].second == e[j].second) w.add((Integer)i, (Integer)j);
			}
			same(c, "lineGraph", x.g.lineGraph(), w);
			break;
		}
		case 8: { // long distances: a path, read in the order of a random numbering
			Integer len = c.range(100, 350);
			Gen<E, DIR> x{GraphType<E, DIR>(len), {}};
			x.m.n = len;
			std::vector<Integer> p; for (Integer i = 0; i < len; i++) p.push_back(i);
			if (c.coin()) for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[rnd(i)]);
			for (size_t i = 0; i + 1 < p.size(); i++) { x.g.addEdge(p[i], p[i + 1]); x.m.add(p[i], p[i + 1]); }
			bool all = c.coin();
			Integer steps = all ? len : c.range(1, len);
			PBT_NOTE << (all ? "transitiveClosure" : "power ") << steps << " of a path on " << len;
			M w; w.n = len;
			for (Integer i = 0; i < len; i++) for (Integer j = DIR ? i + 1 : 0; j < len; j++) if (i != j && std::abs(i - j) <= steps) w.add(p[(size_t)i], p[(size_t)j]);
			same(c, "power", all ? x.g.transitiveClosure() : x.g.power(steps), w);
			break;
		}
		case 9: if constexpr (DIR) {
			PBT_NOTE << "undirected";
			Model<E, false> w; w.lo = m.lo; w.n = m.n;
			for (auto& [q, d] : m.m) w.add(q.first, q.second, d);
			auto r = g.undirected();
			auto got = modelOf(r);
			for (auto& [q, d] : got.m) { PBT_CHECK((m.has(q.first, q.second) && m.m.at(q) == d) || (m.has(q.second, q.first) && m.m.at({q.second, q.first}) == d), "undirected: data of ", q.first, "-", q.second); if (w.m.count(q)) w.m[q] = d; }
			agree(c, r, w, "undirected");
		} else {
			PBT_NOTE << "directed";
			Model<E, true> w; w.lo = m.lo; w.n = m.n;
			for (auto& [q, d] : m.m) { w.add(q.first, q.second, d); w.add(q.second, q.first, d); }
			auto r = g.directed();
			agree(c, r, w, "directed");
		} break;
		case 10: if constexpr (DIR) {
			PBT_NOTE << "reverse";
			M w; w.lo = m.lo; w.n = m.n;
			for (auto& [q, d] : m.m) w.add(q.second, q.first, d);
			g.reverse(); agree(c, g, w, "reverse");
		} break;
		default: {
			Integer take = c.range(0, (Integer)m.m.size());
			PBT_NOTE << "subgraph " << take;
			auto r = g.subgraph(take);
			M got = modelOf(r);
			PBT_CHECK((Integer)got.m.size() == take, "subgraph(", take, ") has ", got.m.size(), " edges");
			for (auto& [e, d] : got.m) PBT_CHECK(m.m.count(e) && m.m.at(e) == d, "subgraph has a new edge ", e.first, "-", e.second);
			PBT_CHECK(got.lo == m.lo && got.n == m.n, "subgraph has other vertices");
			agree(c, r, got, "subgraph");
		}
	}
	agree(c, g, modelOf(g), "afterwards");
}
PBT_PROP(largeOperations, 60, 1500) { anyGraphType(c, [&]<typename E, bool DIR>() { largeOps<E, DIR>(c); }); }
PBT_PROP(chains, 20000, 400000) { // results of operations stay proper graphs
	anyGraphType(c, [&]<typename E, bool DIR>() {
		auto [g, m] = genGraph<E, DIR>(c, 5);
		c.nontrivial();
		Random::seed(c.bits());
		for (auto k = c.range(1, 4); k > 0; k--) {
			if (g.nodeCount() > 30) break;
			switch (c.below(8)) {
				case 0: g = g.complement(); break;
				case 1: g = g.power(2); break;
				case 2: g.permutate(); break;
				case 3: g.append(g); break;
				case 4: g = g.range(g.getMinId(), g.getMinId() + std::min<Integer>(4, g.nodeCount())); break;
				case 5: if (g.edgeCount() < 12) g = g.lineGraph(); break;
				case 6: g.setMinId(c.range(-5, 5)); break;
				default: if (g.nodeCount() < 6) g = g.cartesian(g);
			}
			PBT_NOTE << modelOf(g).show() << "\n";
			// edges must be a proper set of pairs: agreement with its own edge list
			auto own = modelOf(g);
			PBT_CHECK(g.edgeCount() == (Integer)own.m.size(), "an edge occurs twice");
			for (auto& [e, d] : own.m) { PBT_CHECK(e.first != e.second, "self loop"); PBT_CHECK(e.first >= own.lo && e.first < own.up() && e.second >= own.lo && e.second < own.up(), "edge outside of the graph"); }
			agree(c, g, own, "chained operations");
			if (own.n >= 2) { Integer a = own.lo, b = own.lo + 1; g.addEdge(a, b, mk<E>(3)); own.add(a, b, mkD<E>(3)); agree(c, g, own, "edge added to a result"); auto e = own.m.rbegin()->first; g.eraseEdge(e.first, e.second); own.m.erase(e); agree(c, g, own, "edge erased from a result"); }
		}
	});
}
#endif

#ifdef P_C23
template<typename E, bool DIR> static Model<E, DIR> blank(Integer n) { Model<E, DIR> m; m.n = n; return m; }
template<typename E, bool DIR> static void families(pbt::Ctx& c, bool big = false) {
	using M = Model<E, DIR>;
	c.nontrivial();
	Integer n = c.rarely(0, 12, 70), k = c.range(0, 8);
	size_t which = c.below(9);
	if (big) { n = c.i64in(100, which == 1 || which == 2 ? 300 : 40000); k = c.range(0, 300); }
	switch (which) {
		case 0: { PBT_NOTE << "independent " << n; same(c, "independent", independent<E, DIR>(n), blank<E, DIR>(n)); break; }
		case 1: { PBT_NOTE << "clique " << n; M m = blank<E, DIR>(n); for (Integer i = 0; i < n; i++) for (Integer j = i + 1; j < n; j++) m.add(i, j); same(c, "clique", clique<E, DIR>(n), m); break; }
		case 2: { PBT_NOTE << "bipartite " << n << " " << k; M m = blank<E, DIR>(n + k); for (Integer i = 0; i < n; i++) for (Integer j = 0; j < k; j++) m.add(i, n + j); same(c, "bipartite", bipartite<E, DIR>(n, k), m); break; }
		case 3: { PBT_NOTE << "path " << n; M m = blank<E, DIR>(n + 1); for (Integer i = 0; i < n; i++) m.add(i, i + 1); same(c, "path", path<E, DIR>(n), m); break; }
		case 4: { n += 2; PBT_NOTE << "cycle " << n; M m = blank<E, DIR>(n); for (Integer i = 0; i < n; i++) m.add(i, (i + 1) % n); same(c, "cycle", cycle<E, DIR>(n), m); break; }
		case 5: { PBT_NOTE << "star " << n; M m = blank<E, DIR>(n + 1); for (Integer i = 1; i <= n; i++) m.add(0, i); same(c, "star", star<E, DIR>(n), m); break; }
		case 6: {
			Integer l = big ? c.range(8, 11) : c.range(0, 7); PBT_NOTE << "booleanLattice " << l;
			M m = blank<E, DIR>(1 << l);
			for (Integer a = 0; a < m.n; a++) for (Integer b = 0; b < l; b++) if (a >> b & 1) m.add(a, a ^ (Integer)1 << b);
			same(c, "booleanLattice", booleanLattice<E, DIR>(l), m);
			break;
		}
		case 7: {
			n = big ? c.range(300, 3000) : c.rarely(0, 40, 300); PBT_NOTE << "rado " << n;
			M m = blank<E, DIR>(n);
			for (Integer b = 0; b < n; b++) for (Integer a = 0; a < b && a < 62; a++) if (b >> a & 1) m.add(a, b);
			same(c, "rado", rado<E, DIR>(n), m);
			break;
		}
		default: { // complete tree: root 0, subtrees consecutive
			Integer level = c.range(2, 4); k = c.range(1, 4);
			bool two = c.coin(); if (two) { k = 2; level = c.range(2, 6); }
			if (big) { if (two) level = c.range(7, 13); else { level = c.range(1, 7); k = level < 3 ? c.range(5, 3000) : level < 4 ? c.range(4, 60) : c.range(1, 4); if (level == 1) level = 2; } }
			PBT_NOTE << "completeTree " << level << " " << k;
			M m;
			std::function<void(Integer)> build = [&](Integer d) { Integer me = m.n++; if (d > 1) for (Integer i = 0; i < k; i++) { m.add(me, m.n); build(d - 1); } };
			build(level);
			same(c, "completeTree", two ? completeTree<E, DIR>(level) : completeTree<E, DIR>(level, k), m);
		}
	}
}
template<typename E> static void undirFamilies(pbt::Ctx& c, bool big = false) {
	using M = Model<E, false>;
	c.nontrivial();
	Integer n = c.rarely(0, 12, 70), k = c.range(0, 9);
	size_t which = c.below(5);
	if (big) { n = c.i64in(100, 20000); k = c.range(0, which == 1 ? 200 : 20000); }
	switch (which) {
		case 0: { n += 3; PBT_NOTE << "wheel " << n; M m = blank<E, false>(n + 1); for (Integer i = 1; i <= n; i++) { m.add(0, i); m.add(i, i % n + 1); } same(c, "wheel", wheel<E>(n), m); break; }
		case 1: { k += 1; PBT_NOTE << "lolly " << n << " " << k; M m = blank<E, false>(n + k); for (Integer i = 0; i < n; i++) m.add(i, i + 1); for (Integer i = 0; i < k; i++) for (Integer j = 0; j < i; j++) m.add(n + i, n + j); same(c, "lolly", lolly<E>(n, k), m); break; }
		case 2: { PBT_NOTE << "broom " << n << " " << k; M m = blank<E, false>(n + k + 1); for (Integer i = 0; i < n; i++) m.add(i, i + 1); for (Integer i = 1; i <= k; i++) m.add(n, n + i); same(c, "broom", broom<E>(n, k), m); break; }
		case 3: {
			bool square = c.coin(); n = c.range(1, big ? 200 : 8); k = square ? n : c.range(1, big ? 200 : 8);
			PBT_NOTE << "grid " << n << " " << k;
			M m = blank<E, false>(n * k);
			for (Integer y = 0; y < k; y++) for (Integer x = 0; x < n; x++) { if (x + 1 < n) m.add(y * n + x, y * n + x + 1); if (y + 1 < k) m.add(y * n + x, y * n + n + x); }
			same(c, "grid", square ? grid<E>(n) : grid<E>(n, k), m);
			break;
		}
		default: {
			Integer d = big ? c.range(8, 11) : c.range(0, 7); PBT_NOTE << "hypercube " << d;
			M m = blank<E, false>(1 << d);
			for (Integer a = 0; a < m.n; a++) for (Integer b = 0; b < d; b++) m.add(a, a ^ (Integer)1 << b);
			same(c, "hypercube", hypercube<E>(d), m);
		}
	}
}
PBT_PROP(named, 12000, 200000) { anyGraphType(c, [&]<typename E, bool DIR>() { families<E, DIR>(c); }); }
PBT_PROP(largeNamed, 60, 1500) { if (c.coin()) undirFamilies<NoData>(c, true); else anyGraphType(c, [&]<typename E, bool DIR>() { families<E, DIR>(c, true); }); }
PBT_PROP(namedUndirected, 12000, 200000) { switch (c.below(3)) { case 0: undirFamilies<NoData>(c); break; case 1: undirFamilies<Integer>(c); break; default: undirFamilies<std::string>(c); } }
// plain maximum flow (augmenting paths by breadth first search, capacity scaling)
static uint64_t maxflow(Integer n, const std::vector<std::tuple<Integer, Integer, uint64_t>>& es, Integer s, Integer t) {
	struct Arc { size_t to; uint64_t cap; };
	std::vector<Arc> a; std::vector<std::vector<size_t>> adj((size_t)n);
	for (auto [u, v, cap] : es) { adj[(size_t)u].push_back(a.size()); a.push_back({(size_t)v, cap}); adj[(size_t)v].push_back(a.size()); a.push_back({(size_t)u, 0}); }
	uint64_t flow = 0;
	for (int sh = 63; sh >= 0; sh--) while (true) {
		std::vector<long> via((size_t)n, -1); std::vector<size_t> q{(size_t)s}; via[(size_t)s] = -2;
		for (size_t i = 0; i < q.size(); i++) for (auto id : adj[q[i]]) if (a[id].cap >= 1ull << sh && via[a[id].to] == -1) { via[a[id].to] = (long)id; q.push_back(a[id].to); }
		if (via[(size_t)t] == -1) break;
		uint64_t f = ~0ull;
		for (size_t v = (size_t)t; v != (size_t)s; v = a[(size_t)via[v] ^ 1].to) f = std::min(f, a[(size_t)via[v]].cap);
		for (size_t v = (size_t)t; v != (size_t)s; v = a[(size_t)via[v] ^ 1].to) { a[(size_t)via[v]].cap -= f; a[(size_t)via[v] ^ 1].cap += f; }
		flow += f;
	}
	return flow;
}
// Ford Fulkerson with a depth first search which follows the edges in their order
static uint64_t dfsAugmentations(Integer n, const std::vector<std::tuple<Integer, Integer, uint64_t>>& es) {
	struct Arc { size_t to; uint64_t cap; };
	std::vector<Arc> a; std::vector<std::vector<size_t>> adj((size_t)n);
	for (auto [u, v, cap] : es) { adj[(size_t)u].push_back(a.size()); a.push_back({(size_t)v, cap}); adj[(size_t)v].push_back(a.size()); a.push_back({(size_t)u, 0}); }
	std::vector<char> seen;
	std::function<uint64_t(size_t, uint64_t)> dfs = [&](size_t u, uint64_t lim) -> uint64_t {
		if (u + 1 == (size_t)n) return lim;
		seen[u] = 1;
		for (auto id : adj[u]) if (a[id].cap && !seen[a[id].to]) if (auto f = dfs(a[id].to, std::min(lim, a[id].cap))) { a[id].cap -= f; a[id ^ 1].cap += f; return f; }
		return 0;
	};
	for (uint64_t steps = 0;; steps++) { seen.assign((size_t)n, 0); if (!dfs(0, ~0ull)) return steps; }
}
// successive shortest paths from 0 to n-1
static uint64_t cheapAugmentations(Integer n, const std::vector<std::tuple<Integer, Integer, uint64_t>>& es, const std::vector<Integer>& costs) {
	struct Arc { size_t to; uint64_t cap; Integer cost; };
	std::vector<Arc> a; std::vector<std::vector<size_t>> adj((size_t)n);
	for (size_t i = 0; i < es.size(); i++) {
		auto [u, v, cap] = es[i];
		adj[(size_t)u].push_back(a.size()); a.push_back({(size_t)v, cap, costs[i]});
		adj[(size_t)v].push_back(a.size()); a.push_back({(size_t)u, 0, -costs[i]});
	}
	for (uint64_t steps = 0;; steps++) {
		const Integer far = 1ll << 60;
		std::vector<Integer> d((size_t)n, far); std::vector<long> via((size_t)n, -1);
		d[0] = 0;
		for (bool again = true; again;) {
			again = false;
			for (size_t u = 0; u < (size_t)n; u++) if (d[u] < far) for (auto id : adj[u]) if (a[id].cap && d[a[id].to] > d[u] + a[id].cost) { d[a[id].to] = d[u] + a[id].cost; via[a[id].to] = (long)id; again = true; }
		}
		if (via[(size_t)n - 1] < 0) return steps;
		uint64_t f = ~0ull;
		for (size_t v = (size_t)n - 1; v; v = a[(size_t)via[v] ^ 1].to) f = std::min(f, a[(size_t)via[v]].cap);
		for (size_t v = (size_t)n - 1; v; v = a[(size_t)via[v] ^ 1].to) { a[(size_t)via[v]].cap -= f; a[(size_t)via[v] ^ 1].cap += f; }
	}
}
PBT_PROP(flows, 200, 2000) {
	c.nontrivial();
	if (c.coin()) {
		Integer n = c.range(1, 63);
		PBT_NOTE << "ffWorstcase " << n;
		auto g = ffWorstcase(n);
		PBT_CHECK(g.nodeCount() == 2 * n && g.getMinId() == 0, "ffWorstcase has ", g.nodeCount(), " vertices");
		std::vector<std::tuple<Integer, Integer, uint64_t>> es;
		for (const auto& e : std::as_const(g).getEdges()) es.emplace_back(e.from, e.to, (uint64_t)e.data);
		uint64_t f = maxflow(2 * n, es, 0, 2 * n - 1);
		PBT_CHECK(f == 1ull << (n - 1), "ffWorstcase(", n, ") has a flow of ", f);
		if (n <= 10) {
			uint64_t steps = dfsAugmentations(2 * n, es);
			PBT_CHECK(steps == f, "Ford Fulkerson with dfs needs only ", steps, " augmentations for ffWorstcase(", n, ")");
		}
		agree(c, g, modelOf(g), "ffWorstcase");
	} else {
		Integer n = c.chance(1, 3) ? c.range(20, 60) : c.range(1, 20);
		PBT_NOTE << "mcmfWorstcase " << n;
		auto g = mcmfWorstcase(n);
		PBT_CHECK(g.nodeCount() == 2 * n + 2 && g.getMinId() == 0, "mcmfWorstcase has ", g.nodeCount(), " vertices");
		std::vector<std::tuple<Integer, Integer, uint64_t>> es;
		for (const auto& e : std::as_const(g).getEdges()) {
			es.emplace_back(e.from, e.to, (uint64_t)e.data.first);
			PBT_CHECK(e.data.first > 0 && e.data.second >= 0, "capacity or cost");
			bool inner = e.from != 0 && e.to != 2 * n + 1;
			PBT_CHECK(e.from < e.to && (!inner || (e.from <= n && e.to > n)), "unexpected edge ", e.from, "-", e.to);
			PBT_CHECK(inner || e.data.second == 0, "costs at the source or sink");
			Integer i = e.from - 1, j = e.to - 1 - n;
			PBT_CHECK(!inner || e.data.second == (i == j ? 0 : (1ll << std::max(i, j)) - 1), "cost ", e.data.second, " of the edge ", e.from, "-", e.to);
		}
		uint64_t f = maxflow(2 * n + 2, es, 0, 2 * n + 1);
		// Zadeh: the network N_n has a flow of 2^n + 2^(n-2) - 2, and successive shortest paths raise it by one each
		uint64_t expect = n < 2 ? 1 : (1ull << n) + (1ull << (n - 2)) - 2;
		PBT_CHECK(f == expect, "mcmfWorstcase(", n, "): flow ", f, " instead of ", expect);
		if (n <= 7) {
			std::vector<Integer> cost;
			for (const auto& e : std::as_const(g).getEdges()) cost.push_back(e.data.second);
			uint64_t steps = cheapAugmentations(2 * n + 2, es, cost);
			PBT_CHECK(steps == expect, "successive shortest paths need only ", steps, " augmentations for mcmfWorstcase(", n, ")");
		}
	}
	auto bad = [&](auto f) { return outcome(f).end == End::Exception; };
	PBT_CHECK(bad([&] { (void)ffWorstcase(c.coin() ? -(Integer)c.below(4) : 64 + (Integer)c.below(9)); }), "ffWorstcase out of bounds is not refused");
	PBT_CHECK(bad([&] { (void)mcmfWorstcase(c.coin() ? -(Integer)c.below(4) : 61 + (Integer)c.below(9)); }), "mcmfWorstcase out of bounds is not refused");
}
#endif

#if defined(P_C24) || defined(P_C18G)
template<typename M> static bool isTreeModel(const M& m) { // connected with n-1 edges
	if ((Integer)m.m.size() != m.n - 1) return false;
	std::vector<Integer> id((size_t)m.n); std::iota(id.begin(), id.end(), 0);
	std::function<Integer(Integer)> find = [&](Integer x) { return id[(size_t)x] == x ? x : id[(size_t)x] = find(id[(size_t)x]); };
	for (auto& [k, d] : m.m) { Integer a = find(k.first), b = find(k.second); if (a == b) return false; id[(size_t)a] = b; }
	return true;
}
#endif
#ifdef P_C24
template<typename G> static void checkSimple(pbt::Ctx& c, const char* what, G& g, Integer n) {
	auto m = modelOf(g);
	PBT_NOTE << m.show() << "\n";
	PBT_CHECK(m.lo == 0 && m.n == n, what, ": vertices are [", m.lo, ",", m.up(), ") instead of [0,", n, ")");
	PBT_CHECK(g.edgeCount() == (Integer)m.m.size(), what, ": an edge occurs twice");
	for (auto& [e, d] : m.m) PBT_CHECK(e.first != e.second && e.first >= 0 && e.second >= 0 && e.first < n && e.second < n, what, ": edge ", e.first, "-", e.second);
	agree(c, g, m, what);
}
PBT_PROP(trees, 30000, 500000) {
	Random::seed(c.bits());
	Integer n = c.chance(1, 40) ? c.range(30, 60) : c.range(1, 14);
	if (n > 2) c.nontrivial();
	PBT_NOTE << "randomTree " << n << " ";
	auto undir = [&]<typename E>() { auto g = randomTree<E>(n); checkSimple(c, "randomTree", g, n); PBT_CHECK(isTreeModel(modelOf(g)), "no tree"); };
	auto dir = [&]<typename E>() {
		auto g = randomTree<E, true>(n); checkSimple(c, "directed randomTree", g, n);
		auto m = modelOf(g);
		PBT_CHECK(isTreeModel(m), "no tree");
		std::map<Integer, int> in; for (auto& [e, d] : m.m) in[e.second]++;
		PBT_CHECK(in[0] == 0, "0 is not the root");
		for (Integer v = 1; v < n; v++) PBT_CHECK(in[v] == 1, "vertex ", v, " has ", in[v], " parents");
	};
	switch (c.below(4)) { case 0: undir.template operator()<NoData>(); break; case 1: undir.template operator()<Integer>(); break; case 2: dir.template operator()<NoData>(); break; default: dir.template operator()<std::string>(); }
}
PBT_PROP(counted, 60000, 1000000) { // with an edge count
	Random::seed(c.bits());
	anyGraphType(c, [&]<typename E, bool DIR>() {
		if (c.coin()) {
			Integer n = c.chance(1, 40) ? c.range(20, 40) : c.range(0, 9), all = DIR ? n * (n - 1) : n * (n - 1) / 2;
			Integer m = c.weighted({3, 1, 1}) == 0 ? c.range(0, all) : c.coin() ? all : 0;
			PBT_NOTE << "randomGraph " << n << " " << m << " ";
			if (m > 1) c.nontrivial();
			auto g = randomGraph<E, DIR>(n, m);
			checkSimple(c, "randomGraph", g, n);
			PBT_CHECK(g.edgeCount() == m, "has ", g.edgeCount(), " edges");
			auto o = outcome([&] { (void)randomGraph<E, DIR>(n, c.coin() ? all + 1 + (Integer)c.below(4) : -1 - (Integer)c.below(4)); });
			PBT_CHECK(o.end == End::Exception, "an impossible number of edges is not refused");
		} else {
			Integer n = c.range(0, 7), k = c.range(0, 7), all = DIR ? 2 * n * k : n * k;
			Integer m = c.weighted({3, 1, 1}) == 0 ? c.range(0, all) : c.coin() ? all : 0;
			PBT_NOTE << "randomBipartite " << n << " " << k << " " << m << " ";
			if (m > 1) c.nontrivial();
			auto g = randomBipartite<E, DIR>(n, k, m);
			checkSimple(c, "randomBipartite", g, n + k);
			PBT_CHECK(g.edgeCount() == m, "has ", g.edgeCount(), " edges");
			for (const auto& e : std::as_const(g).getEdges()) PBT_CHECK((e.from < n) != (e.to < n), "edge ", e.from, "-", e.to, " within a side");
			auto o = outcome([&] { (void)randomBipartite<E, DIR>(n, k, c.coin() ? all + 1 + (Integer)c.below(4) : -1 - (Integer)c.below(4)); });
			PBT_CHECK(o.end == End::Exception, "an impossible number of edges is not refused");
		}
	});
}
PBT_PROP(withProbability, 30000, 500000) {
	Random::seed(c.bits());
	anyGraphType(c, [&]<typename E, bool DIR>() {
		Integer n = c.range(0, 9), k = c.range(0, 7);
		Real p = c.weighted({2, 1, 1}) == 0 ? (Real)c.range(0, 1000) / 1000 : c.coin() ? 1 : 0;
		bool bip = c.coin();
		Integer all = bip ? n * k : n * (n - 1) / 2;
		if (DIR) all *= 2;
		PBT_NOTE << (bip ? "randomBipartite " : "randomGraph ") << n << " " << k << " p " << p << " ";
		c.nontrivial();
		auto g = bip ? randomBipartite<E, DIR>(n, k, p) : randomGraph<E, DIR>(n, p);
		checkSimple(c, "random graph", g, bip ? n + k : n);
		if (bip) for (const auto& e : std::as_const(g).getEdges()) PBT_CHECK((e.from < n) != (e.to < n), "edge ", e.from, "-", e.to, " within a side");
		if (p == 0) PBT_CHECK(g.edgeCount() == 0, "p = 0 gives ", g.edgeCount(), " edges");
		if (p == 1) PBT_CHECK(g.edgeCount() == all, "p = 1 gives ", g.edgeCount(), " of ", all, " edges");
		Real q = c.pick<Real>({-0.1L, 1.5L, NAN});
		auto o = outcome([&] { if (bip) (void)randomBipartite<E, DIR>(n, k, q); else (void)randomGraph<E, DIR>(n, q); });
		PBT_CHECK(o.end == End::Exception, "probability ", q, " is not refused");
	});
}
template<typename F> static void edgeStat(pbt::Ctx& c, const char* what, size_t all, double p, F&& draw) {
	const long N = 3000;
	std::map<VP, double> cnt; std::vector<double> num(all + 1), pr(all + 1);
	double total = 0;
	for (long i = 0; i < N; i++) { auto m = draw(); for (auto& [e, d] : m.m) cnt[e]++; PBT_CHECK(m.m.size() <= all, what, ": too many edges"); num[m.m.size()]++; total += (double)m.m.size(); }
	PBT_CHECK(cnt.size() <= all, what, ": impossible edges");
	for (auto& [e, k] : cnt) { auto r = stat::chi2({k, N - k}, {p, 1 - p}, N, 1e-9); PBT_CHECK(r.p > stat::ALPHA, what, ": edge ", e.first, "-", e.second, " occurs in ", k, " of ", N, " graphs"); }
	PBT_CHECK(cnt.size() == all || p * N < 40, what, ": only ", cnt.size(), " of ", all, " edges ever occur");
	for (size_t k = 0; k <= all; k++) pr[k] = std::exp(std::lgamma((double)all + 1) - std::lgamma((double)k + 1) - std::lgamma((double)(all - k) + 1) + (double)k * std::log(p) + (double)(all - k) * std::log1p(-p));
	auto r = stat::chi2(num, pr, N);
	PBT_CHECK(r.p > stat::ALPHA, what, ": numbers of edges are not distributed binomially");
}
PBT_PROP(edgeProbability, 150, 4000) {
	Random::seed(c.bits());
	c.nontrivial();
	Integer n = c.range(2, 5), k = c.range(1, 4);
	double p = (double)c.range(50, 950) / 1000;
	PBT_NOTE << n << " " << k << " p " << p;
	switch (c.below(4)) {
		case 0: edgeStat(c, "randomGraph", (size_t)(n * (n - 1) / 2), p, [&] { return modelOf(randomGraph<NoData>(n, (Real)p)); }); break;
		case 1: edgeStat(c, "directed randomGraph", (size_t)(n * (n - 1)), p, [&] { return modelOf(randomGraph<NoData, true>(n, (Real)p)); }); break;
		case 2: edgeStat(c, "randomBipartite", (size_t)(n * k), p, [&] { return modelOf(randomBipartite<NoData>(n, k, (Real)p)); }); break;
		default: edgeStat(c, "directed randomBipartite", (size_t)(2 * n * k), p, [&] { return modelOf(randomBipartite<NoData, true>(n, k, (Real)p)); });
	}
}
PBT_PROP(growing, 20000, 300000) {
	Random::seed(c.bits());
	Integer n = c.range(0, 25);
	Real p = c.coin() ? (Real)c.range(0, 100) / 100 : c.pick<Real>({0, 1});
	PBT_NOTE << "randomGrowingGraph " << n << " " << p << " ";
	if (n > 2) c.nontrivial();
	auto g = randomGrowingGraph<Integer>(n, p);
	checkSimple(c, "randomGrowingGraph", g, n);
	if (p == 0) PBT_CHECK(g.edgeCount() == 0, "p = 0 gives edges");
	auto o = outcome([&] { (void)randomGrowingGraph<NoData>(n, c.pick<Real>({-0.1L, 1.1L, NAN})); });
	PBT_CHECK(o.end == End::Exception, "an impossible probability is not refused");
}
// nothing may depend on the size (products of vertex numbers, depth of recursions)
template<typename E, bool DIR> static void largeRandom(pbt::Ctx& c) {
	Integer n = c.range(3000, c.coin() ? 20000 : 150000), k = c.range(2000, 60000);
	std::set<VP> es;
	auto take = [&](const char* what, auto& g, Integer vertices) {
		PBT_CHECK(g.nodeCount() == vertices && g.getMinId() == 0, what, ": ", g.nodeCount(), " vertices instead of ", vertices);
		Integer edges = 0, sum = 0;
		for (const auto& e : std::as_const(g).getEdges()) {
			edges++;
			PBT_CHECK(e.from != e.to && e.from >= 0 && e.to >= 0 && e.from < vertices && e.to < vertices, what, ": edge ", e.from, "-", e.to);
			VP q{e.from, e.to}; if (!DIR && q.first > q.second) std::swap(q.first, q.second);
			PBT_CHECK(es.insert(q).second, what, ": edge ", e.from, "-", e.to, " occurs twice");
		}
		for (Integer v = 0; v < vertices; v++) sum += std::as_const(g).degree(v);
		PBT_CHECK(edges == g.edgeCount() && sum == (DIR ? 1 : 2) * edges, what, ": ", edges, " edges, but edgeCount is ", g.edgeCount(), ", sum of degrees ", sum);
		for (int i = 0; i < 200 && !es.empty(); i++) {
			VP q{(Integer)c.below((uint64_t)vertices), (Integer)c.below((uint64_t)vertices)};
			if (i % 2) { auto it = es.lower_bound(q); if (it != es.end()) q = *it; }
			PBT_CHECK(std::as_const(g).hasEdge(q.first, q.second) == (es.count(q) > 0 || (!DIR && es.count({q.second, q.first}) > 0)), what, ": hasEdge(", q.first, ",", q.second, ")");
		}
		return edges;
	};
	auto isTree = [&](const char* what, Integer vertices) {
		PBT_CHECK((Integer)es.size() == vertices - 1, what, ": ", es.size(), " edges");
		std::vector<Integer> id((size_t)vertices); std::iota(id.begin(), id.end(), 0);
		auto find = [&](Integer x) { while (id[(size_t)x] != x) x = id[(size_t)x] = id[(size_t)id[(size_t)x]]; return x; };
		for (auto [a, b] : es) { a = find(a); b = find(b); PBT_CHECK(a != b, what, ": there is a cycle"); id[(size_t)a] = b; }
	};
	auto sides = [&](const char* what) { for (auto [a, b] : es) PBT_CHECK((a < n) != (b < n), what, ": edge ", a, "-", b, " within a side"); };
	// few of very many possible edges: their numbers spread over the whole range
	auto spread = [&](const char* what, Integer vertices) {
		double s = 0; size_t low = 0;
		for (auto [a, b] : es) { s += (double)(a + b); low += a < vertices / 2 && b < vertices / 2; }
		if (es.size() < 1000) return;
		double mean = s / (double)es.size() / (double)vertices; // of the sum of two uniform numbers: 1, variance 1/6
		PBT_CHECK(std::abs(mean - 1) < 8 * std::sqrt(1.0 / 6 / (double)es.size()) + 1e-3, what, ": mean of the sum of the vertices of an edge is ", mean, " n");
		double q = (double)low / (double)es.size();
		PBT_CHECK(std::abs(q - 0.25) < 8 * std::sqrt(0.19 / (double)es.size()) + 1e-3, what, ": ", q, " of the edges are between vertices of the first half");
	};
	switch (c.below(DIR ? 5 : 8)) {
		case 0: {
			PBT_NOTE << "randomTree " << n; auto g = randomTree<E, DIR>(n); take("randomTree", g, n); isTree("randomTree", n);
			if (DIR) { std::vector<int> in((size_t)n); for (auto [a, b] : es) in[(size_t)b]++; for (Integer v = 0; v < n; v++) PBT_CHECK(in[(size_t)v] == (v > 0), "randomTree: vertex ", v, " has ", in[(size_t)v], " parents"); }
			break;
		}
		case 1: {
			Integer m = c.range(0, 100000); PBT_NOTE << "randomGraph " << n << " " << m;
			auto g = randomGraph<E, DIR>(n, m); Integer x = take("randomGraph", g, n); PBT_CHECK(x == m, "randomGraph has ", x, " edges"); spread("randomGraph", n); break;
		}
		case 2: {
			Integer all = DIR ? n * (n - 1) : n * (n - 1) / 2; Real p = (Real)c.range(100, 50000) / (Real)all; PBT_NOTE << "randomGraph " << n << " " << p;
			auto g = randomGraph<E, DIR>(n, p); Real x = take("randomGraph", g, n), w = p * all; PBT_CHECK(std::abs(x - w) <= 8 * std::sqrt(w) + 8, "randomGraph has ", x, " edges instead of about ", w); spread("randomGraph", n); break;
		}
		case 3: {
			Integer m = c.range(0, 100000); PBT_NOTE << "randomBipartite " << n << " " << k << " " << m;
			auto g = randomBipartite<E, DIR>(n, k, m); Integer x = take("randomBipartite", g, n + k); PBT_CHECK(x == m, "randomBipartite has ", x, " edges"); sides("randomBipartite");
			double l = 0, r = 0; for (auto [a, b] : es) { l += (double)std::min(a, b); r += (double)(std::max(a, b) - n); }
			if (m >= 1000) PBT_CHECK(std::abs(l / (double)m / (double)n - 0.5) < 8 * std::sqrt(1.0 / 12 / (double)m) + 1e-3 && std::abs(r / (double)m / (double)k - 0.5) < 8 * std::sqrt(1.0 / 12 / (double)m) + 1e-3, "randomBipartite: mean ends ", l / (double)m, " and ", r / (double)m);
			break;
		}
		case 4: {
			Integer all = DIR ? 2 * n * k : n * k; Real p = (Real)c.range(100, 50000) / (Real)all; PBT_NOTE << "randomBipartite " << n << " " << k << " " << p;
			auto g = randomBipartite<E, DIR>(n, k, p); Real x = take("randomBipartite", g, n + k), w = p * all; PBT_CHECK(std::abs(x - w) <= 8 * std::sqrt(w) + 8, "randomBipartite has ", x, " edges instead of about ", w); sides("randomBipartite"); break;
		}
		case 5: if constexpr (!DIR) { // every vertex about the same degree, or few of large degree
			n = std::min<Integer>(n, 30000); PBT_NOTE << "randomGraph(degrees) " << n;
			auto h = randomGraph<NoData>(n, c.range(n / 2, 2 * n));
			if (c.coin()) for (Integer v = 1; v < n; v++) h.addEdge(0, v);
			std::vector<Integer> d; for (Integer v = 0; v < n; v++) d.push_back(h.degree(v));
			auto g = randomGraph<E>(d, c.range(0, 3)); take("randomGraph(degrees)", g, n);
			for (Integer v = 0; v < n; v++) PBT_CHECK(g.degree(v) == d[(size_t)v], "randomGraph(degrees): vertex ", v, " has degree ", g.degree(v));
			break;
		} break;
		case 6: if constexpr (!DIR) {
			n = c.range(200, 400); Real p = (Real)c.range(1, 100) / 100; PBT_NOTE << "randomGrowingGraph " << n << " " << p;
			auto g = randomGrowingGraph<E>(n, p); take("randomGrowingGraph", g, n); break;
		} break;
		default: if constexpr (!DIR) {
			std::vector<Integer> code; bool few = c.coin(); Random::seed(c.bits());
			for (Integer i = 2; i < n; i++) code.push_back(Random::integer(0, few ? std::min<Integer>(n, 9) : n));
			PBT_NOTE << "pruefer " << n;
			auto g = pruefer<E>(code); take("pruefer", g, n); isTree("pruefer", n);
			std::vector<Integer> d((size_t)n, 1); for (Integer x : code) d[(size_t)x]++;
			for (Integer v = 0; v < n; v++) PBT_CHECK(g.degree(v) == d[(size_t)v], "pruefer: vertex ", v, " has degree ", g.degree(v));
		}
	}
}
PBT_PROP(largeRandomGraphs, 40, 600) {
	c.nontrivial();
	Random::seed(c.bits());
	anyGraphType(c, [&]<typename E, bool DIR>() { largeRandom<E, DIR>(c); });
}
static bool graphical(std::vector<Integer> d) { // Erdos-Gallai
	for (auto x : d) if (x < 0) return false;
	std::sort(d.rbegin(), d.rend());
	Integer sum = 0, n = (Integer)d.size();
	for (auto x : d) sum += x;
	if (sum % 2) return false;
	Integer left = 0;
	for (Integer k = 1; k <= n; k++) { left += d[(size_t)k - 1]; Integer right = k * (k - 1); for (Integer i = k; i < n; i++) right += std::min(d[(size_t)i], k); if (left > right) return false; }
	return true;
}
PBT_PROP(degrees, 60000, 1000000) {
	Random::seed(c.bits());
	std::vector<Integer> deg;
	if (c.coin()) { // realised by some graph
		auto [g, m] = genGraph<NoData, false>(c, c.chance(1, 30) ? 30 : 9);
		deg.assign((size_t)m.n, 0);
		for (auto& [e, d] : m.m) { deg[(size_t)(e.first - m.lo)]++; deg[(size_t)(e.second - m.lo)]++; }
		if (c.chance(1, 5) && !deg.empty()) deg[c.below(deg.size())] += c.range(-1, 2);
	} else { Integer n = c.range(0, 7); for (Integer i = 0; i < n; i++) deg.push_back(c.range(c.chance(1, 8) ? -1 : 0, n)); }
	PBT_NOTE << "degrees " << pbt::seq(deg) << " ";
	bool ok = graphical(deg);
	c.label(ok ? "realisable" : "impossible");
	if (ok && deg.size() > 2) c.nontrivial();
	Integer flips = c.coin() ? 10 : c.range(0, 30);
	Graph<Integer> g;
	auto o = outcome([&] { g = flips == 10 && c.coin() ? randomGraph<Integer>(deg) : randomGraph<Integer>(deg, flips); });
	if (!ok) { PBT_CHECK(o.end == End::Exception, "an impossible degree sequence is not refused"); return; }
	PBT_CHECK(o.end == End::Value, "raised ", o.what);
	checkSimple(c, "randomGraph(degrees)", g, (Integer)deg.size());
	for (size_t i = 0; i < deg.size(); i++) PBT_CHECK(g.degree((Integer)i) == deg[i], "vertex ", i, " has degree ", g.degree((Integer)i));
}
#endif

#ifdef P_C18G
PBT_PROP(uniformTrees, 120, 4000) {
	Random::seed(c.bits());
	c.nontrivial();
	Integer n = c.range(2, 5);
	bool dir = c.coin();
	PBT_NOTE << (dir ? "directed " : "") << "randomTree " << n;
	size_t all = (size_t)std::llround(std::pow((double)n, (double)(n - 2)));
	std::map<std::vector<VP>, double> cnt;
	long N = std::max<long>(3000, 150 * (long)all);
	for (long i = 0; i < N; i++) {
		std::vector<VP> k;
		if (dir) { for (auto& [e, d] : modelOf(randomTree<NoData, true>(n)).m) k.push_back(e.first < e.second ? e : VP(e.second, e.first)); }
		else for (auto& [e, d] : modelOf(randomTree<NoData>(n)).m) k.push_back(e);
		std::sort(k.begin(), k.end());
		cnt[k]++;
	}
	PBT_CHECK(cnt.size() == all, cnt.size(), " of ", all, " trees occur");
	std::vector<double> obs; for (auto& [k, x] : cnt) obs.push_back(x);
	auto r = stat::chi2(obs, std::vector<double>(all, 1.0 / (double)all), (double)N);
	PBT_CHECK(r.p > stat::ALPHA, "trees are not uniform: chi^2 = ", r.chi, " with ", r.df, " degrees of freedom");
}
PBT_PROP(uniformGraphs, 120, 4000) { // exactly m edges: every edge set is equally likely
	Random::seed(c.bits());
	c.nontrivial();
	Integer n = c.range(2, 4);
	int kind = (int)c.below(4);
	Integer all = kind == 0 ? n * (n - 1) / 2 : kind == 1 ? n * (n - 1) : kind == 2 ? 2 * n : 4 * n, m = c.range(1, std::min<Integer>(all, 3));
	double total = 1; for (Integer i = 0; i < m; i++) total = total * (double)(all - i) / (double)(i + 1);
	PBT_NOTE << "kind " << kind << " n " << n << " m " << m;
	std::map<std::vector<VP>, double> cnt;
	long N = std::max<long>(3000, 100 * (long)total);
	auto take = [&](const auto& mod) { std::vector<VP> k; for (auto& [e, d] : mod.m) k.push_back(e); cnt[k]++; };
	for (long i = 0; i < N; i++) switch (kind) { case 0: take(modelOf(randomGraph<NoData>(n, m))); break; case 1: take(modelOf(randomGraph<NoData, true>(n, m))); break; case 2: take(modelOf(randomBipartite<NoData>(n, (Integer)2, m))); break; default: take(modelOf(randomBipartite<NoData, true>(n, (Integer)2, m))); }
	PBT_CHECK(cnt.size() == (size_t)std::llround(total), cnt.size(), " of ", total, " edge sets occur");
	std::vector<double> obs; for (auto& [k, x] : cnt) obs.push_back(x);
	auto r = stat::chi2(obs, std::vector<double>(obs.size(), 1.0 / (double)obs.size()), (double)N);
	PBT_CHECK(r.p > stat::ALPHA, "edge sets are not uniform: chi^2 = ", r.chi, " with ", r.df, " degrees of freedom");
}
#endif
