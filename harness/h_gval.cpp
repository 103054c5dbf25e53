// C25 graph_val.h: incremental answers against brute force on the edge list
#include "vh.h"
#include "graph_val.h"
using VP = std::pair<Integer, Integer>;

struct Plan { // a graph to be built edge by edge
	Integer lo = 0, n = 0;
	std::vector<VP> es;
	std::string show(size_t k) const {
		std::ostringstream s; s << "[" << lo << "," << lo + n << "):";
		for (size_t i = 0; i < k; i++) s << " " << es[i].first << "-" << es[i].second;
		return s.str();
	}
};
static Plan plan(pbt::Ctx& c) {
	Plan p;
	switch (c.below(6)) {
		case 0: p.lo = 0; break;
		case 1: p.lo = 1; break;
		case 2: p.lo = c.range(-20, 20); break;
		case 3: p.lo = c.i64in(-1'000'000'000'000'000, 1'000'000'000'000'000); break;
		case 4: p.lo = LLONG_MAX - 200; break;
		default: p.lo = -LLONG_MAX + 100; break;
	}
	p.n = c.chance(1, 20) ? c.range(13, 70) : c.chance(1, 60) ? 0 : c.range(1, 9);
	if (p.n == 0) return p;
	auto any = [&] { return (Integer)c.below((uint64_t)p.n); };
	std::vector<VP> es;
	switch (c.below(9)) {
		case 0: for (Integer i = c.range(0, 3 * p.n); i > 0; i--) es.emplace_back(any(), any()); break;
		case 1: case 2: // tree or forest, edges away from smaller numbers
			for (Integer i = 1; i < p.n; i++) es.emplace_back(c.coin() ? i - 1 : (Integer)c.below((uint64_t)i), i);
			break;
		case 3: // functional graph: trees hanging on cycles
			for (Integer i = 0; i < p.n; i++) es.emplace_back(any(), i);
			break;
		case 4: // cycle
			for (Integer i = 0; i < p.n; i++) es.emplace_back(i, (i + 1) % p.n);
			break;
		case 5: { // bipartite
			Integer k = c.range(0, p.n);
			if (k > 0 && k < p.n) for (Integer i = c.range(0, 2 * p.n); i > 0; i--) es.emplace_back(c.below((uint64_t)k), k + (Integer)c.below((uint64_t)(p.n - k)));
			break;
		}
		case 6: // acyclic
			for (Integer i = c.range(0, 3 * p.n); i > 0; i--) { auto a = any(), b = any(); if (a != b) es.emplace_back(std::min(a, b), std::max(a, b)); }
			break;
		case 7: // two parts: a root alone or a tree, and a cycle
			{ Integer k = c.range(1, p.n);
			for (Integer i = 1; i < k; i++) es.emplace_back(c.below((uint64_t)i), i);
			for (Integer i = k; i < p.n; i++) es.emplace_back(i, i + 1 < p.n ? i + 1 : k); }
			break;
		default: break;
	}
	for (Integer k = c.coin() ? 0 : c.range(1, 3); k > 0; k--) { // disturb
		size_t i = es.empty() ? 0 : (size_t)c.below(es.size());
		switch (c.below(6)) {
			case 0: es.emplace_back(any(), any()); break;
			case 1: if (!es.empty()) es.erase(es.begin() + (long)i); break;
			case 2: if (!es.empty()) es.push_back(es[i]); break;
			case 3: if (!es.empty()) es.emplace_back(es[i].second, es[i].first); break;
			case 4: if (!es.empty()) std::swap(es[i].first, es[i].second); break;
			default: { auto a = any(); es.emplace_back(a, a); }
		}
	}
	if (c.coin()) { // rename
		std::vector<Integer> name((size_t)p.n); std::iota(name.begin(), name.end(), 0);
		for (size_t i = 1; i < name.size(); i++) std::swap(name[i], name[(size_t)c.below(i + 1)]);
		for (auto& e : es) e = {name[(size_t)e.first], name[(size_t)e.second]};
	}
	if (c.coin()) for (size_t i = 1; i < es.size(); i++) std::swap(es[i], es[(size_t)c.below(i + 1)]);
	for (auto& e : es) p.es.emplace_back(p.lo + e.first, p.lo + e.second);
	return p;
}
// brute force: the strongest facts, by searching from every vertex
struct Brute {
	Integer lo, n;
	std::vector<std::vector<Integer>> out;      // reachable in one step
	std::vector<std::vector<char>> reach;       // by a path
	Brute(const Plan& p, size_t k, bool dir) : lo(p.lo), n(p.n), out((size_t)p.n), reach((size_t)p.n) {
		for (size_t i = 0; i < k; i++) {
			size_t a = (size_t)(p.es[i].first - lo), b = (size_t)(p.es[i].second - lo);
			out[a].push_back((Integer)b); if (!dir) out[b].push_back((Integer)a);
		}
		for (size_t s = 0; s < (size_t)n; s++) {
			reach[s].assign((size_t)n, 0); std::vector<size_t> q{s}; reach[s][s] = 1;
			for (size_t i = 0; i < q.size(); i++) for (auto y : out[q[i]]) if (!reach[s][(size_t)y]) { reach[s][(size_t)y] = 1; q.push_back((size_t)y); }
		}
	}
	Integer components() const { Integer r = 0; for (size_t i = 0; i < (size_t)n; i++) { bool first = true; for (size_t j = 0; j < i; j++) if (reach[i][j]) first = false; r += first; } return r; }
};
template<typename G> static void common(pbt::Ctx& c, const Plan& p, size_t k, const G& g, bool dir, const std::string& when) {
	PBT_CHECK(g.size() == (size_t)p.n && g.nodeCount() == p.n && g.edgeCount() == (Integer)k, when, ": counts ", g.size(), " ", g.nodeCount(), " ", g.edgeCount());
	std::map<VP, Integer> cnt; bool loop = false, multi = false;
	std::map<Integer, std::set<Integer>> outs, ins;
	for (size_t i = 0; i < k; i++) {
		auto [a, b] = p.es[i];
		if (!dir && a > b) std::swap(a, b);
		loop |= a == b; multi |= ++cnt[{a, b}] > 1;
		outs[a].insert(b); ins[b].insert(a); if (!dir) { outs[b].insert(a); ins[a].insert(b); }
	}
	auto sl = g.hasSelfloop();
	PBT_CHECK(sl.has_value() == loop, when, ": hasSelfloop is ", sl.has_value());
	PBT_CHECK(!sl || cnt.count({*sl, *sl}), when, ": ", sl.value_or(0), " has no self loop");
	auto me = g.hasMultiedge();
	PBT_CHECK(me.has_value() == multi, when, ": hasMultiedge is ", me.has_value());
	if (me) { auto e = *me; if (!dir && e.first > e.second) std::swap(e.first, e.second); PBT_CHECK(cnt[e] > 1, when, ": edge ", e.first, "-", e.second, " does not occur twice"); }
	for (Integer i = 0; i < p.n; i++) {
		Integer a = p.lo + i;
		PBT_CHECK(g[a] == outs[a], when, ": neighbours of ", a, " are ", pbt::seq(g[a]), " instead of ", pbt::seq(outs[a]));
		if constexpr (std::is_same_v<G, Graph>) PBT_CHECK(g.degree(a) == (Integer)outs[a].size(), when, ": degree of ", a, " is ", g.degree(a));
		else {
			PBT_CHECK(g.inEdges(a) == ins[a], when, ": inEdges of ", a, " are ", pbt::seq(g.inEdges(a)), " instead of ", pbt::seq(ins[a]));
			PBT_CHECK(g.outDegree(a) == (Integer)outs[a].size() && g.inDegree(a) == (Integer)ins[a].size(), when, ": degrees of ", a, " are ", g.outDegree(a), " ", g.inDegree(a));
		}
	}
	if (c.chance(1, 10)) { // asked of a temporary
		Integer a = p.lo + (Integer)c.below((uint64_t)p.n);
		PBT_CHECK(G(g)[a] == outs[a], when, ": neighbours of ", a, " in a temporary copy");
		if constexpr (std::is_same_v<G, DiGraph>) PBT_CHECK(G(g).inEdges(a) == ins[a], when, ": inEdges of ", a, " in a temporary copy");
	}
	for (int t = 0; t < 12; t++) {
		Integer a = p.lo + (Integer)c.below((uint64_t)p.n), b = p.lo + (Integer)c.below((uint64_t)p.n);
		bool e = outs[a].count(b) > 0, r = outs[b].count(a) > 0;
		PBT_CHECK(g.hasEdge(a, b) == e, when, ": hasEdge(", a, ",", b, ") is ", !e);
		if constexpr (std::is_same_v<G, DiGraph>) PBT_CHECK(g.hasReverse(a, b) == r, when, ": hasReverse(", a, ",", b, ") is ", !r);
	}
}
template<typename G> static G construct(pbt::Ctx& c, const Plan& p) { return p.lo == 0 && c.coin() ? G(p.n) : G(p.lo, p.lo + p.n); }
// calls f on the graph after some of the steps, also on copies that go on independently
template<typename G, typename F> static void history(pbt::Ctx& c, const Plan& p, F&& f) {
	G g = construct<G>(c, p);
	bool every = c.coin();
	std::optional<G> old; size_t oldAt = 0;
	for (size_t k = 0;; k++) {
		if (every || k == p.es.size() || c.below(4) == 0) f(k, g);
		if (k == p.es.size()) break;
		if (!old && c.below(8) == 0) { old = g; oldAt = k; }
		g.addEdge(p.es[k].first, p.es[k].second);
	}
	if (old) {
		f(oldAt, *old);
		if (c.coin()) { G moved = std::move(*old); for (size_t k = oldAt; k < p.es.size(); k++) moved.addEdge(p.es[k].first, p.es[k].second); f(p.es.size(), moved); }
		f(p.es.size(), g);
	}
}
PBT_PROP(undirected, 30000, 1000000) {
	Plan p = plan(c);
	if (p.n > 1 && p.es.size() > 1) c.nontrivial();
	PBT_NOTE << "graph " << p.show(p.es.size()) << "\n";
	history<Graph>(c, p, [&](size_t k, Graph& g) {
		std::string when = c.verbose ? "graph " + p.show(k) : pbt::cat("after edge ", k);
		if (p.n == 0) { PBT_CHECK(g.nodeCount() == 0 && g.edgeCount() == 0 && g.isForest() && g.isBipartite() && !g.hasSelfloop() && !g.hasMultiedge(), "empty graph"); return; }
		common(c, p, k, g, false, when);
		Brute b(p, k, false);
		Integer comps = b.components();
		bool forest = (Integer)k == p.n - comps; // a forest iff #edges = #vertices - #components
		PBT_CHECK(g.isConnected() == (comps == 1), when, ": isConnected is ", g.isConnected());
		PBT_CHECK(g.isForest() == forest, when, ": isForest is ", g.isForest());
		PBT_CHECK(g.isTree() == (forest && comps == 1), when, ": isTree is ", g.isTree());
		std::vector<int> col((size_t)p.n, -1); bool bip = true;
		std::function<void(size_t, int)> paint = [&](size_t v, int x) { col[v] = x; for (auto y : b.out[v]) { if (col[(size_t)y] < 0) paint((size_t)y, 1 - x); else if (col[(size_t)y] == x) bip = false; } };
		for (size_t v = 0; v < (size_t)p.n; v++) if (col[v] < 0) paint(v, 0);
		PBT_CHECK(g.isBipartite() == bip, when, ": isBipartite is ", g.isBipartite());
		if (bip) c.label("bipartite"); if (forest) c.label("forest"); if (comps == 1) c.label("connected");
		const Graph& cg = g;
		for (int t = 0; t < 12; t++) {
			Integer x = (Integer)c.below((uint64_t)p.n), y = (Integer)c.below((uint64_t)p.n);
			PBT_CHECK(cg.areConnected(p.lo + x, p.lo + y) == (bool)b.reach[(size_t)x][(size_t)y], when, ": areConnected(", p.lo + x, ",", p.lo + y, ")");
		}
	});
}
PBT_PROP(directed, 30000, 1000000) {
	Plan p = plan(c);
	if (p.n > 1 && p.es.size() > 1) c.nontrivial();
	PBT_NOTE << "digraph " << p.show(p.es.size()) << "\n";
	history<DiGraph>(c, p, [&](size_t k, DiGraph& g) {
		std::string when = c.verbose ? "digraph " + p.show(k) : pbt::cat("after edge ", k);
		if (p.n == 0) { PBT_CHECK(g.nodeCount() == 0 && g.edgeCount() == 0 && !g.hasSelfloop() && !g.hasMultiedge() && g.isDAG() && g.isDAG()->empty(), "empty graph"); return; }
		common(c, p, k, g, true, when);
		Brute b(p, k, true);
		bool dag = true;
		for (size_t i = 0; i < k; i++) if (b.reach[(size_t)(p.es[i].second - p.lo)][(size_t)(p.es[i].first - p.lo)]) dag = false;
		auto order = std::as_const(g).isDAG();
		PBT_CHECK(order.has_value() == dag, when, ": isDAG is ", order.has_value());
		if (order) {
			c.label("dag");
			std::map<Integer, size_t> at;
			for (size_t i = 0; i < order->size(); i++) at[(*order)[i]] = i;
			PBT_CHECK(order->size() == (size_t)p.n && at.size() == (size_t)p.n && at.begin()->first == p.lo && at.rbegin()->first == p.lo + p.n - 1, when, ": order is ", pbt::seq(*order));
			for (size_t i = 0; i < k; i++) PBT_CHECK(at[p.es[i].first] < at[p.es[i].second], when, ": order ", pbt::seq(*order), " contradicts ", p.es[i].first, "-", p.es[i].second);
		}
		std::optional<Integer> root; // of a rooted tree: n-1 edges and everything is reached from it
		if ((Integer)k == p.n - 1) for (Integer r = 0; r < p.n; r++) if (std::count(b.reach[(size_t)r].begin(), b.reach[(size_t)r].end(), 1) == p.n) root = p.lo + r;
		auto tree = std::as_const(g).isTree();
		PBT_CHECK(tree == root, when, ": isTree is ", tree ? std::to_string(*tree) : "none", " instead of ", root ? std::to_string(*root) : "none");
		if (root) c.label("tree");
	});
}
PBT_PROP(unionFind, 20000, 500000) {
	Integer n = c.chance(1, 10) ? c.range(10, 60) : c.range(1, 9);
	UnionFind uf(n);
	std::vector<Integer> col((size_t)n); std::iota(col.begin(), col.end(), 0);
	if (n > 2) c.nontrivial();
	for (Integer k = c.range(0, 2 * n); k > 0; k--) {
		Integer a = (Integer)c.below((uint64_t)n), b = (Integer)c.below((uint64_t)n), x = col[(size_t)a], y = col[(size_t)b];
		PBT_NOTE << a << "+" << b << " ";
		PBT_CHECK(uf.unionSets(a, b) == (x != y), "unionSets(", a, ",", b, ")");
		for (auto& z : col) if (z == y) z = x;
		const UnionFind& cu = uf;
		for (Integer i = 0; i < n; i++) {
			Integer r = cu.findSet(i);
			PBT_CHECK(r >= 0 && r < n && col[(size_t)r] == col[(size_t)i] && cu.findSet(r) == r, "findSet(", i, ") is ", r);
			Integer j = (Integer)c.below((uint64_t)n);
			PBT_CHECK(cu.connected(i, j) == (col[(size_t)i] == col[(size_t)j]) && (cu.findSet(j) == r) == (col[(size_t)i] == col[(size_t)j]), "connected(", i, ",", j, ")");
		}
	}
}
// large graphs of known shape: nothing may depend on the size (depth of recursions, width of counters)
PBT_PROP(largeGraphs, 12, 300) {
	c.nontrivial();
	uint64_t s = c.bits();
	auto rnd = [&](Integer n) { s = s * 6364136223846793005u + 1442695040888963407u; return (Integer)((s >> 20) % (uint64_t)n); };
	Integer n = c.range(20000, c.coin() ? 70000 : 200000), lo = c.pick<Integer>({0, 1, -1000000, 1'000'000'000'000});
	int shape = (int)c.below(6), orderOf = (int)c.below(4);
	std::vector<VP> es; // a tree with root 0
	for (Integer i = 1; i < n; i++) es.emplace_back(shape == 0 ? i - 1 : shape == 1 ? 0 : shape == 2 ? (i - 1) / 2 : shape == 3 ? rnd(i) : shape == 4 ? std::max<Integer>(0, i - 1 - rnd(3)) : i % 2 ? i - 1 : std::max<Integer>(0, i - 2), i);
	if (orderOf == 1) std::reverse(es.begin(), es.end());
	if (orderOf == 2) for (size_t i = es.size(); i > 1; i--) std::swap(es[i - 1], es[(size_t)rnd((Integer)i)]);
	if (orderOf == 3) for (size_t i = 0; i + 1 < es.size() - i; i += 2) std::swap(es[i], es[es.size() - 1 - i]);
	std::vector<Integer> label((size_t)n); std::iota(label.begin(), label.end(), lo);
	bool mixed = c.coin();
	if (mixed) for (size_t i = (size_t)n; i > 1; i--) std::swap(label[i - 1], label[(size_t)rnd((Integer)i)]);
	bool flip = c.coin(); // the other end first
	std::string what = pbt::cat("tree of shape ", shape, " with ", n, " vertices, order ", orderOf, mixed ? ", mixed" : "", flip ? ", towards the root" : "");
	PBT_NOTE << what << "\n";
	std::vector<Integer> col((size_t)n);
	for (Integer i = 1; i < n; i++) col[(size_t)i] = -1;
	{ std::vector<Integer> par((size_t)n); for (auto [a, b] : es) par[(size_t)b] = a; for (Integer i = 1; i < n; i++) col[(size_t)i] = 1 - col[(size_t)par[(size_t)i]]; }
	auto L = [&](Integer v) { return label[(size_t)v]; };
	if (c.coin()) {
		Graph g(lo, lo + n);
		size_t gap = c.coin() ? es.size() : (size_t)rnd((Integer)es.size()); // this edge is added last
		auto add = [&](VP e) { if (flip) g.addEdge(L(e.second), L(e.first)); else g.addEdge(L(e.first), L(e.second)); };
		for (size_t i = 0; i < es.size(); i++) if (i != gap) add(es[i]);
		if (gap < es.size()) {
			PBT_CHECK(!g.isConnected() && g.isForest() && !g.isTree() && g.isBipartite(), what, " without an edge: connected ", g.isConnected(), " forest ", g.isForest(), " bipartite ", g.isBipartite());
			PBT_CHECK(!g.areConnected(L(es[gap].first), L(es[gap].second)), what, ": ends of the missing edge are connected");
			add(es[gap]);
		}
		PBT_CHECK(g.isConnected() && g.isForest() && g.isTree() && g.isBipartite(), what, ": connected ", g.isConnected(), " forest ", g.isForest(), " bipartite ", g.isBipartite());
		PBT_CHECK(g.nodeCount() == n && g.edgeCount() == n - 1, what, ": sizes");
		for (int i = 0; i < 50; i++) PBT_CHECK(g.areConnected(L(rnd(n)), L(rnd(n))), what, ": not connected");
		Integer sum = 0;
		for (Integer v = 0; v < n; v++) sum += g.degree(L(v));
		PBT_CHECK(sum == 2 * (n - 1), what, ": degrees");
		if (shape == 1) PBT_CHECK(g.degree(L(0)) == n - 1, what, ": degree of the center ", g.degree(L(0)));
		Integer a = rnd(n), b = rnd(n);
		if (a != b && !g.hasEdge(L(a), L(b))) {
			bool odd = col[(size_t)a] == col[(size_t)b];
			g.addEdge(L(a), L(b));
			PBT_CHECK(g.isConnected() && !g.isForest() && !g.isTree() && g.isBipartite() == !odd && !g.hasSelfloop() && !g.hasMultiedge(), what, " with another edge");
		}
	} else {
		DiGraph g(lo, lo + n);
		for (auto [a, b] : es) { if (flip) g.addEdge(L(b), L(a)); else g.addEdge(L(a), L(b)); }
		auto judge = [&] {
			auto o = g.isDAG();
			PBT_CHECK(o && (Integer)o->size() == n, what, ": no topological order");
			std::vector<Integer> at((size_t)n, -1);
			for (size_t i = 0; i < o->size(); i++) at[(size_t)((*o)[i] - lo)] = (Integer)i;
			for (auto [a, b] : es) PBT_CHECK((at[(size_t)(L(a) - lo)] < at[(size_t)(L(b) - lo)]) != flip && at[(size_t)(L(a) - lo)] >= 0, what, ": order contradicts an edge");
		};
		judge();
		Integer leaves = 0; for (Integer v = 0; v < n; v++) leaves += g.inDegree(L(v)) == 0;
		auto t = g.isTree();
		std::optional<Integer> want; if (!flip) want = L(0); else if (shape == 0) want = L(n - 1);
		PBT_CHECK(t == want, what, ": isTree is ", t ? std::to_string(*t) : "none", " instead of ", want ? std::to_string(*want) : "none", ", ", leaves, " vertices without incoming edges");
		if (c.coin()) { // back edge
			auto [a, b] = es[(size_t)rnd((Integer)es.size())];
			if (flip) g.addEdge(L(a), L(b)); else g.addEdge(L(b), L(a));
			PBT_CHECK(!g.isDAG() && !g.isTree() && !g.hasMultiedge(), what, " with the reverse of an edge");
		}
	}
}
