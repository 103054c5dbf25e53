// C19: executes scripts of draws and prints every result.  Built with several
// compilers, optimisation levels, language standards and word sizes; h_diff.cpp
// compares what the builds print.
#ifndef DIFF_ALT
#include <bits/stdc++.h>
#endif
struct ExitCode { int code; };
#if defined(DIFF_AES)
#include "secure_rng.h"
#elif defined(DIFF_XO)
#include "rng.h"
#endif
namespace Settings {
	[[noreturn]] void exitVerdict(int exitCode) { throw ExitCode{exitCode}; }
#if defined(DIFF_AES)
	using RandomEngine = AES_RNG;
#elif defined(DIFF_XO)
	using RandomEngine = Xoshiro256ss;
#endif
}
#include "validate.h"
#if __cplusplus >= 202002L
#include "graph_gen.h"
#endif
static const bool initialised = (details::initialized(true), true);

using I = Integer;
static std::string out;
static void put(const char* s) { out += s; }
static void put(const std::string& s) { out += ' '; out += s; }
static void put(I x) { out += ' '; out += std::to_string((long long)x); }
static void put(Real x) { char b[64]; snprintf(b, sizeof b, " %La", x); out += b; }
template<typename A, typename B> static void put(const std::pair<A, B>& p) { put(p.first); out += ','; put(p.second); }
template<typename T> static void put(const std::complex<T>& p) { put((I)p.real()); out += ','; put((I)p.imag()); }
template<typename T> static void put(const std::vector<T>& v) { out += " ["; for (const auto& x : v) put(x); out += " ]"; }
#if __cplusplus >= 202002L
template<typename G> static void putGraph(const G& g) { out += " <"; put((I)g.nodeCount()); put((I)g.edgeCount()); for (const auto& e : g.getEdges()) { out += ';'; put(e.from); put(e.to); } out += " >"; }
template<bool D, typename E> static std::conditional_t<D, DiGraph<E>, Graph<E>> graphOf(I kind, I n, I m, Real p) {
	switch (kind) {
		case 0: return randomTree<E, D>(n);
		case 1: return randomGraph<E, D>(n, m);
		case 2: return randomGraph<E, D>(n, p);
		case 3: return randomBipartite<E, D>(n, m / 2, m);
		case 4: return randomBipartite<E, D>(n, n / 2 + 1, p);
		case 5: return cycle<E, D>(n);
		case 6: return completeTree<E, D>(4, 2);
		default: return path<E, D>(n);
	}
}
template<bool D, typename E> static void graphs(I kind, I n, I m, Real p, I then, I k) {
	auto g = graphOf<D, E>(kind, n, m, p);
	putGraph(g);
	switch (then) {
		case 0: break;
		case 1: g.permutate(); putGraph(g); break;
		case 2: g.permutateEdges(); putGraph(g); break;
		case 3: putGraph(g.subgraph(k)); break;
		case 4: { auto h = g; g.permutate(); g.permutate(Random::perm(g.nodeCount())); putGraph(h); putGraph(g); break; }
		case 5: { auto h = graphOf<D, E>(kind, n, m, p); g.combine(h); g.permutateEdges(); putGraph(g); break; }
	}
	put(Random::integer());
}
#endif

static void run(std::istringstream& in) {
	std::string op;
	in >> op;
	auto i = [&] { long long x = 0; in >> x; return (I)x; };
	auto r = [&] { std::string s; in >> s; return (Real)std::strtold(s.c_str(), nullptr); };
	auto w = [&] { std::string s; in >> s; return s; };
	auto list = [&] { std::vector<I> v((size_t)i()); for (auto& x : v) x = i(); return v; };
	// the arguments are read one after the other (never inside one call)
	if (op == "seed") { unsigned long long s = 0; in >> s; Random::seed((UInteger)s); put(" ok"); }
	else if (op == "bit") put((I)Random::bit());
	else if (op == "integer0") put(Random::integer());
	else if (op == "integer1") put(Random::integer(i()));
	else if (op == "integer2") { I a = i(), b = i(); put(Random::integer(a, b)); }
	else if (op == "real0") put(Random::real());
	else if (op == "real1") put(Random::real(r()));
	else if (op == "real2") { Real a = r(), b = r(); put(Random::real(a, b)); }
	else if (op == "discrete") { put(Random::discrete<1, 2, 3>()); put(Random::discrete<0, 5, 0, 0, 1000000007>()); put(Random::discrete<3>()); }
	else if (op == "normal2") { Real a = r(), b = r(); put(Random::normal(a, b)); }
	else if (op == "normal4") { Real a = r(), b = r(), c = r(), d = r(); put(Random::normal(a, b, c, d)); }
	else if (op == "exponential1") put(Random::exponential(r()));
	else if (op == "exponential3") { Real a = r(), b = r(), c = r(); put(Random::exponential(a, b, c)); }
	else if (op == "geometric1") put(Random::geometric(r()));
	else if (op == "geometric3") { I a = i(), b = i(); Real p = r(); put(Random::geometric(a, b, p)); }
	else if (op == "binomial2") { I n = i(); Real p = r(); put(Random::binomial(n, p)); }
	else if (op == "binomial4") { I a = i(), b = i(), n = i(); Real p = r(); put(Random::binomial(a, b, n, p)); }
	else if (op == "maximum") { I a = i(), b = i(), n = i(); put(Random::maximum(a, b, n)); }
	else if (op == "minimum") { I a = i(), b = i(), n = i(); put(Random::minimum(a, b, n)); }
	else if (op == "minmax") { I a = i(), b = i(), n = i(); put(Random::minmax(a, b, n)); }
	else if (op == "maximum2") { I b = i(), n = i(); put(Random::maximum(b, n)); }
	else if (op == "minimum2") { I b = i(), n = i(); put(Random::minimum(b, n)); }
	else if (op == "minmax2") { I b = i(), n = i(); put(Random::minmax(b, n)); }
	else if (op == "prime1") put(Random::prime(i()));
	else if (op == "prime2") { I a = i(), b = i(); put(Random::prime(a, b)); }
	else if (op == "select") {
		std::vector<I> v = list(); const auto& cv = v;
		put(Random::select(v.begin(), v.end())); put(Random::select(v)); put(Random::select(cv));
		I a[] = {5, 6, 7, 8}; const I ca[] = {1, 2, 3};
		put(Random::select(a)); put(Random::select(ca));
		put(Random::select(std::pair<I, I>{1, 2})); put(Random::select(std::complex<I>{3, 4}));
		put(std::string(1, Random::select(std::string_view("abcdefg"))));
		std::deque<I> d(v.begin(), v.end()); put(Random::select(d));
	}
	else if (op == "shuffle") {
		std::vector<I> v = list(); std::deque<I> d(v.begin(), v.end());
		Random::shuffle(v); put(v);
		Random::shuffle(v.begin() + (long)(v.size() / 2), v.end()); put(v);
		Random::shuffle(d); put(std::vector<I>(d.begin(), d.end()));
		std::pair<I, I> p{1, 2}; Random::shuffle(p); put(p);
		std::complex<I> c{1, 2}; Random::shuffle(c); put(c);
		std::string s = "abcdefghijk"; Random::shuffle(s); put(s);
	}
	else if (op == "rotate") { std::vector<I> v = list(); put(Random::rotate(v)); put(v); put(Random::rotate(v.begin(), v.begin() + (long)(v.size() / 2 + 1))); put(v); }
	else if (op == "distinct") { I n = i(), a = i(), b = i(); put(Random::distinct(n, a, b)); }
	else if (op == "distinct2") { I n = i(), b = i(); put(Random::distinct(n, b)); }
	else if (op == "perm") { I n = i(), o = i(); put(Random::perm(n, o)); }
	else if (op == "permCycles") { auto c = list(); I o = i(); put(Random::perm(c, o)); }
	else if (op == "permFix") { I n = i(); auto f = list(); I o = i(); put(Random::perm(n, f, o)); }
	else if (op == "multiple") { I n = i(), a = i(), b = i(); put(Random::multiple(n, a, b)); }
	else if (op == "multiple2") { I n = i(), b = i(); put(Random::multiple(n, b)); }
	else if (op == "ordered") { I n = i(), a = i(), b = i(); put(Random::increasing(n, a, b)); put(Random::decreasing(n, a, b)); put(Random::nonDecreasing(n, a, b)); put(Random::nonIncreasing(n, a, b)); }
	else if (op == "ordered2") { I n = i(), b = i(); put(Random::increasing(n, b)); put(Random::decreasing(n, b)); put(Random::nonDecreasing(n, b)); put(Random::nonIncreasing(n, b)); }
	else if (op == "partition") { I n = i(), k = i(), m = i(); put(Random::partition(n, k, m)); }
	else if (op == "string") { I n = i(); std::string a = w(); put(Random::string(n, a)); put(Random::string(n)); }
	else if (op == "string2") { I n = i(); put(Random::string(n, LOWER)); put(Random::string(n, UPPER)); put(Random::string(n, ALPHA_NUMERIC)); put(Random::string(n, VOWEL)); }
	else if (op == "bracket") { I n = i(); put(Random::bracketSequence(n)); put(Random::bracketSequence(n, '<', '>')); }
	else if (op == "convex") { I n = i(), d = i(); put(Random::convex(n, d)); }
	else if (op == "convexC") { I n = i(), d = i(); put(Random::convex<std::complex<I>>(n, d)); }
	else if (op == "points") { I n = i(), d = i(); put(Random::nonCollinearPoints(n, d)); }
	else if (op == "pointsC") { I n = i(), d = i(); put(Random::nonCollinearPoints<std::complex<I>>(n, d)); }
#if __cplusplus >= 202002L
	else if (op == "graph") {
		I type = i(), kind = i(), n = i(), m = i(); Real p = r(); I then = i(), k = i();
		switch (type) {
			case 0: graphs<false, NoData>(kind, n, m, p, then, k); break;
			case 1: graphs<true, NoData>(kind, n, m, p, then, k); break;
			case 2: graphs<false, I>(kind, n, m, p, then, k); break;
			default: graphs<true, I>(kind, n, m, p, then, k);
		}
	}
	else if (op == "degrees") { auto d = list(); I f = i(); auto g = randomGraph<NoData>(d, f); putGraph(g); put(Random::integer()); }
	else if (op == "growing") { I n = i(); Real p = r(); auto g = randomGrowingGraph(n, p); putGraph(g); put(Random::integer()); }
#else
	else if (op == "graph" || op == "degrees" || op == "growing") put(" skipped");
#endif
	else { fprintf(stderr, "diffprog: unknown operation %s\n", op.c_str()); exit(79); }
}

int main() {
	std::string line;
	while (std::getline(std::cin, line)) {
		if (line == "end") {
			out += "end\n";
			fwrite(out.data(), 1, out.size(), stdout);
			fflush(stdout);
			out.clear();
			continue;
		}
		std::istringstream in(line);
		try { run(in); }
		catch (ExitCode& e) { put(" exit"); put((I)e.code); }
		catch (std::exception& e) { put(" error"); put(std::string(e.what())); }
		out += '\n';
	}
	return 0;
}
