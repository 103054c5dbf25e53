// C19: the same script of draws in builds of different compilers, optimisation
// levels, language standards, word sizes (and another standard library).
#include "pbt.h"
#include <map>
#include <memory>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <spawn.h>
#include <poll.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
extern char** environ;

// a running build: scripts in, results out
struct Server {
	std::string name;
	pid_t pid = -1;
	int in = -1, out = -1;
	explicit Server(const std::string& n) : name(n) {}
	~Server() { stop(); }
	void stop() { if (pid > 0) { close(in); close(out); kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); pid = -1; } }
	void start() {
		const char* exe = getenv(("PBT_EXE_" + name).c_str());
		if (!exe) { fprintf(stderr, "harness: no build %s\n", name.c_str()); _exit(90); }
		int a[2], b[2];
		if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) _exit(91);
		posix_spawn_file_actions_t fa;
		posix_spawn_file_actions_init(&fa);
		posix_spawn_file_actions_adddup2(&fa, a[0], 0);
		posix_spawn_file_actions_adddup2(&fa, b[1], 1);
		char* av[] = {const_cast<char*>(exe), nullptr};
		if (posix_spawn(&pid, exe, &fa, nullptr, av, environ)) { fprintf(stderr, "harness: cannot start %s\n", exe); _exit(92); }
		posix_spawn_file_actions_destroy(&fa);
		close(a[0]); close(b[1]);
		in = a[1]; out = b[0];
	}
	std::vector<std::string> ask(pbt::Ctx& c, const std::string& script) {
		if (pid < 0) start();
		std::string all = script + "end\n", got;
		if (all.size() > 60000) { fprintf(stderr, "harness: script too long\n"); _exit(93); }
		signal(SIGPIPE, SIG_IGN);
		bool ok = write(in, all.data(), all.size()) == (ssize_t)all.size();
		char buf[65536];
		while (ok && (got.size() < 4 || got.compare(got.size() - 4, 4, "end\n") != 0 || (got.size() > 4 && got[got.size() - 5] != '\n'))) {
			pollfd p{out, POLLIN, 0};
			if (poll(&p, 1, 120000) <= 0) { stop(); c.fail("the build " + name + " gives no answer within 120 s"); }
			ssize_t k = read(out, buf, sizeof buf);
			if (k <= 0) { ok = false; break; }
			got.append(buf, (size_t)k);
		}
		if (!ok) { int st = 0; waitpid(pid, &st, 0); close(in); close(out); pid = -1; c.fail(pbt::cat("the build ", name, " ended with status ", st)); }
		std::vector<std::string> r;
		std::istringstream s(got);
		for (std::string l; std::getline(s, l);) r.push_back(l);
		r.pop_back();
		return r;
	}
};
static Server& server(const std::string& n) {
	static std::map<std::string, std::unique_ptr<Server>> m;
	static pid_t owner = 0;
	if (owner != getpid()) { for (auto& x : m) x.second.release(); m.clear(); owner = getpid(); } // not the children of the parent
	auto& p = m[n];
	if (!p) p.reset(new Server(n));
	return *p;
}

static std::string num(long double x) { char b[64]; snprintf(b, sizeof b, "%La", x); return b; }
static long double prob(pbt::Ctx& c) {
	switch (c.below(5)) {
		case 0: return c.pick<long double>({0.5L, 0.25L, 0.1L, 0.9L, 1e-3L});
		case 1: return (long double)c.range(1, 1023) / 1024;
		case 2: return std::ldexp(1.0L, -(int)c.range(1, 20));
		case 3: return std::ldexp(1.0L, -(int)c.range(20, 45));
		default: return ((long double)(c.bits() >> 1) + 1) / 9223372036854775810.0L;
	}
}
static long double real(pbt::Ctx& c) {
	switch (c.below(4)) {
		case 0: return 0;
		case 1: return (long double)c.range(-1000, 1000);
		case 2: return std::ldexp((long double)c.range(-1000, 1000), (int)c.range(-60, 60));
		default: return (long double)(int64_t)c.bits() / 1e9L;
	}
}
static std::string list(const std::vector<int64_t>& v) { std::string s = std::to_string(v.size()); for (auto x : v) s += ' ' + std::to_string(x); return s; }
static const char* const ALL[] = {"bit", "integer0", "integer1", "integer2", "real0", "real1", "real2", "discrete", "normal2", "normal4", "exponential1", "exponential3", "geometric1", "geometric3",
	"binomial2", "binomial4", "maximum", "minimum", "minmax", "maximum2", "minimum2", "minmax2", "prime1", "prime2", "select", "shuffle", "rotate", "distinct", "distinct2", "perm", "permCycles", "permFix",
	"multiple", "multiple2", "ordered", "ordered2", "partition", "string", "string2", "bracket", "points", "pointsC", "graph", "degrees", "growing", "convex", "convexC"};
static constexpr size_t NALL = sizeof ALL / sizeof *ALL;

static std::string op(pbt::Ctx& c, const std::string& o) {
	std::ostringstream s;
	s << o;
	auto put = [&](auto x) { s << ' ' << x; };
	auto bounds = [&] { // lower < upper, nearly always
		int64_t a = c.i64(), b = c.i64();
		if (c.below(3) == 0) { a = c.range(-100, 100); b = a + c.range(1, 100); }
		if (a > b) std::swap(a, b);
		put(a); put(b);
	};
	auto small = [&](int64_t lo, int64_t hi) { int64_t x = c.range(lo, hi); put(x); return x; };
	if (o == "integer1") put(c.i64in(0, INT64_MAX));
	else if (o == "integer2") bounds();
	else if (o == "real1") put(num(std::fabs(real(c)) + (c.chance(9, 10) ? 1e-9L : 0)));
	else if (o == "real2") { long double a = real(c), b = real(c); put(num(std::min(a, b))); put(num(std::max(a, b))); }
	else if (o == "normal2") { put(num(real(c))); put(num(std::fabs(real(c)))); }
	else if (o == "normal4") {
		long double m = (long double)c.range(-1000, 1000), d = (long double)c.range(1, 1000) / 8;
		put(num(m - d * (long double)c.range(1, 8))); put(num(m + d * (long double)c.range(1, 8))); put(num(m)); put(num(d));
	}
	else if (o == "exponential1") put(num(std::fabs(real(c)) + (c.chance(9, 10) ? 1e-6L : 0)));
	else if (o == "exponential3") { long double a = real(c), l = prob(c) * 8; put(num(a)); put(num(a + std::max(1 / l, std::fabs(a) / 4))); put(num(l)); }
	else if (o == "geometric1") put(num(prob(c)));
	else if (o == "geometric3") { int64_t a = c.range(-1000, 1000); long double p = prob(c); put(a); put(a + (int64_t)std::min(1e15L, 1 + 1 / p)); put(num(p)); }
	else if (o == "binomial2" || o == "binomial4") {
		int64_t n = c.below(4) == 0 ? c.i64in(0, 1000000000) : c.range(0, 300);
		long double p = c.below(8) ? prob(c) : c.pick<long double>({0, 1});
		if (c.below(6) == 0) { // few successes in very many trials
			n = c.i64in(1000000, INT64_MAX / 1024);
			p = (long double)c.range(1, 900) / 100 / n;
			if (c.coin()) p = 1 - p;
		}
		if (o == "binomial4") { int64_t sd = (int64_t)std::sqrt(n * p * (1 - p)) + 1; put((int64_t)(n * p) - sd); put((int64_t)(n * p) + sd + 1); }
		put(n); put(num(p));
	}
	else if (o == "maximum" || o == "minimum" || o == "minmax") { bounds(); small(o == "minmax" ? -12 : 0, 12); }
	else if (o == "maximum2" || o == "minimum2" || o == "minmax2") { put(c.i64in(1, INT64_MAX)); small(o == "minmax2" ? -12 : 0, 12); }
	else if (o == "prime1") put(c.below(2) ? c.range(0, 1000) : c.i64in(3, INT64_MAX));
	else if (o == "prime2") { int64_t a = c.below(2) ? c.range(0, 1000) : c.i64in(0, INT64_MAX - 200000); put(a); put(a + (a < 1000 ? c.range(1, 50) : c.range(5000, 200000))); }
	else if (o == "select" || o == "shuffle" || o == "rotate") { std::vector<int64_t> v; for (auto k = c.range(1, 20); k > 0; k--) v.push_back(c.range(0, 99)); put(list(v)); }
	else if (o == "distinct") { int64_t n = small(0, 30), a = c.i64in(INT64_MIN / 2, INT64_MAX / 2); put(a); put(a + n + c.range(c.chance(1, 10) ? -1 : 0, 20)); }
	else if (o == "distinct2") { int64_t n = small(0, 30); put(n + c.range(0, 20)); }
	else if (o == "perm") { small(0, 30); put(c.range(-100, 100)); }
	else if (o == "permCycles") { std::vector<int64_t> v; for (auto k = c.range(0, 5); k > 0; k--) v.push_back(c.range(1, 6)); put(list(v)); put(c.range(-9, 9)); }
	else if (o == "permFix") { int64_t n = small(1, 20), off = c.range(-5, 5); std::vector<int64_t> v; for (auto k = c.range(0, 5); k > 0; k--) v.push_back(off + c.range(0, n - 1)); put(list(v)); put(off); }
	else if (o == "multiple" || o == "ordered") { int64_t n = small(0, 25), a = c.i64in(INT64_MIN / 2, INT64_MAX / 2); put(a); put(a + n + c.i64in(1, INT64_MAX / 4)); }
	else if (o == "multiple2" || o == "ordered2") { int64_t n = small(0, 25); put(n + c.range(1, 40)); }
	else if (o == "partition") { int64_t k = c.range(1, 12), m = c.range(-2, 3); put(std::max<int64_t>(1, k * std::max<int64_t>(m, 0) + c.range(0, 50))); put(k); put(m); }
	else if (o == "string") { small(0, 20); put(c.bytes("abcXYZ0189\xc3\xff\x80", (size_t)c.range(1, 12))); }
	else if (o == "string2") small(0, 20);
	else if (o == "bracket") small(0, 30);
	else if (o == "convex" || o == "convexC") { int64_t d = c.range(3, 60), n = c.range(3, std::min<int64_t>(60, 4 * d - 4)); if (c.below(4) == 0) d *= c.range(1, 10000000); put(n); put(d); }
	else if (o == "points" || o == "pointsC") { int64_t n = small(0, 25); put(c.below(3) ? n + c.range(1, 30) : c.i64in(n + 1, 0x1FFFFFFF)); }
	else if (o == "graph") { small(0, 3); int64_t k = small(0, 7), n = small(k == 3 || k == 4 ? 2 : 3, 12); put(c.range(0, k == 3 ? 10 : n * (n - 1) / 2)); put(num(prob(c))); small(0, 5); small(0, 8); }
	else if (o == "degrees") { std::vector<int64_t> v; for (auto k = c.range(2, 10); k > 0; k--) v.push_back(c.range(0, 3)); put(list(v)); put(c.range(0, 10)); }
	else if (o == "growing") { small(0, 12); put(num(prob(c))); }
	s << '\n';
	return s.str();
}
static std::string block(pbt::Ctx& c, size_t ops, bool convex) {
	std::string s;
	for (auto k = c.range(1, (int64_t)ops); k > 0; k--) s += op(c, ALL[c.below(convex ? NALL : NALL - 2)]);
	return s;
}
static std::string seed(pbt::Ctx& c) {
	uint64_t s = c.below(4) == 0 ? c.pick<uint64_t>({0, 1, ~0ull, 1ull << 63, 1ull << 32, 0xFFFFFFFF}) : c.bits();
	return "seed " + std::to_string(s) + "\n";
}
static std::string at(const std::string& script, size_t i) { std::istringstream s(script); std::string l; for (size_t k = 0; k <= i; k++) std::getline(s, l); return l; }

static void compare(pbt::Ctx& c, const std::string& script, const std::vector<std::string>& builds) {
	PBT_NOTE << script;
	auto a = server(builds[0]).ask(c, script);
	for (size_t b = 1; b < builds.size(); b++) {
		auto r = server(builds[b]).ask(c, script);
		PBT_CHECK(r.size() == a.size(), builds[b], " gives ", r.size(), " results, ", builds[0], " gives ", a.size());
		for (size_t i = 0; i < a.size(); i++) {
			if (r[i] == " skipped") break; // draws differ from here on
			PBT_CHECK(r[i] == a[i], "'", at(script, i), "' gives", a[i].substr(0, 400), " in the build ", builds[0], " but", r[i].substr(0, 400), " in the build ", builds[b]);
		}
	}
}
// every operation starts from its own seed, so that one skipped or different
// operation does not hide the others
static std::string seededOps(pbt::Ctx& c, bool convex) {
	std::string s;
	for (auto k = c.range(1, 8); k > 0; k--) { s += seed(c); for (auto m = c.range(1, 3); m > 0; m--) s += op(c, ALL[c.below(convex ? NALL : NALL - 2)]); }
	return s;
}
static void compareEach(pbt::Ctx& c, const std::string& script, const std::vector<std::string>& builds) {
	PBT_NOTE << script;
	auto a = server(builds[0]).ask(c, script);
	for (size_t b = 1; b < builds.size(); b++) {
		auto r = server(builds[b]).ask(c, script);
		PBT_CHECK(r.size() == a.size(), builds[b], " gives ", r.size(), " results, ", builds[0], " gives ", a.size());
		bool skipped = false;
		for (size_t i = 0; i < a.size(); i++) {
			if (a[i] == " ok") skipped = false;
			if (r[i] == " skipped") skipped = true;
			if (skipped) continue;
			PBT_CHECK(r[i] == a[i], "'", at(script, i), "' gives", a[i].substr(0, 400), " in the build ", builds[0], " but", r[i].substr(0, 400), " in the build ", builds[b]);
		}
	}
}

static const std::vector<std::string> BUILDS{"gcc_O1", "gcc_O0_17", "gcc_O3", "clang_O2", "gcc_m32", "clang_m32_17", "gcc_uchar"};
PBT_PROP(builds, 6000, 400000) {
	c.nontrivial();
	compareEach(c, seededOps(c, true), BUILDS);
}
PBT_PROP(sequences, 1500, 100000) {
	c.nontrivial();
	compare(c, seed(c) + block(c, 40, true), BUILDS);
}
// what ran before seeding does not matter
PBT_PROP(reseeding, 3000, 200000) {
	c.nontrivial();
	std::string s = seed(c), b = s + block(c, 10, true), j1 = block(c, 6, true), j2 = c.coin() ? block(c, 6, true) : "";
	if (c.coin()) j1 += seed(c);
	std::string script = j1 + b + j2 + b;
	PBT_NOTE << script;
	auto r = server(c.coin() ? "gcc_O1" : "clang_O2").ask(c, script);
	auto count = [](const std::string& t) { return (size_t)std::count(t.begin(), t.end(), '\n'); };
	size_t first = count(j1), second = first + count(b) + count(j2);
	for (size_t i = 0; i < count(b); i++)
		PBT_CHECK(r[first + i] == r[second + i], "after the same seed '", at(b, i), "' gives", r[first + i].substr(0, 400), " first and", r[second + i].substr(0, 400), " later");
}
// the other random engines
PBT_PROP(enginesAES, 800, 50000) { c.nontrivial(); compareEach(c, seededOps(c, true), {"aes_gcc", "aes_clang_m32"}); }
PBT_PROP(enginesXoshiro, 800, 50000) { c.nontrivial(); compareEach(c, seededOps(c, true), {"xo_gcc", "xo_clang_m32"}); }
// algorithms of the standard library that leave something open may choose differently
PBT_PROP(library, 1500, 100000) { c.nontrivial(); compareEach(c, seededOps(c, false), {"gcc_O1", "gcc_altstd"}); }
PBT_PROP(libraryConvex, 200, 200) { c.nontrivial(); compareEach(c, seed(c) + op(c, c.coin() ? "convex" : "convexC"), {"gcc_O1", "gcc_altstd"}); }
