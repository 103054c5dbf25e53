// Choice-sequence property-based testing engine used by every harness in /verif.
//
// A property is a function void(pbt::Ctx&).  Every random decision of a case is
// drawn from the Ctx, which records it as an integer "choice".  A case is hence
// a pure function of its choice sequence: failures are shrunk by editing that
// sequence, and the sequence is the replay file.
//
// Modes of the resulting binary:
//   run     : sharded random generation (8 processes), seeded by --seed
//   replay  : re-run one recorded choice sequence
//   (PBT_FUZZ) libFuzzer: the fuzzer's bytes are decoded into choices
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Violation { std::string msg; };
struct Discard {};

struct Ctx {
	// --- decisions -------------------------------------------------------
	uint64_t choice(uint64_t n);                 // uniform in [0,n); n==0: all 64 bits
	uint64_t below(uint64_t n) { return choice(n); }
	uint64_t bits() { return choice(0); }
	bool coin() { return choice(2) != 0; }
	bool chance(uint64_t num, uint64_t den) { return choice(den) >= den - num; } // 0 -> false
	int64_t range(int64_t lo, int64_t hi);       // inclusive, shrinks towards 0 or the nearest bound
	int64_t rarely(int64_t lo, int64_t hi, int64_t big); // small(lo, hi), rarely up to big (also next to powers of two)
	int64_t small(int64_t lo, int64_t hi);       // inclusive, biased to small distance from lo and to the ends
	int64_t i64();                               // mixture: small, powers of two +-k, extremes, literals, uniform
	uint64_t literal();                          // an integer literal of the code under test (as a fuzzer's dictionary); recorded by value
	int64_t i64in(int64_t lo, int64_t hi);       // mixture inside [lo,hi] (biased to the bounds)
	size_t weighted(std::initializer_list<unsigned> w);
	template<typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + choice(v.size())); }
	template<typename C> auto pickFrom(const C& v) -> typename C::value_type { return v[choice(v.size())]; }
	std::string bytes(const std::string& alphabet, size_t len);
	int size = 10;                               // grows over a run, 1..100

	// --- bookkeeping -----------------------------------------------------
	void label(const char* l);                   // classify the case
	void label(const std::string& l) { label(l.c_str()); }
	void nontrivial() { nontriv = true; }
	[[noreturn]] void fail(const std::string& msg);
	[[noreturn]] void discard();
	bool verbose = false;
	std::ostringstream log;                      // only filled when verbose

	// --- internals -------------------------------------------------------
	bool nontriv = false;
	uint64_t rng = 0;
	const uint64_t* play = nullptr; size_t playN = 0, pos = 0;
	const uint8_t* fuzz = nullptr; size_t fuzzN = 0, fuzzPos = 0;
	std::vector<std::string> labels;
};

struct Prop {
	const char* name;
	void (*fn)(Ctx&);
	long quick;       // number of cases, quick tier
	long thorough;    // number of cases, thorough tier
};
std::vector<Prop>& registry();
struct Reg { Reg(const char* n, void (*f)(Ctx&), long q, long t) { registry().push_back({n, f, q, t}); } };

template<typename... A> std::string cat(A&&... a) { std::ostringstream o; o.precision(21); ((o << a), ...); return o.str(); }
std::string quote(const std::string& s);
template<typename C> std::string seq(const C& c) { std::ostringstream o; o << '['; bool f = true; for (const auto& x : c) { if (!f) o << ' '; f = false; o << x; } o << ']'; return o.str(); }

int main_(int argc, char** argv);
} // namespace pbt

#define PBT_PROP(name, quick, thorough) \
	static void pbt_prop_##name(pbt::Ctx& c); \
	static pbt::Reg pbt_reg_##name(#name, pbt_prop_##name, quick, thorough); \
	static void pbt_prop_##name(pbt::Ctx& c)

#define PBT_CHECK(cond, ...) do { if (!(cond)) c.fail(pbt::cat("[" #cond "] line ", __LINE__, ": ", __VA_ARGS__)); } while (0)
#define PBT_NOTE if (!c.verbose) {} else c.log
