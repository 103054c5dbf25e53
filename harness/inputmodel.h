// Reference model of the documented token reader, written on a plain string
// with an index; shared by C01 (token reading), C04 (strict reals), C05
// (diagnostics) and C02 (programs).
#pragma once
#include "vh.h"
#include <unistd.h>
#include <cmath>
#include <regex>

namespace im {

enum class Op { Str, StrLen, StrPat, StrPatLen, Int, IntRange, Real, RealRange, Strict, Strs, StrsLen, StrsPat, StrsPatLen, Ints, IntsRange, Reals, RealsRange, Stricts,
	Space, Newline, Eof, NotEof, ExpStr, ExpInt, ExpReal };
static const char* const opName[] = {"string", "string(len)", "string(pattern)", "string(pattern,len)", "integer", "integer(range)", "real", "real(range)", "realStrict",
	"strings", "strings(len)", "strings(pattern)", "strings(pattern,len)", "integers", "integers(range)", "reals", "reals(range)", "realsStrict",
	"space", "newline", "eof", "noteof", "expectString", "expectInt", "expectReal"};

struct Call {
	Op op = Op::Str;
	Integer lo = 0, hi = 0;         // integer or length range
	Real rlo = 0, rhi = 0;          // real range / expected real in rlo
	Integer minD = 0, maxD = 0;
	int pat = 0;
	Integer count = 0;
	char sep = ' ';
	bool defaultSep = false;
	std::string exp;
	bool vec() const { return op >= Op::Strs && op <= Op::Stricts; }
	std::string show() const {
		std::ostringstream o; o.precision(21);
		o << opName[(int)op];
		switch (op) {
			case Op::StrLen: case Op::IntRange: case Op::StrsLen: case Op::IntsRange: o << "[" << lo << "," << hi << ")"; break;
			case Op::StrPat: case Op::StrsPat: o << " #" << pat; break;
			case Op::StrPatLen: case Op::StrsPatLen: o << " #" << pat << " [" << lo << "," << hi << ")"; break;
			case Op::RealRange: case Op::RealsRange: o << "[" << rlo << "," << rhi << ")"; break;
			case Op::Strict: case Op::Stricts: o << "[" << rlo << "," << rhi << ") decimals [" << minD << "," << maxD << ")"; break;
			case Op::ExpStr: o << " " << pbt::quote(exp); break;
			case Op::ExpInt: o << " " << lo; break;
			case Op::ExpReal: o << " " << rlo; break;
			default: break;
		}
		if (vec()) o << " x" << count << " sep " << (sep == ' ' ? "space" : "newline");
		return o.str();
	}
};

static char fold(char c) { // the case tokens of insensitive streams get
	if (H_LOWER) return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c;
	return c >= 'a' && c <= 'z' ? (char)(c - 32) : c;
}
struct Pattern { const char* text; std::vector<std::string> examples; };
static const std::vector<Pattern> patterns = {
	{"[a-z]+", {"a", "abc", "zzzzzz", "hello"}},
	{"(ab)*", {"ab", "abab", "ababababab"}},
	{"yes|no", {"yes", "no"}},
	{"[01]{1,5}", {"0", "1", "01101", "11111"}},
	{".*", {"x", "#!", "A-b"}},
	{"[A-Z][a-z]*", {"A", "Abc", "Zz"}},
	{"[a-zA-Z0-9_.-]+", {"a.b", "A_9", "-", "0"}},
};
static const std::regex& patternRegex(int i) {
	static std::vector<std::regex> r = [] { std::vector<std::regex> v; for (auto& p : patterns) v.emplace_back(p.text); return v; }();
	return r[(size_t)i];
}

inline bool ws(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
inline bool graph(char c) { return c > 32 && c < 127; }
inline bool dig(char c) { return c >= '0' && c <= '9'; }

// --- independent token grammars -------------------------------------------
inline bool intToken(const std::string& s, Integer& out) { // true: grammar matches and fits
	if (s == "0") { out = 0; return true; }
	size_t i = 0; bool neg = false;
	if (i < s.size() && s[i] == '-') { neg = true; i++; }
	if (i >= s.size() || s[i] < '1' || s[i] > '9') return false;
	unsigned __int128 v = 0, cap = (unsigned __int128)1 << 64;
	for (; i < s.size(); i++) { if (!dig(s[i])) return false; v = v * 10 + (unsigned)(s[i] - '0'); if (v > cap) v = cap; }
	if (v > ((unsigned __int128)1 << 63) - (neg ? 0 : 1)) return false;
	out = neg ? (Integer)(0 - (uint64_t)v) : (Integer)v;
	return true;
}
inline bool realShape(const std::string& s) {
	size_t i = 0, d = 0;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
	while (i < s.size() && dig(s[i])) { i++; d++; }
	if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && dig(s[i])) { i++; d++; } }
	if (d == 0) return false;
	if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
		i++;
		if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
		size_t e = 0;
		while (i < s.size() && dig(s[i])) { i++; e++; }
		if (!e) return false;
	}
	return i == s.size();
}
// -?(0|[1-9][0-9]*)(.[0-9]*)?
inline bool strictShape(const std::string& s, Integer& decimals) {
	size_t i = 0;
	if (i < s.size() && s[i] == '-') i++;
	if (i >= s.size() || !dig(s[i])) return false;
	if (s[i] == '0') i++;
	else while (i < s.size() && dig(s[i])) i++;
	decimals = 0;
	if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && dig(s[i])) { i++; decimals++; } }
	return i == s.size();
}
// 1 yes, 0 no, -1 the value is at the edge of what a Real can hold (either is fine)
inline int realValue(const std::string& s, Real& v) {
	v = std::strtold(s.c_str(), nullptr);
	size_t nz = s.find_first_of("123456789"), ex = s.find_first_of("eE");
	bool zero = nz == std::string::npos || nz > ex;
	if (zero) return 1;
	if (std::isfinite(v) && std::abs(v) > 1e-4900L && std::abs(v) < 1e4900L) return 1;
	return -1;
}
// equality up to tolerance: 1 equal, 0 different, -1 too close to the threshold to call
inline int closeTo(Real given, Real expected, Real abst, Real relt) {
	if (std::isnan(given) || std::isnan(expected)) return std::isnan(given) && std::isnan(expected);
	if (std::isinf(given) || std::isinf(expected)) return std::isinf(given) && std::isinf(expected) && std::signbit(given) == std::signbit(expected);
	if (given == expected) return 1;
	Real diff = std::abs(given - expected);
	auto cmp = [](Real a, Real b) { // a <= b, three valued
		if (a == b) return a == 0 ? 1 : -1;
		Real slack = 1e-15L * std::max(a, b);
		if (std::abs(a - b) <= slack) return -1;
		return a < b ? 1 : 0;
	};
	int x = cmp(diff, abst);
	if (x == 1) return 1;
	Real scaled = relt * std::abs(expected);
	int y = expected == 0 ? 0 : (std::isinf(diff) || std::isinf(scaled)) ? -1 : (scaled == 0 && relt != 0) ? -1 : cmp(diff, scaled);
	if (y == 1) return 1;
	if (x == -1 || y == -1) return -1;
	return 0;
}

struct Fail {};         // the stream must end the program with its verdict
struct Maybe {};        // outcome not fixed by the documentation: stop comparing
struct Model {
	std::string in;
	size_t pos = 0;
	bool space, casing;
	Real abst, relt;
	std::vector<std::string> out;   // observed values
	// diagnostics
	size_t tokStart = 0, tokEnd = 0;
	size_t need = 0;                // characters (the end counts as one) that had to be looked at so far

	void skip() { while (pos < in.size() && ws(in[pos])) pos++; }
	void noteof() { if (!space) skip(); need = std::max(need, pos + 1); if (pos >= in.size()) { tokStart = tokEnd = pos; throw Fail{}; } }
	std::string token() {
		noteof();
		if (space && !graph(in[pos])) { tokStart = pos; tokEnd = ++pos; throw Fail{}; }
		tokStart = pos;
		std::string s;
		while (pos < in.size() && !ws(in[pos])) s += in[pos++];
		tokEnd = pos;
		need = std::max(need, pos + 1);
		if (!casing) for (char& c : s) c = fold(c);
		return s;
	}
	void one(char ch) { if (!space) return; noteof(); tokStart = pos; char g = in[pos++]; tokEnd = pos; if (g != ch) throw Fail{}; }
	void sep(const Call& c) { one(c.sep); }
	std::string str(const Call& c, bool len, bool pat) {
		std::string t = token();
		if (len && ((Integer)t.size() < c.lo || (Integer)t.size() >= c.hi)) throw Fail{};
		if (pat && !std::regex_match(t, patternRegex(c.pat))) throw Fail{};
		return t;
	}
	Integer integer(const Call& c, bool range) {
		std::string t = token();
		Integer v;
		if (!intToken(t, v)) throw Fail{};
		if (range && (v < c.lo || v >= c.hi)) throw Fail{};
		return v;
	}
	Real real(const Call& c, bool range) {
		std::string t = token();
		if (!realShape(t)) throw Fail{};
		Real v;
		if (realValue(t, v) < 0) throw Maybe{};
		if (range) {
			int a = closeTo(v, c.rlo, abst, relt), b = closeTo(v, c.rhi, abst, relt);
			if (a == 1 || b == 1 || (v >= c.rlo && v < c.rhi)) return v;
			if (a == -1 || b == -1) throw Maybe{};
			throw Fail{};
		}
		return v;
	}
	Real strict(const Call& c) {
		std::string t = token();
		Integer d;
		if (!strictShape(t, d)) throw Fail{};
		if (d < c.minD || d >= c.maxD) throw Fail{};
		Real v;
		if (realValue(t, v) < 0) throw Maybe{};
		if (!(v >= c.rlo && v < c.rhi)) throw Fail{};
		return v;
	}
	static std::string R(Real v) { char b[64]; snprintf(b, sizeof b, "%La", v); return b; }
	void emit(const std::string& s) { out.push_back("s" + s); }
	void emit(Integer v) { out.push_back("i" + std::to_string(v)); }
	void emit(Real v) { out.push_back("r" + R(v)); }
	void run(const Call& c) {
		auto many = [&](auto&& f) { // nothing of a vector is observable if it fails part-way
			auto keep = out;
			std::vector<std::string> got;
			for (Integer i = 0; i < c.count; i++) { auto v = f(); emit(v); if (i + 1 < c.count) { try { sep(c); } catch (...) { out = keep; throw; } } }
		};
		auto guarded = [&](auto&& f) { auto keep = out; try { many(f); } catch (...) { out = keep; throw; } };
		switch (c.op) {
			case Op::Str: emit(str(c, false, false)); break;
			case Op::StrLen: emit(str(c, true, false)); break;
			case Op::StrPat: emit(str(c, false, true)); break;
			case Op::StrPatLen: emit(str(c, true, true)); break;
			case Op::Int: emit(integer(c, false)); break;
			case Op::IntRange: emit(integer(c, true)); break;
			case Op::Real: emit(real(c, false)); break;
			case Op::RealRange: emit(real(c, true)); break;
			case Op::Strict: emit(strict(c)); break;
			case Op::Strs: guarded([&] { return str(c, false, false); }); break;
			case Op::StrsLen: guarded([&] { return str(c, true, false); }); break;
			case Op::StrsPat: guarded([&] { return str(c, false, true); }); break;
			case Op::StrsPatLen: guarded([&] { return str(c, true, true); }); break;
			case Op::Ints: guarded([&] { return integer(c, false); }); break;
			case Op::IntsRange: guarded([&] { return integer(c, true); }); break;
			case Op::Reals: guarded([&] { return real(c, false); }); break;
			case Op::RealsRange: guarded([&] { return real(c, true); }); break;
			case Op::Stricts: guarded([&] { return strict(c); }); break;
			case Op::Space: one(' '); break;
			case Op::Newline: one('\n'); break;
			case Op::Eof: if (!space) skip(); need = std::max(need, pos + 1); if (pos < in.size()) { tokStart = pos; tokEnd = pos + 1; throw Fail{}; } break;
			case Op::NotEof: noteof(); break;
			case Op::ExpStr: {
				std::string t = token(), e = c.exp;
				if (!casing) for (char& x : e) x = fold(x);
				if (t != e) throw Fail{};
				break;
			}
			case Op::ExpInt: if (integer(c, false) != c.lo) throw Fail{}; break;
			case Op::ExpReal: {
				Real v = real(c, false);
				int e = closeTo(v, c.rlo, abst, relt);
				if (e == 0) throw Fail{};
				if (e < 0) throw Maybe{};
				break;
			}
		}
	}
};

// --- the real thing ----------------------------------------------------------
inline void apply(InputStream& s, const Call& c, std::vector<std::string>& out) {
	auto es = [&](const std::string& v) { out.push_back("s" + v); };
	auto ei = [&](Integer v) { out.push_back("i" + std::to_string(v)); };
	auto er = [&](Real v) { out.push_back("r" + Model::R(v)); };
	auto all = [&](const auto& v, auto&& f) { for (const auto& x : v) f(x); };
	const std::regex& re = patternRegex(c.pat);
	switch (c.op) {
		case Op::Str: es(s.string()); break;
		case Op::StrLen: es(s.string(c.lo, c.hi)); break;
		case Op::StrPat: es(s.string(re)); break;
		case Op::StrPatLen: es(s.string(re, c.lo, c.hi)); break;
		case Op::Int: ei(s.integer()); break;
		case Op::IntRange: ei(s.integer(c.lo, c.hi)); break;
		case Op::Real: er(s.real()); break;
		case Op::RealRange: er(s.real(c.rlo, c.rhi)); break;
		case Op::Strict: er(s.realStrict(c.rlo, c.rhi, c.minD, c.maxD)); break;
		case Op::Strs: all(c.defaultSep ? s.strings(c.count) : s.strings(c.count, c.sep), es); break;
		case Op::StrsLen: all(c.defaultSep ? s.strings(c.lo, c.hi, c.count) : s.strings(c.lo, c.hi, c.count, c.sep), es); break;
		case Op::StrsPat: all(c.defaultSep ? s.strings(re, c.count) : s.strings(re, c.count, c.sep), es); break;
		case Op::StrsPatLen: all(c.defaultSep ? s.strings(re, c.lo, c.hi, c.count) : s.strings(re, c.lo, c.hi, c.count, c.sep), es); break;
		case Op::Ints: all(c.defaultSep ? s.integers(c.count) : s.integers(c.count, c.sep), ei); break;
		case Op::IntsRange: all(c.defaultSep ? s.integers(c.lo, c.hi, c.count) : s.integers(c.lo, c.hi, c.count, c.sep), ei); break;
		case Op::Reals: all(c.defaultSep ? s.reals(c.count) : s.reals(c.count, c.sep), er); break;
		case Op::RealsRange: all(c.defaultSep ? s.reals(c.rlo, c.rhi, c.count) : s.reals(c.rlo, c.rhi, c.count, c.sep), er); break;
		case Op::Stricts: all(c.defaultSep ? s.realsStrict(c.rlo, c.rhi, c.minD, c.maxD, c.count) : s.realsStrict(c.rlo, c.rhi, c.minD, c.maxD, c.count, c.sep), er); break;
		case Op::Space: s.space(); break;
		case Op::Newline: s.newline(); break;
		case Op::Eof: s.eof(); break;
		case Op::NotEof: s.noteof(); break;
		case Op::ExpStr: s.expectString(c.exp); break;
		case Op::ExpInt: s.expectInt(c.lo); break;
		case Op::ExpReal: s.expectReal(c.rlo); break;
	}
}

// --- generation: calls, a document that conforms to them, then disturbances ----
inline std::string genWord(pbt::Ctx& c, size_t maxLen = 12) {
	static const std::string sets[] = {"ab", "abcdefghijklmnopqrstuvwxyz", "aAbBzZ09", "!#$%&'()*+,-./09:;<=>?@AZ[\\]^_`az{|}~"};
	return c.bytes(sets[c.below(4)], (size_t)c.small(1, (Integer)maxLen));
}
inline std::string genInt(pbt::Ctx& c, Integer lo, Integer hi) { // mostly in [lo,hi), often at its ends
	switch (c.weighted({8, 1, 1, 1, 1})) {
		case 0: return std::to_string(lo < hi ? c.i64in(lo, hi - 1) : lo);
		case 1: return std::to_string(hi);
		case 2: return lo > INT64_MIN ? std::to_string(lo - 1) : "-9223372036854775809";
		case 3: return c.pick<std::string>({"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999999"});
		default: return c.pick<std::string>({"-0", "+1", "01", "00", "-01", "1.0", "1e3", "", "0x1", "-", "+", "--1", "1_0", "0"});
	}
}
inline std::string decimal(pbt::Ctx& c, Real v, int digits) {
	char b[6000];
	snprintf(b, sizeof b, "%.*Lf", digits, v);
	(void)c;
	return b;
}
inline std::string genRealTok(pbt::Ctx& c) {
	switch (c.weighted({6, 2, 2, 2})) {
		case 0: return (c.coin() ? "-" : "") + std::to_string(c.range(0, 2000)) + "." + c.bytes("0123456789", (size_t)c.small(0, 9));
		case 1: return c.pick<std::string>({"", "-", "+"}) + c.bytes("0123456789", (size_t)c.small(0, 6)) + c.pick<std::string>({"", "."}) + c.bytes("0123456789", (size_t)c.small(0, 6)) + c.pick<std::string>({"", "e", "E"}) + c.pick<std::string>({"", "-", "+"}) + c.bytes("0123456789", (size_t)c.below(4));
		case 2: return c.pick<std::string>({"0", "-0", "1.", ".5", "-.5", "+.5e1", "1e5", "1E5", "1e-5", "1e+5", "1e300", "1e4000", "00.5", "007", "1e05"});
		default: return c.pick<std::string>({"nan", "inf", "-inf", "infinity", "NaN", "0x1p3", ".", "e5", "1e", "1e+", "+-1", "--1", "1.2.3", "1,5", "1e5000", "1e-5000", "-", "+", "1d5", "1f", "1.0f"});
	}
}
inline std::string genStrictTok(pbt::Ctx& c, Real lo, Real hi, Integer minD, Integer maxD) {
	Integer d = c.weighted({6, 1, 1}) == 0 ? (maxD > minD ? c.i64in(minD, std::min<Integer>(maxD - 1, minD + 12)) : minD) : (c.coin() ? std::max<Integer>(0, minD - 1) : std::min<Integer>(maxD, 40));
	std::string s;
	switch (c.weighted({6, 2, 1})) {
		case 0: { Real f = (Real)c.below(1001) / 1000; Real v = lo + (hi - lo) * f; if (c.chance(1, 4)) v = c.coin() ? lo : hi; s = decimal(c, v, (int)std::min<Integer>(d, 40)); break; }
		case 1: s = std::to_string(c.range(-12, 12)); if (d > 0 || c.coin()) s += "." + c.bytes("0123456789", (size_t)std::min<Integer>(d, 40)); break;
		default: s = c.pick<std::string>({"-0", "-0.0", "00", "01.5", "-01", "012", "+1.0", "1e0", ".5", "-.5", "1.", "0.", "-", "1.5.", "1..5", "1.0e1", "0x1", "nan", "inf", "1.5f"});
	}
	return s;
}
inline Call genCall(pbt::Ctx& c) {
	Call k;
	k.op = (Op)c.weighted({4, 2, 3, 2, 4, 5, 3, 3, 4, 1, 1, 1, 1, 2, 2, 1, 1, 2, 3, 3, 2, 1, 2, 2, 2});
	bool isInt = k.op == Op::IntRange || k.op == Op::IntsRange;
	if (isInt) {
		switch (c.weighted({4, 1, 1})) {
			case 0: k.lo = c.range(-20, 20); k.hi = k.lo + c.range(0, 40); break;
			case 1: k.lo = c.i64(); k.hi = c.i64(); if (k.lo > k.hi) std::swap(k.lo, k.hi); break;
			default: k.lo = INT64_MIN + (Integer)c.below(2); k.hi = INT64_MAX - (Integer)c.below(2);
		}
	} else { k.lo = c.range(0, 8); k.hi = k.lo + c.range(0, 10); }
	k.pat = (int)c.below(patterns.size());
	if (k.op == Op::RealRange || k.op == Op::RealsRange || k.op == Op::Strict || k.op == Op::Stricts) {
		switch (c.weighted({4, 2, 1})) {
			case 0: k.rlo = (Real)c.range(-30, 30) / (c.coin() ? 1 : 4); k.rhi = k.rlo + (Real)c.range(0, 40) / (c.coin() ? 1 : 8); break;
			case 1: k.rlo = 0; k.rhi = 1; break;
			default: k.rlo = -(Real)c.below(1000000000); k.rhi = (Real)c.below(1000000000); break;
		}
		k.minD = c.small(0, 6); k.maxD = k.minD + c.small(1, 8);
	}
	if (k.vec()) { k.count = c.rarely(0, 6, 300); k.sep = c.coin() ? '\n' : ' '; if (k.sep == ' ') k.defaultSep = c.coin(); }
	return k;
}
// a token that makes the call succeed with good probability
inline std::string tokenFor(pbt::Ctx& c, Call& k) {
	switch (k.op) {
		case Op::Str: case Op::Strs: return genWord(c);
		case Op::StrLen: case Op::StrsLen: {
			Integer len = c.weighted({6, 1, 1}) == 0 ? (k.hi > k.lo ? c.i64in(k.lo, k.hi - 1) : k.lo) : (c.coin() ? k.hi : std::max<Integer>(0, k.lo - 1));
			return c.bytes("abAB09.-", (size_t)len);
		}
		case Op::StrPat: case Op::StrsPat: return c.chance(5, 6) ? c.pickFrom(patterns[(size_t)k.pat].examples) : genWord(c, 6);
		case Op::StrPatLen: case Op::StrsPatLen: { std::string s = c.pickFrom(patterns[(size_t)k.pat].examples); if (c.chance(4, 5)) { k.lo = std::min<Integer>(k.lo, (Integer)s.size()); k.hi = std::max<Integer>(k.hi, (Integer)s.size() + (c.chance(9, 10) ? 1 : 0)); } return s; }
		case Op::Int: case Op::Ints: return genInt(c, INT64_MIN, INT64_MAX);
		case Op::IntRange: case Op::IntsRange: return genInt(c, k.lo, k.hi);
		case Op::Real: case Op::Reals: return genRealTok(c);
		case Op::RealRange: case Op::RealsRange: {
			if (c.chance(1, 6)) return genRealTok(c);
			Real v = k.rlo + (k.rhi - k.rlo) * (Real)c.below(101) / 100;
			switch (c.weighted({4, 2, 2})) { case 0: break; case 1: v = k.rlo; break; default: v = k.rhi; }
			Real eps = 1; for (Integer i = (Integer)c.below(9); i > 0; i--) eps /= 10;
			if (c.coin()) v += (Real)c.range(-3, 3) * eps;
			return decimal(c, v, (int)c.range(0, 15));
		}
		case Op::Strict: case Op::Stricts: return genStrictTok(c, k.rlo, k.rhi, k.minD, k.maxD);
		case Op::ExpStr: {
			k.exp = genWord(c, c.chance(1, 6) ? 60 : 8);
			std::string s = k.exp;
			switch (c.weighted({5, 2, 2})) {
				case 1: for (char& x : s) if (c.coin()) { if (x >= 'a' && x <= 'z') x = (char)(x - 32); else if (x >= 'A' && x <= 'Z') x = (char)(x + 32); } break;
				case 2: { size_t i = c.below(s.size()); if (c.coin()) s[i] = c.pickFrom(std::string("abAB@[`{09")); else if (c.coin()) s.insert(i, 1, 'q'); else s.erase(i, 1); break; }
				default: break;
			}
			return s;
		}
		case Op::ExpInt: { k.lo = c.i64(); Integer v = k.lo; if (c.chance(1, 3)) v = c.coin() ? c.i64() : (Integer)((UInteger)v + (UInteger)c.range(-2, 2)); return std::to_string(v); }
		case Op::ExpReal: {
			k.rlo = c.chance(1, 5) ? 0 : (Real)c.range(-100000, 100000) / (Real)c.range(1, 1000);
			Real v = k.rlo;
			Real eps = 1; for (Integer i = (Integer)c.below(10); i > 0; i--) eps /= 10;
			switch (c.below(3)) { case 0: break; case 1: v += (Real)c.range(-15, 15) / 10 * eps; break; default: v *= 1 + (Real)c.range(-15, 15) / 10 * eps; }
			return decimal(c, v, (int)c.range(3, 18));
		}
		default: return "";
	}
}
// for documents which conform for long: a token which does conform (strictly), if one is found
inline std::string goodTokenFor(pbt::Ctx& c, Call& k) {
	Call before = k;
	std::string t;
	for (int tries = 0; tries < 12; tries++) {
		k = before;
		t = tokenFor(c, k);
		Call one = k;
		one.count = 1;
		Model m;
		m.in = t; m.space = true; m.casing = true; m.abst = m.relt = 0;
		bool bad = t.empty();
		for (char x : t) bad |= ws(x);
		if (bad) continue;
		try { m.run(one); if (m.pos == t.size()) break; } catch (Fail&) {} catch (Maybe&) {}
	}
	return t;
}
inline std::string genWs(pbt::Ctx& c) { return c.bytes(" \n\t\r\v\f", (size_t)c.small(1, 4)); }
struct Script { std::vector<Call> calls; std::string text; };
inline Script genScript(pbt::Ctx& c, bool space) {
	Script s;
	size_t n = (size_t)c.rarely(1, 10, 200);
	bool needSep = false, clean = c.coin();
	auto tokenFor = [&](pbt::Ctx& c, Call& k) { return clean ? goodTokenFor(c, k) : im::tokenFor(c, k); };
	for (size_t i = 0; i < n; i++) {
		Call k = genCall(c);
		bool tok = !(k.op >= Op::Space && k.op <= Op::NotEof);
		if (tok) {
			if (needSep) { // two adjacent tokens need something between them
				if (space) { Call z; z.op = c.coin() ? Op::Space : Op::Newline; s.calls.push_back(z); s.text += z.op == Op::Space ? ' ' : '\n'; }
				else s.text += genWs(c);
			} else if (!space && c.chance(1, 4)) s.text += genWs(c);
			if (k.vec()) {
				for (Integer j = 0; j < k.count; j++) {
					s.text += tokenFor(c, k);
					if (j + 1 < k.count) s.text += space || c.coin() ? std::string(1, k.sep) : genWs(c);
				}
				needSep = k.count > 0;
			} else { s.text += tokenFor(c, k); needSep = true; }
		} else if (space) {
			if (k.op == Op::Space) s.text += ' ', needSep = false;
			if (k.op == Op::Newline) s.text += '\n', needSep = false;
			if (k.op == Op::Eof && !c.chance(1, 6)) continue;
		} else if (k.op == Op::Eof && !c.chance(1, 6)) continue;
		s.calls.push_back(k);
	}
	if (c.chance(3, 4)) { if (space) { Call z; z.op = Op::Newline; s.calls.push_back(z); s.text += '\n'; } else s.text += c.coin() ? genWs(c) : ""; Call z; z.op = Op::Eof; s.calls.push_back(z); if (c.coin()) s.calls.push_back(z); }
	// disturb the document
	for (size_t k = c.weighted({5, 4, 2}); k > 0; k--) {
		size_t i = s.text.empty() ? 0 : c.weighted({3, 1, 1}) == 0 ? c.below(s.text.size() + 1) : c.coin() ? 0 : s.text.size();
		static const std::string chars("\n\t\r\v\f 0a-+.eE1\0\xff\x80\x7fZ", 20);
		switch (c.below(6)) {
			case 0: s.text.insert(i, 1, c.pickFrom(chars)); break;
			case 1: if (i < s.text.size()) s.text.erase(i, 1); break;
			case 2: if (i < s.text.size()) s.text[i] = c.pickFrom(chars); break;
			case 3: s.text.resize(std::min(i, s.text.size())); break;
			case 4: s.text.insert(i, 1, ' '); break;
			default: if (s.text.size() > 1) std::swap(s.text[c.below(s.text.size())], s.text[c.below(s.text.size())]);
		}
	}
	return s;
}
} // namespace im
