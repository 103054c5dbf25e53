// C13 sequence predicates and their witnesses, C14 text and number helpers
#include "vh.h"
#include <deque>
#include <list>

#ifdef P_C13
// --- generators ------------------------------------------------------------
// nearly-sorted / nearly-distinct / nearly-permutation sequences, so that every
// predicate is exercised close to its decision boundary
static std::vector<Integer> genSeq(pbt::Ctx& c, Integer lo, Integer hi) {
	size_t n = (size_t)c.rarely(0, 30, 2000);
	if (c.chance(1, 30)) n = 100 + c.below(400);
	std::vector<Integer> v;
	size_t kind = c.weighted({2, 2, 2, 1, 1, 3});
	if (kind == 5) { // permutation-like: consecutive values from some offset, then shuffled
		Integer off = c.i64in(lo, hi);
		for (size_t i = 0; i < n; i++) { if ((__int128)off + (Integer)i > hi) break; v.push_back(off + (Integer)i); }
		for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.below(i)]);
	} else {
		Integer span = c.coin() ? 3 : c.coin() ? (Integer)(2 * n + 2) : -1;
		Integer base = c.i64in(lo, hi);
		for (size_t i = 0; i < n; i++) {
			if (span < 0) v.push_back(c.i64in(lo, hi));
			else { __int128 x = (__int128)base + (Integer)c.below((uint64_t)span); v.push_back(x > hi ? hi : (Integer)x); }
		}
		if (kind == 0) std::sort(v.begin(), v.end());
		if (kind == 1) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
		if (kind == 2) { std::sort(v.rbegin(), v.rend()); if (c.coin()) v.erase(std::unique(v.begin(), v.end()), v.end()); }
		if (kind == 3) std::reverse(v.begin(), v.end());
	}
	// a few local disturbances, biased to the ends
	size_t dist = c.weighted({4, 3, 1});
	for (size_t k = 0; k < dist && !v.empty(); k++) {
		size_t i = c.coin() ? (c.coin() ? 0 : v.size() - 1) : c.below(v.size());
		switch (c.below(4)) {
			case 0: if (v[i] < hi) v[i]++; break;
			case 1: if (v[i] > lo) v[i]--; break;
			case 2: std::swap(v[i], v[c.below(v.size())]); break;
			default: v[i] = v[c.below(v.size())];
		}
	}
	return v;
}
template<typename T> static std::vector<T> narrow(const std::vector<Integer>& v) { return std::vector<T>(v.begin(), v.end()); }

template<typename T> static void checkAdjacent(pbt::Ctx& c, const std::vector<T>& v) {
	auto ref = [&](auto pred, bool wantAny) -> std::pair<bool, Integer> { // first i (1-based prefix length) with pred(v[i-1],v[i])
		for (size_t i = 1; i < v.size(); i++) if ((bool)pred(v[i - 1], v[i]) == wantAny) return {true, (Integer)i};
		return {false, 0};
	};
	auto judge = [&](const char* name, boolean<Integer> got, bool value, bool hasWitness, Integer witness) {
		PBT_CHECK(got.value == value, name, " is ", got.value, " on ", pbt::seq(v));
		PBT_CHECK((bool)got == value, name, ": conversion to bool");
		PBT_CHECK(got.hasReason() == hasWitness, name, ": witness present=", got.hasReason(), " on ", pbt::seq(v));
		if (hasWitness) PBT_CHECK(*got.reason == witness, name, ": witness ", *got.reason, " expected ", witness, " on ", pbt::seq(v));
	};
	auto all = [&](const char* name, boolean<Integer> got, auto pred) {
		auto [viol, at] = ref(pred, false);
		judge(name, got, !viol, viol, at);
	};
	all("areIncreasing", areIncreasing(v), [](const T& a, const T& b) { return a < b; });
	all("areNonDecreasing", areNonDecreasing(v), [](const T& a, const T& b) { return a <= b; });
	all("areDecreasing", areDecreasing(v), [](const T& a, const T& b) { return b < a; });
	all("areNonIncreasing", areNonIncreasing(v), [](const T& a, const T& b) { return a >= b; });
	std::list<T> l(v.begin(), v.end());
	all("areIncreasing(list)", areIncreasing(l.begin(), l.end()), [](const T& a, const T& b) { return a < b; });
	auto preds = std::make_tuple([](const T& a, const T& b) { return a == b; }, [](const T& a, const T& b) { return a < b; }, [](const T& a, const T& b) { return !(a == b); });
	auto adj = [&](auto pred) {
		{ auto [any, at] = ref(pred, true); judge("anyAdjacent", anyAdjacent(v, pred), any, any, at); judge("noneAdjacent", noneAdjacent(v, pred), !any, any, at);
		  judge("anyAdjacent(it)", anyAdjacent(l.begin(), l.end(), pred), any, any, at); judge("noneAdjacent(it)", noneAdjacent(v.begin(), v.end(), pred), !any, any, at); }
		{ auto [viol, at] = ref(pred, false); judge("allAdjacent", allAdjacent(v, pred), !viol, viol, at); judge("allAdjacent(it)", allAdjacent(l.begin(), l.end(), pred), !viol, viol, at); }
	};
	switch (c.below(3)) { case 0: adj(std::get<0>(preds)); break; case 1: adj(std::get<1>(preds)); break; default: adj(std::get<2>(preds)); }
}
template<typename T> static void checkDistinct(pbt::Ctx& c, const std::vector<T>& v) {
	std::map<T, int> cnt;
	bool dup = false;
	for (const T& x : v) dup |= ++cnt[x] > 1;
	c.label(dup ? "duplicates" : "distinct");
	auto r = areDistinct(v);
	PBT_CHECK(r.value == !dup, "areDistinct is ", r.value, " on ", pbt::seq(v));
	PBT_CHECK(r.hasReason() == dup, "areDistinct: witness present=", r.hasReason(), " on ", pbt::seq(v));
	if (dup) PBT_CHECK(cnt.count(*r.reason) && cnt[*r.reason] > 1, "areDistinct: witness ", *r.reason, " is no duplicate in ", pbt::seq(v));
	std::deque<T> d(v.begin(), v.end());
	PBT_CHECK(areDistinct(d.begin(), d.end()).value == !dup, "areDistinct(first,last) on ", pbt::seq(v));
}
PBT_PROP(order, 60000, 1000000) {
	auto v = genSeq(c, c.coin() ? INT64_MIN : -1000, c.coin() ? INT64_MAX : 1000);
	PBT_NOTE << pbt::seq(v);
	if (v.size() >= 2) c.nontrivial();
	checkAdjacent(c, v);
	checkDistinct(c, v);
}
PBT_PROP(orderOtherTypes, 40000, 600000) {
	auto v = genSeq(c, -4, 120);
	PBT_NOTE << pbt::seq(v);
	if (v.size() >= 2) c.nontrivial();
	switch (c.below(5)) {
		case 4: { // values that do not compare with each other are in no order
			std::vector<Real> s;
			for (Integer x : v) s.push_back(c.chance(1, 6) ? c.pick<Real>({NAN, INFINITY, -INFINITY, -0.0, 0.0}) : (Real)x);
			checkAdjacent(c, s);
			break; }
		case 0: checkAdjacent(c, narrow<int>(v)); checkDistinct(c, narrow<int>(v)); break;
		case 1: { std::vector<std::string> s; for (Integer x : v) { s.push_back(std::to_string(x % 13)); } checkAdjacent(c, s); checkDistinct(c, s); break; }
		case 2: { std::vector<Real> s; for (Integer x : v) s.push_back((Real)x / 7); checkAdjacent(c, s); checkDistinct(c, s); break; }
		default: { std::string s; for (Integer x : v) s += (char)(x & 127); 
			bool inc = true; for (size_t i = 1; i < s.size(); i++) inc &= s[i - 1] < s[i];
			PBT_CHECK(areIncreasing(s).value == inc, "areIncreasing(string) on ", pbt::quote(s));
			std::set<char> st(s.begin(), s.end());
			PBT_CHECK(areDistinct(s).value == (st.size() == s.size()), "areDistinct(string) on ", pbt::quote(s)); }
	}
}
template<typename T> static void checkPerm(pbt::Ctx& c, const std::vector<T>& v, T off) {
	// reference: multiset {off, ..., off+n-1}
	std::vector<T> s(v);
	std::sort(s.begin(), s.end());
	bool ok = true;
	for (size_t i = 0; i < s.size(); i++) ok &= (__int128)s[i] == (__int128)off + (__int128)i;
	c.label(ok ? "permutation" : "no permutation");
	auto validWitness = [&](T w) {
		size_t k = 0; for (T x : v) k += x == w;
		if (k == 0) return false;
		return k > 1 || w < off || (__int128)w - (__int128)off >= (__int128)v.size();
	};
	for (int how = 0; how < 2; how++) {
		auto r = how ? isPerm(v.begin(), v.end(), off) : isPerm(v, off);
		PBT_CHECK(r.value == ok, "isPerm(offset ", +off, ") is ", r.value, " on ", pbt::seq(v));
		PBT_CHECK(r.hasReason() == !ok, "isPerm: witness present=", r.hasReason(), " on ", pbt::seq(v));
		if (!ok) PBT_CHECK(validWitness(*r.reason), "isPerm: witness ", +*r.reason, " is neither duplicated nor out of range, offset ", +off, ", ", pbt::seq(v));
	}
	if (off == 0) PBT_CHECK(isPerm(v).value == ok && isPerm(v.begin(), v.end()).value == ok, "isPerm with the default offset on ", pbt::seq(v));
}
static std::vector<Integer> nearPerm(pbt::Ctx& c, Integer off, Integer lo, Integer hi, size_t maxN) {
	size_t n = (size_t)c.rarely(0, (Integer)maxN, maxN == 30 ? 1500 : (Integer)maxN);
	std::vector<Integer> v;
	for (size_t i = 0; i < n; i++) v.push_back((Integer)((__int128)off + (__int128)i > hi ? hi : off + (Integer)i));
	for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.below(i)]);
	for (size_t k = c.weighted({3, 3, 1}); k > 0 && n > 0; k--) {
		size_t i = c.below(n);
		switch (c.below(4)) {
			case 0: v[i] = v[c.below(n)]; break;
			case 1: v[i] = off > lo ? off - 1 : off; break;
			case 2: v[i] = (Integer)std::min<__int128>(hi, (__int128)off + (__int128)n); break;
			default: v[i] = c.i64in(lo, hi);
		}
	}
	return v;
}
PBT_PROP(perm, 80000, 1200000) {
	switch (c.below(5)) {
		case 0: case 1: { Integer off = c.weighted({3, 2, 2}) == 0 ? (Integer)c.below(2) : c.i64(); auto v = nearPerm(c, off, INT64_MIN, INT64_MAX, 30); PBT_NOTE << "offset " << off << " " << pbt::seq(v); if (v.size() > 1) c.nontrivial(); checkPerm<Integer>(c, v, off); break; }
		case 2: { Integer off = c.range(-100, 100); auto v = nearPerm(c, off, INT32_MIN, INT32_MAX, 30); PBT_NOTE << "int offset " << off << " " << pbt::seq(v); if (v.size() > 1) c.nontrivial(); checkPerm<int>(c, narrow<int>(v), (int)off); break; }
		case 3: { Integer off = (Integer)c.below(3); auto v = nearPerm(c, off, 0, INT64_MAX, 30); PBT_NOTE << "unsigned offset " << off << " " << pbt::seq(v); if (v.size() > 1) c.nontrivial(); checkPerm<UInteger>(c, narrow<UInteger>(v), (UInteger)off); break; }
		default: { Integer off = (Integer)c.below(3); auto v = nearPerm(c, off, 0, 255, 250); PBT_NOTE << "byte offset " << off << " " << pbt::seq(v); if (v.size() > 1) c.nontrivial(); checkPerm<unsigned char>(c, narrow<unsigned char>(v), (unsigned char)off); }
	}
}
PBT_PROP(largeSequences, 60, 1000) { // one disturbance in a long sequence
	c.nontrivial();
	Integer n = c.range(3000, c.coin() ? 40000 : 200000), off = c.pick<Integer>({0, 1, -7, 4000000000000000000});
	uint64_t s = c.bits();
	auto rnd = [&](Integer m) { s = s * 6364136223846793005u + 1442695040888963407u; return (Integer)((s >> 20) % (uint64_t)m); };
	std::vector<Integer> v((size_t)n);
	std::iota(v.begin(), v.end(), off);
	bool disturb = c.coin();
	size_t at = c.coin() ? (size_t)rnd(n - 1) : (size_t)(n - 2);
	PBT_NOTE << n << " numbers from " << off << (disturb ? pbt::cat(", disturbed at ", at) : "");
	switch (c.below(4)) {
		case 0: { // order
			if (disturb) std::swap(v[at], v[at + 1]);
			auto a = areIncreasing(v), b = areNonDecreasing(v);
			PBT_CHECK(a.value == !disturb && b.value == !disturb, "areIncreasing is ", a.value, ", areNonDecreasing is ", b.value);
			if (disturb) PBT_CHECK(a.reason && b.reason && (size_t)*a.reason == at + 1 && (size_t)*b.reason == at + 1, "reasons");
			std::reverse(v.begin(), v.end());
			auto d = areDecreasing(v), e = areNonIncreasing(v);
			PBT_CHECK(d.value == !disturb && e.value == !disturb, "areDecreasing is ", d.value, ", areNonIncreasing is ", e.value);
			if (disturb) PBT_CHECK((size_t)*d.reason == (size_t)n - 1 - at && (size_t)*e.reason == (size_t)n - 1 - at, "reasons in reverse");
			break;
		}
		case 1: {
			if (disturb) v[at + 1] = v[(size_t)rnd((Integer)at + 1)];
			Integer twice = v[at + 1];
			for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[(size_t)rnd((Integer)i)]);
			auto d = areDistinct(v);
			PBT_CHECK(d.value == !disturb, "areDistinct is ", d.value);
			if (disturb) PBT_CHECK(d.hasReason() && *d.reason == twice, "areDistinct: witness");
			break;
		}
		case 2: {
			Integer want = 0;
			if (disturb) { v[at] = want = c.coin() ? off - 1 : c.coin() ? off + n : off + rnd(n); }
			bool ok = !disturb || want == off + (Integer)at;
			for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[(size_t)rnd((Integer)i)]);
			auto d = isPerm(v, off);
			PBT_CHECK(d.value == ok, "isPerm is ", d.value);
			if (!ok) PBT_CHECK(d.hasReason() && *d.reason == want, "isPerm: witness ", *d.reason, " instead of ", want);
			break;
		}
		default: {
			auto w = v;
			if (disturb) w[at] = w[at + 1];
			for (size_t i = v.size(); i > 1; i--) { std::swap(v[i - 1], v[(size_t)rnd((Integer)i)]); std::swap(w[i - 1], w[(size_t)rnd((Integer)i)]); }
			PBT_CHECK(isPerm(v, w).value == !disturb, "isPerm of two sequences");
		}
	}
}
PBT_PROP(permOfEachOther, 60000, 800000) {
	auto a = genSeq(c, -50, 50);
	auto b = a;
	for (size_t i = b.size(); i > 1; i--) std::swap(b[i - 1], b[c.below(i)]);
	switch (c.weighted({3, 2, 2, 1, 1})) {
		case 1: if (!b.empty()) b[c.below(b.size())] += c.range(-1, 1); break;
		case 2: if (b.size() > 1) b[c.below(b.size())] = b[c.below(b.size())]; break;
		case 3: b.push_back(b.empty() ? 1 : b[0]); break;
		case 4: if (!b.empty()) b.pop_back(); break;
		default: break;
	}
	PBT_NOTE << pbt::seq(a) << " vs " << pbt::seq(b);
	if (a.size() > 1) c.nontrivial();
	std::multiset<Integer> ma(a.begin(), a.end()), mb(b.begin(), b.end());
	bool ok = ma == mb;
	c.label(ok ? "permutation" : "no permutation");
	std::list<Integer> lb(b.begin(), b.end());
	for (int how = 0; how < 3; how++) {
		auto r = how == 0 ? isPerm(a, b) : how == 1 ? isPerm(a.begin(), a.end(), b.begin(), b.end()) : isPerm(a, lb);
		PBT_CHECK(r.value == ok, "isPerm is ", r.value, " on ", pbt::seq(a), " and ", pbt::seq(b));
		PBT_CHECK(r.hasReason() == (!ok && a.size() == b.size()), "isPerm: witness present=", r.hasReason(), " on ", pbt::seq(a), " and ", pbt::seq(b));
		if (r.hasReason()) PBT_CHECK(ma.count(*r.reason), "isPerm: witness ", *r.reason, " not in ", pbt::seq(a));
	}
	// strings compare element wise as well
	std::string sa, sb; for (Integer x : a) sa += (char)('a' + (x % 13 + 13) % 13); for (Integer x : b) sb += (char)('a' + (x % 13 + 13) % 13);
	auto t1 = sa, t2 = sb; std::sort(t1.begin(), t1.end()); std::sort(t2.begin(), t2.end());
	PBT_CHECK(isPerm(sa, sb).value == (t1 == t2), "isPerm on strings ", sa, " ", sb);
}
#endif

#ifdef P_C14
static const std::string ALLBYTES = [] { std::string s; for (int i = 0; i < 256; i++) s += (char)i; return s; }();
static bool rLower(char x) { return 'a' <= x && x <= 'z'; }
static bool rUpper(char x) { return 'A' <= x && x <= 'Z'; }
static bool rLetter(char x) { return rLower(x) || rUpper(x); }
static bool rDigit(char x) { return '0' <= x && x <= '9'; }
static bool rVowel(char x) { return std::string("aeiouAEIOU").find(x) != std::string::npos; }
static bool rCons(char x) { return rLetter(x) && !rVowel(x); }
static char rToLower(char x) { return rUpper(x) ? (char)(x + 32) : x; }
static char rToUpper(char x) { return rLower(x) ? (char)(x - 32) : x; }

static std::string genText(pbt::Ctx& c) {
	static const std::string sets[] = {std::string(LOWER), std::string(UPPER), std::string(LETTER), std::string(VOWEL), std::string(CONSONANT), std::string(DIGITS), std::string(ALPHA_NUMERIC), ALLBYTES, "@[`{/:azAZ09", std::string("\0a\xff Z", 5)};
	std::string s = c.bytes(sets[c.below(10)], (size_t)c.rarely(0, 40, 1000));
	if (!s.empty() && c.coin()) { size_t i = c.coin() ? (c.coin() ? 0 : s.size() - 1) : c.below(s.size()); s[i] = ALLBYTES[c.below(256)]; }
	return s;
}
PBT_PROP(charClasses, 60000, 800000) {
	std::string s = genText(c);
	PBT_NOTE << pbt::quote(s);
	if (!s.empty()) c.nontrivial();
	auto one = [&](const char* name, bool (*ref)(char), bool (*f)(char), auto&& fs) {
		bool all = true;
		for (char x : s) { PBT_CHECK(f(x) == ref(x), name, "(char ", (int)(unsigned char)x, ")=", f(x)); all &= ref(x); }
		boolean<char> r = fs(s);
		PBT_CHECK(r.value == all, name, " is ", r.value, " on ", pbt::quote(s));
		PBT_CHECK(r.hasReason() == !all, name, ": witness present=", r.hasReason(), " on ", pbt::quote(s));
		if (!all) PBT_CHECK(!ref(*r.reason) && s.find(*r.reason) != std::string::npos, name, ": wrong witness ", (int)*r.reason, " on ", pbt::quote(s));
	};
	one("isLower", rLower, [](char x) { return isLower(x); }, [](std::string_view v) { return isLower(v); });
	one("isUpper", rUpper, [](char x) { return isUpper(x); }, [](std::string_view v) { return isUpper(v); });
	one("isLetter", rLetter, [](char x) { return isLetter(x); }, [](std::string_view v) { return isLetter(v); });
	one("isDigit", rDigit, [](char x) { return isDigit(x); }, [](std::string_view v) { return isDigit(v); });
	one("isVowel", rVowel, [](char x) { return isVowel(x); }, [](std::string_view v) { return isVowel(v); });
	one("isConsonant", rCons, [](char x) { return isConsonant(x); }, [](std::string_view v) { return isConsonant(v); });
	PBT_CHECK(LARGE == H_LARGE && DEFAULT_PRECISION == H_PREC && DEFAULT_EPS == (H_LOWER ? 1e-6_real : H_EPS) && DEFAULT_CASE_LOWER == H_LOWER, "compile-time settings");
	if (c.chance(1, 100)) { // the alphabets hold every character of their class once
		auto alpha = [&](const char* name, std::string_view got, auto member) {
			std::string g(got), w; std::sort(g.begin(), g.end());
			for (int x = 0; x < 128; x++) if (member((char)x)) w += (char)x;
			PBT_CHECK(g == w, name, " is ", pbt::quote(std::string(got)));
		};
		alpha("LETTER", LETTER, rLetter); alpha("LOWER", LOWER, rLower); alpha("UPPER", UPPER, rUpper);
		alpha("VOWEL", VOWEL, rVowel); alpha("CONSONANT", CONSONANT, rCons); alpha("DIGITS", DIGITS, rDigit);
		alpha("LOWER_VOWELS", LOWER_VOWELS, [](char x) { return rVowel(x) && rLower(x); }); alpha("UPPER_VOWELS", UPPER_VOWELS, [](char x) { return rVowel(x) && rUpper(x); });
		alpha("LOWER_CONSONANT", LOWER_CONSONANT, [](char x) { return rCons(x) && rLower(x); }); alpha("UPPER_CONSONANT", UPPER_CONSONANT, [](char x) { return rCons(x) && rUpper(x); });
		alpha("ALPHA_NUMERIC", ALPHA_NUMERIC, [](char x) { return rDigit(x) || rLetter(x); });
		alpha("LOWER_ALPHA_NUMERIC", LOWER_ALPHA_NUMERIC, [](char x) { return rDigit(x) || rLower(x); }); alpha("UPPER_ALPHA_NUMERIC", UPPER_ALPHA_NUMERIC, [](char x) { return rDigit(x) || rUpper(x); });
		PBT_CHECK(NEWLINE == '\n' && SPACE == ' ' && NOSEP == '\0' && std::abs(PI - std::acos(-1.0L)) < 1e-15L, "constants");
	}
	std::string lo = s, up = s, de = s, rl = s, ru = s;
	for (char& x : rl) x = rToLower(x);
	for (char& x : ru) x = rToUpper(x);
	toLower(lo); toUpper(up); toDefaultCase(de);
	PBT_CHECK(lo == rl, "toLower(", pbt::quote(s), ")=", pbt::quote(lo));
	PBT_CHECK(up == ru, "toUpper(", pbt::quote(s), ")=", pbt::quote(up));
	PBT_CHECK(de == (H_LOWER ? rl : ru), "toDefaultCase(", pbt::quote(s), ")=", pbt::quote(de));
	for (char x : s) PBT_CHECK(toLower(x) == rToLower(x) && toUpper(x) == rToUpper(x) && toDefaultCase(x) == (H_LOWER ? rToLower(x) : rToUpper(x)), "case conversion of char ", (int)(unsigned char)x);
}
PBT_PROP(stringEqual, 60000, 800000) {
	std::string a = genText(c), b = a;
	for (size_t k = c.weighted({3, 4, 2}); k > 0; k--) {
		switch (c.below(5)) {
			case 0: if (!b.empty()) { size_t i = c.below(b.size()); b[i] = rLower(b[i]) ? rToUpper(b[i]) : rToLower(b[i]); } break;
			case 1: if (!b.empty()) { size_t i = c.below(b.size()); b[i] = (char)(b[i] ^ 32); } break;
			case 2: if (!b.empty()) b.pop_back(); break;
			case 3: b += ALLBYTES[c.below(256)]; break;
			default: if (!b.empty()) b[c.below(b.size())] = ALLBYTES[c.below(256)];
		}
	}
	bool cs = c.coin();
	PBT_NOTE << pbt::quote(a) << " " << pbt::quote(b) << (cs ? " case sensitive" : "");
	if (!a.empty()) c.nontrivial();
	size_t i = 0;
	auto same = [&](char x, char y) { return cs ? x == y : rToLower(x) == rToLower(y); };
	while (i < a.size() && i < b.size() && same(a[i], b[i])) i++;
	bool eq = i == a.size() && i == b.size();
	c.label(eq ? (a == b ? "identical" : "equal up to case") : "different");
	auto r = ValidateBase::stringEqual(a, b, cs);
	PBT_CHECK(r.value == eq, "stringEqual(", pbt::quote(a), ",", pbt::quote(b), ",", cs, ")=", r.value);
	PBT_CHECK(r.hasReason() == !eq, "stringEqual witness present=", r.hasReason());
	if (!eq) PBT_CHECK(*r.reason == i, "stringEqual(", pbt::quote(a), ",", pbt::quote(b), ",", cs, ") mismatch at ", *r.reason, " expected ", i);
}
static std::string genNumber(pbt::Ctx& c) {
	std::string s;
	switch (c.weighted({3, 2, 2, 3, 2})) {
		case 0: s = std::to_string(c.i64()); break;
		case 1: { __int128 x = (c.coin() ? (__int128)INT64_MAX : (__int128)INT64_MIN) + c.range(-30, 30); bool neg = x < 0; if (neg) x = -x; while (x) { s.insert(s.begin(), (char)('0' + (int)(x % 10))); x /= 10; } if (neg) s = "-" + s; break; }
		case 2: s = c.bytes("0123456789", (size_t)c.small(1, 25)); break;
		case 3: s = (c.coin() ? "-" : c.coin() ? "+" : "") + c.bytes("0123456789", (size_t)c.small(0, 12)) + (c.coin() ? "." : "") + c.bytes("0123456789", (size_t)c.small(0, 12));
			if (c.coin()) s += (c.coin() ? "e" : "E") + c.pick<std::string>({"", "-", "+"}) + c.bytes("0123456789", (size_t)c.range(0, 4)); break;
		default: s = c.pick<std::string>({"nan", "inf", "-inf", "NaN", "Infinity", "0x1p3", "0x10", "", "-", "+", ".", "e5", "1e", "-0", "-.e1", "1.e5", "--1", "+-1", "+1", "00", "01", "-01", "1e5000", "1e-5000", "-1e4932", "1.18973149535723176502e+4932", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "٣", "1_000", "1,5"});
	}
	if (c.chance(1, 4)) { // disturb
		size_t i = c.below(s.size() + 1);
		switch (c.below(3)) {
			case 0: s.insert(i, 1, c.pickFrom(std::string("+-.eE0 \t\nxX,_1\0", 15))); break;
			case 1: if (i < s.size()) s.erase(i, 1); break;
			default: s += c.pickFrom(std::string(" \n\0f", 4));
		}
	}
	return s;
}
// hand written recogniser for 0|-?[1-9][0-9]* with range check, digit by digit
static bool refInteger(const std::string& s, Integer& out) {
	if (s == "0") { out = 0; return true; }
	size_t i = 0; bool neg = false;
	if (i < s.size() && s[i] == '-') { neg = true; i++; }
	if (i >= s.size() || s[i] < '1' || s[i] > '9') return false;
	unsigned __int128 v = 0;
	for (; i < s.size(); i++) { if (!rDigit(s[i])) return false; v = v * 10 + (unsigned)(s[i] - '0'); if (v > ((unsigned __int128)1 << 64)) v = (unsigned __int128)1 << 64; }
	unsigned __int128 lim = ((unsigned __int128)1 << 63) - (neg ? 0 : 1);
	if (v > lim) return false;
	out = neg ? (Integer)(0 - (uint64_t)v) : (Integer)v;
	return true;
}
static bool refRealShape(const std::string& s) {
	size_t i = 0, d = 0;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
	while (i < s.size() && rDigit(s[i])) { i++; d++; }
	if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && rDigit(s[i])) { i++; d++; } }
	if (d == 0) return false;
	if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
		i++;
		if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
		size_t e = 0;
		while (i < s.size() && rDigit(s[i])) { i++; e++; }
		if (!e) return false;
	}
	return i == s.size();
}
PBT_PROP(isInteger, 50000, 600000) {
	std::string s = genNumber(c);
	PBT_NOTE << pbt::quote(s);
	if (s.size() > 1) c.nontrivial();
	Integer e = 0;
	bool ok = refInteger(s, e);
	c.label(ok ? "integer" : "no integer");
	auto r = isInteger(s);
	PBT_CHECK(r.value == ok, "isInteger(", pbt::quote(s), ")=", r.value);
	PBT_CHECK(r.hasReason() == ok, "isInteger value present=", r.hasReason(), " for ", pbt::quote(s));
	if (ok) PBT_CHECK(*r.reason == e, "isInteger(", pbt::quote(s), ") value ", *r.reason);
}
PBT_PROP(isReal, 50000, 600000) {
	std::string s = genNumber(c);
	PBT_NOTE << pbt::quote(s);
	if (s.size() > 1) c.nontrivial();
	bool shape = refRealShape(s);
	auto r = isReal(s);
	c.label(shape ? "real" : "no real");
	if (!shape) { PBT_CHECK(!r.value && !r.hasReason(), "isReal(", pbt::quote(s), ") accepted"); return; }
	Real e = std::strtold(s.c_str(), nullptr);
	bool zero = s.find_first_of("123456789") == std::string::npos || s.find_first_of("123456789") > s.find_first_of("eE");
	bool representable = zero || (std::isfinite(e) && std::abs(e) > 1e-4900L && std::abs(e) < 1e4900L);
	if (representable) PBT_CHECK(r.value && r.hasReason(), "isReal(", pbt::quote(s), ") rejected");
	if (r.value) { PBT_CHECK(r.hasReason(), "isReal without value"); PBT_CHECK(*r.reason == e && std::isfinite(*r.reason), "isReal(", pbt::quote(s), ") value ", *r.reason, " expected ", e); }
	else PBT_CHECK(!r.hasReason(), "isReal false with a value");
}
PBT_PROP(range, 50000, 600000) {
	Integer from, to, step;
	if (c.coin()) { from = c.range(-40, 40); to = c.range(-40, 40); step = c.range(-9, 9); }
	else { // few elements, anywhere including the ends of the type
		from = c.i64(); step = c.i64(); if (step == INT64_MIN) step++;
		Integer k = c.range(0, 6);
		__int128 t = (__int128)from + (__int128)step * k + (__int128)c.range(-2, 2);
		to = t > INT64_MAX ? INT64_MAX : t < INT64_MIN ? INT64_MIN : (Integer)t;
	}
	PBT_NOTE << "range(" << from << "," << to << "," << step << ")";
	if (step == 0) { PBT_CHECK(outcome([&] { range(from, to, step); }).end == End::Exception, "range accepts step 0"); return; }
	std::vector<Integer> e;
	for (__int128 x = from; step > 0 ? x < to : x > to; x += step) { e.push_back((Integer)x); if (e.size() > 100000) c.discard(); }
	if (e.size() > 1) c.nontrivial();
	if (e.empty()) c.label("empty");
	auto r = range(from, to, step);
	PBT_CHECK(r == e, "range(", from, ",", to, ",", step, ")=", pbt::seq(r), " expected ", pbt::seq(e));
	if (step == 1) PBT_CHECK(range(from, to) == e, "range(", from, ",", to, ")");
	if (step == 1 && from == 0) PBT_CHECK(range(to) == e, "range(", to, ")");
	Integer u = c.range(-3, 30);
	auto q = range(u);
	PBT_CHECK((Integer)q.size() == std::max<Integer>(0, u), "range(", u, ") has ", q.size(), " elements");
	for (size_t i = 0; i < q.size(); i++) PBT_CHECK(q[i] == (Integer)i, "range(", u, ")[", i, "]=", q[i]);
}
PBT_PROP(thueMorse, 20000, 300000) {
	Integer lo = c.i64() & INT64_MAX, len = c.range(1, 200);
	if (c.coin()) lo = (Integer)c.below(2000);
	if (lo > INT64_MAX - len) lo = INT64_MAX - len;
	PBT_NOTE << "thueMorse(" << lo << "," << lo + len << ")";
	c.nontrivial();
	auto r = thueMorse(lo, lo + len);
	PBT_CHECK((Integer)r.size() == len, "thueMorse size ", r.size());
	for (Integer i = 0; i < len; i++) { UInteger x = (UInteger)(lo + i); Integer p = 0; while (x) { p ^= (Integer)(x & 1); x >>= 1; } PBT_CHECK(r[(size_t)i] == p, "thueMorse(", lo, ",..)[", i, "]=", r[(size_t)i]); }
	if (lo == 0) PBT_CHECK(thueMorse(len) == r, "thueMorse(n)");
	Integer bad = c.range(-5, 0);
	PBT_CHECK(outcome([&] { thueMorse(lo, lo - (Integer)c.below(2) * (lo > 0)); }).end == End::Exception, "thueMorse accepts an empty range");
	PBT_CHECK(outcome([&] { thueMorse(bad - 1, 4); }).end == End::Exception, "thueMorse accepts negative lower");
	auto q = thueMorse(len);
	for (Integer i = 0; i < len; i++) PBT_CHECK(q[(size_t)i] == (Integer)(__builtin_popcountll((uint64_t)i) & 1), "thueMorse(", len, ")[", i, "]");
}
PBT_PROP(containers, 20000, 300000) {
	// append / flatten / contains / asFunction / priority queues / size comparators
	std::vector<std::vector<Integer>> vv((size_t)c.small(0, 6));
	std::vector<Integer> flat;
	for (auto& v : vv) { v.resize((size_t)c.small(0, 6)); for (auto& x : v) { x = c.range(-50, 50); flat.push_back(x); } }
	PBT_NOTE << vv.size() << " rows, " << pbt::seq(flat);
	if (flat.size() > 2) c.nontrivial();
	auto copy = vv;
	PBT_CHECK(flatten(vv) == flat, "flatten(lvalue)");
	PBT_CHECK(vv == copy, "flatten changed its argument");
	PBT_CHECK(flatten(std::move(copy)) == flat, "flatten(rvalue)");
	std::vector<std::list<std::vector<Integer>>> nested;
	for (size_t i = 0; i < vv.size(); i++) { if (i % 2 == 0) nested.emplace_back(); nested.back().push_back(vv[i]); }
	PBT_CHECK(flatten(nested) == flat, "flatten over three levels");
	std::vector<std::string> words; std::string letters; for (Integer x : flat) { words.push_back(std::to_string(x)); letters += words.back(); }
	auto fl = flatten(words);
	PBT_CHECK(std::string(fl.begin(), fl.end()) == letters, "flatten(strings)");
	PBT_CHECK(flatten<std::string>(words) == words, "flatten<string> must stop at strings");
	auto a = flat; std::vector<Integer> b = vv.empty() ? std::vector<Integer>{} : vv[0];
	auto e = a; e.insert(e.end(), b.begin(), b.end());
	append(a, b);
	PBT_CHECK(a == e, "append");
	auto d = flat; append(d, d);
	PBT_CHECK(d.size() == 2 * flat.size() && std::equal(flat.begin(), flat.end(), d.begin()) && std::equal(flat.begin(), flat.end(), d.begin() + (long)flat.size()), "append to itself");
	std::list<Integer> li(flat.begin(), flat.end()); append(li, b);
	PBT_CHECK(std::vector<Integer>(li.begin(), li.end()) == e, "append(list, vector)");
	std::set<Integer> st(flat.begin(), flat.end());
	Integer key = c.range(-50, 50);
	PBT_CHECK(contains(st, key) == (std::count(flat.begin(), flat.end(), key) > 0), "contains");
	auto f = asFunction(flat);
	auto g = asFunction(std::vector<Integer>(flat));
	for (size_t i = 0; i < flat.size(); i++) PBT_CHECK(f(i) == flat[i] && g(i) == flat[i], "asFunction at ", i);
	MinPQ<Integer> mi(flat.begin(), flat.end()); MaxPQ<Integer> ma(flat.begin(), flat.end());
	auto s = flat; std::sort(s.begin(), s.end());
	for (size_t i = 0; i < s.size(); i++) { PBT_CHECK(mi.top() == s[i], "MinPQ order"); PBT_CHECK(ma.top() == s[s.size() - 1 - i], "MaxPQ order"); mi.pop(); ma.pop(); }
	if (vv.size() > 1) { PBT_CHECK(shorter{}(vv[0], vv[1]) == (vv[0].size() < vv[1].size()), "shorter"); PBT_CHECK(longer{}(vv[0], vv[1]) == (vv[0].size() > vv[1].size()), "longer"); }
}
namespace { struct Pt { Integer x, y, z; }; struct RealPt { Real x, y, z; }; }
PBT_PROP(points, 30000, 300000) {
	Integer x = c.i64(), y = c.i64(), z = c.i64(), w = c.i64();
	Real rx = (Real)x / 3, ry = (Real)y / 7, rz = (Real)z;
	PBT_NOTE << x << " " << y << " " << z << " replaced by " << w;
	c.nontrivial();
	int which = (int)c.below(3);
	auto two = [&](const char* what, auto p, auto a, auto b, auto v) {
		const auto q = p;
		PBT_CHECK(getX(q) == a && getY(q) == b, what, ": const");
		PBT_CHECK(getX(p) == a && getY(p) == b, what, ": not const");
		PBT_CHECK(getX(std::as_const(p)) == a && getY(std::as_const(p)) == b, what, ": as const");
		auto p2 = p;
		if (which % 2) { getX(p) = v; PBT_CHECK(getX(p) == v && getY(p) == b && getX(p2) == a, what, ": assigning x"); }
		else { getY(p) = v; PBT_CHECK(getX(p) == a && getY(p) == v && getY(p2) == b, what, ": assigning y"); }
	};
	auto three = [&](const char* what, auto p, auto a, auto b, auto d, auto v) {
		two(what, p, a, b, v);
		const auto q = p;
		PBT_CHECK(getZ(q) == d && getZ(p) == d && getZ(std::as_const(p)) == d, what, ": z");
		getZ(p) = v;
		PBT_CHECK(getX(p) == a && getY(p) == b && getZ(p) == v && getZ(q) == d, what, ": assigning z");
	};
	two("pair", std::pair<Integer, Integer>(x, y), x, y, w);
	two("mixed pair", std::pair<Integer, char>(x, 'a'), x, 'a', 'b');
	two("pair of reals", std::pair<Real, Real>(rx, ry), rx, ry, (Real)w);
	two("array", std::array<Integer, 2>{x, y}, x, y, w);
	three("array of three", std::array<Integer, 3>{x, y, z}, x, y, z, w);
	two("tuple", std::tuple<Integer, Integer>(x, y), x, y, w);
	three("tuple of three", std::tuple<Integer, Real, Integer>(x, ry, z), x, ry, z, (Integer)(w % 1000));
	two("complex", std::complex<Real>(rx, ry), rx, ry, (Real)w);
	two("complex double", std::complex<double>((double)rx, (double)ry), (double)rx, (double)ry, (double)w);
	three("struct", Pt{x, y, z}, x, y, z, w);
	three("struct of reals", RealPt{rx, ry, rz}, rx, ry, rz, (Real)w);
	std::pair<Real, Real> back = convert(std::complex<Real>(rx, ry));
	PBT_CHECK(back.first == rx && back.second == ry, "convert(complex)");
	std::complex<Real> cp = convert(std::pair<Real, Real>(rx, ry));
	PBT_CHECK(cp.real() == rx && cp.imag() == ry, "convert(pair)");
	auto mixed = convert(std::pair<int, double>((int)(x % 1000), 0.25));
	static_assert(std::is_same_v<decltype(mixed), std::complex<double>>);
	PBT_CHECK(mixed.real() == (double)(int)(x % 1000) && mixed.imag() == 0.25, "convert(mixed pair)");
	// a function of a container sees its changes, one of a temporary keeps it
	std::vector<Integer> v = {x, y, z};
	auto f = asFunction(v);
	auto g = asFunction(std::vector<Integer>(v));
	v[(size_t)which] = w;
	for (size_t i = 0; i < 3; i++) { PBT_CHECK(f(i) == v[i], "asFunction after a change at ", i); PBT_CHECK(g(i) == (i == 0 ? x : i == 1 ? y : z), "asFunction of a temporary at ", i); }
	std::map<Integer, Integer> m = {{x, y}};
	auto h = asFunction(m);
	PBT_CHECK(h(x) == y, "asFunction(map)");
	std::string s1((size_t)c.below(4), 'a'), s2((size_t)c.below(4), 'b');
	PBT_CHECK(shorter{}(s1, s2) == (s1.size() < s2.size()) && longer{}(s1, s2) == (s1.size() > s2.size()), "shorter or longer of sizes ", s1.size(), " and ", s2.size());
}
#endif
