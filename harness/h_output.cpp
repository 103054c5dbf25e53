// C09 printed output
#include "inputmodel.h"
#include <deque>
#include <list>

// --- reference text of a value -----------------------------------------------
static int PREC = H_PREC;
static std::string txt(bool b) { return b ? "true" : "false"; }
static std::string txt(char x) { return std::string(1, x); }
static std::string txt(const std::string& s) { return s; }
static std::string txt(const char* s) { return s; }
static std::string txt(std::string_view s) { return std::string(s); }
static std::string refInt(__int128 v) {
	if (v == 0) return "0";
	bool n = v < 0;
	unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
	std::string s;
	for (; u; u /= 10) s += (char)('0' + (int)(u % 10));
	if (n) s += '-';
	return {s.rbegin(), s.rend()};
}
static std::string txt(int v) { return refInt(v); }
static std::string txt(long v) { return refInt(v); }
static std::string txt(long long v) { return refInt(v); }
static std::string txt(unsigned v) { return refInt(v); }
static std::string txt(unsigned long v) { return refInt((__int128)v); }
static std::string txt(short v) { return refInt(v); }
static std::string txt(long double v) { char b[7000]; snprintf(b, sizeof b, "%.*Lf", PREC, v); return b; }
static std::string txt(double v) { return txt((long double)v); }
static std::string txt(float v) { return txt((long double)v); }
template<typename A, typename B> static std::string txt(const std::pair<A, B>& p);
template<typename... A> static std::string txt(const std::tuple<A...>& p);
template<typename T, size_t N> static std::string txt(const std::array<T, N>& v);
template<typename T> static std::string txt(const std::vector<T>& v);
template<typename T> static std::string txt(const std::list<T>& v);
template<typename T> static std::string txt(const std::deque<T>& v);
template<typename T> static std::string txt(const std::set<T>& v);
template<typename T> static std::string txt(const std::multiset<T>& v);
template<typename K, typename T> static std::string txt(const std::map<K, T>& v);
template<typename C> static std::string joined(const C& v, const std::string& sep) { std::string r; bool f = true; for (auto&& x : v) { if (!f) r += sep; f = false; using X = std::decay_t<decltype(x)>; if constexpr (std::is_same_v<C, std::vector<bool>>) r += txt((bool)x); else r += txt(static_cast<const X&>(x)); } return r; }
template<typename A, typename B> static std::string txt(const std::pair<A, B>& p) { return txt(p.first) + " " + txt(p.second); }
template<typename Tup> static std::string joinedTuple(const Tup& t, const std::string& sep) { std::string r; bool f = true; std::apply([&](auto&... x) { ((r += (f ? std::string() : sep) + txt(x), f = false), ...); }, t); return r; }
template<typename... A> static std::string txt(const std::tuple<A...>& p) { return joinedTuple(p, " "); }
template<typename T, size_t N> static std::string txt(const std::array<T, N>& v) { return joined(v, " "); }
template<typename T> static std::string txt(const std::vector<T>& v) { return joined(v, " "); }
template<typename T> static std::string txt(const std::list<T>& v) { return joined(v, " "); }
template<typename T> static std::string txt(const std::deque<T>& v) { return joined(v, " "); }
template<typename T> static std::string txt(const std::set<T>& v) { return joined(v, " "); }
template<typename T> static std::string txt(const std::multiset<T>& v) { return joined(v, " "); }
template<typename K, typename T> static std::string txt(const std::map<K, T>& v) { return joined(v, " "); }

// --- values --------------------------------------------------------------------
template<typename T> struct Gen;
template<typename T> static T gen(pbt::Ctx& c) { return Gen<T>::make(c); }
static size_t len(pbt::Ctx& c) { return (size_t)c.rarely(0, 6, 70); }
template<> struct Gen<int> { static int make(pbt::Ctx& c) { return (int)c.i64(); } };
template<> struct Gen<short> { static short make(pbt::Ctx& c) { return (short)c.i64(); } };
template<> struct Gen<unsigned> { static unsigned make(pbt::Ctx& c) { return (unsigned)c.i64(); } };
template<> struct Gen<Integer> { static Integer make(pbt::Ctx& c) { return c.i64(); } };
template<> struct Gen<UInteger> { static UInteger make(pbt::Ctx& c) { return (UInteger)c.i64(); } };
template<> struct Gen<bool> { static bool make(pbt::Ctx& c) { return c.coin(); } };
template<> struct Gen<char> { static char make(pbt::Ctx& c) { return c.chance(3, 4) ? (char)c.range(32, 126) : (char)c.below(256); } };
template<> struct Gen<std::string> { static std::string make(pbt::Ctx& c) { return c.coin() ? im::genWord(c) : c.bytes(std::string("a b\n\0\xff\t,", 8), len(c)); } };
template<> struct Gen<Real> { static Real make(pbt::Ctx& c) {
	switch (c.weighted({4, 2, 2, 1})) {
		case 0: return (Real)c.range(-100000, 100000) / 8;
		case 1: return (Real)c.i64() / (Real)c.range(1, 1000);
		case 2: return (c.coin() ? 1 : -1) * std::ldexp(1.0L + (Real)c.below(1000) / 1000, (int)c.range(-70, 100));
		default: return c.pick<Real>({0, -0.0L, 0.5e-6L, 0.4999999e-6L, 999999.9999995L, 1e18L, 1e30L, 123456789.123456789L, -1e-9L});
	}
} };
template<> struct Gen<double> { static double make(pbt::Ctx& c) { return (double)gen<Real>(c); } };
template<> struct Gen<float> { static float make(pbt::Ctx& c) { return (float)gen<Real>(c); } };
template<typename A, typename B> struct Gen<std::pair<A, B>> { static std::pair<A, B> make(pbt::Ctx& c) { A a = gen<A>(c); B b = gen<B>(c); return {a, b}; } };
template<typename... A> struct Gen<std::tuple<A...>> { static std::tuple<A...> make(pbt::Ctx& c) { return std::tuple<A...>{gen<A>(c)...}; } };
template<typename T, size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> make(pbt::Ctx& c) { std::array<T, N> r; for (auto& x : r) x = gen<T>(c); return r; } };
template<typename T> struct Gen<std::vector<T>> { static std::vector<T> make(pbt::Ctx& c) { std::vector<T> r; for (size_t n = len(c); n > 0; n--) r.push_back(gen<T>(c)); return r; } };
template<typename T> struct Gen<std::list<T>> { static std::list<T> make(pbt::Ctx& c) { std::list<T> r; for (size_t n = len(c); n > 0; n--) r.push_back(gen<T>(c)); return r; } };
template<typename T> struct Gen<std::deque<T>> { static std::deque<T> make(pbt::Ctx& c) { std::deque<T> r; for (size_t n = len(c); n > 0; n--) r.push_back(gen<T>(c)); return r; } };
template<typename T> struct Gen<std::set<T>> { static std::set<T> make(pbt::Ctx& c) { std::set<T> r; for (size_t n = len(c); n > 0; n--) r.insert(gen<T>(c)); return r; } };
template<typename T> struct Gen<std::multiset<T>> { static std::multiset<T> make(pbt::Ctx& c) { std::multiset<T> r; for (size_t n = len(c); n > 0; n--) r.insert(gen<T>(c)); return r; } };
template<typename K, typename T> struct Gen<std::map<K, T>> { static std::map<K, T> make(pbt::Ctx& c) { std::map<K, T> r; for (size_t n = len(c); n > 0; n--) { K k = gen<K>(c); r[k] = gen<T>(c); } return r; } };

struct Printer {
	std::ostringstream os;
	OutputStream out{os};
	std::string want;
};
template<typename T> static void put(pbt::Ctx& c, Printer& p) {
	T v = gen<T>(c);
	if (c.chance(1, 4)) p.out << T(v); else p.out << v;
	p.want += txt(v);
}
using V = std::vector<Integer>;
static void anyValue(pbt::Ctx& c, Printer& p) {
	switch (c.below(36)) {
		case 0: put<Integer>(c, p); break;
		case 1: put<int>(c, p); break;
		case 2: put<short>(c, p); break;
		case 3: put<UInteger>(c, p); break;
		case 4: put<bool>(c, p); break;
		case 5: put<char>(c, p); break;
		case 6: put<std::string>(c, p); break;
		case 7: put<Real>(c, p); break;
		case 8: put<double>(c, p); break;
		case 9: put<float>(c, p); break;
		case 10: put<std::pair<Integer, std::string>>(c, p); break;
		case 11: put<std::tuple<int, Real, char, bool>>(c, p); break;
		case 12: put<std::array<int, 3>>(c, p); break;
		case 13: put<std::array<std::string, 1>>(c, p); break;
		case 14: put<V>(c, p); break;
		case 15: put<std::vector<std::string>>(c, p); break;
		case 16: put<std::vector<Real>>(c, p); break;
		case 17: put<std::vector<bool>>(c, p); break;
		case 18: put<std::vector<std::vector<int>>>(c, p); break;
		case 19: put<std::list<std::pair<int, int>>>(c, p); break;
		case 20: put<std::deque<char>>(c, p); break;
		case 21: put<std::set<Integer>>(c, p); break;
		case 22: put<std::multiset<std::string>>(c, p); break;
		case 23: put<std::map<Integer, std::string>>(c, p); break;
		case 24: put<std::map<std::string, std::vector<std::pair<int, Real>>>>(c, p); break;
		case 25: put<std::vector<std::tuple<Integer, bool, std::vector<char>>>>(c, p); break;
		case 26: put<std::pair<V, std::pair<V, V>>>(c, p); break;
		case 27: put<std::array<std::vector<std::array<int, 2>>, 2>>(c, p); break;
		case 28: { int a[4]; for (int& x : a) x = gen<int>(c); p.out << a; p.want += txt(a[0]) + " " + txt(a[1]) + " " + txt(a[2]) + " " + txt(a[3]); break; }
		case 29: { std::string s = im::genWord(c); const char* q = s.c_str(); p.out << q; p.want += s; break; }
		case 30: { std::string s = im::genWord(c); char buf[64] = {}; s.copy(buf, 60); p.out << buf; p.want += s; break; }
		case 31: p.out << "literal text"; p.want += "literal text"; break;
		case 32: { std::string s = im::genWord(c); p.out << std::string_view(s); p.want += s; break; }
		case 33: p.out << std::endl; p.want += "\n"; break;
		case 34: { std::string a[2] = {gen<std::string>(c), gen<std::string>(c)}; p.out << a; p.want += a[0] + " " + a[1]; break; }
		default: { int a[2][2]; for (auto& r : a) for (int& x : r) x = gen<int>(c); p.out << a; p.want += txt(a[0][0]) + " " + txt(a[0][1]) + " " + txt(a[1][0]) + " " + txt(a[1][1]); break; }
	}
}
static void cmp(pbt::Ctx& c, const std::string& got, const std::string& want, const char* what = "output") { PBT_CHECK(got == want, what, " is ", pbt::quote(got), " expected ", pbt::quote(want)); }

PBT_PROP(values, 150000, 4000000) {
	PREC = H_PREC;
	Printer p;
	std::filesystem::path file;
	if (c.chance(1, 8)) { // streams opened from a path print the same
		file = "out" + std::to_string(getpid());
		bool app = c.coin();
		{ std::ofstream f(file); f << "old"; }
		if (app) p.want = "old";
		p.out = OutputStream(file, app ? std::ios::app : std::ios::out);
	}
	size_t n = (size_t)c.rarely(1, 6, 100);
	for (size_t i = 0; i < n; i++) {
		if (c.chance(1, 12)) { PREC = (int)c.below(20); p.out << std::setprecision(PREC); }
		if (c.chance(1, 12)) { OutputStream q(std::move(p.out)); p.out = std::move(q); } // moving keeps the format
		anyValue(c, p);
		p.out << ';';
		p.want += ';';
	}
	PBT_NOTE << "printed " << pbt::quote(p.want);
	c.nontrivial();
	if (!file.empty()) {
		p.out = OutputStream(p.os);
		std::ifstream f(file, std::ios::binary);
		std::string got((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
		f.close();
		std::filesystem::remove(file);
		cmp(c, got, p.want, "file");
		auto o = outcome([&] { OutputStream no(std::filesystem::path("no/such/folder"), std::ios::out); });
		PBT_CHECK(o.end == End::Exception, "a file that cannot be opened is not refused");
		return;
	}
	cmp(c, p.os.str(), p.want);
}
// all ways to hand a sequence to join
template<typename C> static void joins(pbt::Ctx& c) {
	C v = gen<C>(c);
	char sep = c.pick<char>({' ', ',', '\n', NOSEP, 'x', '\xff'});
	bool def = c.chance(1, 4);
	std::string s = def ? " " : sep == NOSEP ? "" : std::string(1, sep);
	std::string want = joined(v, s);
	PBT_NOTE << "join with " << pbt::quote(s) << " expected " << pbt::quote(want) << "\n";
	if (v.size() > 1) c.nontrivial();
	c.label(v.size() == 0 ? "empty" : v.size() == 1 ? "one element" : "more elements");
	if (def) {
		cmp(c, join(v).asString(), want, "join(container).asString()");
		cmp(c, join(std::begin(v), std::end(v)).asString(), want, "join(first, last).asString()");
		cmp(c, join(C(v)).asString(), want, "join(temporary).asString()");
		const C& cv = v;
		cmp(c, std::string(join(cv)), want, "string(join(const container))");
		Printer p;
		p.out << '<' << join(v) << '>' << join(v.begin(), v.end()) << '>' << join(C(v)) << '>';
		cmp(c, p.os.str(), "<" + want + ">" + want + ">" + want + ">");
	} else {
		cmp(c, join(v, sep).asString(), want, "join(container, sep).asString()");
		cmp(c, join(std::begin(v), std::end(v), sep).asString(), want, "join(first, last, sep).asString()");
		cmp(c, join(C(v), sep).asString(), want, "join(temporary, sep).asString()");
		Printer p;
		auto kept = join(C(v), sep); // outlives the temporary
		p.out << '<' << join(v, sep) << '>' << kept << '>' << kept << '>';
		cmp(c, p.os.str(), "<" + want + ">" + want + ">" + want + ">");
	}
}
PBT_PROP(joinContainers, 100000, 3000000) {
	PREC = H_PREC;
	switch (c.below(12)) {
		case 0: joins<V>(c); break;
		case 1: joins<std::vector<std::string>>(c); break;
		case 2: joins<std::list<Real>>(c); break;
		case 3: joins<std::deque<char>>(c); break;
		case 4: joins<std::set<Integer>>(c); break;
		case 5: joins<std::map<int, std::string>>(c); break;
		case 6: joins<std::vector<std::vector<int>>>(c); break;
		case 7: joins<std::vector<std::pair<int, Real>>>(c); break;
		case 8: joins<std::string>(c); break;
		case 9: joins<std::vector<std::tuple<int, std::vector<int>>>>(c); break;
		case 10: joins<std::vector<bool>>(c); break;
		default: joins<std::multiset<std::string>>(c); break;
	}
}
PBT_PROP(joinOthers, 60000, 1000000) { // arrays, tuples, lists of values, character arrays
	PREC = H_PREC;
	char sep = c.pick<char>({' ', ',', '\n', NOSEP, 'x'});
	std::string s = sep == NOSEP ? "" : std::string(1, sep);
	auto a = gen<std::array<Integer, 4>>(c);
	auto t = gen<std::tuple<int, std::string, Real, std::vector<int>>>(c);
	auto pr = gen<std::pair<Integer, std::string>>(c);
	int raw[3] = {gen<int>(c), gen<int>(c), gen<int>(c)};
	std::string w = im::genWord(c);
	Integer i1 = gen<Integer>(c);
	Real r1 = gen<Real>(c);
	V vec = gen<V>(c);
	c.nontrivial();
	PBT_NOTE << "separator " << pbt::quote(s) << " array " << txt(a) << " tuple " << pbt::quote(txt(t)) << " pair " << pbt::quote(txt(pr)) << " word " << w << " vector " << txt(vec) << "\n";
	cmp(c, join(a, sep).asString(), joined(a, s), "join(array)");
	cmp(c, join(std::array<Integer, 4>(a), sep).asString(), joined(a, s), "join(temporary array)");
	cmp(c, join(std::array<Integer, 0>{}, sep).asString(), "", "join(empty array)");
	cmp(c, join(std::array<Integer, 1>{i1}, sep).asString(), txt(i1), "join(array of one)");
	cmp(c, join(t, sep).asString(), joinedTuple(t, s), "join(tuple)");
	cmp(c, join(std::tuple<>(), sep).asString(), "", "join(empty tuple)");
	cmp(c, join(std::tuple<Integer>(i1), sep).asString(), txt(i1), "join(tuple of one)");
	cmp(c, join(pr, sep).asString(), txt(pr.first) + s + pr.second, "join(pair)");
	cmp(c, join(std::pair<Integer, std::string>(pr), sep).asString(), txt(pr.first) + s + pr.second, "join(temporary pair)");
	cmp(c, join(raw, sep).asString(), txt(raw[0]) + s + txt(raw[1]) + s + txt(raw[2]), "join(array of int)");
	cmp(c, join("abc", sep).asString(), "a" + s + "b" + s + "c", "join(literal)");
	cmp(c, join("", sep).asString(), "", "join(empty literal)");
	cmp(c, join({i1, r1, w}, sep).asString(), txt(i1) + s + txt(r1) + s + w, "join({...})");
	cmp(c, join({w, vec, i1, vec}, sep).asString(), w + s + txt(vec) + s + txt(i1) + s + txt(vec), "join({... with container})");
	Printer p;
	p.out << join({i1, w}, sep) << '|' << join(t, sep) << '|' << join(a, sep) << '|' << join(join(vec, ',').asString(), sep);
	std::string jv = joined(vec, ",");
	cmp(c, p.os.str(), txt(i1) + s + w + "|" + joinedTuple(t, s) + "|" + joined(a, s) + "|" + joined(jv, s));
	Printer q;
	q.out.join(vec.begin(), vec.end(), sep);
	cmp(c, q.os.str(), joined(vec, s), "OutputStream::join");
}
PBT_PROP(joinLarge, 60, 3000) { // many elements and long ones
	PREC = H_PREC;
	std::mt19937_64 g(c.bits());
	char sep = c.pick<char>({' ', ',', '\n', NOSEP});
	std::string s = sep == NOSEP ? "" : std::string(1, sep);
	V v((size_t)c.range(1000, 60000));
	for (auto& x : v) x = (Integer)(g() >> (g() & 63));
	std::vector<std::string> w((size_t)c.range(1, 2000));
	for (auto& x : w) x = std::string((size_t)(g() % (uint64_t)c.pick<int>({2, 30, 300})), (char)('a' + g() % 26));
	std::vector<Real> r((size_t)c.range(1, 5000));
	for (auto& x : r) x = (Real)(int32_t)g() / 64;
	std::string big((size_t)c.range(1, 300000), 'q');
	PBT_NOTE << v.size() << " integers, " << w.size() << " words, " << r.size() << " reals, separator " << pbt::quote(s) << "\n";
	c.nontrivial();
	auto eq = [&](const std::string& got, const std::string& want, const char* what) {
		if (got == want) return;
		size_t i = 0;
		while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
		PBT_CHECK(false, what, " has ", got.size(), " characters instead of ", want.size(), " and differs at ", i, ": ", pbt::quote(got.substr(i, 40)), " expected ", pbt::quote(want.substr(i, 40)));
	};
	eq(join(v, sep).asString(), joined(v, s), "join(integers)");
	eq(join(w.begin(), w.end(), sep).asString(), joined(w, s), "join(words)");
	eq(join(std::vector<Real>(r), sep).asString(), joined(r, s), "join(reals)");
	Printer p;
	p.out << join(v, sep) << big << join(w, sep) << v;
	p.out.join(r.begin(), r.end(), sep);
	eq(p.os.str(), joined(v, s) + big + joined(w, s) + joined(v, " ") + joined(r, s), "everything printed at once");
}
PBT_PROP(roundTrip, 40000, 800000) { // reading back what was printed
	V ints = gen<V>(c);
	std::vector<std::string> words;
	for (size_t n = len(c); n > 0; n--) words.push_back(im::genWord(c));
	std::vector<Real> reals;
	for (size_t n = len(c); n > 0; n--) reals.push_back((Real)c.range(-100000, 100000) / (H_PREC >= 4 ? 16 : 8)); // exact in the printed digits
	PBT_NOTE << "integers " << pbt::seq(ints) << " words " << pbt::seq(words) << " reals " << pbt::seq(std::vector<double>(reals.begin(), reals.end()));
	if (ints.size() + words.size() + reals.size() > 2) c.nontrivial();
	std::stringstream ss;
	OutputStream out(ss);
	bool nl = c.coin();
	out << ints.size() << ' ' << words.size() << ' ' << reals.size() << '\n';
	if (nl) out << join(ints, NEWLINE) << '\n' << join(words, NEWLINE) << '\n' << join(reals, NEWLINE) << std::endl;
	else out << ints << '\n' << words << '\n' << reals << std::endl;
	std::ostringstream msg;
	OutputStream err(msg);
	InputStream in(ss, true, true, err, Verdicts::WA);
	char sep = nl ? NEWLINE : SPACE;
	auto o = outcome([&] {
		Integer a = in.integer(); in.space(); Integer b = in.integer(); in.space(); Integer d = in.integer(); in.newline();
		auto x = in.integers(a, sep); in.newline();
		auto y = in.strings(b, sep); in.newline();
		auto z = in.reals(d, sep); in.newline(); in.eof();
		PBT_CHECK(x == ints && y == words && z == reals, "read back other values");
	});
	PBT_CHECK(o.end == End::Value, "printed text ", pbt::quote(ss.str()), " is refused: ", msg.str(), o.what);
}
