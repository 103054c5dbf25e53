// C06 command line arguments
#include "inputmodel.h"
using namespace im;

struct Args {
	std::vector<std::string> v;
	std::vector<char*> p;
	int argc() const { return (int)v.size(); }
	char** argv() { p.clear(); for (auto& s : v) p.push_back(s.data()); p.push_back(nullptr); return p.data(); }
	static bool isCmd(const std::string& s) { return s.size() > 2 && s[0] == '-' && s[1] == '-'; }
};
static std::string genArg(pbt::Ctx& c) {
	switch (c.weighted({4, 2, 2, 3, 3, 2, 1})) {
		case 0: return c.pick<std::string>({"--n", "--m", "--seed", "--a", "--case_sensitive", "--x-y", "---", "--1", "--n=5", "--A"});
		case 1: return c.pick<std::string>({"--", "-", "-n", "", "n", "seed", " ", "a b", "—n", "-1", "- -n"});
		case 2: return genWord(c, 8);
		case 3: return genInt(c, INT64_MIN, INT64_MAX);
		case 4: return std::to_string(c.range(-1000, 1000));
		case 5: return genRealTok(c);
		default: return c.pick<std::string>({"+5", "+-5", "++5", "-+5", "--5", "5-", "+", " 5", "5 ", "\t5", "+0", "-0", "0x10", "1e2", "5.0", "+.5", "007", "1'000", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "+9223372036854775807", "-9223372036854775809"});
	}
}
// how a parameter converts: 1 value, 0 error, -1 not fixed by the documentation
static int refInt(const std::string& s, Integer& v) {
	size_t i = 0;
	bool neg = false;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
	if (i >= s.size()) return 0;
	unsigned __int128 x = 0, cap = (unsigned __int128)1 << 64;
	for (; i < s.size(); i++) { if (!dig(s[i])) return 0; x = x * 10 + (unsigned)(s[i] - '0'); if (x > cap) x = cap; }
	if (x > ((unsigned __int128)1 << 63) - (neg ? 0 : 1)) return 0;
	v = neg ? (Integer)(0 - (uint64_t)x) : (Integer)x;
	return 1;
}
static int refReal(const std::string& s, Real& v) {
	if (realShape(s)) {
		int r = realValue(s, v);
		if (r < 0 && std::isinf(v)) return 0; // not representable
		return r;
	}
	std::string t;
	for (char x : s) t += (char)((x >= 'A' && x <= 'Z') ? x + 32 : x);
	if (t.find("inf") != std::string::npos || t.find("nan") != std::string::npos || t.find("0x") != std::string::npos) return -1;
	return 0;
}
static std::string R(Real v) { return Model::R(v); }

template<typename F> static std::string run(F&& f) { // result of an accessor as text
	std::string r;
	auto o = outcome([&] { r = f(); });
	return o.end == End::Value ? r : o.end == End::Exception ? "error" : "verdict exit";
}
struct Expect { std::string s; bool open = false; };
static Expect eInt(const std::string& t) { Integer v; int r = refInt(t, v); return {r ? std::to_string(v) : "error"}; }
static Expect eReal(const std::string& t) { Real v = 0; int r = refReal(t, v); return {r == 1 ? R(v) : "error", r < 0}; }
static void same(pbt::Ctx& c, const char* what, const std::string& got, const Expect& e) {
	if (e.open) { c.label("open"); return; }
	PBT_CHECK(got == e.s, what, " gives ", pbt::quote(got), " expected ", pbt::quote(e.s));
}
template<typename P> static void single(pbt::Ctx& c, const P& p, const std::string* tok) {
	Integer di = c.i64();
	Real dr = (Real)c.range(-100, 100) / 8;
	std::string ds = genArg(c);
	Expect none{"error"};
	same(c, "asString()", run([&] { return p.asString(); }), tok ? Expect{*tok} : none);
	same(c, "asString(default)", run([&] { return p.asString(ds); }), tok ? Expect{*tok} : Expect{ds});
	same(c, "asInteger()", run([&] { return std::to_string(p.asInteger()); }), tok ? eInt(*tok) : none);
	same(c, "asInteger(default)", run([&] { return std::to_string(p.asInteger(di)); }), tok ? eInt(*tok) : Expect{std::to_string(di)});
	same(c, "asReal()", run([&] { return R(p.asReal()); }), tok ? eReal(*tok) : none);
	same(c, "asReal(default)", run([&] { return R(p.asReal(dr)); }), tok ? eReal(*tok) : Expect{R(dr)});
}
template<size_t N, typename C> static void tuples(pbt::Ctx& c, const C& cmd, const std::vector<std::string>& par) {
	auto all = [&](auto&& conv) {
		Expect e;
		if (par.size() < N) return Expect{"error"};
		for (size_t i = 0; i < N; i++) { Expect x = conv(par[i]); if (x.open) e.open = true; if (x.s == "error") { e.s = "error"; if (!e.open) return e; } else if (e.s != "error") e.s += x.s + "|"; }
		return e;
	};
	auto show = [](auto tup, auto&& f) { std::string r; std::apply([&](auto&... x) { ((r += f(x) + "|"), ...); }, tup); return r; };
	same(c, "asStrings<N>()", run([&] { return show(cmd.template asStrings<(Integer)N>(), [](const std::string& s) { return s; }); }), all([](const std::string& s) { return Expect{s}; }));
	same(c, "asIntegers<N>()", run([&] { return show(cmd.template asIntegers<(Integer)N>(), [](Integer v) { return std::to_string(v); }); }), all(eInt));
	same(c, "asReals<N>()", run([&] { return show(cmd.template asReals<(Integer)N>(), [](Real v) { return R(v); }); }), all(eReal));
}
template<typename C> static void command(pbt::Ctx& c, const C& cmd, bool found, const std::vector<std::string>& par) {
	PBT_CHECK(cmd.exists() == found && bool(cmd) == found, "exists() is ", cmd.exists());
	PBT_CHECK(cmd.parameterCount() == (Integer)par.size(), "parameterCount() is ", cmd.parameterCount(), " instead of ", par.size());
	single(c, cmd, par.empty() ? nullptr : &par[0]);
	for (Integer i : {(Integer)0, (Integer)par.size() - 1, (Integer)par.size(), (Integer)-1, c.range(0, (Integer)par.size() + 1), c.i64()}) {
		auto p = cmd[i];
		bool in = i >= 0 && i < (Integer)par.size();
		PBT_CHECK(p.exists() == in && bool(p) == in, "parameter ", i, " exists() is ", p.exists());
		single(c, p, in ? &par[(size_t)i] : nullptr);
	}
	auto all = [&](auto&& conv) {
		Expect e;
		for (auto& s : par) { Expect x = conv(s); if (x.open) e.open = true; if (x.s == "error") { e.s = "error"; if (!e.open) return e; } else if (e.s != "error") e.s += x.s + "|"; }
		return e;
	};
	auto show = [](const auto& v, auto&& f) { std::string r; for (const auto& x : v) r += f(x) + "|"; return r; };
	same(c, "asStrings()", run([&] { return show(cmd.asStrings(), [](const std::string& s) { return s; }); }), all([](const std::string& s) { return Expect{s}; }));
	same(c, "asIntegers()", run([&] { return show(cmd.asIntegers(), [](Integer v) { return std::to_string(v); }); }), all(eInt));
	same(c, "asReals()", run([&] { return show(cmd.asReals(), [](Real v) { return R(v); }); }), all(eReal));
	switch (c.below(4)) {
		case 0: tuples<1>(c, cmd, par); break;
		case 1: tuples<2>(c, cmd, par); break;
		case 2: tuples<3>(c, cmd, par); break;
		default: tuples<0>(c, cmd, par);
	}
}
PBT_PROP(queries, 25000, 1500000) {
	Args a;
	a.v.push_back(c.pick<std::string>({"./prog", "prog", "/a/b c"}));
	for (size_t n = (size_t)c.rarely(0, 10, 700); n > 0; n--) a.v.push_back(genArg(c));
	if (c.chance(9, 10)) { // mostly no command twice
		std::set<std::string> seen;
		for (size_t i = 1; i < a.v.size();) if (Args::isCmd(a.v[i]) && !seen.insert(a.v[i]).second) a.v.erase(a.v.begin() + (long)i); else i++;
	}
	PBT_NOTE << "args:"; for (auto& s : a.v) PBT_NOTE << " " << pbt::quote(s); PBT_NOTE << "\n";
	std::map<std::string, std::vector<std::string>> cmds;
	bool dup = false;
	std::vector<std::string>* cur = nullptr;
	for (size_t i = 1; i < a.v.size(); i++) {
		if (Args::isCmd(a.v[i])) { if (cmds.count(a.v[i])) dup = true; cur = &cmds[a.v[i]]; }
		else if (cur) cur->push_back(a.v[i]);
	}
	if (a.v.size() > 1) c.nontrivial();
	CommandParser p;
	auto o = outcome([&] { p = CommandParser(a.argc(), a.argv()); });
	c.label(dup ? "repeated command" : "parsed");
	PBT_CHECK((o.end == End::Exception) == dup && o.end != End::Exit, dup ? "repeated command accepted" : "arguments refused: ", o.what);
	if (dup) return;
	if (c.chance(1, 6)) { CommandParser q(std::move(p)); p = std::move(q); }
	for (int k = 0; k < 3; k++) {
		std::string q = c.coin() ? c.pickFrom(a.v) : genArg(c);
		bool token = !q.empty();
		for (char x : q) token &= !ws(x);
		PBT_NOTE << "query " << pbt::quote(q) << "\n";
		if (!token) {
			auto r = outcome([&] { (void)p[std::string_view(q)].exists(); });
			PBT_CHECK(r.end == End::Exception, "a query which can be no command is no error");
			continue;
		}
		auto it = cmds.find(q);
		c.label(it == cmds.end() ? "missing command" : it->second.empty() ? "command without parameter" : "command with parameters");
		command(c, p[std::string_view(q)], it != cmds.end(), it == cmds.end() ? std::vector<std::string>{} : it->second);
		size_t at = (size_t)(std::find(a.v.begin(), a.v.end(), q) - a.v.begin());
		std::vector<std::string> rest;
		if (at < a.v.size()) rest.assign(a.v.begin() + (long)at + 1, a.v.end());
		command(c, p.getRaw(q), at < a.v.size(), rest);
	}
	command(c, p.getRaw(), true, a.v);
	for (Integer i : {(Integer)0, (Integer)a.v.size() - 1, (Integer)a.v.size(), (Integer)-1, c.i64(), c.range(0, (Integer)a.v.size())}) {
		bool in = i >= 0 && i < (Integer)a.v.size();
		std::string got;
		auto r = outcome([&] { got = std::string(p[i]); });
		PBT_CHECK((r.end == End::Value) == in && r.end != End::Exit, "argument ", i, in ? " is an error" : " is no error");
		if (in) PBT_CHECK(got == a.v[(size_t)i], "argument ", i, " is ", pbt::quote(got));
	}
}
