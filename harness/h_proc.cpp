// C02 verdicts and messages of real processes, C03 (process part) tolerances,
// C07 settings and seeds, C08 constraints file, C10 multipass
#include "proc.h"
using namespace im;
using namespace proc;

static std::string genText(pbt::Ctx& c) { // something to print
	static const std::string all = [] { std::string s; for (int i = 1; i < 256; i++) s += (char)i; return s; }();
	switch (c.weighted({4, 1, 1})) {
		case 0: return c.bytes("abc XYZ012\n.,!", (size_t)c.small(0, 20));
		case 1: return c.bytes(all, (size_t)c.small(0, 40));
		default: return std::string(c.pick<size_t>({1, 79, 1023, 4096, 8191, 8192, 20000}), 'm');
	}
}
static std::string listing(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += " " + pbt::quote(x); return s; }

// a simulated program: the script and at the same time what has to happen
struct Sim {
	Config cfg;
	std::string script;
	std::map<char, Model> models;
	std::map<char, std::string> texts;
	std::vector<std::string> obs;
	std::string jury, team, sent, err;     // texts written so far
	enum { Running, Ended, Refused, Unknown } state = Running;
	int code = -1;
	std::string lastCmd;
	void readCall(char s, const Call& k) {
		script += std::string("read ") + s + " " + show(k) + "\n";
		lastCmd = std::string("read of ") + s + " " + k.show();
		if (state != Running) return;
		Model& m = models.at(s);
		m.out.clear();
		try { m.run(k); for (auto& x : m.out) obs.push_back(x); obs.push_back("done"); }
		catch (Fail&) { state = Refused; code = H_CODE(cfg.failCode(s)); }
		catch (Maybe&) { state = Unknown; }
	}
	std::string& buffer(char s) { return s == 't' ? team : s == 'x' ? sent : s == 'e' ? err : jury; }
	void writeTo(char s, const std::string& t) {
		script += std::string("write ") + s + " " + hex(t) + "\n";
		if (state == Running) buffer(s) += t;
	}
	void verdict(char s, int v) {
		script += std::string("verdict ") + s + " " + std::to_string(v) + "\n";
		lastCmd = "verdict";
		if (state == Running) { buffer(s) += "\n"; state = Ended; code = H_CODE(v); }
	}
	void ret(int v) { script += "return " + std::to_string(v) + "\n"; lastCmd = "return"; if (state == Running) { state = Ended; code = v; } }
	void exit(int v) { script += "exit " + std::to_string(v) + "\n"; lastCmd = "exit"; if (state == Running) { state = Ended; code = H_CODE(v); } }
};
// prepares the files: for every stream a document derived from the calls that will read it
struct Setup {
	std::map<char, Script> scripts;
	bool pipe = false;
};
static void prepare(pbt::Ctx& c, Sim& s, Setup& u, bool raw) {
	for (char x : s.cfg.streams()) {
		bool sp = x == 's' ? s.cfg.space() : false;
		Script sc = genScript(c, sp);
		if (raw) {
			static const std::string all = [] { std::string r; for (int i = 0; i < 256; i++) r += (char)i; return r; }();
			sc.text = c.bytes(c.coin() ? all : std::string("0123 -.\nab"), (size_t)c.small(0, 80));
		}
		u.scripts[x] = sc;
		s.models.emplace(x, s.cfg.model(x, sc.text));
		s.texts[x] = sc.text;
	}
	u.pipe = c.coin();
	spit(box().file("test.in"), s.texts.count('t') ? s.texts['t'] : "");
	spit(box().file("test.ans"), s.texts.count('j') ? s.texts['j'] : "");
}
static void interleave(pbt::Ctx& c, Sim& s, Setup& u, const std::function<void()>& between) {
	std::map<char, size_t> at;
	for (;;) {
		std::string open;
		for (auto& [x, sc] : u.scripts) if (at[x] < sc.calls.size()) open += x;
		if (open.empty() || s.state != Sim::Running) break;
		char x = open[c.below(open.size())];
		for (size_t n = (size_t)c.small(1, 4); n > 0 && at[x] < u.scripts[x].calls.size(); n--) s.readCall(x, u.scripts[x].calls[at[x]++]);
		between();
	}
}
static void note(pbt::Ctx& c, const Sim& s, const std::vector<std::string>& args) {
	PBT_NOTE << "args:" << listing(args) << "\n";
	for (auto& [x, t] : s.texts) PBT_NOTE << "document " << x << ": " << pbt::quote(t) << "\n";
	PBT_NOTE << "program:\n" << s.script;
}
static void checkObs(pbt::Ctx& c, const Sim& s, const Result& r) {
	if (s.state == Sim::Unknown) {
		PBT_CHECK(r.obs.size() >= s.obs.size() && std::equal(s.obs.begin(), s.obs.end(), r.obs.begin()), "values read are", listing(r.obs), " expected (prefix)", listing(s.obs));
		return;
	}
	size_t k = 0;
	while (k < r.obs.size() && k < s.obs.size() && r.obs[k] == s.obs[k]) k++;
	PBT_CHECK(r.obs == s.obs, "process observed ", k < r.obs.size() ? r.obs[k] : "the end", " expected ", k < s.obs.size() ? s.obs[k] : "the end", " (position ", k, "), ended with ", r.sig(), " stderr ", pbt::quote(r.err.substr(0, 300)));
}
static void checkEnd(pbt::Ctx& c, const Sim& s, const Result& r) {
	if (s.state == Sim::Unknown) { PBT_CHECK(r.code < 1000 || r.code == 1000 + SIGABRT, "crashed: ", r.sig()); return; }
	PBT_CHECK(r.code == s.code, "process ended with ", r.sig(), " instead of ", s.code, " (", s.lastCmd, "), stderr ", pbt::quote(r.err.substr(0, 300)));
}
// texts: exactly what was written if the program ended by itself, plus a message if it was refused
static void checkText(pbt::Ctx& c, const Sim& s, const char* what, const std::string& got, const std::string& written, bool refusalTarget) {
	if (s.state == Sim::Unknown) { PBT_CHECK(got.compare(0, written.size(), written) == 0, what, " is ", pbt::quote(got), ", lost ", pbt::quote(written)); return; }
	if (s.state == Sim::Refused && refusalTarget) {
		PBT_CHECK(got.compare(0, written.size(), written) == 0, what, " is ", pbt::quote(got), " but ", pbt::quote(written), " was written before the refusal");
		std::string rest = got.substr(written.size());
		PBT_CHECK(rest.find_first_not_of(" \n") != std::string::npos, what, " holds no message for the refused read");
	} else PBT_CHECK(got == written, what, " is ", pbt::quote(got), " expected ", pbt::quote(written));
}

#ifdef P_C02
static void processCase(pbt::Ctx& c, bool raw) {
	box().clear();
	Sim s;
	s.cfg = genConfig(c);
	Setup u;
	prepare(c, s, u, raw);
	s.script = s.cfg.before() + "init\n";
	char kind = s.cfg.kind;
	std::string targets = kind == 'N' ? "jtxe" : kind == 'O' ? "jte" : "je";
	auto between = [&] { while (c.chance(1, 3)) { char t = targets[c.below(targets.size())]; s.writeTo(t, genText(c)); if (c.chance(1, 4)) s.script += std::string("flush ") + t + "\n"; } };
	between();
	if (c.chance(5, 6)) interleave(c, s, u, between);
	between();
	int v = c.weighted({6, 2}) == 0 ? c.pick<int>({42, 43, 1}) : (int)c.range(0, 75);
	switch (c.weighted({8, 1, 1})) {
		case 0: s.verdict(targets[c.below(targets.size())], v); break;
		case 1: s.exit(v); break;
		default: s.ret(v);
	}
	auto args = s.cfg.args(c);
	note(c, s, args);
	if (raw || c.chance(1, 4)) c.label("stdin " + std::string(u.pipe ? "pipe" : "file"));
	c.label(std::string("kind ") + kind);
	c.label(s.state == Sim::Refused ? "refused with " + std::to_string(s.code) : s.state == Sim::Unknown ? "undecided" : "ended by itself");
	if (!s.obs.empty() || s.state == Sim::Refused) c.nontrivial();
	Result r = box().run(args, s.script, s.texts['s'], u.pipe);
	checkEnd(c, s, r);
	checkObs(c, s, r);
	bool files = kind == 'O' || kind == 'N';
	checkText(c, s, "standard error", r.err, s.err, false);
	if (files) {
		checkText(c, s, "judgemessage.txt", slurp(box().fb + "/judgemessage.txt"), s.jury, true);
		checkText(c, s, "teammessage.txt", slurp(box().fb + "/teammessage.txt"), s.team, false);
		checkText(c, s, "standard output", r.out, s.sent, false);
	} else checkText(c, s, "standard output", r.out, s.jury, true);
}
PBT_PROP(conformingAndDisturbed, 9000, 200000) { processCase(c, false); }
PBT_PROP(arbitraryFiles, 4000, 100000) { processCase(c, true); }
PBT_PROP(longTokens, 800, 10000) { // long tokens and lines must be judged, not crash the process
	box().clear();
	Sim s;
	s.cfg = genConfig(c);
	char x = s.cfg.streams()[c.below(s.cfg.streams().size())];
	size_t len = c.pick<size_t>({1000, 20000, 100000, 400000, 1000000});
	std::string tok = std::string(len, c.pick<char>({'1', '0', 'a', '-', '.', '\x80', 'A'}));
	if (c.coin()) tok[c.below(len)] = c.pick<char>({'.', 'e', '-', '7', 'b'});
	std::string text = std::string((size_t)c.below(3), c.pick<char>({' ', '\n'})) + tok + (c.coin() ? "\n" : "");
	for (char y : s.cfg.streams()) { s.texts[y] = y == x ? text : "1\n"; s.models.emplace(y, s.cfg.model(y, s.texts[y])); }
	spit(box().file("test.in"), s.texts.count('t') ? s.texts['t'] : "");
	spit(box().file("test.ans"), s.texts.count('j') ? s.texts['j'] : "");
	s.script = s.cfg.before() + "init\n";
	Call k;
	k.op = c.pick<Op>({Op::Str, Op::Int, Op::Real, Op::Strict, Op::ExpStr, Op::ExpInt, Op::ExpReal, Op::StrLen, Op::Space, Op::Newline, Op::Eof});
	k.lo = 0; k.hi = 100; k.rlo = -10; k.rhi = 10; k.maxD = 10; k.exp = "hello"; 
	s.readCall(x, k);
	s.obs.clear(); // values are checked by C01
	s.verdict('j', 42);
	auto args = s.cfg.args(c);
	PBT_NOTE << "kind " << s.cfg.kind << " stream " << x << " " << k.show() << " of a token of " << len << " bytes " << pbt::quote(tok.substr(0, 5)) << "...";
	if (s.state == Sim::Refused) c.nontrivial();
	c.label(opName[(int)k.op]);
	Result r = box().run(args, s.script, s.texts['s'], c.coin());
	checkEnd(c, s, r);
}
#ifndef VH_SETTINGS
PBT_PROP(longTokenUserPattern, 40, 400) { // a pattern of the user on a long token
	box().clear();
	Sim s;
	s.cfg = genConfig(c, "IA");
	size_t len = c.pick<size_t>({200, 2000, 10000, 1000000});
	s.texts['s'] = std::string(len, 'a') + "\n";
	s.texts['t'] = "x\n";
	spit(box().file("test.in"), "x\n");
	for (char y : s.cfg.streams()) s.models.emplace(y, s.cfg.model(y, s.texts[y]));
	s.script = s.cfg.before() + "init\n";
	Call k; k.op = Op::StrPat; k.pat = 0; // [a-z]+
	s.script += "read s " + show(k) + "\n";
	s.verdict('j', 42);
	auto args = s.cfg.args(c);
	PBT_NOTE << "string(regex \"[a-z]+\") on a token of " << len << " bytes";
	c.nontrivial();
	Result r = box().run(args, s.script, s.texts['s'], false);
	PBT_CHECK(r.code == 42, "string(pattern) on a conforming token of ", len >= 100000 ? "at least 100000" : "at most 10000", " bytes ended with ", r.sig());
}
#endif
PBT_PROP(misuse, 1500, 30000) { // never accept or reject
	box().clear();
	Config g = genConfig(c, "IAONG");
	g.argAbs = g.argRel = g.argTol = "";
	spit(box().file("test.in"), "1 2 3\n");
	spit(box().file("test.ans"), "1 2 3\n");
	auto args = g.args(c);
	std::string script = g.before(), in = "1 2 3\n", end = c.pick<std::string>({"verdict j 42\n", "verdict j 43\n", "exit 42\n", "exit 43\n", "return 42\n", "return 43\n", "verdict e 42\n"});
	std::string what;
	auto drop = [&](size_t n) { args.resize(n); };
	size_t need = g.kind == 'O' || g.kind == 'N' ? 3 : g.kind == 'A' ? 1 : 0;
	switch (c.below(10)) {
		case 0: what = "init is never called"; script += c.coin() ? "" : "flush e\n"; break;
		case 1:
			if (!need) c.discard();
			what = "missing arguments";
			drop(c.below(need));
			script += "init\n";
			break;
		case 2: {
			if (!need) c.discard();
			what = "missing file";
			size_t i = c.below(need);
			if (g.kind == 'N' && i == 1) i = 2; // interactors need not open the judge answer
			args[i] = box().file("missing/x");
			script += "init\n";
			break;
		}
		case 3: what = "stream which was not initialised"; script += "init\nreadforeign\n"; break;
		case 4: what = "invalid separator"; if (g.kind == 'G') c.discard(); script += "init\nbadsep\n"; break;
		case 5: what = "malformed tolerance"; args.push_back(c.pick<std::string>({"float_tolerance", "float_absolute_tolerance", "float_relative_tolerance"})); args.push_back(c.pick<std::string>({"x", "1e", "", "1,5", "0.5x", "1e99999"})); script += "init\n"; break;
		case 6: what = "malformed seed"; if (args.size()) for (auto& a : args) if (a == "--seed") c.discard(); args.push_back("--seed"); args.push_back(c.pick<std::string>({"x", "1.5", "", "99999999999999999999", "0x10", "1 "})); script += "init\n"; break;
		case 7: what = "repeated command"; args.push_back("--abc"); args.push_back("1"); args.push_back("--abc"); script += "init\n"; break;
		case 8: what = "second init"; script += "init\ninit\n"; break;
		default: what = "uncaught exception"; script += "init\nthrow\n"; break;
	}
	script += end;
	PBT_NOTE << "kind " << g.kind << ": " << what << ", args" << listing(args) << "\n" << script;
	c.label(what);
	c.nontrivial();
	Result r = box().run(args, script, in, c.coin());
	PBT_CHECK(r.code != 42 && r.code != 43, what, ": the process ended with ", r.sig());
	PBT_CHECK(r.code != 0, what, ": the process ended with success");
	PBT_CHECK(r.obs.empty(), what, ": the process went on after the misuse:", listing(r.obs));
}
PBT_PROP(generatorStreams, 800, 10000) { // generators print the test case on standard output, messages on standard error
	box().clear();
	std::string script = "kind G\ninit\n", out, err;
	for (size_t n = c.below(6); n > 0; n--) {
		std::string t = genText(c);
		char x = c.pick<char>({'o', 'j'});
		script += std::string("write ") + x + " " + hex(t) + "\n";
		(x == 'o' ? out : err) += t;
	}
	int code = 0;
	if (c.chance(1, 4)) { script += "verdict j 1\n"; code = H_CODE(1); err += "\n"; } else script += "return 0\n";
	PBT_NOTE << script;
	if (!out.empty()) c.nontrivial();
	Result r = box().run({}, script, "", c.coin());
	PBT_CHECK(r.code == code, "generator ended with ", r.sig());
	PBT_CHECK(r.out == out, "standard output is ", pbt::quote(r.out), " expected ", pbt::quote(out));
	PBT_CHECK(r.err == err, "standard error is ", pbt::quote(r.err), " expected ", pbt::quote(err));
}
#endif

#ifdef P_C03P
// a number whose distance to e is clearly inside or outside a tolerance in use
static Real nearValue(pbt::Ctx& c, Real e) {
	Real tol = c.pick<Real>({1e-9L, 1e-6L, 1e-3L, 0.0625L, 0.5L});
	Real f = c.pick<Real>({0, 0.3L, 0.9L, 0.99L, 1.01L, 1.1L, 3, 20});
	Real d = tol * f * (c.coin() ? 1 : std::abs(e));
	return c.coin() ? e + d : e - d;
}
static Real someReal(pbt::Ctx& c) { return c.weighted({1, 4, 2}) == 0 ? 0 : (Real)c.range(-1000, 1000) / c.pick<Real>({1, 8, 1000, 0.001L}); }
PBT_PROP(streamsUseTheTolerances, 4000, 100000) {
	box().clear();
	Sim s;
	s.cfg = genConfig(c);
	Setup u;
	u.pipe = c.coin();
	for (char x : s.cfg.streams()) {
		Script& sc = u.scripts[x];
		for (size_t n = (size_t)c.small(1, 4); n > 0; n--) {
			Call k;
			k.op = c.pick<Op>({Op::ExpReal, Op::RealRange, Op::RealsRange, Op::ExpReal});
			k.rlo = someReal(c);
			k.rhi = k.rlo + (Real)c.range(0, 10);
			k.count = 1;
			Real v = k.op == Op::ExpReal || c.coin() ? nearValue(c, k.rlo) : nearValue(c, k.rhi);
			sc.text += decimal(c, v, (int)c.range(12, 18));
			sc.calls.push_back(k);
			bool nl = c.coin();
			Call z; z.op = nl ? Op::Newline : Op::Space;
			sc.text += nl ? '\n' : ' ';
			sc.calls.push_back(z);
		}
		s.texts[x] = sc.text;
		s.models.emplace(x, s.cfg.model(x, sc.text));
	}
	spit(box().file("test.in"), s.texts.count('t') ? s.texts['t'] : "");
	spit(box().file("test.ans"), s.texts.count('j') ? s.texts['j'] : "");
	s.script = s.cfg.before() + "init\n";
	// comparisons of the program itself
	for (size_t n = c.below(4); n > 0; n--) {
		Real e = someReal(c), g = nearValue(c, e);
		Real ta = c.pick<Real>({0, 1e-9L, 1e-3L, 0.5L}), tr = c.pick<Real>({0, 1e-9L, 1e-3L, 0.5L});
		std::string want;
		bool sure = true;
		Real A[3] = {s.cfg.abst(), ta, ta}, B[3] = {s.cfg.relt(), s.cfg.relt(), tr};
		for (int i = 0; i < 3; i++) {
			int eq = closeTo(g, e, A[i], B[i]);
			if (eq < 0) sure = false;
			want += eq == 1 ? '1' : '0';
			want += eq == 1 || g <= e ? '1' : '0';
			want += eq == 1 || g >= e ? '1' : '0';
		}
		if (!sure) continue;
		s.script += "cmp " + num(g) + " " + num(e) + " " + num(ta) + " " + num(tr) + "\n";
		s.obs.push_back(want);
	}
	interleave(c, s, u, [] {});
	s.verdict('j', 42);
	auto args = s.cfg.args(c);
	note(c, s, args);
	PBT_NOTE << "effective tolerances: absolute " << (double)s.cfg.abst() << " relative " << (double)s.cfg.relt() << "\n";
	c.label(std::string("kind ") + s.cfg.kind);
	c.label(s.state == Sim::Refused ? "refused" : s.state == Sim::Unknown ? "undecided" : "accepted");
	if (s.cfg.abst() != H_EPS || s.cfg.relt() != H_EPS) c.nontrivial();
	Result r = box().run(args, s.script, s.texts['s'], u.pipe);
	checkEnd(c, s, r);
	checkObs(c, s, r);
}
#endif

#ifdef P_C07
PBT_PROP(settingsReachTheStreams, 7000, 150000) {
	box().clear();
	Sim s;
	s.cfg = genConfig(c);
	Setup u;
	// documents whose judgement depends on the two modes
	for (char x : s.cfg.streams()) {
		Script& sc = u.scripts[x];
		bool strict = c.chance(3, 4);
		for (size_t n = (size_t)c.small(1, 5); n > 0; n--) {
			Call k;
			k.op = c.pick<Op>({Op::Str, Op::ExpStr, Op::Int, Op::StrPat, Op::ExpStr});
			std::string t = tokenFor(c, k);
			if (t.empty()) t = "x";
			sc.text += t; sc.calls.push_back(k);
			bool nl = c.coin();
			Call z; z.op = nl ? Op::Newline : Op::Space;
			sc.calls.push_back(z);
			if (strict || c.coin()) sc.text += nl ? '\n' : ' '; else sc.text += c.pick<std::string>({"  ", "\t", "\r\n", "\n", " ", "\n\n"});
		}
		Call e; e.op = Op::Eof;
		sc.calls.push_back(e);
		if (c.chance(1, 6)) sc.text += "\n";
		s.texts[x] = sc.text;
		s.models.emplace(x, s.cfg.model(x, sc.text));
	}
	u.pipe = c.coin();
	spit(box().file("test.in"), s.texts.count('t') ? s.texts['t'] : "");
	spit(box().file("test.ans"), s.texts.count('j') ? s.texts['j'] : "");
	s.script = s.cfg.before() + "init\nsettings\n";
	s.obs = {"abs " + Model::R(s.cfg.abst()), "rel " + Model::R(s.cfg.relt()), std::string("space ") + (s.cfg.space() ? "1" : "0"), std::string("case ") + (s.cfg.casing() ? "1" : "0")};
	if (c.chance(1, 3)) {
		s.script += "reset\nagain\nsettings\n";
		auto first = s.obs;
		for (auto x : {"set abs threw", "set rel threw", "set space threw", "set case threw", "init threw"}) s.obs.push_back(x);
		s.obs.insert(s.obs.end(), first.begin(), first.end());
	}
	if (c.chance(1, 3)) {
		std::string a = c.bytes("abAB", (size_t)c.small(1, 5)), b = a;
		for (char& x : b) if (c.coin()) x = (char)(x ^ 32);
		if (c.chance(1, 4)) b += "z";
		s.script += "streq " + hex(a) + " " + hex(b) + "\n";
		auto low = [&](std::string t) { if (!s.cfg.casing()) for (char& x : t) x = (char)(x | 32); return t; };
		std::string la = low(a), lb = low(b);
		size_t d = 0;
		while (d < la.size() && d < lb.size() && la[d] == lb[d]) d++;
		s.obs.push_back(la == lb ? "1 -" : "0 " + std::to_string(d));
		s.obs.push_back(la == lb ? "match" : "nomatch");
	}
	interleave(c, s, u, [] {});
	s.verdict('j', 42);
	auto args = s.cfg.args(c);
	note(c, s, args);
	PBT_NOTE << "effective: space sensitive " << s.cfg.space() << " case sensitive " << s.cfg.casing() << "\n";
	c.label(std::string("kind ") + s.cfg.kind + (s.cfg.space() ? " space" : "") + (s.cfg.casing() ? " case" : ""));
	c.label(s.state == Sim::Refused ? "refused" : s.state == Sim::Unknown ? "undecided" : "accepted");
	if (s.cfg.setSpace || s.cfg.setCase || s.cfg.argSpace || s.cfg.argCase) c.nontrivial();
	Result r = box().run(args, s.script, s.texts['s'], u.pipe);
	checkEnd(c, s, r);
	checkObs(c, s, r);
}
PBT_PROP(noInitIsAnError, 300, 3000) {
	box().clear();
	Config g = genConfig(c, "IAONG");
	std::string script = g.before();
	script += "settings\n";
	script += c.pick<std::string>({"return 0\n", "return 42\n", "return 43\n", "exit 42\n", "exit 0\n", "exit 43\n", "verdict j 42\n", "return 1\n"});
	PBT_NOTE << script;
	c.nontrivial();
	Result r = box().run(g.args(c), script, "1\n", c.coin());
	PBT_CHECK(r.code != 0 && r.code != 42 && r.code != 43, "a program without init ended with ", r.sig());
	PBT_CHECK(r.code >= 1000 || !r.err.empty(), "no diagnostic for a program without init");
}
PBT_PROP(seededRuns, 1500, 20000) {
	// equal seeds, equal numbers: in this process, in processes of any kind, and whatever else is on the command line
	box().clear();
	spit(box().file("test.in"), "1\n");
	spit(box().file("test.ans"), "1\n");
	bool given = c.coin();
	Integer seed = c.i64();
	int n = (int)c.rarely(1, 20, 120);
	auto one = [&](bool viaCall) {
		Config g = genConfig(c, "IAONG");
		std::string script = g.before();
		if (given && !viaCall) g.argSeed = std::to_string(seed);
		script += "init\n";
		if (viaCall && given) script += "seed " + std::to_string((UInteger)seed) + "\n";
		script += "draw " + std::to_string(n) + "\nreturn 0\n";
		auto args = g.args(c);
		PBT_NOTE << "args:" << listing(args) << "\n" << script;
		Result r = box().run(args, script, "1\n", c.coin());
		PBT_CHECK(r.code == 0, "ended with ", r.sig(), " ", pbt::quote(r.err.substr(0, 200)));
		PBT_CHECK(r.obs.size() == (size_t)n, "drew ", r.obs.size(), " numbers");
		return r.obs;
	};
	c.nontrivial();
	c.label(given ? "seed given" : "default seed");
	auto a = one(false), b = one(given && c.coin());
	PBT_CHECK(a == b, "two runs with the same seed differ:", listing(a), " and", listing(b));
	if (given) {
		Random::seed((UInteger)seed);
		std::vector<std::string> e;
		for (int i = 0; i < n; i++) e.push_back(std::to_string(Random::integer()));
		PBT_CHECK(a == e, "--seed ", seed, " gives", listing(a), " instead of", listing(e));
		if (c.chance(1, 4)) { Integer other = seed; seed = (Integer)((UInteger)seed ^ ((UInteger)1 << c.below(64))); PBT_CHECK(one(false) != a, "seeds ", other, " and ", seed, " give the same numbers"); }
	}
}
#endif

#ifdef P_C08
struct ConModel {
	struct Entry { int type = 0; bool hadMin = false, hadMax = false; int loI = 0; Integer min = 0, max = 0, lo = 0, hi = 0; Real rmin = 0, rmax = 0, rlo = 0, rhi = 0; bool used = false; bool fuzzyMin = false, fuzzyMax = false; };
	std::vector<std::string> order;
	std::map<std::string, Entry> e;
	Entry& touch(const std::string& n) { if (!e.count(n)) order.push_back(n); return e[n]; }
	bool logInt(const std::string& n, int type, Integer lo, Integer hi, Integer v) {
		Entry& x = touch(n);
		if (x.used && x.type != type) return false;
		Integer up = hi - 1;
		if (!x.used) { x.used = true; x.type = type; x.min = x.max = v; x.lo = lo; x.hi = up; }
		x.hadMin |= v == lo; x.hadMax |= v == up;
		x.min = std::min(x.min, v); x.max = std::max(x.max, v); x.lo = std::min(x.lo, lo); x.hi = std::max(x.hi, up);
		return true;
	}
	bool logReal(const std::string& n, Real lo, Real hi, Real v) {
		Entry& x = touch(n);
		if (x.used && x.type != 2) return false;
		if (!x.used) { x.used = true; x.type = 2; x.rmin = x.rmax = v; x.rlo = lo; x.rhi = hi; }
		int a = closeTo(v, lo, H_EPS, H_EPS), b = closeTo(v, hi, H_EPS, H_EPS);
		x.hadMin |= a == 1; x.hadMax |= b == 1; x.fuzzyMin |= a < 0; x.fuzzyMax |= b < 0;
		x.rmin = std::min(x.rmin, v); x.rmax = std::max(x.rmax, v); x.rlo = std::min(x.rlo, lo); x.rhi = std::max(x.rhi, hi);
		return true;
	}
	static std::string fix(Real v) { char b[6000]; snprintf(b, sizeof b, "%.*Lf", H_PREC, v); return b; }
	// expected lines; '?' for a flag the tolerance does not decide
	std::vector<std::string> lines() const {
		std::vector<std::string> r;
		for (auto& n : order) {
			const Entry& x = e.at(n);
			if (!x.used) continue;
			auto flag = [](bool had, bool fuzzy) { return had ? "1" : fuzzy ? "?" : "0"; };
			std::string l = "LocationNotSupported:" + n + " " + n + " " + flag(x.hadMin, x.fuzzyMin) + " " + flag(x.hadMax, x.fuzzyMax) + " ";
			if (x.type == 2) l += fix(x.rmin) + " " + fix(x.rmax) + " " + fix(x.rlo) + " " + fix(x.rhi);
			else l += std::to_string(x.min) + " " + std::to_string(x.max) + " " + std::to_string(x.lo) + " " + std::to_string(x.hi);
			r.push_back(l);
		}
		return r;
	}
};
PBT_PROP(constraintsFile, 7000, 150000) {
	box().clear();
	Sim s;
	s.cfg = genConfig(c, "IAO");
	s.cfg.argTol = s.cfg.argAbs = s.cfg.argRel = "";
	ConModel cm;
	bool withFile = c.chance(5, 6);
	std::string path = box().file("constraints.txt");
	std::vector<std::string> names;
	for (size_t n = (size_t)(c.chance(1, 30) ? c.range(5, 60) : c.small(1, 4)); n > 0; n--) {
		std::string w = c.bytes("abN09_[]:.-", (size_t)c.small(1, 6));
		names.push_back(w);
	}
	if (c.chance(1, 20)) names.push_back("has space");
	char x = s.cfg.streams()[c.below(s.cfg.streams().size())];
	std::string text;
	struct Step { std::string name; bool direct; Call k; };
	std::vector<Step> steps;
	std::map<std::string, Op> usual; // a name mostly keeps its type
	for (size_t n = (size_t)c.rarely(1, 12, 100); n > 0; n--) {
		Step st;
		st.name = c.pickFrom(names);
		st.direct = c.chance(1, 4);
		Op op = c.pick<Op>({Op::IntRange, Op::IntsRange, Op::RealRange, Op::RealsRange, Op::Strict, Op::Stricts, Op::StrLen, Op::StrPatLen, Op::StrsLen, Op::StrsPatLen, Op::Space});
		if (usual.count(st.name) && c.chance(7, 8)) op = usual[st.name];
		else if (op != Op::Space) usual[st.name] = op;
		Call k = genCall(c);
		k.op = op;
		k.lo = c.range(-10, 10); k.hi = k.lo + (Integer)c.range(1, 12);
		if (op == Op::IntRange || op == Op::IntsRange) { if (c.chance(1, 6)) { k.lo = c.i64(); k.hi = c.i64(); if (k.lo > k.hi) std::swap(k.lo, k.hi); if (k.hi == INT64_MIN) k.hi++; } }
		else { k.lo = std::max<Integer>(k.lo, 0); k.hi = std::max<Integer>(k.hi, k.lo + 1); }
		k.rlo = (Real)c.range(-40, 40) / 4; k.rhi = k.rlo + (Real)c.range(1, 40) / 4;
		k.minD = 0; k.maxD = 20;
		k.count = c.rarely(0, 4, 80); k.sep = ' ';
		if (st.direct) {
			k.op = op == Op::Space ? Op::Space : op == Op::IntRange || op == Op::IntsRange ? Op::IntRange : op >= Op::Real && op <= Op::Strict ? Op::RealRange : op == Op::RealsRange || op == Op::Stricts ? Op::RealRange : c.chance(5, 6) ? Op::StrLen : Op::StrPatLen;
			k.count = k.op == Op::IntRange ? (c.chance(1, 5) ? c.i64() : c.i64in(k.lo, k.hi - 1)) : c.range(0, 12);
			Real v = k.rlo + (k.rhi - k.rlo) * (Real)c.below(5) / 4;
			if (c.chance(1, 5)) v += c.pick<Real>({1e-8L, -1e-8L, 1e-3L, 100});
			k.exp = num(v);
		}
		auto token = [&]() -> std::string {
			switch (k.op) {
				case Op::IntRange: case Op::IntsRange: return std::to_string(c.chance(1, 30) ? k.hi : c.coin() ? c.pick<Integer>({k.lo, k.hi - 1}) : c.i64in(k.lo, k.hi - 1));
				case Op::RealRange: case Op::RealsRange: case Op::Strict: case Op::Stricts: {
					Real v = k.rlo + (k.rhi - k.rlo) * (Real)c.below(c.chance(1, 4) ? 5 : 4) / 4;
					if (c.chance(1, 4)) v += c.pick<Real>({1e-8L, -1e-8L, 1e-4L});
					return decimal(c, v, (int)c.range(3, 10));
				}
				default: return std::string((size_t)(c.chance(1, 30) ? k.hi : c.coin() ? c.pick<Integer>({std::max<Integer>(k.lo, 1), std::max<Integer>(1, k.hi - 1)}) : std::max<Integer>(1, c.i64in(k.lo, k.hi - 1))), 'a');
			}
		};
		if (k.op == Op::StrPatLen || k.op == Op::StrsPatLen) k.pat = 0;
		if (!st.direct && k.op != Op::Space) {
			Integer cnt = k.vec() ? k.count : 1;
			for (Integer i = 0; i < cnt; i++) text += token() + " ";
		}
		st.k = k;
		steps.push_back(st);
	}
	s.texts[x] = text;
	for (char y : s.cfg.streams()) s.models.emplace(y, s.cfg.model(y, y == x ? text : "1\n"));
	for (char y : s.cfg.streams()) if (y != x) s.texts[y] = "1\n";
	spit(box().file("test.in"), s.texts.count('t') ? s.texts['t'] : "");
	spit(box().file("test.ans"), s.texts.count('j') ? s.texts['j'] : "");
	s.script = s.cfg.before() + "init\n";
	Model& m = s.models.at(x);
	bool isSpace = x == 's' && s.cfg.space();
	for (auto& st : steps) {
		const Call& k = st.k;
		s.script += "con " + hex(st.name) + " " + (st.direct ? '-' : x) + " " + show(k) + "\n";
		if (s.state != Sim::Running) continue;
		if (st.name.find(' ') != std::string::npos) { s.obs.push_back("con threw"); 
			continue; }
		cm.touch(st.name);
		bool ok = true;
		bool real = k.op == Op::RealRange || k.op == Op::RealsRange || k.op == Op::Strict || k.op == Op::Stricts;
		bool integer = k.op == Op::IntRange || k.op == Op::IntsRange;
		if (k.op == Op::Space) {}
		else if (st.direct) {
			if (real) ok = cm.logReal(st.name, k.rlo, k.rhi, std::strtold(k.exp.c_str(), nullptr));
			else if (integer) ok = cm.logInt(st.name, 1, k.lo, k.hi, k.count);
			else ok = cm.logInt(st.name, k.op == Op::StrLen ? 3 : 4, k.lo, k.hi, k.count);
		} else try {
			Integer cnt = k.vec() ? k.count : 1;
			for (Integer i = 0; i < cnt && ok; i++) {
				if (integer) ok = cm.logInt(st.name, 1, k.lo, k.hi, m.integer(k, true));
				else if (k.op == Op::RealRange || k.op == Op::RealsRange) ok = cm.logReal(st.name, k.rlo, k.rhi, m.real(k, true));
				else if (real) ok = cm.logReal(st.name, k.rlo, k.rhi, m.strict(k));
				else ok = cm.logInt(st.name, 3, k.lo, k.hi, (Integer)m.str(k, true, k.op == Op::StrPatLen || k.op == Op::StrsPatLen).size());
				if (ok && i + 1 < cnt) m.sep(k);
			}
		} catch (Fail&) { s.state = Sim::Refused; s.code = H_CODE(s.cfg.failCode(x)); s.lastCmd = "con " + k.show(); continue; }
		catch (Maybe&) { c.discard(); }
		s.obs.push_back(ok ? "con ok" : "con threw");
		if (!ok) c.label("type conflict");
		if (isSpace && !st.direct && k.op != Op::Space && (k.vec() ? k.count : 1) > 0) {
			// the separator behind the last token
			if (!ok) { // the conflict came at the first value: continue behind it
				Call z; z.op = Op::Space; s.readCall(x, z);
			} else { Call z; z.op = Op::Space; s.readCall(x, z); }
		}
	}
	switch (c.below(4)) {
		case 0: s.verdict('j', c.pick<int>({42, 43, 1})); break;
		case 1: s.verdict(s.cfg.kind == 'O' ? 't' : 'e', 42); break;
		case 2: s.ret(c.pick<int>({0, 42})); break;
		default: s.exit(43);
	}
	auto args = s.cfg.args(c);
	if (withFile) { args.push_back("--constraints_file"); args.push_back(path); }
	note(c, s, args);
	c.label(s.state == Sim::Refused ? "refused" : "ended by itself");
	auto want = cm.lines();
	c.label(std::to_string(std::min<size_t>(want.size(), 4)) + " lines");
	if (!want.empty()) c.nontrivial();
	Result r = box().run(args, s.script, s.texts['s'], c.coin());
	checkEnd(c, s, r);
	checkObs(c, s, r);
	bool exists;
	std::string got = slurp(path, &exists);
	if (!withFile) {
		PBT_CHECK(!exists, "a constraints file was written although none was requested");
		size_t files = 0;
		for (auto& p : std::filesystem::directory_iterator(box().fb)) { auto n = p.path().filename().string(); files += n != "judgemessage.txt" && n != "teammessage.txt"; }
		PBT_CHECK(files == 0, "unexpected files in the feedback directory");
		return;
	}
	std::vector<std::string> lines;
	std::istringstream is(got);
	for (std::string l; std::getline(is, l);) lines.push_back(l);
	PBT_CHECK(got.empty() || got.back() == '\n', "constraints file does not end with a newline");
	PBT_CHECK(lines.size() == want.size(), "constraints file has the lines", listing(lines), " expected", listing(want));
	for (size_t i = 0; i < lines.size(); i++) {
		bool same = lines[i].size() == want[i].size();
		for (size_t j = 0; same && j < lines[i].size(); j++) if (lines[i][j] != want[i][j] && !(want[i][j] == '?' && (lines[i][j] == '0' || lines[i][j] == '1'))) same = false;
		PBT_CHECK(same, "line ", i, " of the constraints file is ", pbt::quote(lines[i]), " expected ", pbt::quote(want[i]));
	}
}
#endif

#ifdef P_C10
PBT_PROP(passHistories, 2500, 60000) {
	box().clear();
	spit(box().file("test.in"), "7 x\n");
	spit(box().file("test.ans"), "ok\n");
	Config base = genConfig(c, "ON");
	size_t passes = (size_t)c.rarely(1, 8, 14);
	bool nextExists = false;
	std::string nextText, state;       // what the predecessor left
	std::vector<Call> stateCalls;      // the calls that read it
	bool sameConfig = c.coin();
	for (size_t p = 0; p < passes; p++) {
		Sim s;
		s.cfg = sameConfig ? base : genConfig(c, "ON");
		s.cfg.kind = base.kind;
		s.texts['s'] = c.pick<std::string>({"", "1 2\n", "abc"});
		s.models.emplace('s', s.cfg.model('s', s.texts['s']));
		s.script = s.cfg.before() + "init\n" + (c.coin() ? "settings\n" : "");
		bool settings = s.script.find("settings") != std::string::npos;
		if (settings) for (auto x : {"abs " + Model::R(s.cfg.abst()), "rel " + Model::R(s.cfg.relt()), std::string("space ") + (s.cfg.space() ? "1" : "0"), std::string("case ") + (s.cfg.casing() ? "1" : "0")}) s.obs.push_back(x);
		if (c.chance(1, 3)) s.writeTo('j', "before");
		s.script += "multi\npassno\n";
		s.obs.push_back("pass " + std::to_string(p));
		Model st;
		st.in = state; st.space = false; st.casing = true; st.abst = st.relt = H_EPS;
		std::string newState, newNext;
		std::vector<Call> newCalls;
		size_t at = 0;
		Script ns = genScript(c, false);
		if (c.chance(1, 8)) ns = Script{};
		bool wroteState = c.chance(7, 8);
		size_t stateOff = 0;
		std::string nt = c.coin() ? genText(c) : "next" + std::to_string(p) + "\n";
		if (c.chance(1, 6)) nt = "";
		if (c.chance(1, 16)) { // any bytes and more than any buffer holds
			c.label("large next input");
			std::mt19937_64 g(c.bits());
			nt.clear();
			for (size_t n = (size_t)c.range(1, 150000); n > 0; n--) nt += (char)(g() >> 40);
		}
		size_t nextOff = 0;
		// reading the old and writing the new state in any interleaving
		for (;;) {
			std::string todo;
			if (p > 0 && at < stateCalls.size()) todo += 'r';
			if (wroteState && stateOff < ns.text.size()) todo += 'w';
			if (nextOff < nt.size()) todo += 'n';
			if (todo.empty() || s.state != Sim::Running || c.chance(1, 40)) break;
			char t = todo[c.below(todo.size())];
			if (t == 'r') {
				Call& k = stateCalls[at++];
				s.script += "read p " + show(k) + "\n";
				s.lastCmd = "read of prevstate " + k.show();
				st.out.clear();
				try { st.run(k); s.obs.insert(s.obs.end(), st.out.begin(), st.out.end()); s.obs.push_back("done"); }
				catch (Fail&) { s.state = Sim::Refused; s.code = H_CODE(1); }
				catch (Maybe&) { s.state = Sim::Unknown; }
			} else if (t == 'w') {
				size_t n = std::min<size_t>(ns.text.size() - stateOff, (size_t)c.small(1, 40));
				s.script += "write s " + hex(ns.text.substr(stateOff, n)) + "\n";
				stateOff += n;
				newState = ns.text.substr(0, stateOff);
			} else {
				size_t n = std::min<size_t>(nt.size() - nextOff, c.coin() ? nt.size() : nt.size() > 2000 ? (size_t)c.range(3000, 70000) : (size_t)c.small(1, 20));
				s.script += "write n " + hex(nt.substr(nextOff, n)) + "\n";
				nextOff += n;
				newNext = nt.substr(0, nextOff);
			}
		}
		if (c.chance(1, 6)) { Call k; k.op = Op::Str; s.readCall('s', k); }
		bool last = p + 1 == passes;
		bool next = false;
		switch (c.weighted({last ? 1u : 8u, 4, 1, 1})) {
			case 0: next = true;
				if (c.coin()) { s.script += "next\n"; } else { s.script += "nextvia\n"; if (s.state == Sim::Running) s.jury += "\n"; }
				s.lastCmd = "NEXT";
				if (s.state == Sim::Running) { s.state = Sim::Ended; s.code = H_CODE(42); } else next = false;
				break;
			case 1: s.verdict('j', c.pick<int>({42, 43, 1})); break;
			case 2: s.exit(c.pick<int>({42, 43, 1})); break;
			default: s.ret(c.pick<int>({42, 0}));
		}
		if (s.state == Sim::Unknown) c.discard();
		auto args = s.cfg.args(c);
		PBT_NOTE << "--- pass " << p << " args:" << listing(args) << "\n" << s.script;
		Result r = box().run(args, s.script, s.texts['s'], c.coin());
		checkEnd(c, s, r);
		checkObs(c, s, r);
		checkText(c, s, "judgemessage.txt", slurp(box().fb + "/judgemessage.txt"), s.jury, true);
		if (next) { nextExists = true; nextText = newNext; c.label("NEXT"); }
		bool ex;
		std::string got = slurp(box().fb + "/nextpass.in", &ex);
		PBT_CHECK(ex == nextExists, "pass ", p, ex ? " left a nextpass.in although it did not end with NEXT" : " ended with NEXT but there is no nextpass.in");
		if (ex) PBT_CHECK(got == nextText, "after pass ", p, " nextpass.in holds ", pbt::quote(got), " expected ", pbt::quote(nextText));
		if (ex && c.chance(1, 3)) { unlink((box().fb + "/nextpass.in").c_str()); nextExists = false; } // the contest system takes it
		state = newState;
		stateCalls = ns.calls;
		if (p >= 1 && at > 0) c.nontrivial();
		if (p >= 2 && at > 0) c.label("third or later pass reads a state");
	}
	c.label(std::to_string(passes) + " passes");
}
#endif
