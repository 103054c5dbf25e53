// C01 token reading, C04 strict reals
#include "inputmodel.h"
using namespace im;

static void compare(pbt::Ctx& c, const std::string& text, const std::vector<Call>& calls, bool space, bool casing, Real abst, Real relt, int verdict, bool viaFile, bool moveObject) {
	PBT_NOTE << "spaceSensitive=" << space << " caseSensitive=" << casing << " absTol=" << (double)abst << " relTol=" << (double)relt << " input=" << pbt::quote(text) << " calls:";
	for (auto& k : calls) PBT_NOTE << " " << k.show() << ";";
	Model m;
	m.in = text; m.space = space; m.casing = casing; m.abst = abst; m.relt = relt;
	enum { Ok, FailV, Undecided } expect = Ok;
	size_t at = 0;
	try { for (; at < calls.size(); at++) m.run(calls[at]); }
	catch (Fail&) { expect = FailV; }
	catch (Maybe&) { expect = Undecided; }
	c.label(expect == Ok ? "conforming document" : expect == FailV ? "document refused" : "undecided");
	if (expect == FailV) c.label(std::string("refused by ") + opName[(int)calls[at].op]);
	if (at >= 2) c.nontrivial();

	std::ostringstream msg;
	OutputStream out(msg);
	std::istringstream iss(text);
	std::string file;
	std::unique_ptr<InputStream> s;
	if (viaFile) {
		file = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/in." + std::to_string(getpid());
		{ std::ofstream f(file, std::ios::binary); f << text; }
		s = std::make_unique<InputStream>(std::filesystem::path(file), space, casing, out, Verdicts::Verdict(verdict), abst, relt);
		unlink(file.c_str());
	} else s = std::make_unique<InputStream>(iss, space, casing, out, Verdicts::Verdict(verdict), abst, relt);
	std::vector<std::string> got;
	size_t i = 0;
	auto o = outcome([&] {
		for (; i < calls.size(); i++) {
			if (moveObject && i % 2 == 1) { InputStream tmp(std::move(*s)); *s = std::move(tmp); }
			apply(*s, calls[i], got);
		}
	});
	auto where = [&](size_t k) { return k < calls.size() ? calls[k].show() : std::string("end"); };
	PBT_CHECK(o.end != End::Exception, "call ", i, " ", where(i), " threw: ", o.what);
	if (expect == Undecided) {
		PBT_CHECK(i >= at, "refused call ", i, " ", where(i), " although it conforms; message: ", msg.str());
		PBT_CHECK(std::equal(m.out.begin(), m.out.end(), got.begin(), got.begin() + (long)std::min(m.out.size(), got.size())), "values differ");
		return;
	}
	if (expect == Ok) PBT_CHECK(o.end == End::Value, "refused call ", i, " ", where(i), " although it conforms; message: ", msg.str());
	else {
		PBT_CHECK(o.end == End::Exit, "accepted the document; call ", at, " ", where(at), " must refuse it");
		PBT_CHECK(i == at, "refused at call ", i, " ", where(i), " instead of call ", at, " ", where(at), "; message: ", msg.str());
		PBT_CHECK(o.code == verdict, "ended with verdict ", o.code, " instead of ", verdict);
		PBT_CHECK(!msg.str().empty(), "refused without any message");
	}
	PBT_CHECK(got.size() == m.out.size(), "number of values ", got.size(), " expected ", m.out.size());
	for (size_t k = 0; k < got.size(); k++) PBT_CHECK(got[k] == m.out[k], "value ", k, " is ", pbt::quote(got[k]), " expected ", pbt::quote(m.out[k]));
}

#ifdef P_C01
static void scripts(pbt::Ctx& c, bool space) {
	bool casing = c.coin();
	Real abst = H_EPS, relt = H_EPS;
	if (c.chance(1, 4)) { abst = c.pick<Real>({0, 1e-9L, 1e-3L, 0.5L}); relt = c.pick<Real>({0, 1e-9L, 1e-3L, 0.25L}); }
	Script s = genScript(c, space);
	compare(c, s.text, s.calls, space, casing, abst, relt, c.pick<int>({43, 1, 42, 7}), c.chance(1, 10), c.chance(1, 6));
}
PBT_PROP(whitespaceSensitive, 60000, 1500000) { scripts(c, true); }
PBT_PROP(whitespaceInsensitive, 60000, 1500000) { scripts(c, false); }
PBT_PROP(arbitraryBytes, 30000, 800000) { // documents unrelated to the calls
	static const std::string alph[] = {std::string("0123456789-+.eE \n"), std::string(" \n\t\r\v\f\0a1\xff", 10), [] { std::string s; for (int i = 0; i < 256; i++) s += (char)i; return s; }(), "1 \n", "ab\nAB "};
	std::string text = c.bytes(alph[c.below(5)], (size_t)c.small(0, 60));
	std::vector<Call> calls;
	size_t n = (size_t)c.small(1, 8);
	for (size_t i = 0; i < n; i++) { Call k = genCall(c); if (k.op >= Op::ExpStr) (void)tokenFor(c, k); calls.push_back(k); }
	compare(c, text, calls, c.coin(), c.coin(), H_EPS, H_EPS, 43, c.chance(1, 10), false);
}
PBT_PROP(whitespaceAmountIrrelevant, 15000, 300000) {
	// metamorphic: an insensitive stream gives the same values for any white space between tokens
	std::vector<std::string> toks;
	std::vector<Call> calls;
	size_t n = (size_t)c.small(1, 8);
	for (size_t i = 0; i < n; i++) { Call k = genCall(c); if (k.vec() || (k.op >= Op::Space && k.op <= Op::NotEof)) k.op = Op::Str; std::string t = tokenFor(c, k); bool bad = t.empty(); for (char x : t) bad |= ws(x); if (bad) t = "x"; toks.push_back(t); calls.push_back(k); }
	Call e; e.op = Op::Eof; calls.push_back(e);
	auto render = [&](bool wild) { std::string s = wild && c.coin() ? genWs(c) : ""; for (size_t i = 0; i < toks.size(); i++) { if (i) s += wild ? genWs(c) : " "; s += toks[i]; } if (wild && c.coin()) s += genWs(c); return s; };
	std::string a = render(false), b = render(true);
	PBT_NOTE << pbt::quote(a) << " vs " << pbt::quote(b);
	if (n > 1) c.nontrivial();
	auto run = [&](const std::string& t, bool casing, std::vector<std::string>& got) { std::istringstream iss(t); std::ostringstream m; OutputStream out(m); InputStream s(iss, false, casing, out, Verdicts::WA); return outcome([&] { for (auto& k : calls) { apply(s, k, got); s.space(); s.newline(); } }); };
	bool casing = c.coin();
	std::vector<std::string> ga, gb;
	auto oa = run(a, casing, ga), ob = run(b, casing, gb);
	PBT_CHECK(oa.end == ob.end && ga == gb, "different outcome for different white space");
}
PBT_PROP(separatorAndExpected, 3000, 30000) {
	// wrong use is refused, not executed
	char sep = (char)c.below(256);
	std::istringstream iss("1 2 3 4"); std::ostringstream m; OutputStream out(m);
	InputStream s(iss, c.coin(), c.coin(), out, Verdicts::WA);
	PBT_NOTE << "separator " << (int)(unsigned char)sep;
	c.nontrivial();
	auto o = outcome([&] { switch (c.below(3)) { case 0: s.strings(1, sep); break; case 1: s.integers(1, sep); break; default: s.reals(1, sep); } });
	PBT_CHECK((o.end == End::Value) == (sep == ' ' || sep == '\n'), "separator ", (int)sep, " end ", (int)o.end);
	std::string e = genWord(c); e.insert(c.below(e.size() + 1), 1, c.pickFrom(std::string(" \n\t\r\v\f")));
	if (c.coin()) e.clear();
	PBT_CHECK(outcome([&] { s.expectString(e); }).end == End::Exception, "expectString accepts ", pbt::quote(e));
}
PBT_PROP(longTokens, 60, 400) { // sizes around buffer boundaries
	size_t len = (size_t)c.pick<Integer>({127, 128, 511, 512, 1023, 4095, 4096, 8191, 8192, 20000}) + c.below(3);
	std::string tok = c.bytes("abcXYZ019", len);
	std::string text = tok + " " + tok + "\n";
	std::vector<Call> calls(3); calls[0].op = Op::StrLen; calls[0].lo = (Integer)len - (Integer)c.below(2); calls[0].hi = (Integer)len + 1 - (Integer)c.below(2);
	calls[1].op = Op::Space; calls[2].op = Op::ExpStr; calls[2].exp = tok; if (c.coin()) calls[2].exp[c.below(len)] = '~';
	compare(c, text, calls, c.coin(), true, H_EPS, H_EPS, 43, c.coin(), false);
}
PBT_PROP(largeDocuments, 60, 600) { // tens of thousands of tokens, one of them disturbed
	bool space = c.coin(), casing = c.coin();
	Call k;
	k.op = c.pick<Op>({Op::Strs, Op::StrsLen, Op::StrsPat, Op::StrsPatLen, Op::Ints, Op::IntsRange, Op::Reals, Op::RealsRange, Op::Stricts});
	k.lo = 1; k.hi = 9; k.rlo = 1; k.rhi = 9; k.minD = 0; k.maxD = 4; k.pat = (int)c.pick<Integer>({0, 4, 6});
	if (k.op == Op::IntsRange) { k.lo = -9; k.hi = 1000; }
	k.sep = c.coin() ? ' ' : '\n';
	k.count = c.pick<Integer>({1000, 4096, 10000, 32768, 65536, 100000, 131072}) + c.range(-1, 1);
	bool words = k.op <= Op::StrsPatLen && k.op >= Op::Strs, ints = k.op == Op::Ints || k.op == Op::IntsRange;
	static const std::vector<std::string> w = {"a", "abc", "hello", "zz"}, in = {"0", "7", "-3", "12", "999"}, re = {"1", "2.5", "3.125", "8.0"};
	const auto& pool = words ? w : ints ? in : re;
	std::vector<std::string> toks;
	size_t phase = c.below(4), step = 1 + c.below(3);
	for (Integer i = 0; i < k.count; i++) toks.push_back(pool[(phase + (size_t)i * step + (size_t)(i / 97)) % pool.size()]);
	std::vector<std::string> seps(toks.size(), std::string(1, k.sep));
	seps.back() = "\n";
	size_t where = c.coin() ? c.below(toks.size()) : c.pick<size_t>({0, toks.size() - 1, toks.size() / 2});
	size_t how = c.below(6);
	PBT_NOTE << "disturbance " << how << " at " << where << " ";
	switch (how) {
		case 0: toks[where] = c.pick<std::string>({"#-1", "0x1", "1e", "-", "toolongtokenforthis", "007"}); break;
		case 1: seps[where] = c.pick<std::string>({"  ", "\t", "\n", " ", "\n\n", " \n"}); break;
		case 2: toks.pop_back(); seps.pop_back(); break;
		case 3: toks.push_back(pool[0]); seps.push_back("\n"); break;
		default: break;
	}
	std::string text;
	for (size_t i = 0; i < toks.size(); i++) text += toks[i] + seps[i];
	Call nl; nl.op = Op::Newline;
	Call e; e.op = Op::Eof;
	c.nontrivial();
	compare(c, text, {k, nl, e}, space, casing, H_EPS, H_EPS, c.pick<int>({43, 42}), c.chance(1, 3), false);
}
PBT_PROP(longNumbers, 40, 300) { // a submission may print numbers of any length
	size_t len = (size_t)c.pick<Integer>({1000, 5000, 20000, 60000, 150000, 400000}) + c.below(100);
	Call k; k.op = c.pick<Op>({Op::Int, Op::IntRange, Op::Real, Op::RealRange, Op::ExpInt, Op::ExpReal}); k.lo = -5; k.hi = 10; k.rlo = -5; k.rhi = 10;
	std::string t = c.pick<std::string>({"", "-", "0.", "1.", "-3.", "0", "."});
	t += std::string(len, (char)c.range('0', '9'));
	if (c.chance(1, 3)) t += c.pick<std::string>({"e-3", "x", ".", "E5", "-"});
	std::vector<Call> calls(2); calls[0] = k; calls[1].op = Op::Newline;
	std::string text = t + "\n";
	Model m; m.in = text; m.space = true; m.casing = true; m.abst = m.relt = H_EPS;
	PBT_NOTE << k.show() << " on a token of " << t.size() << " characters: " << t.substr(0, 20);
	c.nontrivial();
	bool ok = true, known = true;
	try { m.run(k); } catch (Fail&) { ok = false; } catch (Maybe&) { known = false; }
	c.label(!known ? "undecided" : ok ? "accepted" : "refused");
	std::istringstream iss(text); std::ostringstream msg; OutputStream out(msg);
	InputStream s(iss, true, true, out, Verdicts::WA);
	std::vector<std::string> got;
	auto o = outcome([&] { apply(s, k, got); });
	PBT_CHECK(o.end != End::Exception, "threw ", o.what);
	if (known) { PBT_CHECK((o.end == End::Value) == ok, ok ? "refused" : "accepted"); if (ok) PBT_CHECK(got == m.out, "value differs"); }
}
#endif

#ifdef P_C04
PBT_PROP(strictGrammar, 80000, 1500000) {
	Call k; k.op = c.chance(1, 5) ? Op::Stricts : Op::Strict;
	switch (c.weighted({3, 2, 2, 2})) {
		case 0: k.rlo = (Real)c.range(-30, 30) / 4; k.rhi = k.rlo + (Real)c.range(0, 40) / 8; break;
		case 1: k.rlo = 0; k.rhi = 1; break;
		case 2: k.rlo = -1e9L; k.rhi = 1e9L; break;
		default: k.rlo = (Real)c.i64(); k.rhi = (Real)c.i64(); if (k.rlo > k.rhi) std::swap(k.rlo, k.rhi);
	}
	k.minD = c.small(0, 8); k.maxD = k.minD + c.small(0, 10);
	k.count = k.op == Op::Stricts ? c.rarely(0, 5, 300) : 1;
	if (k.count > 20) c.label("more than 20 numbers");
	k.sep = c.coin() ? '\n' : ' '; if (k.sep == ' ') k.defaultSep = c.coin();
	std::string text;
	for (Integer i = 0; i < k.count; i++) {
		if (i) text += k.sep;
		std::string t = k.count > 20 ? goodTokenFor(c, k) : genStrictTok(c, k.rlo, k.rhi, k.minD, k.maxD);
		if (c.chance(1, k.count > 20 ? 3 * k.count : 6)) { size_t j = c.below(t.size() + 1); if (c.coin()) t.insert(j, 1, c.pickFrom(std::string("0.-+e9"))); else if (j < t.size()) t.erase(j, 1); }
		text += t;
	}
	compare(c, text, {k}, c.coin(), c.coin(), c.pick<Real>({H_EPS, 0.0L, 10.0L}), H_EPS, 43, false, false);
	if (k.count) c.nontrivial();
}
PBT_PROP(boundsAreExact, 60000, 1000000) {
	// tokens one unit in the last printed place around the bounds: no tolerance whatsoever, upper bound excluded
	Integer dec = c.range(0, 12);
	Integer scale = 1; for (Integer i = 0; i < dec; i++) scale *= 10;
	Integer m = c.range(-2000000, 2000000);
	auto print = [&](Integer v) { std::string s; bool neg = v < 0; UInteger u = neg ? 0 - (UInteger)v : (UInteger)v; std::string d = std::to_string(u); while ((Integer)d.size() <= dec) d = "0" + d; s = d.substr(0, d.size() - (size_t)dec); if (dec) s += "." + d.substr(d.size() - (size_t)dec); return (neg ? "-" : "") + s; };
	Integer w = c.range(1, 2000);
	Call k; k.op = Op::Strict; 
	k.rlo = std::strtold(print(m).c_str(), nullptr); k.rhi = std::strtold(print(m + w).c_str(), nullptr);
	k.minD = 0; k.maxD = 20;
	Integer v = c.coin() ? m + c.range(-2, 2) : m + w + c.range(-2, 2);
	bool ok = v >= m && v < m + w;
	std::string text = print(v);
	PBT_NOTE << text << " in [" << print(m) << "," << print(m + w) << ")";
	c.label(ok ? "inside" : "outside");
	c.nontrivial();
	std::istringstream iss(text); std::ostringstream msg; OutputStream out(msg);
	InputStream s(iss, true, true, out, Verdicts::WA, 0.1L, 0.1L);
	Real r = 0;
	auto o = outcome([&] { r = s.realStrict(k.rlo, k.rhi, 0, 20); });
	if (ok) { PBT_CHECK(o.end == End::Value, "refused ", text, " in [", print(m), ",", print(m + w), "): ", msg.str()); PBT_CHECK(r == std::strtold(text.c_str(), nullptr), "value ", r, " of ", text); }
	else PBT_CHECK(o.end == End::Exit && o.code == 43, "accepted ", text, " in [", print(m), ",", print(m + w), ")");
}
PBT_PROP(decimalCount, 60000, 1000000) {
	Integer d = c.rarely(0, 25, 400);
	std::string text = std::to_string(c.range(-9, 9)) ;
	bool dot = d > 0 || c.coin();
	if (dot) text += "." + c.bytes("0123456789", (size_t)d);
	Integer lo = std::max<Integer>(0, d + c.range(-2, 2)), hi = d + c.range(-2, 3);
	bool ok = lo <= d && d < hi;
	PBT_NOTE << text << " decimals in [" << lo << "," << hi << ")";
	c.label(ok ? "inside" : "outside");
	c.nontrivial();
	std::istringstream iss(text); std::ostringstream msg; OutputStream out(msg);
	InputStream s(iss, true, true, out, Verdicts::WA);
	auto o = outcome([&] { s.realStrict(-100, 100, lo, hi); });
	PBT_CHECK(ok ? o.end == End::Value : (o.end == End::Exit && o.code == 43), text, " with decimals in [", lo, ",", hi, "): ", msg.str());
}
#endif
