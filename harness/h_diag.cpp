// C05 diagnostics of refused reads
#include "inputmodel.h"
using namespace im;

// an input which cannot be repositioned
struct OneWay : std::streambuf {
	std::string data; size_t pos = 0; char buf[16]; size_t chunk;
	OneWay(std::string d, size_t n) : data(std::move(d)), chunk(n) {}
	int_type underflow() override {
		if (pos >= data.size()) return traits_type::eof();
		size_t n = std::min(chunk, data.size() - pos);
		memcpy(buf, data.data() + pos, n);
		pos += n;
		setg(buf, buf, buf + n);
		return traits_type::to_int_type(buf[0]);
	}
};
struct Doc { std::string text; std::vector<Call> calls; bool space, casing; };
static Doc genDoc(pbt::Ctx& c) {
	Doc d;
	d.space = c.coin(); d.casing = c.coin();
	switch (c.weighted({3, 4, 1})) {
		case 0: { Script s = genScript(c, d.space); d.text = s.text; d.calls = s.calls; break; }
		case 1: { // a text of several (long) lines with tokens of all lengths, refused somewhere
			size_t lines = (size_t)c.rarely(1, 6, 120);
			for (size_t l = 0; l < lines; l++) {
				size_t toks = (size_t)c.rarely(0, c.chance(1, 3) ? 30 : 4, 150);
				for (size_t t = 0; t < toks; t++) {
					size_t len = c.weighted({6, 2, 1}) == 0 ? (size_t)c.small(1, 8) : (size_t)c.pick<Integer>({15, 20, 40, 59, 60, 61, 74, 75, 76, 79, 80, 81, 100, 200});
					std::string tok(len, c.pick<char>({'a', 'b', '1', 'Z', '.'}));
					if (c.chance(1, 12)) tok[c.below(len)] = c.pick<char>({'\x80', '\0', '\x7f', '\xff', '\x01'});
					d.text += tok;
					Call k; k.op = Op::Str;
					if (c.chance(1, 15)) { k.op = c.pick<Op>({Op::Int, Op::Real, Op::ExpStr, Op::Space, Op::Newline, Op::Eof, Op::StrLen}); k.exp = tok + "x"; for (char& x : k.exp) if (!graph(x)) x = 'x'; k.lo = 0; k.hi = 3; }
					d.calls.push_back(k);
					if (t + 1 < toks) {
						char sep = c.chance(1, 25) ? c.pick<char>({'\t', '\n', '\r', '\0'}) : ' ';
						d.text += sep;
						if (!d.space && c.chance(1, 8)) d.text += std::string((size_t)c.small(1, 30), ' ');
						Call z; z.op = Op::Space; d.calls.push_back(z);
					}
				}
				if (l + 1 < lines || c.coin()) { d.text += c.chance(1, 25) ? ' ' : '\n'; Call z; z.op = Op::Newline; d.calls.push_back(z); }
			}
			Call e; e.op = c.coin() ? Op::Eof : Op::Int; d.calls.push_back(e);
			break;
		}
		default: {
			static const std::string all = [] { std::string r; for (int i = 0; i < 256; i++) r += (char)i; return r; }();
			d.text = c.bytes(c.coin() ? all : std::string("ab1 \n\t"), (size_t)c.rarely(0, 150, 1500));
			for (size_t n = (size_t)c.rarely(1, 10, 60); n > 0; n--) { Call k; k.op = c.pick<Op>({Op::Str, Op::Int, Op::Space, Op::Newline, Op::Str, Op::Str, Op::Eof}); d.calls.push_back(k); }
		}
	}
	return d;
}
struct Expected { enum { Ok, Refused, Undecided } end = Ok; size_t call = 0; Model m; };
static Expected predict(const Doc& d) {
	Expected e;
	e.m.in = d.text; e.m.space = d.space; e.m.casing = d.casing; e.m.abst = e.m.relt = H_EPS;
	try { for (; e.call < d.calls.size(); e.call++) e.m.run(d.calls[e.call]); }
	catch (Fail&) { e.end = Expected::Refused; }
	catch (Maybe&) { e.end = Expected::Undecided; }
	return e;
}
static void noteDoc(pbt::Ctx& c, const Doc& d) {
	PBT_NOTE << "spaceSensitive=" << d.space << " caseSensitive=" << d.casing << " input=" << pbt::quote(d.text) << " calls:";
	for (auto& k : d.calls) PBT_NOTE << " " << k.show() << ";";
}
static void position(pbt::Ctx& c, const Doc& d, const Expected& e, const std::string& msg) {
	const std::string& t = d.text;
	size_t from = e.m.tokStart, to = e.m.tokEnd;
	if (from >= t.size()) { c.label("end of input"); return; } // there is no text to point at
	size_t lineNo = 1, lineStart = 0;
	for (size_t i = 0; i < from; i++) if (t[i] == '\n') { lineNo++; lineStart = i + 1; }
	size_t col = from - lineStart;
	size_t lineEnd = t.find('\n', from);
	if (lineEnd == std::string::npos) lineEnd = t.size();
	std::string line = t.substr(lineStart, lineEnd - lineStart);
	if (t[from] == '\n') { line += ' '; c.label("refused newline"); }
	size_t unit = from; // the token the refused text belongs to
	while (unit < t.size() && !ws(t[unit])) unit++;
	size_t unitLen = std::max(unit - from, to - from), refLen = to - from;
	auto at = msg.find(" Line: "); // tokens hold no spaces
	PBT_CHECK(at != std::string::npos, "no position in the message ", pbt::quote(msg), ", it is line ", lineNo, " offset ", col);
	size_t L = 0, C = 0;
	int used = 0;
	PBT_CHECK(sscanf(msg.c_str() + at, " Line: %zu, Char: %zu%n", &L, &C, &used) == 2, "malformed position in ", pbt::quote(msg));
	PBT_CHECK(L == lineNo, "reported line ", L, " instead of ", lineNo, " in ", pbt::quote(msg));
	PBT_CHECK(C == col, "reported offset ", C, " instead of ", col, " in ", pbt::quote(msg));
	std::string rest = msg.substr(at + (size_t)used);
	PBT_CHECK(!rest.empty() && rest[0] == '\n', "no excerpt behind the position in ", pbt::quote(msg));
	rest.erase(0, 1);
	size_t nl = rest.find('\n');
	PBT_CHECK(nl != std::string::npos, "no marker line in ", pbt::quote(msg));
	std::string ex = rest.substr(0, nl), mark = rest.substr(nl + 1);
	mark = mark.substr(0, mark.find('\n'));
	PBT_CHECK(ex.size() <= 80, "excerpt of ", ex.size(), " characters: ", pbt::quote(ex));
	size_t ci = mark.find('^');
	PBT_CHECK(ci != std::string::npos && mark.find_first_not_of(' ') == ci && mark.find_first_not_of('~', ci + 1) == std::string::npos, "malformed marker line ", pbt::quote(mark));
	PBT_CHECK(ci < ex.size() && mark.size() <= ex.size(), "marker ", pbt::quote(mark), " reaches beyond the excerpt ", pbt::quote(ex));
	PBT_CHECK(ci <= col, "caret at column ", ci, " of the excerpt for offset ", col);
	size_t shift = col - ci;
	std::string dots = "[...]";
	size_t a = 0, b = ex.size();
	PBT_CHECK(shift + b <= line.size(), "excerpt ", pbt::quote(ex), " is longer than the rest of the line");
	if (shift > 0) { PBT_CHECK(ex.compare(0, 5, dots) == 0, "excerpt ", pbt::quote(ex), " does not show that its line starts earlier"); a = 5; }
	if (shift + b < line.size()) { PBT_CHECK(b >= 5 && ex.compare(b - 5, 5, dots) == 0, "excerpt ", pbt::quote(ex), " does not show that its line goes on"); b -= 5; }
	PBT_CHECK(ci >= a, "the caret points into the ellipsis");
	for (size_t i = a; i < b; i++) PBT_CHECK(ex[i] == line[shift + i], "character ", i, " of the excerpt ", pbt::quote(ex), " is not the one of the line");
	size_t marked = mark.size() - ci;
	PBT_CHECK(marked >= std::min(refLen, ex.size() - ci), "marker covers ", marked, " of ", refLen, " characters");
	PBT_CHECK(marked <= unitLen, "marker covers ", marked, " characters, the refused text has ", unitLen);
	c.label(line.size() > 80 ? "long line" : "short line");
	if (lineNo > 1) c.label("not in the first line");
}
static void positions(pbt::Ctx& c, const Doc& d) {
	noteDoc(c, d);
	Expected e = predict(d);
	if (e.end != Expected::Refused) { c.label("not refused"); return; }
	c.nontrivial();
	std::ostringstream os;
	OutputStream out(os);
	std::istringstream iss(d.text);
	std::unique_ptr<InputStream> s;
	int code = c.pick<int>({43, 1, 42});
	if (c.chance(1, 6)) {
		std::string file = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/diag." + std::to_string(getpid());
		{ std::ofstream f(file, std::ios::binary); f << d.text; }
		s = std::make_unique<InputStream>(std::filesystem::path(file), d.space, d.casing, out, Verdicts::Verdict(code));
		unlink(file.c_str());
	} else s = std::make_unique<InputStream>(iss, d.space, d.casing, out, Verdicts::Verdict(code));
	std::vector<std::string> got;
	size_t i = 0;
	auto o = outcome([&] { for (; i < d.calls.size(); i++) apply(*s, d.calls[i], got); });
	PBT_CHECK(o.end == End::Exit && o.code == code && i == e.call, "call ", e.call, " should have been refused with verdict ", code);
	std::string msg = os.str();
	PBT_CHECK(msg.find_first_not_of(" \n") != std::string::npos, "empty message");
	c.label(opName[(int)d.calls[i].op]);
	position(c, d, e, msg);
}
PBT_PROP(positions, 70000, 2000000) { positions(c, genDoc(c)); }
PBT_PROP(farPositions, 200, 3000) { // far behind the start: in a late line, far into a long line, behind a long token
	Doc d = genDoc(c);
	size_t n = (size_t)c.pick<Integer>({100, 255, 256, 4095, 10000, 32767, 65535, 65536, 70000, 99999, 150000}) + c.below(3);
	Call k; k.op = Op::Strs; k.sep = ' '; k.count = (Integer)n;
	Call z; z.op = Op::Space;
	std::string pre;
	size_t kind = c.below(4);
	static const char* const what[] = {"many lines", "a long line", "long token", "empty line ends"};
	c.label(what[kind]);
	PBT_NOTE << n << " " << what[kind] << " before: ";
	switch (kind) {
		case 0: k.sep = '\n'; z.op = Op::Newline; for (size_t i = 0; i < n; i++) pre += "ab\n"; break;
		case 1: for (size_t i = 0; i < n; i++) pre += i % 7 ? "x " : "word "; break;
		case 2: k.op = Op::Str; pre = std::string(n, 'q') + " "; break;
		default: { // a sensitive stream has to read the line ends one by one
			if (d.space) { k.op = Op::Str; pre = std::string(n, 'q') + "\n"; z.op = Op::Newline; }
			else { k.op = Op::Str; pre = "q" + std::string(n, '\n'); z.op = Op::Newline; }
		}
	}
	d.text = pre + d.text;
	d.calls.insert(d.calls.begin(), {k, z});
	positions(c, d);
}
PBT_PROP(notRepositionable, 20000, 400000) {
	Doc d = genDoc(c);
	noteDoc(c, d);
	Expected e = predict(d);
	if (e.end == Expected::Undecided) c.discard();
	if (e.end == Expected::Refused) c.nontrivial();
	std::ostringstream os;
	OutputStream out(os);
	OneWay buf(d.text, (size_t)c.range(1, 16));
	std::istream is(&buf);
	InputStream s(is, d.space, d.casing, out, Verdicts::WA);
	std::vector<std::string> got;
	size_t i = 0;
	auto o = outcome([&] { for (; i < d.calls.size(); i++) apply(s, d.calls[i], got); });
	PBT_CHECK((o.end == End::Exit) == (e.end == Expected::Refused) && o.end != End::Exception, "wrong end, call ", i);
	if (o.end == End::Exit) {
		PBT_CHECK(o.code == 43 && i == e.call, "verdict ", o.code, " at call ", i, " instead of 43 at ", e.call);
		PBT_CHECK(os.str().find_first_not_of(" \n") != std::string::npos, "empty message");
	}
	PBT_CHECK(got == e.m.out, "values differ: ", pbt::seq(got), " expected ", pbt::seq(e.m.out));
}
PBT_PROP(expectedStrings, 30000, 600000) {
	bool casing = c.coin();
	std::string exp = genWord(c, c.chance(1, 2) ? 100 : 12), seen = exp;
	switch (c.below(5)) {
		case 0: seen = genWord(c, 60); break;
		case 1: seen.resize((size_t)c.range(1, (Integer)seen.size())); break;
		case 2: seen += genWord(c, 30); break;
		case 3: for (char& x : seen) if (c.coin() && ((x | 32) >= 'a' && (x | 32) <= 'z')) x = (char)(x ^ 32); break;
		default: seen[c.below(seen.size())] = '#';
	}
	if (c.coin()) std::swap(seen, exp);
	auto norm = [&](std::string s) { if (!casing) for (char& x : s) if (x >= 'A' && x <= 'Z') x = (char)(x + 32); return s; };
	std::string a = norm(seen), b = norm(exp);
	PBT_NOTE << "expectString(" << pbt::quote(exp) << ") on " << pbt::quote(seen) << " caseSensitive=" << casing;
	std::ostringstream os;
	OutputStream out(os);
	std::istringstream is(seen);
	InputStream s(is, c.coin(), casing, out, Verdicts::WA);
	auto o = outcome([&] { s.expectString(exp); });
	PBT_CHECK((o.end == End::Value) == (a == b), "accepted: ", o.end == End::Value);
	if (a == b) return;
	c.nontrivial();
	size_t d = 0;
	while (d < a.size() && d < b.size() && a[d] == b[d]) d++;
	std::string msg = os.str();
	auto pos = msg.find(" (different at position: ");
	if (pos != std::string::npos) {
		size_t p = strtoul(msg.c_str() + pos + 25, nullptr, 10);
		PBT_CHECK(p == d + 1, "reported position ", p, " but the first difference is at position ", d + 1, " in ", pbt::quote(msg));
		c.label("position reported");
	} else PBT_CHECK(d < 20, "no position of the difference (", d + 1, ") in ", pbt::quote(msg));
	// both are named: completely if short, else with an abbreviation showing the start and the difference
	auto name = [&](const std::string& full, size_t from) -> size_t {
		size_t best = std::string::npos;
		if (full.size() <= 20) { best = msg.find(full, from); PBT_CHECK(best != std::string::npos, pbt::quote(full), " is not named in ", pbt::quote(msg)); return best + full.size(); }
		best = msg.find(full.substr(0, 10), from);
		PBT_CHECK(best != std::string::npos, pbt::quote(full), " is not named in ", pbt::quote(msg));
		return best + 10;
	};
	size_t at = name(exp, 0);
	name(casing ? seen : a, at);
	std::string head = msg.substr(0, msg.find("\n"));
	PBT_CHECK(head.size() < 250, "message line of ", head.size(), " characters");
}
