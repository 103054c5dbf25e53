// A real program using the library, driven by a script: the harness runs it as
// a process and looks at its exit code, streams and files only.
#define VH_REAL_EXIT
#define VH_NO_INIT
#include "inputmodel.h"
#include <sys/resource.h>
#include <fcntl.h>

static int obsFd = -1;
static void obs(const std::string& s) {
	std::string l = s + "\n";
	if (obsFd >= 0 && write(obsFd, l.data(), l.size()) < 0) _exit(77);
}
static std::string unhex(const std::string& h) {
	std::string r;
	for (size_t i = 1; i + 1 < h.size(); i += 2) r += (char)std::stoi(h.substr(i, 2), nullptr, 16);
	return r;
}
static im::Call readCall(std::istream& in) {
	im::Call k;
	int op, ds, sep;
	std::string rlo, rhi, e;
	in >> op >> k.lo >> k.hi >> rlo >> rhi >> k.minD >> k.maxD >> k.pat >> k.count >> sep >> ds >> e;
	k.op = (im::Op)op; k.sep = (char)sep; k.defaultSep = ds; k.exp = unhex(e);
	k.rlo = std::strtold(rlo.c_str(), nullptr); k.rhi = std::strtold(rhi.c_str(), nullptr);
	return k;
}
static std::string R(Real v) { return im::Model::R(v); }

int main(int argc, char** argv) {
	const char* sp = getenv("PBT_SCRIPT");
	const char* op = getenv("PBT_OBS");
	if (!sp) return 78;
	rlimit rl{20, 22};
	setrlimit(RLIMIT_CPU, &rl);
	alarm(60);
	if (op) obsFd = open(op, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	std::ifstream in(sp);
	char kind = 0;
	auto stream = [&](char s) -> InputStream& {
		if (s == 'p') return Multipass::prevstate;
		switch (kind) {
			case 'I': return InputValidator::testIn;
			case 'A': return s == 't' ? AnswerValidator::testIn : AnswerValidator::ans;
			case 'O': return s == 't' ? OutputValidator::testIn : s == 'j' ? OutputValidator::juryAns : OutputValidator::teamAns;
			default: return s == 't' ? Interactor::testIn : Interactor::fromTeam;
		}
	};
	auto target = [&](char s) -> OutputStream& {
		switch (s) {
			case 'j': return ValidateBase::juryOut;
			case 'e': return ValidateBase::juryErr;
			case 't': return kind == 'N' ? Interactor::teamOut : OutputValidator::teamOut;
			case 'x': return Interactor::toTeam;
			case 's': return Multipass::nextstate;
			case 'n': return Multipass::nextpass;
			default: return Generator::testOut;
		}
	};
	auto doInit = [&] {
		switch (kind) {
			case 'I': InputValidator::init(argc, argv); break;
			case 'A': AnswerValidator::init(argc, argv); break;
			case 'O': OutputValidator::init(argc, argv); break;
			case 'N': Interactor::init(argc, argv); break;
			case 'G': Generator::init(argc, argv); break;
			default: break;
		}
	};
	auto caught = [&](const char* what, auto&& f) {
		try { f(); obs(std::string(what) + " ok"); }
		catch (std::exception&) { obs(std::string(what) + " threw"); }
	};
	auto& con = ConstraintsBase::constraint;
	std::string cmd;
	while (in >> cmd) {
		if (cmd == "kind") in >> kind;
		else if (cmd == "init") doInit();
		else if (cmd == "multi") Multipass::init();
		else if (cmd == "abs" || cmd == "rel") { std::string v; in >> v; (cmd == "abs" ? ValidateBase::floatAbsTol : ValidateBase::floatRelTol) = std::strtold(v.c_str(), nullptr); }
		else if (cmd == "space") { int v; in >> v; ValidateBase::spaceSensitive = (bool)v; }
		else if (cmd == "case") { int v; in >> v; ValidateBase::caseSensitive = (bool)v; }
		else if (cmd == "read") {
			char s; in >> s;
			im::Call k = readCall(in);
			std::vector<std::string> got;
			im::apply(stream(s), k, got);
			for (auto& g : got) obs(g);
			obs("done");
		} else if (cmd == "readforeign") { // a stream no init() of this program has set up
			switch (kind) {
				case 'I': AnswerValidator::ans.string(); break;
				case 'A': OutputValidator::teamAns.integer(); break;
				case 'O': Interactor::fromTeam.noteof(); break;
				case 'N': InputValidator::testIn.eof(); break;
				default: Multipass::prevstate.string();
			}
			obs("done");
		} else if (cmd == "badsep") { stream('s').integers(3, 'x'); obs("done");
		} else if (cmd == "throw") { throw std::runtime_error("judge error");
		} else if (cmd == "write") {
			char s; std::string t; in >> s >> t;
			target(s) << unhex(t);
		} else if (cmd == "flush") {
			char s; in >> s;
			target(s) << std::flush;
		} else if (cmd == "verdict") {
			char s; int code; in >> s >> code;
			switch (code) { // the named ones where they exist
				case 42: target(s) << Verdicts::AC; break;
				case 43: target(s) << (s == 'j' ? Verdicts::WA : Verdicts::PE); break;
				case 1: target(s) << Verdicts::FAIL; break;
				default: target(s) << Verdicts::Verdict(code);
			}
		} else if (cmd == "exit") { int code; in >> code; Verdicts::Verdict(code).exit(); }
		else if (cmd == "next") Multipass::NEXT();
		else if (cmd == "nextvia") ValidateBase::juryOut << Multipass::NEXT;
		else if (cmd == "passno") obs("pass " + std::to_string(Multipass::pass));
		else if (cmd == "reset") { caught("set abs", [] { ValidateBase::floatAbsTol = 0.5_real; }); caught("set rel", [] { ValidateBase::floatRelTol = 0.5_real; }); caught("set space", [] { ValidateBase::spaceSensitive = true; }); caught("set case", [] { ValidateBase::caseSensitive = true; }); }
		else if (cmd == "again") caught("init", doInit);
		else if (cmd == "multicaught") caught("multi", [] { Multipass::init(); });
		else if (cmd == "settings") {
			obs("abs " + R(ValidateBase::floatAbsTol)); obs("rel " + R(ValidateBase::floatRelTol));
			obs("space " + std::to_string((int)(bool)ValidateBase::spaceSensitive)); obs("case " + std::to_string((int)(bool)ValidateBase::caseSensitive));
		} else if (cmd == "cmp") { // the comparisons with the program's settings
			std::string a, b, x, y; in >> a >> b >> x >> y;
			Real g = std::strtold(a.c_str(), nullptr), e = std::strtold(b.c_str(), nullptr), ta = std::strtold(x.c_str(), nullptr), tr = std::strtold(y.c_str(), nullptr);
			using namespace ValidateBase;
			std::string r;
			for (bool v : {floatEqual(g, e), floatLess(g, e), floatGreater(g, e), floatEqual(g, e, ta), floatLess(g, e, ta), floatGreater(g, e, ta), floatEqual(g, e, ta, tr), floatLess(g, e, ta, tr), floatGreater(g, e, ta, tr)}) r += v ? '1' : '0';
			obs(r);
		} else if (cmd == "streq") {
			std::string a, b; in >> a >> b; a = unhex(a); b = unhex(b);
			using namespace ValidateBase;
			auto r = stringEqual(a, b);
			obs(std::to_string((int)r.value) + " " + (r.hasReason() ? std::to_string(*r.reason) : "-"));
			obs(std::regex_match(b, caseSensitive.regex(a)) ? "match" : "nomatch");
		} else if (cmd == "seed") { UInteger s; in >> s; Random::seed(s); }
		else if (cmd == "draw") { int n; in >> n; for (int i = 0; i < n; i++) obs(std::to_string(Random::integer())); }
		else if (cmd == "args") { auto all = ValidateBase::arguments.getRaw().asStrings(); for (auto& a : all) obs("arg " + a); }
		else if (cmd == "con") { // constrained read or direct log
			std::string name; char s; in >> name >> s; name = unhex(name);
			im::Call k = readCall(in);
			InputStream* st = s == '-' ? nullptr : &stream(s);
			const std::regex& re = im::patternRegex(k.pat);
			auto act = [&] {
				Constraint& c = con[name];
				using im::Op;
				switch (k.op) {
					case Op::IntRange: if (st) st->integer(k.lo, k.hi, c); else c.log(k.lo, k.hi, k.count); break;
					case Op::RealRange: if (st) st->real(k.rlo, k.rhi, c); else c.log(k.rlo, k.rhi, std::strtold(k.exp.c_str(), nullptr)); break;
					case Op::Strict: if (st) st->realStrict(k.rlo, k.rhi, k.minD, k.maxD, c); break;
					case Op::StrLen: if (st) st->string(k.lo, k.hi, c); else c.log(k.lo, k.hi, std::string((size_t)k.count, 'x')); break;
					case Op::StrPatLen: if (st) st->string(re, k.lo, k.hi, c); else c.log(k.lo, k.hi, std::vector<Integer>((size_t)k.count)); break;
					case Op::IntsRange: st->integers(k.lo, k.hi, c, k.count, k.sep); break;
					case Op::RealsRange: st->reals(k.rlo, k.rhi, c, k.count, k.sep); break;
					case Op::Stricts: st->realsStrict(k.rlo, k.rhi, k.minD, k.maxD, c, k.count, k.sep); break;
					case Op::StrsLen: st->strings(k.lo, k.hi, c, k.count, k.sep); break;
					case Op::StrsPatLen: st->strings(re, k.lo, k.hi, c, k.count, k.sep); break;
					default: break; // only touches the name
				}
			};
			caught("con", act);
		} else if (cmd == "return") { int v; in >> v; return v; }
		else return 79;
	}
	return 0;
}
