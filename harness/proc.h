// Runs a real program of the library (prog.cpp) as a process in a scratch
// directory and collects what a contest system would see.
#pragma once
#include "inputmodel.h"
#include <cstring>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <filesystem>
extern char** environ;

namespace proc {

inline std::string slurp(const std::string& p, bool* exists = nullptr) {
	std::ifstream f(p, std::ios::binary);
	if (exists) *exists = f.good();
	return std::string(std::istreambuf_iterator<char>(f), {});
}
inline void spit(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; if (!f.flush()) { fprintf(stderr, "harness: cannot write %s\n", p.c_str()); _exit(90); } }
inline std::string hex(const std::string& s) { std::string r = "h"; static const char* d = "0123456789abcdef"; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
inline std::string num(Real v) { char b[80]; snprintf(b, sizeof b, "%La", v); return b; }
inline std::string show(const im::Call& k) {
	std::ostringstream o;
	o << (int)k.op << ' ' << k.lo << ' ' << k.hi << ' ' << num(k.rlo) << ' ' << num(k.rhi) << ' ' << k.minD << ' ' << k.maxD << ' ' << k.pat << ' ' << k.count << ' ' << (int)k.sep << ' ' << (int)k.defaultSep << ' ' << hex(k.exp);
	return o.str();
}

struct Result {
	int code = 0;           // exit code, or 1000 + signal
	std::string out, err;
	std::vector<std::string> obs;
	std::string sig() const { return code >= 1000 ? "signal " + std::to_string(code - 1000) : "exit code " + std::to_string(code); }
};

struct Box {
	std::string dir, fb, exe;
	Box() {
		const char* s = getenv("PBT_SCRATCH");
		dir = std::string(s ? s : "/tmp") + "/box." + std::to_string(getpid());
		fb = dir + "/fb";
		const char* e = getenv("PBT_EXE_prog");
		if (!e) { fprintf(stderr, "harness: PBT_EXE_prog is not set\n"); _exit(90); }
		exe = e;
		clear();
	}
	~Box() { std::error_code ec; std::filesystem::remove_all(dir, ec); }
	void clear() { std::error_code ec; std::filesystem::remove_all(dir, ec); std::filesystem::create_directories(fb); }
	std::string file(const std::string& n) const { return dir + "/" + n; }

	Result run(const std::vector<std::string>& args, const std::string& script, const std::string& in, bool viaPipe, const char* exeOverride = nullptr) {
		spit(file("script"), script);
		unlink(file("obs").c_str());
		int fd;
		if (viaPipe && in.size() <= 60000) {
			int p[2];
			if (pipe2(p, O_CLOEXEC)) _exit(91);
			size_t off = 0;
			while (off < in.size()) { ssize_t w = write(p[1], in.data() + off, in.size() - off); if (w <= 0) _exit(91); off += (size_t)w; }
			close(p[1]);
			fd = p[0];
		} else {
			spit(file("stdin"), in);
			fd = open(file("stdin").c_str(), O_RDONLY | O_CLOEXEC);
		}
		posix_spawn_file_actions_t fa;
		posix_spawn_file_actions_init(&fa);
		posix_spawn_file_actions_adddup2(&fa, fd, 0);
		posix_spawn_file_actions_addopen(&fa, 1, file("stdout").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		posix_spawn_file_actions_addopen(&fa, 2, file("stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		std::vector<std::string> av{exeOverride ? exeOverride : exe};
		av.insert(av.end(), args.begin(), args.end());
		std::vector<char*> a;
		for (auto& s : av) a.push_back(s.data());
		a.push_back(nullptr);
		std::string e1 = "PBT_SCRIPT=" + file("script"), e2 = "PBT_OBS=" + file("obs"), e3 = "LC_ALL=C", e4 = "PATH=/usr/bin:/bin";
		char* env[] = {e1.data(), e2.data(), e3.data(), e4.data(), nullptr};
		pid_t pid;
		int rc = posix_spawn(&pid, a[0], &fa, nullptr, a.data(), env);
		posix_spawn_file_actions_destroy(&fa);
		close(fd);
		if (rc) { fprintf(stderr, "harness: cannot start %s: %s\n", a[0], strerror(rc)); _exit(92); }
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		Result r;
		r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
		r.out = slurp(file("stdout"));
		r.err = slurp(file("stderr"));
		std::istringstream o(slurp(file("obs")));
		for (std::string l; std::getline(o, l);) r.obs.push_back(l);
		if (r.code >= 76 && r.code <= 79) { fprintf(stderr, "harness: prog failed with %d, script:\n%s\n", r.code, script.c_str()); _exit(93); }
		return r;
	}
};
inline Box& box() { static Box b; return b; }

// what the program is told before init and on its command line
struct Config {
	char kind = 'O';
	bool setSpace = false, spaceV = false, setCase = false, caseV = false, setAbs = false, setRel = false;
	Real absV = 0, relV = 0;
	bool argCase = false, argSpace = false;
	std::string argTol, argAbs, argRel, argSeed;
	std::vector<std::string> extra;       // further arguments (already in order)
	// effective
	bool space() const { if (kind == 'I' || kind == 'A') return true; return argSpace || (setSpace && spaceV); }
	bool casing() const { if (kind == 'I' || kind == 'A') return true; return argCase || (setCase && caseV); }
	static Real val(const std::string& s) { return std::strtold(s.c_str(), nullptr); }
	Real abst() const { return !argAbs.empty() ? val(argAbs) : !argTol.empty() ? val(argTol) : setAbs ? absV : H_EPS; }
	Real relt() const { return !argRel.empty() ? val(argRel) : !argTol.empty() ? val(argTol) : setRel ? relV : H_EPS; }
	std::string before() const {
		std::ostringstream o;
		o << "kind " << kind << "\n";
		if (setSpace) o << "space " << spaceV << "\n";
		if (setCase) o << "case " << caseV << "\n";
		if (setAbs) o << "abs " << num(absV) << "\n";
		if (setRel) o << "rel " << num(relV) << "\n";
		return o.str();
	}
	std::vector<std::string> args(pbt::Ctx& c) const {
		std::vector<std::string> v;
		if (kind == 'A') v = {box().file("test.in")};
		if (kind == 'O' || kind == 'N') v = {box().file("test.in"), box().file("test.ans"), box().fb};
		std::vector<std::vector<std::string>> parts;
		if (argCase) parts.push_back({"case_sensitive"});
		if (argSpace) parts.push_back({"space_change_sensitive"});
		if (!argTol.empty()) parts.push_back({"float_tolerance", argTol});
		if (!argAbs.empty()) parts.push_back({"float_absolute_tolerance", argAbs});
		if (!argRel.empty()) parts.push_back({"float_relative_tolerance", argRel});
		if (!argSeed.empty()) parts.push_back({"--seed", argSeed});
		for (auto& e : extra) parts.push_back({e});
		while (!parts.empty()) {
			size_t i = c.below(parts.size());
			v.insert(v.end(), parts[i].begin(), parts[i].end());
			parts.erase(parts.begin() + (long)i);
		}
		return v;
	}
	// stream letters: t test case, j judge answer, s standard input
	im::Model model(char s, const std::string& text) const {
		im::Model m;
		m.in = text; m.casing = casing(); m.abst = abst(); m.relt = relt();
		m.space = s == 's' ? space() : false;
		return m;
	}
	int failCode(char s) const { return s == 's' ? 43 : 1; }
	std::string streams() const { return kind == 'I' ? "s" : kind == 'A' || kind == 'N' ? "st" : "stj"; }
};
inline Config genConfig(pbt::Ctx& c, const char* kinds = "IAON") {
	Config k;
	k.kind = kinds[c.below(strlen(kinds))];
	if (c.coin()) { k.setSpace = true; k.spaceV = c.coin(); }
	if (c.coin()) { k.setCase = true; k.caseV = c.coin(); }
	auto tol = [&] { return c.pick<Real>({0, 1e-9L, 1e-6L, 1e-3L, 0.0625L, 0.5L}); };
	auto tolS = [&] { return c.pick<std::string>({"0", "1e-9", "0.000001", "1e-3", ".0625", "0.5", "5E-1"}); };
	if (c.chance(1, 3)) { k.setAbs = true; k.absV = tol(); }
	if (c.chance(1, 3)) { k.setRel = true; k.relV = tol(); }
	k.argCase = c.chance(1, 4);
	k.argSpace = c.chance(1, 4);
	if (c.chance(1, 4)) k.argTol = tolS();
	if (c.chance(1, 4)) k.argAbs = tolS();
	if (c.chance(1, 4)) k.argRel = tolS();
	return k;
}
} // namespace proc
