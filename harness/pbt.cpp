#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <unordered_set>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }

// ---------------------------------------------------------------------------
static constexpr size_t MAXC = 1 << 18;
struct Shm {
	volatile uint64_t caseNo;
	volatile uint32_t inCase;
	volatile uint32_t status;      // 0 running, 1 ok, 2 violation, 3 discard, 4 timeout, 5 foreign exception
	volatile uint64_t n;
	uint64_t v[MAXC];
	char msg[8192];
};
enum { S_RUN = 0, S_OK = 1, S_VIOL = 2, S_DISC = 3, S_TIME = 4, S_EXC = 5 };
static Shm* shm = nullptr;
static Shm* newShm() {
	void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
	return static_cast<Shm*>(p);
}

static uint64_t splitmix(uint64_t& x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ull + b; splitmix(x); return splitmix(x); }
static uint64_t hstr(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }

uint64_t Ctx::choice(uint64_t n) {
	uint64_t v;
	if (play) {
		v = pos < playN ? play[pos] : 0;
		pos++;
		if (n) v = v < n ? v : n - 1;
	} else if (fuzz) {
		v = 0;
		int b = n == 0 ? 8 : 1;
		if (n) while (b < 8 && (n - 1) >> (8 * b)) b++;
		for (int i = 0; i < b && fuzzPos < fuzzN; i++) v |= uint64_t(fuzz[fuzzPos++]) << (8 * i);
		if (n) v %= n;
	} else {
		uint64_t x = splitmix(rng);
		v = n ? uint64_t((unsigned __int128)x * n >> 64) : x;
	}
	if (shm) {
		uint64_t k = shm->n;
		if (k >= MAXC) throw Discard{};
		shm->v[k] = v;
		shm->n = k + 1;
	}
	return v;
}

// Integer literals found in the sources under test (and divisors of large ones), written by check.py.  They only guide
// the generation; a choice records the number itself, so a replay does not depend on the dictionary.
static const std::vector<uint64_t>& dictionary() {
	static const std::vector<uint64_t> d = [] {
		std::vector<uint64_t> r;
		if (const char* f = getenv("PBT_DICT")) { std::ifstream in(f); uint64_t x; while (in >> x) r.push_back(x); }
		if (r.empty()) r = {1ull << 31, 1ull << 32, 1ull << 62};
		return r;
	}();
	return d;
}
uint64_t Ctx::literal() {
	if (play) return choice(0);
	const auto& d = dictionary();
	uint64_t v;
	if (fuzz) {
		uint64_t k = 0;
		for (int i = 0; i < 2 && fuzzPos < fuzzN; i++) k |= uint64_t(fuzz[fuzzPos++]) << (8 * i);
		v = d[k % d.size()];
	} else v = d[splitmix(rng) % d.size()];
	if (shm) {
		uint64_t k = shm->n;
		if (k >= MAXC) throw Discard{};
		shm->v[k] = v;
		shm->n = k + 1;
	}
	return v;
}

int64_t Ctx::range(int64_t lo, int64_t hi) {
	if (lo > hi) std::swap(lo, hi);
	uint64_t n = uint64_t(hi) - uint64_t(lo) + 1;
	uint64_t v = choice(n);
	if (lo >= 0) return int64_t(uint64_t(lo) + v);
	if (hi <= 0) return int64_t(uint64_t(hi) - v);
	// lo < 0 < hi: order 0,1,-1,2,-2,...
	uint64_t a = 0 - uint64_t(lo), b = uint64_t(hi), m = std::min(a, b);
	if (v <= 2 * m && m <= (UINT64_MAX >> 2)) {
		return (v & 1) ? int64_t(v / 2 + 1) : -int64_t(v / 2);
	}
	if (m > (UINT64_MAX >> 2)) return int64_t(uint64_t(lo) + v); // huge: plain
	uint64_t r = v - 2 * m; // > 0
	return a < b ? int64_t(m + r) : int64_t(0 - (m + r));
}

int64_t Ctx::small(int64_t lo, int64_t hi) {
	if (lo >= hi) return lo;
	uint64_t w = uint64_t(hi) - uint64_t(lo);
	switch (choice(8)) {
		case 0: case 1: case 2: case 3: return lo + int64_t(choice(std::min<uint64_t>(w, 8) + 1));
		case 4: case 5: return lo + int64_t(choice(std::min<uint64_t>(w, 40) + 1));
		case 6: return lo + int64_t(choice(std::min<uint64_t>(w, 1u << (choice(20) + 1)) + 1));
		default: return w == UINT64_MAX ? int64_t(choice(0)) : int64_t(uint64_t(lo) + choice(w + 1));
	}
}

int64_t Ctx::rarely(int64_t lo, int64_t hi, int64_t big) {
	if (big <= hi || choice(50) != 49) return small(lo, hi);
	uint64_t how = choice(4);
	if (how == 0) return hi + int64_t(choice(uint64_t(big - hi) + 1));
	if (how == 3) { int64_t v = int64_t(literal() + uint64_t(range(-1, 1))); if (hi <= v && v <= big) return v; }
	int64_t p = 1;
	while (p < hi) p *= 2;
	size_t n = 0;
	for (int64_t q = p; q <= big; q *= 2) n++;
	if (n == 0) return hi + int64_t(choice(uint64_t(big - hi) + 1));
	return std::min<int64_t>(big, (p << choice(n)) + int64_t(choice(4)) - 1);
}

int64_t Ctx::i64() {
	switch (choice(8)) {
		case 0: return range(-10, 10);
		case 1: return range(-1000, 1000);
		case 2: { uint64_t p = 1ull << choice(64); return int64_t(p + uint64_t(range(-3, 3))); }
		case 3: { uint64_t p = 1ull << choice(64); return int64_t(0 - p + uint64_t(range(-3, 3))); }
		case 4: return coin() ? INT64_MIN + int64_t(choice(4)) : INT64_MAX - int64_t(choice(4));
		case 5: { int sh = int(choice(64)); return int64_t(bits()) >> sh; }
		case 6: return int64_t(bits());
		default: { uint64_t v = literal(); if (coin()) v += uint64_t(range(-2, 2)); if (choice(4) == 3) v = 0 - v; return int64_t(v); }
	}
}

int64_t Ctx::i64in(int64_t lo, int64_t hi) {
	if (lo >= hi) return lo;
	uint64_t w = uint64_t(hi) - uint64_t(lo);
	switch (choice(7)) {
		case 0: return int64_t(uint64_t(lo) + choice(std::min<uint64_t>(w, 4) + 1));
		case 1: return int64_t(uint64_t(hi) - choice(std::min<uint64_t>(w, 4) + 1));
		case 2: { int64_t a = std::max<int64_t>(lo, -20), b = std::min<int64_t>(hi, 20); if (a <= b) return range(a, b); return range(lo, hi); }
		case 3: { // power of two offset
			for (int k = 0; k < 1; k++) {
				uint64_t p = 1ull << choice(63);
				int64_t x = int64_t(p + uint64_t(range(-2, 2)));
				if (coin()) x = int64_t(0 - uint64_t(x));
				if (lo <= x && x <= hi) return x;
			}
			return range(lo, hi);
		}
		case 6: { int64_t v = int64_t(literal() + uint64_t(range(-1, 1))); if (lo <= v && v <= hi) return v; return range(lo, hi); }
		default: return range(lo, hi);
	}
}

size_t Ctx::weighted(std::initializer_list<unsigned> w) {
	uint64_t t = 0; for (auto x : w) t += x;
	uint64_t v = choice(t);
	size_t i = 0;
	for (auto x : w) { if (v < x) return i; v -= x; i++; }
	return w.size() - 1;
}

std::string Ctx::bytes(const std::string& alphabet, size_t len) {
	std::string s(len, ' ');
	for (auto& ch : s) ch = alphabet[choice(alphabet.size())];
	return s;
}

void Ctx::label(const char* l) { labels.emplace_back(l); }
void Ctx::fail(const std::string& msg) { throw Violation{msg}; }
void Ctx::discard() { throw Discard{}; }

std::string quote(const std::string& s) {
	std::string o = "\"";
	char b[8];
	size_t n = 0;
	for (unsigned char ch : s) {
		if (++n > 2000) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
		if (ch == '\n') o += "\\n";
		else if (ch == '"') o += "\\\"";
		else if (ch == '\\') o += "\\\\";
		else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
		else o += char(ch);
	}
	return o + "\"";
}
static std::string jstr(const std::string& s) {
	std::string o = "\"";
	char b[8];
	for (unsigned char ch : s) {
		if (ch == '\n') o += "\\n";
		else if (ch == '"') o += "\\\"";
		else if (ch == '\\') o += "\\\\";
		else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += char(ch);
	}
	return o + "\"";
}

// ---------------------------------------------------------------------------
static int noteFd = -1;            // where a dying child leaves its case description
static Ctx* noteCtx = nullptr;
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static void flushNote() {
	if (noteFd < 0 || !noteCtx) return;
	std::string l = noteCtx->log.str();
	if (l.size() > 20000) l.resize(20000);
	size_t off = 0;
	while (off < l.size()) { ssize_t w = write(noteFd, l.data() + off, l.size() - off); if (w <= 0) break; off += size_t(w); }
	noteFd = -1;
}
static double cpuLimit = 25;      // seconds of CPU one case may use
static void onAlarm(int) {
	if (shm) {
		if (shm->inCase) shm->status = S_TIME;
		flushNote();
		_exit(77);
	}
	_exit(78);
}
static void armTimer(double s) {
	struct itimerval it{};
	it.it_value.tv_sec = long(s);
	it.it_value.tv_usec = long((s - double(long(s))) * 1e6);
	setitimer(ITIMER_PROF, &it, nullptr);
}

static uint64_t hashChoices(uint64_t h) {
	for (uint64_t i = 0; i < shm->n; i++) h = (h ^ shm->v[i]) * 0x100000001b3ull ^ (h >> 29);
	return h;
}

// run one case in this process; result in shm->status
static void runCase(const Prop& p, Ctx& c) {
	shm->n = 0;
	shm->status = S_RUN;
	shm->msg[0] = 0;
	shm->inCase = 1;
	try {
		p.fn(c);
		shm->status = S_OK;
	} catch (Violation& v) {
		snprintf(shm->msg, sizeof shm->msg, "%s", v.msg.c_str());
		shm->status = S_VIOL;
	} catch (Discard&) {
		shm->status = S_DISC;
	} catch (std::exception& e) {
		snprintf(shm->msg, sizeof shm->msg, "unexpected exception escaped: %s", e.what());
		shm->status = S_EXC;
	} catch (...) {
		snprintf(shm->msg, sizeof shm->msg, "unexpected exception of unknown type escaped");
		shm->status = S_EXC;
	}
	shm->inCase = 0;
}
static bool bad(uint32_t s) { return s == S_VIOL || s == S_TIME || s == S_EXC || s == S_RUN; }

struct Attempt { uint32_t status; std::string msg, log; std::vector<uint64_t> choices; };
// run a choice sequence in a forked child
static Attempt attempt(const Prop& p, const std::vector<uint64_t>& ch, int size, bool verbose, double limit) {
	Shm* keep = shm;
	shm = newShm();
	int fd[2];
	if (pipe(fd)) _exit(3);
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		close(fd[0]);
		int dn = open("/dev/null", O_WRONLY);
		char* dbg = getenv("PBT_DEBUG");
		if (!dbg) { dup2(dn, 2); dup2(dn, 1); }
		signal(SIGPROF, onAlarm);
		armTimer(limit);
		Ctx c;
		c.play = ch.data(); c.playN = ch.size(); c.size = size; c.verbose = verbose;
		static const uint64_t zero = 0;
		if (!c.play) c.play = &zero;
		if (verbose) {
			noteFd = fd[1]; noteCtx = &c;
			if (__asan_set_death_callback) __asan_set_death_callback(flushNote);
		}
		runCase(p, c);
		armTimer(0);
		flushNote();
		_exit(0);
	}
	close(fd[1]);
	Attempt a;
	char buf[4096];
	ssize_t r;
	while ((r = read(fd[0], buf, sizeof buf)) > 0) a.log.append(buf, size_t(r));
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	a.status = shm->status;
	a.msg = shm->msg;
	if (a.status == S_TIME) a.msg = cat("no termination within ", limit, " s of CPU time");
	else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && a.status != S_VIOL && a.status != S_EXC) {
		if (a.status == S_RUN || WIFSIGNALED(st)) {
			a.status = S_RUN;
			a.msg = WIFSIGNALED(st) ? cat("process killed by signal ", WTERMSIG(st)) : cat("process aborted with exit status ", WEXITSTATUS(st), " (sanitizer report or abort)");
		}
	}
	a.choices.assign(shm->v, shm->v + shm->n);
	munmap(shm, sizeof(Shm));
	shm = keep;
	return a;
}

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
	if (a.size() != b.size()) return a.size() < b.size();
	return a < b;
}
static Attempt shrink(const Prop& p, Attempt best, int size, int& tries) {
	double end = now() + 25;
	int maxTries = best.status == S_TIME ? 4 : 1500;
	double limit = cpuLimit;
	tries = 0;
	auto trim = [](std::vector<uint64_t>& v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
	auto attemptBetter = [&](std::vector<uint64_t> cand) {
		if (tries >= maxTries || now() > end) return false;
		if (!simpler(cand, best.choices)) return false;
		tries++;
		Attempt a = attempt(p, cand, size, false, limit);
		if (!bad(a.status)) return false;
		if (a.status == S_TIME && best.status != S_TIME) return false;
		if (simpler(a.choices, cand)) cand = a.choices;
		a.choices = cand;
		trim(a.choices);
		best = a;
		return true;
	};
	trim(best.choices);
	bool progress = true;
	while (progress && tries < maxTries && now() < end) {
		progress = false;
		for (size_t k = std::max<size_t>(1, best.choices.size() / 2);; k /= 2) {
			for (size_t i = best.choices.size(); i >= k && i > 0;) {
				size_t s = i - k;
				if (s + k > best.choices.size()) { i = std::min(i - 1, best.choices.size()); continue; }
				auto cand = best.choices;
				cand.erase(cand.begin() + long(s), cand.begin() + long(s + k));
				if (attemptBetter(cand)) { progress = true; i = std::min(s, best.choices.size()); if (i < k) break; }
				else i = s >= 1 ? (k > 1 ? (s + k > k ? s : 0) : i - 1) : 0;
				if (tries >= maxTries || now() > end) break;
			}
			if (k == 1 || tries >= maxTries || now() > end) break;
		}
		for (size_t k = 8; k >= 1; k /= 2) {
			for (size_t i = 0; i + k <= best.choices.size(); i += k) {
				auto cand = best.choices;
				bool any = false;
				for (size_t j = i; j < i + k; j++) { any |= cand[j] != 0; cand[j] = 0; }
				if (any && attemptBetter(cand)) progress = true;
			}
		}
		for (size_t i = 0; i < best.choices.size(); i++) {
			uint64_t lo = 0; // known-good lower bound exclusive search
			while (i < best.choices.size() && best.choices[i] > lo && tries < maxTries && now() < end) {
				uint64_t mid = lo + (best.choices[i] - lo) / 2;
				auto cand = best.choices;
				cand[i] = mid;
				if (attemptBetter(cand)) progress = true; else lo = mid + 1;
			}
			if (i < best.choices.size() && best.choices[i] > 0) {
				auto cand = best.choices; cand[i]--;
				if (attemptBetter(cand)) progress = true;
			}
		}
		for (size_t i = 0; i + 1 < best.choices.size(); i++) { // drop one, decrement a preceding count
			if (best.choices[i] == 0) continue;
			for (size_t d = 1; d <= 4 && i + 1 + d <= best.choices.size(); d++) {
				auto cand = best.choices;
				cand[i]--;
				cand.erase(cand.begin() + long(i) + 1, cand.begin() + long(i + 1 + d));
				if (attemptBetter(cand)) { progress = true; break; }
			}
		}
	}
	return best;
}

// ---------------------------------------------------------------------------
struct Stats {
	long evals = 0, discards = 0;
	std::unordered_set<uint64_t> distinct;
	std::map<std::string, long> labels;
	std::vector<std::string> samples;
};

struct Task { size_t prop; int shard; long first, count; };
static const int SHARDS = 16;

static void worker(const Task& t, uint64_t seed, const std::string& statFile, double stopAt) {
	const Prop& p = registry()[t.prop];
	Stats s;
	int dn = open("/dev/null", O_WRONLY);
	if (!getenv("PBT_DEBUG")) { dup2(dn, 1); dup2(dn, 2); }
	signal(SIGPROF, onAlarm);
	uint64_t base = mix(seed, hstr(p.name));
	long wanted = 2;
	bool stopped = false;
	for (long i = 0; i < t.count; i++) {
		if ((i & 15) == 0 && now() > stopAt) { stopped = true; break; }
		long idx = t.first + i;
		Ctx c;
		c.rng = mix(base, uint64_t(idx) + 1);
		c.size = 1 + int(idx % 100);
		if (idx % 7 == 0) c.size = 1 + int(idx / 7 % 12);
		// verbose for the first cases of shard 0 so that samples can be shown
		c.verbose = (t.shard < 4 && (long)s.samples.size() < wanted && i >= 3);
		shm->caseNo = uint64_t(idx);
		armTimer(cpuLimit);
		runCase(p, c);
		armTimer(0);
		if (shm->status == S_DISC) { s.discards++; continue; }
		s.evals++;
		if (bad(shm->status)) _exit(10); // parent picks up shm
		if (c.nontriv) s.distinct.insert(hashChoices(hstr(p.name)));
		for (auto& l : c.labels) s.labels[l]++;
		if (c.verbose && c.nontriv) { std::string l = c.log.str(); if (l.size() > 1500) { l.resize(1500); l += "..."; } if (!l.empty()) s.samples.push_back(l); }
	}
	std::ofstream o(statFile);
	o << s.evals << ' ' << s.discards << ' ' << (stopped ? 1 : 0) << '\n';
	o << s.distinct.size(); for (auto h : s.distinct) o << ' ' << h; o << '\n';
	o << s.labels.size() << '\n'; for (auto& [k, v] : s.labels) o << v << ' ' << k << '\n';
	o << s.samples.size() << '\n'; for (auto& x : s.samples) { o << x.size() << '\n'; o.write(x.data(), long(x.size())); o << '\n'; }
	o.close();
	_exit(0);
}

static void writeReplay(const std::string& path, const Prop& p, const Attempt& a, int size, uint64_t seed, int tries) {
	std::ofstream o(path);
	o << "{\n \"subproperty\": " << jstr(p.name) << ",\n \"size\": " << size << ",\n \"seed\": " << seed << ",\n \"shrink_attempts\": " << tries << ",\n \"choices\": [";
	for (size_t i = 0; i < a.choices.size(); i++) o << (i ? "," : "") << a.choices[i];
	o << "],\n \"message\": " << jstr(a.msg) << ",\n \"case\": " << jstr(a.log) << "\n}\n";
}

int main_(int argc, char** argv) {
	std::string out, replayDir = ".", tier = "quick", only, replayFile;
	uint64_t seed = 1;
	double scale = 1, budget = 1e9;
	int jobs = 8;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto next = [&] { return std::string(argv[++i]); };
		if (a == "--seed") seed = std::stoull(next());
		else if (a == "--tier") tier = next();
		else if (a == "--out") out = next();
		else if (a == "--replaydir") replayDir = next();
		else if (a == "--scale") scale = std::stod(next());
		else if (a == "--budget") budget = std::stod(next());
		else if (a == "--jobs") jobs = std::stoi(next());
		else if (a == "--only") only = next();
		else if (a == "--cpu") cpuLimit = std::stod(next());
		else if (a == "--replay") replayFile = next();
		else if (a == "--list") { for (auto& p : registry()) printf("%s %ld %ld\n", p.name, p.quick, p.thorough); return 0; }
	}
	struct rlimit rl{0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	if (!replayFile.empty()) {
		// file: "<prop> <size> <n> c0 c1 ..." (written by the driver from the json)
		std::ifstream in(replayFile);
		std::string name; int size; size_t n; in >> name >> size >> n;
		std::vector<uint64_t> ch(n); for (auto& x : ch) in >> x;
		for (auto& p : registry()) if (name == p.name) {
			Attempt a = attempt(p, ch, size, true, cpuLimit);
			printf("%s\n%s\n", a.log.c_str(), a.msg.c_str());
			printf("REPLAY %s\n", bad(a.status) ? "fails" : "passes");
			return bad(a.status) ? 1 : 0;
		}
		fprintf(stderr, "unknown subproperty %s\n", name.c_str());
		return 2;
	}

	double t0 = now();
	std::vector<Task> tasks;
	auto& props = registry();
	for (int sh = 0; sh < SHARDS; sh++) for (size_t i = 0; i < props.size(); i++) {
		if (!only.empty() && only != props[i].name) continue;
		long total = std::max<long>(1, long(double(tier == "thorough" ? props[i].thorough : props[i].quick) * scale));
		long a = total * sh / SHARDS, b = total * (sh + 1) / SHARDS;
		if (b > a) tasks.push_back({i, sh, a, b - a});
	}
	struct Slot { pid_t pid = 0; size_t task = 0; Shm* shm = nullptr; };
	std::vector<Slot> slots;
	slots.resize(size_t(jobs));
	std::set<size_t> failed;
	struct Found { size_t prop; Attempt a; int size; };
	std::vector<Found> found;
	std::vector<std::string> statFiles;
	size_t nextTask = 0, running = 0;
	std::string tmp = out + ".shards";
	std::vector<std::string> warnings;
	bool truncated = false;
	while (nextTask < tasks.size() || running > 0) {
		for (auto& s : slots) {
			if (s.pid || nextTask >= tasks.size()) continue;
			while (nextTask < tasks.size() && failed.count(tasks[nextTask].prop)) nextTask++;
			if (nextTask >= tasks.size()) break;
			s.task = nextTask++;
			s.shm = newShm();
			fflush(nullptr);
			s.pid = fork();
			if (s.pid == 0) {
				shm = s.shm;
				worker(tasks[s.task], seed, tmp + std::to_string(s.task), t0 + budget);
			}
			running++;
		}
		if (!running) break;
		int st = 0;
		pid_t pid = waitpid(-1, &st, 0);
		for (auto& s : slots) if (s.pid == pid && pid > 0) {
			running--;
			s.pid = 0;
			const Task& t = tasks[s.task];
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
				statFiles.push_back(tmp + std::to_string(s.task));
			} else {
				// failing case: confirm it in fresh processes (3x) before believing it
				std::vector<uint64_t> ch(s.shm->v, s.shm->v + s.shm->n);
				long idx = long(s.shm->caseNo);
				int size = 1 + int(idx % 100);
				if (idx % 7 == 0) size = 1 + int(idx / 7 % 12);
				if (!failed.count(t.prop)) {
					int again = 0;
					Attempt a;
					for (int k = 0; k < 3; k++) { Attempt b = attempt(props[t.prop], ch, size, false, cpuLimit); if (bad(b.status)) { again++; a = b; } }
					if (again == 3) { a.choices = ch; failed.insert(t.prop); found.push_back({t.prop, a, size}); }
					else {
						// state carried from an earlier case of the shard (or an outside kill)?
						warnings.push_back(cat(props[t.prop].name, ": case ", idx, " failed in its worker (", (const char*)s.shm->msg, ", wait status ", st, ") but only ", again, "/3 times on its own; not reported"));
					}
				}
			}
			munmap(s.shm, sizeof(Shm));
			s.shm = nullptr;
		}
	}
	// merge
	std::map<std::string, Stats> all;
	long evals = 0, discards = 0, distinct = 0;
	std::map<size_t, Stats> per;
	for (auto& f : statFiles) {
		size_t task = std::stoul(f.substr(tmp.size()));
		Stats& s = per[tasks[task].prop];
		std::ifstream in(f);
		long e, d; int stop; in >> e >> d >> stop; s.evals += e; s.discards += d; truncated |= stop;
		size_t n; in >> n; for (size_t i = 0; i < n; i++) { uint64_t h; in >> h; s.distinct.insert(h); }
		in >> n; for (size_t i = 0; i < n; i++) { long v; std::string k; in >> v; in.ignore(1); std::getline(in, k); s.labels[k] += v; }
		in >> n; for (size_t i = 0; i < n; i++) { size_t l; in >> l; in.ignore(1); std::string x(l, ' '); in.read(x.data(), long(l)); if (s.samples.size() < 3) s.samples.push_back(x); }
		in.close();
		unlink(f.c_str());
	}
	std::ofstream o(out);
	o << "{\"subproperties\": [";
	bool first = true;
	for (auto& [i, s] : per) {
		evals += s.evals; discards += s.discards; distinct += long(s.distinct.size());
		o << (first ? "" : ",") << "\n {\"name\": " << jstr(props[i].name) << ", \"evaluations\": " << s.evals << ", \"discarded\": " << s.discards << ", \"distinct_nontrivial\": " << s.distinct.size() << ", \"labels\": {";
		first = false;
		bool f2 = true;
		for (auto& [k, v] : s.labels) { o << (f2 ? "" : ", ") << jstr(k) << ": " << v; f2 = false; }
		o << "}, \"samples\": [";
		for (size_t k = 0; k < s.samples.size(); k++) o << (k ? ", " : "") << jstr(s.samples[k]);
		o << "]}";
	}
	o << "\n], \"evaluations\": " << evals << ", \"discarded\": " << discards << ", \"distinct_nontrivial\": " << distinct << ", \"truncated\": " << (truncated ? "true" : "false");
	o << ", \"warnings\": [";
	for (size_t k = 0; k < warnings.size(); k++) o << (k ? ", " : "") << jstr(warnings[k]);
	o << "], \"failures\": [";
	first = true;
	for (auto& f : found) {
		const Prop& p = props[f.prop];
		int tries = 0;
		Attempt best = shrink(p, f.a, f.size, tries);
		Attempt v = attempt(p, best.choices, f.size, true, cpuLimit);
		if (!bad(v.status)) { best = f.a; v = attempt(p, best.choices, f.size, true, cpuLimit); }
		v.choices = best.choices;
		std::string path = replayDir + "/" + p.name + ".json";
		writeReplay(path, p, v, f.size, seed, tries);
		o << (first ? "" : ",") << "\n {\"subproperty\": " << jstr(p.name) << ", \"message\": " << jstr(v.msg) << ", \"case\": " << jstr(v.log) << ", \"replay\": " << jstr(path) << "}";
		first = false;
	}
	o << "]}\n";
	return found.empty() ? 0 : 1;
}
} // namespace pbt

#ifdef PBT_FUZZ
static const char* fuzzReplay() { return getenv("PBT_FUZZ_REPLAY"); }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
	using namespace pbt;
	auto& props = registry();
	if (size < 2) return 0;
	const char* only = getenv("PBT_FUZZ_ONLY");
	const Prop* p = &props[data[0] % props.size()];
	if (only) for (auto& q : props) if (!strcmp(q.name, only)) p = &q;
	if (!shm) {
		const char* f = fuzzReplay();
		if (f) {
			int fd = open(f, O_RDWR | O_CREAT, 0644);
			if (ftruncate(fd, sizeof(Shm))) _exit(3);
			shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		} else shm = newShm();
	}
	Ctx c;
	c.fuzz = data + 2; c.fuzzN = size - 2; c.size = 1 + data[1] % 100;
	shm->caseNo = uint64_t(p - props.data()) * 1000 + uint64_t(c.size);
	runCase(*p, c);
	if (bad(shm->status)) { fprintf(stderr, "PBT violation in %s: %s\n", p->name, shm->msg); __builtin_trap(); }
	return 0;
}
#else
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
