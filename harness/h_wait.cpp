// C32: a reading call needs the characters it is about (and for tokens the one
// behind them), never more: a program talking to another one must not wait for
// what that one will only send later.
#include "proc.h"
#include <poll.h>
#include <signal.h>
using namespace im;

// what a call may look at: see Model::need
struct Plan {
	std::vector<Call> calls;
	std::vector<size_t> need;       // after each call, characters (the end counts as one)
	std::vector<std::string> out;   // values of the calls before the end
	std::vector<size_t> values;     // number of values after each call
	size_t good = 0;                // calls that pass
	enum { All, Refused, Unknown } end = All;
};
static Plan plan(Model m, const std::vector<Call>& calls) {
	Plan p;
	p.calls = calls;
	for (auto& k : calls) {
		try { m.run(k); } catch (Fail&) { p.end = Plan::Refused; } catch (Maybe&) { p.end = Plan::Unknown; }
		p.need.push_back(m.need);
		p.values.push_back(m.out.size());
		if (p.end != Plan::All) break;
		p.good++;
	}
	p.out = m.out;
	return p;
}

#ifdef P_LAZY
// hands out only characters it was allowed to and remembers any attempt to get more
struct Lazy : std::streambuf {
	std::string text;
	size_t given = 0, limit = 0, chunk = 1;
	bool tooMuch = false, ended = false;
	int_type underflow() override {
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		if (given + 1 > limit) { tooMuch = true; if (given >= text.size()) { ended = true; return traits_type::eof(); } }
		if (given >= text.size()) { ended = true; return traits_type::eof(); }
		size_t n = std::min({chunk, text.size() - given, std::max<size_t>(1, limit > given ? limit - given : 1)});
		setg(text.data() + given, text.data() + given, text.data() + given + n);
		given += n;
		return traits_type::to_int_type(*gptr());
	}
	std::streamsize showmanyc() override { return given < limit && given < text.size() ? 1 : 0; }
};
static void lazily(pbt::Ctx& c, bool space) {
	Script sc = genScript(c, space);
	bool casing = c.coin();
	Model m;
	m.in = sc.text; m.space = space; m.casing = casing; m.abst = H_EPS; m.relt = H_EPS;
	Plan p = plan(m, sc.calls);
	Lazy buf;
	buf.text = sc.text;
	buf.chunk = c.pick<size_t>({1, 1, 3, 1000000});
	std::istream in(&buf);
	std::ostringstream msg;
	OutputStream out(msg);
	PBT_NOTE << "spaceSensitive=" << space << " input=" << pbt::quote(sc.text) << " calls:";
	for (auto& k : sc.calls) PBT_NOTE << " " << k.show() << ";";
	InputStream s(in, space, casing, out, Verdicts::Verdict(43));
	PBT_CHECK(!buf.tooMuch, "reads before the first call");
	size_t waits = 0;
	std::vector<std::string> got;
	for (size_t i = 0; i < p.need.size(); i++) {
		if (p.end == Plan::Unknown && i + 1 == p.need.size() && p.calls[i].vec()) break; // may go on to its next element
		if (p.need[i] > buf.limit) { waits++; buf.limit = p.need[i]; }
		bool throwOff = c.chance(1, 8);
		if (throwOff) { InputStream tmp(std::move(s)); s = std::move(tmp); }
		PBT_CHECK(!buf.tooMuch, "moving the stream reads from it");
		auto o = outcome([&] { apply(s, p.calls[i], got); });
		if (p.end == Plan::Unknown && i + 1 == p.need.size()) { PBT_CHECK(!buf.tooMuch, p.calls[i].show(), " (call ", i, ") wants more than the first ", p.need[i], " characters of the input"); break; }
		if (i < p.good) PBT_CHECK(o.end == End::Value, p.calls[i].show(), " (call ", i, ") is refused: ", msg.str(), o.what);
		else PBT_CHECK(o.end == End::Exit && o.code == 43, p.calls[i].show(), " (call ", i, ") must be refused");
		PBT_CHECK(!buf.tooMuch, p.calls[i].show(), " (call ", i, ", ", i < p.good ? "accepted" : "refused", ") wants more than the first ", p.need[i], " characters of the input");
		if (i < p.good) PBT_CHECK(got.size() == p.values[i] && std::equal(got.begin(), got.end(), p.out.begin()), "values read are", pbt::seq(got));
	}
	c.label(p.end == Plan::Refused ? "refused" : "accepted");
	if (waits >= 2) c.nontrivial();
}
PBT_PROP(insensitiveReads, 60000, 2000000) { lazily(c, false); }
PBT_PROP(sensitiveReads, 60000, 2000000) { lazily(c, true); }
#endif

#ifdef P_LOCKSTEP
using namespace proc;
// a program and the harness in lockstep: it gets a character only when it cannot go on without it
struct Peer {
	pid_t pid = -1;
	int in = -1, out = -1, obs = -1, status = 0;
	bool ended = false;
	std::string sent, seen;          // received from standard output, observations
	Peer(const std::vector<std::string>& args, const std::string& script) {
		signal(SIGPIPE, SIG_IGN);
		Box& b = box();
		spit(b.file("script"), script);
		unlink(b.file("fifo").c_str());
		int p[2], q[2];
		if (mkfifo(b.file("fifo").c_str(), 0600) || pipe2(p, O_CLOEXEC) || pipe2(q, O_CLOEXEC)) { fprintf(stderr, "harness: no pipes\n"); _exit(94); }
		obs = open(b.file("fifo").c_str(), O_RDONLY | O_NONBLOCK | O_CLOEXEC);
		in = p[1]; out = q[0];
		posix_spawn_file_actions_t fa;
		posix_spawn_file_actions_init(&fa);
		posix_spawn_file_actions_adddup2(&fa, p[0], 0);
		posix_spawn_file_actions_adddup2(&fa, q[1], 1);
		posix_spawn_file_actions_addopen(&fa, 2, b.file("stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		std::vector<std::string> av{b.exe};
		av.insert(av.end(), args.begin(), args.end());
		std::vector<char*> a;
		for (auto& s : av) a.push_back(s.data());
		a.push_back(nullptr);
		std::string e1 = "PBT_SCRIPT=" + b.file("script"), e2 = "PBT_OBS=" + b.file("fifo"), e3 = "LC_ALL=C", e4 = "PATH=/usr/bin:/bin";
		char* env[] = {e1.data(), e2.data(), e3.data(), e4.data(), nullptr};
		posix_spawnattr_t at;            // an ignored SIGPIPE must not be inherited
		posix_spawnattr_init(&at);
		sigset_t dfl; sigemptyset(&dfl); sigaddset(&dfl, SIGPIPE);
		posix_spawnattr_setsigdefault(&at, &dfl);
		posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGDEF);
		int rc = posix_spawn(&pid, a[0], &fa, &at, a.data(), env);
		posix_spawnattr_destroy(&at);
		posix_spawn_file_actions_destroy(&fa);
		close(p[0]); close(q[1]);
		if (rc) { fprintf(stderr, "harness: cannot start %s: %s\n", a[0], strerror(rc)); _exit(92); }
	}
	~Peer() {
		if (in >= 0) close(in);
		if (!ended) { kill(pid, SIGKILL); while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {} }
		close(out); close(obs);
	}
	void give(const std::string& s) { size_t off = 0; while (off < s.size()) { ssize_t w = write(in, s.data() + off, s.size() - off); if (w <= 0) break; off += (size_t)w; } }
	void endInput() { if (in >= 0) close(in); in = -1; }
	bool drain() { // anything new?
		bool any = false;
		char b[65536];
		for (ssize_t r; (r = recvLike(out, b, sizeof b)) > 0;) { sent.append(b, (size_t)r); any = true; }
		for (ssize_t r; (r = recvLike(obs, b, sizeof b)) > 0;) { seen.append(b, (size_t)r); any = true; }
		if (!ended && waitpid(pid, &status, WNOHANG) == pid) {
			ended = any = true;
			for (ssize_t r; (r = recvLike(out, b, sizeof b)) > 0;) sent.append(b, (size_t)r);
			for (ssize_t r; (r = recvLike(obs, b, sizeof b)) > 0;) seen.append(b, (size_t)r);
		}
		return any;
	}
	static ssize_t recvLike(int fd, char* b, size_t n) {
		pollfd p{fd, POLLIN, 0};
		if (poll(&p, 1, 0) <= 0 || !(p.revents & POLLIN)) return 0;
		return read(fd, b, n);
	}
	bool sleeping() const { // the process itself waits (and is not just short of processor time)
		std::string s = slurp("/proc/" + std::to_string(pid) + "/stat");
		size_t k = s.rfind(')');
		return k != std::string::npos && k + 2 < s.size() && s[k + 2] == 'S';
	}
	// until done() or until the process does nothing but wait
	template<typename F> bool until(F&& done) {
		int idle = 0;
		while (true) {
			bool any = drain();
			if (done()) return true;
			if (ended) return false;
			if (any) { idle = 0; continue; }
			pollfd p[2] = {{out, POLLIN, 0}, {obs, POLLIN, 0}};
			if (p[0].revents == 0) poll(p, 2, idle < 20 ? 1 : 50);
			if ((p[0].revents | p[1].revents) & POLLIN) { idle = 0; continue; }
			if (p[0].revents | p[1].revents) usleep(1000);
			idle = sleeping() ? idle + 1 : std::min(idle, 20);
			if (idle > 20 + 60) return false; // three seconds asleep
		}
	}
};
static void lockstep(pbt::Ctx& c) {
	box().clear();
	Config cfg = genConfig(c, "NNNOI");
	bool space = cfg.space();
	Script sc = genScript(c, space);
	if (sc.calls.size() > 60) sc.calls.resize(60);
	Plan p = plan(cfg.model('s', sc.text), sc.calls);
	spit(box().file("test.in"), "1\n");
	spit(box().file("test.ans"), "1\n");
	char kind = cfg.kind;
	std::string script = cfg.before() + "init\n";
	std::vector<size_t> sentBy, flushedBy;     // text sent to the team before each call / the flushed part
	std::string sent;
	size_t flushed = 0;
	auto talk = [&] {
		if (kind != 'N') return;
		for (size_t n = c.weighted({4, 4, 1}); n > 0; n--) {
			std::string t = c.bytes("0123 abc?\n", (size_t)c.rarely(0, 12, 9000));
			script += "write x " + hex(t) + "\n";
			sent += t;
			if (c.coin()) { script += "flush x\n"; flushed = sent.size(); }
		}
	};
	for (size_t i = 0; i < p.need.size(); i++) {
		talk();
		sentBy.push_back(sent.size());
		flushedBy.push_back(flushed);
		script += "read s " + show(p.calls[i]) + "\n";
	}
	int code = H_CODE(cfg.failCode('s'));
	if (p.end == Plan::All) { talk(); code = H_CODE(c.coin() ? 42 : 43); script += "verdict j " + std::to_string(code - H_CODE(0)) + "\n"; }
	auto args = cfg.args(c);
	PBT_NOTE << "document " << pbt::quote(sc.text) << "\nprogram:\n" << script;
	c.label(std::string("kind ") + kind + (p.end == Plan::Refused ? " refused" : p.end == Plan::All ? " accepted" : " undecided"));
	Peer peer(args, script);
	size_t given = 0, waits = 0;
	std::string want;
	auto err = [&] { return pbt::quote(slurp(box().file("stderr")).substr(0, 300)); };
	for (size_t i = 0; i < p.need.size(); i++) {
		std::string name = p.calls[i].show() + " (call " + std::to_string(i) + ")";
		size_t need = p.need[i];
		if (need > given) { // it has to wait here: all that was written is on its way
			bool all = c.coin();
			size_t n = all ? sentBy[i] : flushedBy[i];
			bool ok = peer.until([&] { return peer.sent.size() >= n; });
			PBT_CHECK(ok, "before ", name, " only ", peer.sent.size(), " of ", n, " characters reached the team", peer.ended ? " (program ended)" : "", " stderr ", err());
			waits++;
			if (need > sc.text.size()) { peer.give(sc.text.substr(std::min(given, sc.text.size()))); peer.endInput(); }
			else peer.give(sc.text.substr(given, need - given));
			given = need;
		}
		if (i < p.good) {
			for (size_t v = i ? p.values[i - 1] : 0; v < p.values[i]; v++) want += p.out[v] + "\n";
			want += "done\n";
			bool ok = peer.until([&] { return peer.seen.size() >= want.size(); });
			PBT_CHECK(peer.seen.compare(0, want.size(), want) == 0, name, " does not return what it read", ok ? "" : peer.ended ? " (program ended)" : ": it waits for more", " with the first ", given, " characters of the input; stderr ", err());
		}
	}
	if (p.end == Plan::Unknown) return;
	bool ok = peer.until([&] { return peer.ended; });
	PBT_CHECK(ok, "the program waits for more input instead of giving its verdict", p.end == Plan::Refused ? " on a refused read" : "");
	PBT_CHECK(WIFEXITED(peer.status) && WEXITSTATUS(peer.status) == code, "ended with status ", peer.status, " instead of exit code ", code, ", stderr ", err());
	PBT_CHECK(peer.seen == want, "more was read than expected");
	if (kind == 'N') PBT_CHECK(peer.sent == sent, "the team got ", pbt::quote(peer.sent), " instead of ", pbt::quote(sent));
	if (waits >= 2) c.nontrivial();
}
PBT_PROP(lockstepProcesses, 2500, 60000) { lockstep(c); }
#endif
