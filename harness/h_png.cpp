// C28 written PNG files against an independent decoder, C29 drawing and colours
// against their definitions  (visualizer_png.h)
#include "pbt.h"
#include <bits/stdc++.h>
#include <unistd.h>
#include "visualizer_png.h"
static_assert(std::is_same_v<Integer, std::int64_t> && std::is_same_v<Real, long double>);

static std::string show(const Color& c) { return pbt::cat("(", (int)c.r, ",", (int)c.g, ",", (int)c.b, ",", (int)c.a, ")"); }
static uint8_t channel(pbt::Ctx& c) { switch (c.below(4)) { case 0: return 0; case 1: return 255; case 2: return (uint8_t)c.pick<int>({1, 2, 127, 128, 254}); default: return (uint8_t)c.below(256); } }
static Color color(pbt::Ctx& c) {
	if (c.chance(1, 3)) return c.pick<Color>({BLACK, WHITE, TRANSPARENT, RED, GREEN, BLUE, GRAY});
	uint8_t r = channel(c), g = channel(c), b = channel(c), a = channel(c);
	return Color(r, g, b, a);
}
static std::string scratch(const char* suffix = ".png") { return pbt::cat("image.", getpid(), suffix); }

#ifdef P_C28
// --- decoder: PNG (8 bit RGBA), zlib, deflate --------------------------------
struct Decoder {
	std::string why;
	uint64_t w = 0, h = 0;
	std::vector<uint8_t> rgba;
	bool bad(const std::string& s) { why = s; return false; }
	static uint32_t crc(const uint8_t* p, size_t n) {
		uint32_t c = ~0u;
		while (n-- > 0) { c ^= *p++; for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ c >> 1 : c >> 1; }
		return ~c;
	}
	static uint32_t be(const uint8_t* p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
	// deflate
	const uint8_t* in = nullptr; size_t inN = 0, bit = 0; bool over = false;
	unsigned get(unsigned n) { unsigned r = 0; for (unsigned i = 0; i < n; i++, bit++) { if (bit / 8 >= inN) { over = true; return 0; } r |= (unsigned)(in[bit / 8] >> (bit % 8) & 1) << i; } return r; }
	struct Huff { std::array<unsigned, 16> cnt{}; std::vector<unsigned> sym; };
	static Huff huff(const std::vector<unsigned>& len) {
		Huff h; for (auto l : len) if (l) h.cnt[l]++;
		for (unsigned l = 1; l < 16; l++) for (unsigned s = 0; s < len.size(); s++) if (len[s] == l) h.sym.push_back(s);
		return h;
	}
	int decode(const Huff& h) {
		int code = 0, first = 0, index = 0;
		for (unsigned l = 1; l < 16; l++) {
			code |= (int)get(1); if (over) return -1;
			int n = (int)h.cnt[l];
			if (code - n < first) return (int)h.sym[(size_t)(index + code - first)];
			index += n; first = (first + n) << 1; code <<= 1;
		}
		return -1;
	}
	bool inflate(std::vector<uint8_t>& out) {
		static const unsigned LB[] = {3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258}, LE[] = {0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0};
		static const unsigned DB[] = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577}, DE[] = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
		bool last = false;
		while (!last) {
			last = get(1); unsigned type = get(2);
			if (over) return bad("deflate stream ends early");
			if (type == 0) {
				bit = (bit + 7) / 8 * 8;
				unsigned n = get(16), m = get(16);
				if (over || (n ^ 0xffff) != m) return bad("length of a stored block");
				if (bit / 8 + n > inN) return bad("stored block ends early");
				out.insert(out.end(), in + bit / 8, in + bit / 8 + n); bit += 8ull * n;
			} else if (type == 3) return bad("reserved block type");
			else {
				std::vector<unsigned> ll(288), dl(30, 5);
				if (type == 1) for (unsigned i = 0; i < 288; i++) ll[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8;
				else {
					unsigned a = get(5) + 257, d = get(5) + 1, k = get(4) + 4;
					static const unsigned ord[] = {16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15};
					std::vector<unsigned> cl(19); for (unsigned i = 0; i < k; i++) cl[ord[i]] = get(3);
					auto ch = huff(cl); std::vector<unsigned> all;
					while (all.size() < a + d) {
						int s = decode(ch); if (s < 0) return bad("code lengths");
						if (s < 16) all.push_back((unsigned)s);
						else { unsigned v = 0, rep; if (s == 16) { if (all.empty()) return bad("code lengths"); v = all.back(); rep = 3 + get(2); } else rep = s == 17 ? 3 + get(3) : 11 + get(7); all.insert(all.end(), rep, v); }
					}
					ll.assign(all.begin(), all.begin() + a); dl.assign(all.begin() + a, all.begin() + a + d);
				}
				auto lh = huff(ll), dh = huff(dl);
				while (true) {
					int s = decode(lh); if (s < 0 || s > 285) return bad("symbol");
					if (s == 256) break;
					if (s < 256) { out.push_back((uint8_t)s); continue; }
					unsigned n = LB[s - 257] + get(LE[s - 257]);
					int t = decode(dh); if (t < 0 || t > 29) return bad("distance");
					unsigned d = DB[t] + get(DE[t]); if (d > out.size()) return bad("distance");
					while (n-- > 0) out.push_back(out[out.size() - d]);
				}
			}
		}
		return !over || bad("deflate stream ends early");
	}
	bool run(const std::string& file) {
		const uint8_t* p = (const uint8_t*)file.data(); size_t n = file.size(), i = 8;
		if (n < 8 || memcmp(p, "\x89PNG\r\n\x1a\n", 8) != 0) return bad("signature");
		std::vector<uint8_t> idat; int part = 0; // 0: nothing, 1: header, 2: data, 3: after data, 4: end
		while (i < n) {
			if (part == 4) return bad("bytes after the end chunk");
			if (n - i < 12) return bad("truncated chunk");
			uint64_t len = be(p + i); std::string type((const char*)p + i + 4, 4);
			if (len > n - i - 12) return bad("chunk " + type + " is longer than the file");
			if (crc(p + i + 4, len + 4) != be(p + i + 8 + len)) return bad("checksum of chunk " + type);
			const uint8_t* d = p + i + 8;
			if (type == "IHDR") {
				if (part != 0 || len != 13) return bad("header chunk");
				w = be(d); h = be(d + 4); part = 1;
				if (w == 0 || h == 0 || w >> 31 || h >> 31) return bad("image size");
				if (d[8] != 8 || d[9] != 6 || d[10] || d[11] || d[12]) return bad("header settings");
			} else if (part == 0) return bad("no header");
			else if (type == "IDAT") { if (part > 2) return bad("data chunks are not consecutive"); part = 2; idat.insert(idat.end(), d, d + len); }
			else if (type == "IEND") { if (part < 2 || len) return bad("end chunk"); part = 4; }
			else { if (!(type[0] & 0x20)) return bad("unknown critical chunk " + type); if (part == 2) part = 3; }
			i += 12 + len;
		}
		if (part != 4) return bad("no end chunk");
		if (idat.size() < 6 || (idat[0] & 15) != 8 || idat[0] >> 4 > 7 || (idat[0] * 256 + idat[1]) % 31 || idat[1] & 0x20) return bad("zlib header");
		in = idat.data() + 2; inN = idat.size() - 6;
		std::vector<uint8_t> raw;
		if (!inflate(raw)) return false;
		if ((bit + 7) / 8 != inN) return bad("bytes after the compressed data");
		uint64_t a = 1, b = 0; for (auto x : raw) { a = (a + x) % 65521; b = (b + a) % 65521; }
		if (be(idat.data() + idat.size() - 4) != (b << 16 | a)) return bad("checksum of the compressed data");
		uint64_t row = 4 * w;
		if (raw.size() != h * (row + 1)) return bad(pbt::cat("there are ", raw.size(), " bytes of pixels"));
		rgba.assign(h * row, 0);
		for (uint64_t y = 0; y < h; y++) {
			uint8_t f = raw[y * (row + 1)]; if (f > 4) return bad("filter type");
			for (uint64_t x = 0; x < row; x++) {
				int v = raw[y * (row + 1) + 1 + x], l = x >= 4 ? rgba[y * row + x - 4] : 0, u = y ? rgba[(y - 1) * row + x] : 0, c = x >= 4 && y ? rgba[(y - 1) * row + x - 4] : 0;
				if (f == 1) v += l; else if (f == 2) v += u; else if (f == 3) v += (l + u) / 2;
				else if (f == 4) { int q = l + u - c, ql = std::abs(q - l), qu = std::abs(q - u), qc = std::abs(q - c); v += ql <= qu && ql <= qc ? l : qu <= qc ? u : c; }
				rgba[y * row + x] = (uint8_t)v;
			}
		}
		return true;
	}
};
static std::optional<std::string> content(const std::string& name) {
	std::ifstream f(name, std::ios::binary); if (!f) return {};
	std::ostringstream s; s << f.rdbuf(); return s.str();
}
static void checkFile(pbt::Ctx& c, const std::string& name, Integer w, Integer h, const std::vector<Color>& want, const char* when) {
	auto file = content(name);
	PBT_CHECK(file, when, ": there is no file");
	Decoder d;
	PBT_CHECK(d.run(*file), when, ": not a valid PNG: ", d.why);
	PBT_CHECK((Integer)d.w == w && (Integer)d.h == h, when, ": size ", d.w, "x", d.h);
	for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) {
		auto* q = &d.rgba[(size_t)(4 * ((h - 1 - y) * w + x))];
		Color got(q[0], q[1], q[2], q[3]), exp = want[(size_t)(y * w + x)];
		PBT_CHECK(got == exp, when, ": pixel ", x, ",", y, " is ", show(got), " instead of ", show(exp));
	}
}
struct Img { Integer w = 0, h = 0; std::vector<Color> px; };
// change pixels until the Adler sum of the rows (top row first, each behind a zero) reaches an end of its range
static void aim(pbt::Ctx& c, Img& m) {
	const int64_t M = 65521;
	struct Byte { size_t px; int ch; int64_t weight; };
	std::vector<Byte> pos;
	int64_t a = 1, b = 0, left = m.h * (4 * m.w + 1), n = left;
	auto byte = [&](const Byte& x) { const Color& p = m.px[x.px]; return x.ch == 0 ? p.r : x.ch == 1 ? p.g : x.ch == 2 ? p.b : p.a; };
	for (Integer y = m.h - 1; y >= 0; y--) {
		left--;
		for (Integer x = 0; x < m.w; x++) for (int k = 0; k < 4; k++, left--) pos.push_back({(size_t)(y * m.w + x), k, left});
	}
	for (auto& x : pos) { a += byte(x); b += byte(x) * x.weight; }
	b = (b + n) % M; a %= M;
	bool second = c.coin();
	int64_t want = c.pick<int64_t>({0, 0, 1, M - 1}), d = ((want - (second ? b : a)) % M + M) % M;
	if (second) std::sort(pos.begin(), pos.end(), [](auto& x, auto& y) { return x.weight > y.weight; });
	for (auto& x : pos) {
		int64_t w = second ? x.weight : 1, v = byte(x), k = std::min<int64_t>(255 - v, d / w);
		d -= k * w;
		Color p = m.px[x.px];
		p[(size_t)x.ch] = (uint8_t)(v + k);
		m.px[x.px] = p;
	}
	if (d == 0) c.label(second ? "second sum aimed at" : "first sum aimed at");
}
static Img image(pbt::Ctx& c) {
	Img m;
	switch (c.weighted({60, 6, 2, 1, 1})) {
		case 0: m.w = c.range(1, 12); m.h = c.range(1, 12); break;
		case 1: m.w = c.range(20, 130); m.h = c.range(1, 130); break;
		case 2: m.w = c.chance(1, 2) ? 16383 : c.range(8000, 16383); m.h = c.range(1, 3); break;
		case 3: m.w = c.range(1, 2); m.h = c.range(2000, 9000); break;
		default: m.w = c.pick<Integer>({63, 64, 1023, 1024, 4095, 4096, 16382}); m.h = c.range(1, 4); break;
	}
	m.px.assign((size_t)(m.w * m.h), color(c));
	uint64_t seed = c.bits();
	switch (c.below(3)) { // constant, few pixels, noise
		case 0: break;
		case 1: for (int k = 0; k < 8; k++) m.px[(size_t)c.below(m.px.size())] = color(c); break;
		default: { std::mt19937_64 g(seed); for (auto& p : m.px) p = Color((uint32_t)g(), (uint8_t)g()); }
	}
	if (c.chance(1, 8) && m.px.size() < 20000) aim(c, m);
	return m;
}
static void paint(PNG& img, const Img& m, Color base, bool clear = true) {
	if (clear) img.clear(m.w, m.h, base);
	for (Integer y = 0; y < m.h; y++) for (Integer x = 0; x < m.w; x++) img(x, y) = m.px[(size_t)(y * m.w + x)];
}
PBT_PROP(files, 6000, 100000) {
	std::string name = scratch(), other = scratch(".other.png");
	std::remove(name.c_str()); std::remove(other.c_str());
	Img m = image(c), n = image(c);
	PBT_NOTE << m.w << "x" << m.h << ", then " << n.w << "x" << n.h << "\n";
	if (m.w > 1 && m.h > 1) c.nontrivial();
	Color base = color(c);
	switch (c.below(7)) {
		case 0: { // at the end of the object
			{ PNG img(name); paint(img, m, base); PBT_CHECK(!content(name), "written too early"); }
			checkFile(c, name, m.w, m.h, m.px, "at the end");
			break;
		}
		case 1: { // explicitly, changed, and at the end
			{
				PNG img(name); paint(img, m, base); img.write();
				checkFile(c, name, m.w, m.h, m.px, "explicit");
				img.write();
				checkFile(c, name, m.w, m.h, m.px, "twice");
				paint(img, n, base);
				PBT_CHECK(img.width() == n.w && img.height() == n.h, "size");
				if (c.coin()) { img.write(); checkFile(c, name, n.w, n.h, n.px, "changed"); }
			}
			checkFile(c, name, n.w, n.h, n.px, "changed, at the end");
			break;
		}
		case 2: { // without a name, without pixels, nothing is written
			{ PNG img; paint(img, m, base); img.write(); PBT_CHECK(img.width() == m.w && img.height() == m.h, "size"); }
			{ PNG img(name); PBT_CHECK(img.width() == 0 && img.height() == 0, "size"); if (c.coin()) img.write(); if (c.coin()) img.clear(0, c.range(0, 3)); }
			{ PNG img(name); img.clear(c.range(0, 5), 0); img.write(); }
			PBT_CHECK(!content(name), "an empty image is written");
			break;
		}
		case 3: { // copies
			{
				PNG img(name); paint(img, m, base);
				PNG copy = img;
				paint(copy, n, base); // does not change the original
				for (Integer y = 0; y < m.h; y++) for (Integer x = 0; x < m.w; x++) PBT_CHECK(std::as_const(img)(x, y) == m.px[(size_t)(y * m.w + x)], "a copy changes the original");
				copy.write();
				checkFile(c, name, n.w, n.h, n.px, "copy");
				img.write();
				checkFile(c, name, m.w, m.h, m.px, "original of a copy");
			}
			break;
		}
		case 4: { // moves
			{
				PNG img(name); paint(img, m, base);
				{ PNG moved = std::move(img); PBT_CHECK(!content(name), "written by a move"); }
				checkFile(c, name, m.w, m.h, m.px, "moved");
				std::remove(name.c_str());
			}
			PBT_CHECK(!content(name), "a moved image is written twice");
			{ PNG img; img = PNG(other); paint(img, n, base); }
			checkFile(c, other, n.w, n.h, n.px, "assigned");
			break;
		}
		case 5: { // the whole program
			std::string in = scratch(".in"), ans = scratch(".ans"), stem = scratch("");
			std::ofstream(in) << "7 words\n"; std::ofstream(ans) << "answer\n";
			char prog[] = "./visualizer"; std::vector<char> arg(stem.begin(), stem.end()); arg.push_back(0);
			char* argv[] = {prog, arg.data(), nullptr};
			Visualizer::testIn = std::ifstream(); Visualizer::testAns = std::ifstream();
			Visualizer::init(2, argv);
			std::string a, b, e; Visualizer::testIn >> a >> b; Visualizer::testAns >> e;
			PBT_CHECK(a == "7" && b == "words" && e == "answer", "the files of the test case are not read: ", a, b, e);
			paint(Visualizer::image, m, base);
			Visualizer::image.write();
			checkFile(c, name, m.w, m.h, m.px, "Visualizer::image");
			Visualizer::image = PNG();
			std::remove(in.c_str()); std::remove(ans.c_str());
			break;
		}
		default: { // cleared only, both forms
			Color fill = c.coin() ? color(c) : TRANSPARENT;
			{ PNG img(name); if (c.coin()) paint(img, n, base); if (fill == TRANSPARENT && c.coin()) img.clear(m.w, m.h); else img.clear(m.w, m.h, fill); }
			checkFile(c, name, m.w, m.h, std::vector<Color>((size_t)(m.w * m.h), fill), "cleared");
		}
	}
	std::remove(name.c_str()); std::remove(other.c_str());
}
PBT_PROP(largestColumns, 40, 400) { // many rows: the checksums pass their modulus often
	std::string name = scratch();
	Img m; m.w = c.range(1, 3); m.h = c.range(60000, 70000); m.px.assign((size_t)(m.w * m.h), c.coin() ? WHITE : color(c));
	PBT_NOTE << m.w << "x" << m.h << "\n"; c.nontrivial();
	{ PNG img(name); img.clear(m.w, m.h, m.px[0]); for (int k = 0; k < 50; k++) { auto x = (Integer)c.below((uint64_t)m.w), y = (Integer)c.below((uint64_t)m.h); img(x, y) = m.px[(size_t)(y * m.w + x)] = color(c); } }
	checkFile(c, name, m.w, m.h, m.px, "at the end");
	std::remove(name.c_str());
}
PBT_PROP(largestImages, 12, 120) { // around 2^24 bytes of pixels
	std::string name = scratch();
	Img m; m.w = c.coin() ? c.range(900, 9000) : c.pick<Integer>({1024, 2048, 4096, 8192, 16383});
	m.h = (4 << 20) / m.w + c.range(-20, 300);
	m.px.assign((size_t)(m.w * m.h), color(c));
	PBT_NOTE << m.w << "x" << m.h << "\n"; c.nontrivial();
	{ PNG img(name); img.clear(m.w, m.h, m.px[0]); for (int k = 0; k < 50; k++) { auto x = (Integer)c.below((uint64_t)m.w), y = (Integer)c.below((uint64_t)m.h); img(x, y) = m.px[(size_t)(y * m.w + x)] = color(c); } }
	checkFile(c, name, m.w, m.h, m.px, "at the end");
	std::remove(name.c_str());
}
#else
// --- colours --------------------------------------------------------------------
static int at(const Color& x, int i) { return i == 0 ? x.r : i == 1 ? x.g : i == 2 ? x.b : x.a; }
static Real factor(pbt::Ctx& c) {
	switch (c.below(6)) {
		case 0: return (Real)c.range(0, 300) / 100;
		case 1: return (Real)c.range(-3, 300);
		case 2: return (Real)c.below(1 << 20) / (1 << 20);
		case 3: return std::ldexp((Real)c.range(1, 9), (int)c.range(-70, 100)) * (c.chance(1, 4) ? -1 : 1);
		case 4: return c.pick<Real>({0, 1, 0.5L, -1, 1e9L, 255, 1 / 255.0L});
		default: return (Real)c.i64();
	}
}
PBT_PROP(colors, 60000, 2000000) {
	Color a = color(c), b = color(c);
	Real f = factor(c);
	PBT_NOTE << show(a) << " " << show(b) << " " << f << "\n";
	if (!(a == b)) c.nontrivial();
	bool same = a.r == b.r && a.g == b.g && a.b == b.b && a.a == b.a;
	PBT_CHECK((a == b) == same && (a != b) == !same, "comparison of ", show(a), " and ", show(b));
	if (c.chance(1, 50)) {
		struct { Color x; int r, g, b, a; } named[] = {{TRANSPARENT, 0, 0, 0, 0}, {BLACK, 0, 0, 0, 255}, {DARKGRAY, 0x40, 0x40, 0x40, 255}, {GRAY, 0x80, 0x80, 0x80, 255}, {LIGHTGRAY, 0xC0, 0xC0, 0xC0, 255}, {WHITE, 255, 255, 255, 255},
			{RED, 255, 0, 0, 255}, {GREEN, 0, 255, 0, 255}, {BLUE, 0, 0, 255, 255}, {YELLOW, 255, 255, 0, 255}, {MAGENTA, 255, 0, 255, 255}, {CYAN, 0, 255, 255, 255}};
		for (auto& n : named) PBT_CHECK(n.x.r == n.r && n.x.g == n.g && n.x.b == n.b && n.x.a == n.a, "named colour ", show(n.x), " is not ", n.r, " ", n.g, " ", n.b, " ", n.a);
	}
	Color sum = a + b, dif = a - b, mul = a * f, lum = f * a;
	for (int i = 0; i < 4; i++) {
		PBT_CHECK(at(sum, i) == std::min(255, at(a, i) + at(b, i)), show(a), " + ", show(b), " is ", show(sum));
		PBT_CHECK(at(dif, i) == std::max(0, at(a, i) - at(b, i)), show(a), " - ", show(b), " is ", show(dif));
		Real exact = std::clamp(at(a, i) * f, (Real)0, (Real)255);
		PBT_CHECK(std::abs(at(mul, i) - exact) <= 0.5L, show(a), " * ", f, " is ", show(mul));
		PBT_CHECK(std::as_const(a)[(size_t)i] == at(a, i) && Color(a)[(size_t)i] == at(a, i), "index ", i, " of ", show(a));
	}
	PBT_CHECK(mul == lum, show(a), " * ", f, " is ", show(mul), " or ", show(lum));
	Color t = a; t += b; PBT_CHECK(t == sum, "+="); (t = a) -= b; PBT_CHECK(t == dif, "-="); (t = a) *= f; PBT_CHECK(t == mul, "*=");
	t = a; PBT_CHECK(&(t += b) == &t, "+= does not return the color");
	t = a; size_t i = (size_t)c.below(4); uint8_t v = channel(c); t[i] = v;
	for (int k = 0; k < 4; k++) PBT_CHECK(at(t, k) == ((size_t)k == i ? v : at(a, k)), "writing index ", i, " of ", show(a), " gives ", show(t));
	for (auto bad : {(size_t)4 + (size_t)c.below(9), (size_t)-1}) {
		int thrown = 0;
		try { (void)t[bad]; } catch (std::out_of_range&) { thrown++; }
		try { (void)std::as_const(t)[bad]; } catch (std::out_of_range&) { thrown++; }
		try { (void)Color(t)[bad]; } catch (std::out_of_range&) { thrown++; }
		PBT_CHECK(thrown == 3, "index ", bad, " is accepted");
	}
	uint32_t rgb = (uint32_t)c.below(1ull << 32);
	Color x(rgb), y(rgb, a.a), z(a.r, a.g, a.b), g(a.r);
	PBT_CHECK(x.r == (rgb >> 16 & 255) && x.g == (rgb >> 8 & 255) && x.b == (rgb & 255) && x.a == 255, "Color(", rgb, ") is ", show(x));
	PBT_CHECK(y.r == x.r && y.g == x.g && y.b == x.b && y.a == a.a, "Color(", rgb, ",", (int)a.a, ") is ", show(y));
	PBT_CHECK(z.r == a.r && z.g == a.g && z.b == a.b && z.a == 255, "Color(r,g,b) is ", show(z));
	PBT_CHECK(g.r == a.r && g.g == a.r && g.b == a.r && g.a == 255, "gray ", (int)a.r, " is ", show(g));
	Color d; PBT_CHECK(d == BLACK && d.r == 0 && d.g == 0 && d.b == 0 && d.a == 255, "Color() is ", show(d));
}
PBT_PROP(lerps, 30000, 1000000) {
	Color a = color(c), b = color(c);
	Real f = c.coin() ? (Real)c.below(1001) / 1000 : c.pick<Real>({0, 1, 0.5L, 1e-18L, 1 - 1e-18L});
	PBT_NOTE << show(a) << " " << show(b) << " " << f << "\n";
	if (!(a == b)) c.nontrivial();
	Color r = lerp(a, b, f);
	for (int i = 0; i < 4; i++) PBT_CHECK(std::abs(at(r, i) - (at(a, i) * f + at(b, i) * (1 - f))) <= 1 + 1e-9L, "lerp ", f, " of ", show(a), " and ", show(b), " is ", show(r));
	if (f == 1) PBT_CHECK(r == a, "lerp 1"); if (f == 0) PBT_CHECK(r == b, "lerp 0");
}
// upper over lower, up to the rounding of the alpha values
PBT_PROP(blends, 60000, 2000000) {
	Color l = color(c), u = color(c);
	PBT_NOTE << show(l) << " below " << show(u) << "\n";
	Color r = blend(l, u);
	if (u.a == 255) { PBT_CHECK(r == u, "opaque ", show(u), " over ", show(l), " is ", show(r)); return; }
	if (u.a == 0) { PBT_CHECK(r == l, "transparent ", show(u), " over ", show(l), " is ", show(r)); return; }
	c.nontrivial();
	Real la = l.a * (255 - u.a) / 255.0L, ra = u.a + la;
	PBT_CHECK(std::abs(r.a - ra) < 1 + 1e-9L, show(u), " over ", show(l), " has alpha ", (int)r.a);
	Real tol = 1 + (l.a == 255 ? 0 : 255 / ra);
	for (int i = 0; i < 3; i++) {
		Real exact = (at(u, i) * u.a + at(l, i) * la) / ra;
		PBT_CHECK(std::abs(at(r, i) - exact) <= tol + 1e-9L && at(r, i) <= std::max(at(u, i), at(l, i)) && at(r, i) >= std::min(at(u, i), at(l, i)), show(u), " over ", show(l), " is ", show(r));
	}
}
// --- drawing ----------------------------------------------------------------------
struct Canvas {
	Integer w, h; std::vector<Color> px;
	Color& at(Integer x, Integer y) { return px[(size_t)(y * w + x)]; }
};
static Color mixed(BlendMode m, Color l, Color u) {
	switch (m) { case ASSIGN: return u; case BLEND: return blend(l, u); case ADD: return l + u; default: return l - u; }
}
static void agree(pbt::Ctx& c, const PNG& img, Canvas& m, const std::string& when) {
	PBT_CHECK(img.width() == m.w && img.height() == m.h, when, ": size ", img.width(), "x", img.height());
	for (Integer y = 0; y < m.h; y++) for (Integer x = 0; x < m.w; x++) PBT_CHECK(img(x, y) == m.at(x, y), when, ": pixel ", x, ",", y, " is ", show(img(x, y)), " instead of ", show(m.at(x, y)));
}
static Point point(pbt::Ctx& c, const Canvas& m) { Integer x = (Integer)c.below((uint64_t)m.w), y = (Integer)c.below((uint64_t)m.h); return Point(x, y); }
// the pixels drawLine chooses, validated against the definition
static std::vector<Point> path(pbt::Ctx& c, Integer w, Integer h, Point a, Point b) {
	PNG probe; probe.clear(w, h, BLACK);
	probe.drawLine<ADD>(a, b, Color(1, 0, 0, 0));
	Integer dx = b.x - a.x, dy = b.y - a.y, len = std::max(std::abs(dx), std::abs(dy));
	bool steep = std::abs(dy) > std::abs(dx);
	std::vector<Point> r; std::set<Integer> major;
	for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) {
		Color p = std::as_const(probe)(x, y);
		if (p == BLACK) continue;
		PBT_CHECK(p == Color(1, 0, 0, 255), "the line ", a.x, ",", a.y, " - ", b.x, ",", b.y, " touches pixel ", x, ",", y, " ", (int)p.r, " times");
		PBT_CHECK(major.insert(steep ? y : x).second, "the line ", a.x, ",", a.y, " - ", b.x, ",", b.y, " is too thick at ", x, ",", y);
		PBT_CHECK(2 * std::abs((x - a.x) * dy - (y - a.y) * dx) <= len, "the line ", a.x, ",", a.y, " - ", b.x, ",", b.y, " contains ", x, ",", y);
		r.emplace_back(x, y);
	}
	auto lo = steep ? std::min(a.y, b.y) : std::min(a.x, b.x);
	PBT_CHECK((Integer)r.size() == len + 1 && *major.begin() == lo && *major.rbegin() == lo + len, "the line ", a.x, ",", a.y, " - ", b.x, ",", b.y, " has ", r.size(), " pixels");
	PBT_CHECK(probe(a.x, a.y) != BLACK && probe(b.x, b.y) != BLACK, "an end point is missing");
	// neighbouring columns (rows) hold neighbouring pixels
	std::map<Integer, Integer> minor; for (auto p : r) minor[steep ? p.y : p.x] = steep ? p.x : p.y;
	for (auto [k, v] : minor) if (minor.count(k + 1)) PBT_CHECK(std::abs(minor[k + 1] - v) <= 1, "the line is not connected");
	return r;
}
template<BlendMode M> static void step(pbt::Ctx& c, PNG& img, Canvas& m, Color f, Color g, bool plain) {
	Point a = point(c, m), b = c.chance(1, 6) ? a : point(c, m);
	if (c.chance(1, 8)) b.x = a.x; if (c.chance(1, 8)) b.y = a.y;
	std::string when;
	// the color may be a pixel of the image itself
	const Color *pf = &f, *pg = &g;
	auto own = [&](Color& v, const Color*& pv) {
		if (!c.chance(1, 6)) return;
		Point p = c.coin() ? a : c.coin() ? b : point(c, m);
		v = m.at(p.x, p.y); pv = &img(p.x, p.y);
		c.label("color taken from the image");
	};
	own(f, pf); own(g, pg);
	auto put = [&](Integer x, Integer y, Color u) { m.at(x, y) = mixed(M, m.at(x, y), u); };
	switch (c.below(4)) {
		case 0: case 1: {
			bool border = c.coin();
			when = pbt::cat("fillRectangle ", a.x, ",", a.y, " ", b.x, ",", b.y, border ? " border " + show(g) : "", " fill ", show(f), " mode ", (int)M);
			PBT_NOTE << when << "\n";
			auto [x0, x1] = std::minmax(a.x, b.x); auto [y0, y1] = std::minmax(a.y, b.y);
			for (Integer y = y0; y <= y1; y++) for (Integer x = x0; x <= x1; x++) put(x, y, border && (x == x0 || x == x1 || y == y0 || y == y1) ? g : f);
			if (border) { if (plain) img.fillRectangle(a, b, *pg, *pf); else img.fillRectangle<M>(a, b, *pg, *pf); }
			else { if (plain) img.fillRectangle(a, b, *pf); else img.fillRectangle<M>(a, b, *pf); }
			break;
		}
		case 2: {
			when = pbt::cat("floodFill ", a.x, ",", a.y, " ", show(f), " mode ", (int)M);
			PBT_NOTE << when << "\n";
			Color old = m.at(a.x, a.y); std::set<std::pair<Integer, Integer>> area{{a.x, a.y}}; std::vector<Point> q{a};
			for (size_t i = 0; i < q.size(); i++) for (int d = 0; d < 4; d++) {
				Point p(q[i].x + (d == 0) - (d == 1), q[i].y + (d == 2) - (d == 3));
				if (p.x < 0 || p.y < 0 || p.x >= m.w || p.y >= m.h || !(m.at(p.x, p.y) == old) || !area.insert({p.x, p.y}).second) continue;
				q.push_back(p);
			}
			for (auto p : q) put(p.x, p.y, f);
			if (plain) img.floodFill(a, *pf); else img.floodFill<M>(a, *pf);
			break;
		}
		default: {
			when = pbt::cat("drawLine ", a.x, ",", a.y, " ", b.x, ",", b.y, " ", show(f), " mode ", (int)M);
			PBT_NOTE << when << "\n";
			for (auto p : path(c, m.w, m.h, a, b)) put(p.x, p.y, f);
			if (plain) img.drawLine(a, b, *pf); else img.drawLine<M>(a, b, *pf);
		}
	}
	agree(c, img, m, when);
}
PBT_PROP(drawing, 20000, 400000) {
	Canvas m; PNG img;
	auto clear = [&] {
		m.w = c.chance(1, 20) ? c.range(13, 40) : c.range(1, 9); m.h = c.chance(1, 20) ? c.range(13, 40) : c.range(1, 9);
		Color f = c.coin() ? TRANSPARENT : color(c);
		PBT_NOTE << "clear " << m.w << "x" << m.h << " " << show(f) << "\n";
		if (f == TRANSPARENT && c.coin()) img.clear(m.w, m.h); else img.clear(m.w, m.h, f);
		m.px.assign((size_t)(m.w * m.h), f);
		agree(c, img, m, "clear");
	};
	clear();
	size_t steps = c.chance(1, 60) ? (size_t)c.range(9, 60) : (size_t)c.range(1, 8);
	if (steps > 1 && m.w > 1 && m.h > 1) c.nontrivial();
	std::vector<Color> palette{color(c), color(c), color(c)};
	auto col = [&] { return c.chance(1, 4) ? color(c) : palette[(size_t)c.below(3)]; };
	for (size_t t = 0; t < steps; t++) {
		if (c.chance(1, 20)) clear();
		if (c.chance(1, 5)) { auto p = point(c, m); Color f = col(); PBT_NOTE << "pixel " << p.x << "," << p.y << " " << show(f) << "\n"; img(p.x, p.y) = f; m.at(p.x, p.y) = f; agree(c, img, m, "pixel"); }
		Color f = col(), g = col();
		switch (c.below(5)) {
			case 0: step<ASSIGN>(c, img, m, f, g, true); break;
			case 1: step<BlendMode::ASSIGN>(c, img, m, f, g, false); break;
			case 2: step<BlendMode::BLEND>(c, img, m, f, g, false); break;
			case 3: step<BlendMode::ADD>(c, img, m, f, g, false); break;
			default: step<BlendMode::SUBTRACT>(c, img, m, f, g, false); break;
		}
	}
}
PBT_PROP(largeFills, 60, 1500) { // areas of thousands of pixels: open, with walls, a maze, a winding corridor
	Integer w = c.i64in(20, 300), h = c.i64in(20, 300);
	Color back = color(c), wall = color(c), f = color(c);
	if (wall == back) wall.b ^= 1;
	PNG img; Canvas m{w, h, std::vector<Color>((size_t)(w * h), back)};
	img.clear(w, h, back);
	uint64_t rs = c.bits() | 1;
	auto rnd = [&](uint64_t k) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (rs * 0x2545F4914F6CDD1Dull >> 20) % k; };
	size_t kind = c.below(5);
	auto put = [&](Integer x, Integer y) { m.at(x, y) = wall; img(x, y) = wall; };
	for (Integer y = 0; y < h; y++) for (Integer x = 0; x < w; x++) {
		bool is = false;
		switch (kind) {
			case 1: is = rnd(100) < 38; break;
			case 2: is = y % 2 == 1 && x != (y % 4 == 1 ? 0 : w - 1); break;      // winding, rows
			case 3: is = x % 2 == 1 && y != (x % 4 == 1 ? 0 : h - 1); break;      // winding, columns
			case 4: is = x % 2 == 1 && y % 2 == 1 ? true : (x + y) % 2 == 1 && rnd(2); break;
			default: break;
		}
		if (is) put(x, y);
	}
	Point a = point(c, m);
	PBT_NOTE << w << "x" << h << " kind " << kind << " floodFill " << a.x << "," << a.y << " " << show(f);
	c.label(pbt::cat("kind ", kind));
	BlendMode mode = c.pick<BlendMode>({BlendMode::ASSIGN, BlendMode::BLEND, BlendMode::ADD, BlendMode::SUBTRACT});
	Color old = m.at(a.x, a.y);
	std::vector<char> in((size_t)(w * h), 0); std::vector<Point> q{a}; in[(size_t)(a.y * w + a.x)] = 1;
	for (size_t i = 0; i < q.size(); i++) for (int d = 0; d < 4; d++) {
		Point p(q[i].x + (d == 0) - (d == 1), q[i].y + (d == 2) - (d == 3));
		if (p.x < 0 || p.y < 0 || p.x >= w || p.y >= h || in[(size_t)(p.y * w + p.x)] || !(m.at(p.x, p.y) == old)) continue;
		in[(size_t)(p.y * w + p.x)] = 1; q.push_back(p);
	}
	if (q.size() > 1) c.nontrivial();
	for (auto p : q) m.at(p.x, p.y) = mixed(mode, m.at(p.x, p.y), f);
	switch (mode) {
		case BlendMode::ASSIGN: img.floodFill<BlendMode::ASSIGN>(a, f); break;
		case BlendMode::BLEND: img.floodFill<BlendMode::BLEND>(a, f); break;
		case BlendMode::ADD: img.floodFill<BlendMode::ADD>(a, f); break;
		default: img.floodFill<BlendMode::SUBTRACT>(a, f);
	}
	agree(c, img, m, "floodFill");
}
PBT_PROP(lines, 20000, 400000) { // longer lines
	Integer w = c.chance(1, 100) ? c.i64in(60, 1500) : c.range(1, 60), h = w > 60 ? c.i64in(1, 300) : c.range(1, 60);
	if (w > 60 && c.coin()) std::swap(w, h);
	Canvas m{w, h, {}};
	Point a = point(c, m), b = point(c, m);
	PBT_NOTE << a.x << "," << a.y << " " << b.x << "," << b.y << "\n";
	if (a != b) c.nontrivial();
	PBT_CHECK((a == b) == (a.x == b.x && a.y == b.y) && (a != b) == !(a == b), "comparison of points");
	(void)path(c, w, h, a, b);
}
#endif
