// C30 written SVG files against an XML parser and a model of the picture  (visualizer_svg.h)
#include "pbt.h"
#include <bits/stdc++.h>
#include <unistd.h>
#include "visualizer_svg.h"
static_assert(std::is_same_v<Integer, std::int64_t> && std::is_same_v<Real, long double>);

static std::string show(const Color& c) { return pbt::cat("(", (int)c.r, ",", (int)c.g, ",", (int)c.b, ")"); }
static uint8_t channel(pbt::Ctx& c) { switch (c.below(4)) { case 0: return 0; case 1: return 255; case 2: return (uint8_t)c.pick<int>({1, 2, 15, 16, 127, 128, 254}); default: return (uint8_t)c.below(256); } }
static Color color(pbt::Ctx& c) {
	if (c.chance(1, 3)) return c.pick<Color>({BLACK, WHITE, RED, GREEN, BLUE, GRAY, DARKGRAY, LIGHTGRAY, YELLOW, MAGENTA, CYAN});
	uint8_t r = channel(c), g = channel(c), b = channel(c);
	return Color(r, g, b);
}
static std::string hexColor(const Color& c) { char b[8]; snprintf(b, 8, "#%02x%02x%02x", c.r, c.g, c.b); return b; }
static std::string scratch(const char* suffix = ".svg") { return pbt::cat("image.", getpid(), suffix); }
static std::optional<std::string> content(const std::string& name) {
	std::ifstream f(name, std::ios::binary); if (!f) return {};
	std::ostringstream s; s << f.rdbuf(); return s.str();
}
// --- XML ---------------------------------------------------------------------------
struct Node { std::string name; std::vector<std::pair<std::string, std::string>> attr; std::vector<Node> kids; std::string text; };
struct Xml {
	const std::string& s; size_t i = 0; std::string why;
	explicit Xml(const std::string& t) : s(t) {}
	bool bad(const std::string& w) { if (why.empty()) why = pbt::cat(w, " at ", i, ": ", pbt::quote(s.substr(i > 20 ? i - 20 : 0, 50))); return false; }
	bool is(const char* t) { return s.compare(i, strlen(t), t) == 0; }
	bool space() { size_t k = i; while (i < s.size() && strchr(" \t\r\n", s[i])) i++; return i > k; }
	std::string name() { size_t k = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr("_:-.", s[i]))) i++; std::string r = s.substr(k, i - k); if (r.empty() || !(isalpha((unsigned char)r[0]) || r[0] == '_')) bad("name"); return r; }
	bool attributes(Node& n) {
		while (true) {
			bool sp = space();
			if (i >= s.size()) return bad("end of file in a tag");
			if (strchr("/>?", s[i])) return true;
			if (!sp) return bad("space between attributes");
			std::string k = name(); if (!why.empty()) return false;
			space(); if (!is("=")) return bad("="); i++; space();
			char q = i < s.size() ? s[i] : 0; if (q != '"' && q != '\'') return bad("quote"); i++;
			std::string v;
			while (i < s.size() && s[i] != q) { if (s[i] == '<' || s[i] == '&') return bad("attribute value"); v += s[i++]; }
			if (i >= s.size()) return bad("end of file in a value"); i++;
			for (auto& a : n.attr) if (a.first == k) return bad("attribute " + k + " twice");
			n.attr.emplace_back(k, v);
		}
	}
	bool comment(std::string& t) {
		i += 4; size_t e = s.find("--", i); if (e == std::string::npos || s.compare(e, 3, "-->") != 0) return bad("comment");
		t = s.substr(i, e - i); i = e + 3; return true;
	}
	bool element(Node& n) {
		if (!is("<")) return bad("<"); i++;
		n.name = name(); if (!why.empty() || !attributes(n)) return false;
		if (is("/>")) { i += 2; return true; }
		if (!is(">")) return bad(">"); i++;
		while (true) {
			if (i >= s.size()) return bad("end of file in " + n.name);
			if (is("</")) { i += 2; if (name() != n.name) return bad("end tag"); space(); if (!is(">")) return bad(">"); i++; return true; }
			if (is("<!--")) { Node k; k.name = "#comment"; if (!comment(k.text)) return false; n.kids.push_back(k); }
			else if (is("<")) { Node k; if (!element(k)) return false; n.kids.push_back(k); }
			else { if (s[i] == '&') return bad("&"); if (!strchr(" \t\r\n", s[i])) n.text += s[i]; i++; }
		}
	}
	bool document(Node& root) {
		if (is("<?xml")) { i += 5; Node d; if (!attributes(d)) return false; if (!is("?>")) return bad("?>"); i += 2; if (d.attr.empty() || d.attr[0] != std::pair<std::string, std::string>("version", "1.0")) return bad("version"); }
		space(); while (is("<!--")) { std::string t; if (!comment(t)) return false; space(); }
		if (!element(root)) return false;
		space(); return i == s.size() || bad("text after the root element");
	}
};
// --- model --------------------------------------------------------------------------
struct Pen { bool on = false; Color c; Real width = 1; std::optional<Linecap> cap; std::optional<Linejoin> join; bool scale = true; bool fillOn = false; Color fill; };
struct Obj {
	std::string name; // "#comment" for comments
	std::vector<std::pair<std::string, Real>> nums;
	std::vector<std::pair<Real, Real>> points;
	std::string text;
	Pen pen;
};
struct Box { Real x0 = 0, y0 = 0, x1 = 0, y1 = 0, most = 0 /* largest coordinate so far */; void add(Real x, Real y) { most = std::max({most, std::abs(x), std::abs(y)}); x0 = std::min(x0, x); x1 = std::max(x1, x); y0 = std::min(y0, y); y1 = std::max(y1, y); } };
static bool near(Real got, Real want) { return std::abs(got - want) <= 5.1e-6L * std::abs(want) + 1e-30L; } // six significant digits
static std::optional<Real> number(const std::string& t) {
	if (t.empty() || isspace((unsigned char)t[0])) return {};
	char* e = nullptr; Real v = std::strtold(t.c_str(), &e);
	if (*e || !std::isfinite(v) || t.find_first_not_of("0123456789+-.eE") != std::string::npos) return {};
	return v;
}
static void checkNode(pbt::Ctx& c, const Node& n, const Obj& o, size_t k) {
	PBT_CHECK(n.name == o.name, "element ", k, " is <", n.name, "> instead of <", o.name, ">");
	if (o.name == "#comment") { PBT_CHECK(n.text.find(o.text) != std::string::npos, "comment ", k, " is ", pbt::quote(n.text)); return; }
	PBT_CHECK(n.kids.empty() && n.text.empty(), "element ", k, " has content");
	std::map<std::string, std::string> a(n.attr.begin(), n.attr.end());
	for (auto& [key, want] : o.nums) {
		PBT_CHECK(a.count(key), "element ", k, " <", n.name, "> has no ", key);
		auto got = number(a[key]);
		PBT_CHECK(got && near(*got, want), "element ", k, " <", n.name, ">: ", key, " is ", a[key], " instead of ", want);
		a.erase(key);
	}
	if (o.name.substr(0, 4) == "poly") {
		PBT_CHECK(a.count("points"), "no points");
		std::string t = a["points"]; for (auto& ch : t) if (ch == ',') ch = ' ';
		std::istringstream is(t); std::vector<Real> v; std::string w;
		while (is >> w) { auto x = number(w); PBT_CHECK(x, "points of element ", k, " are ", a["points"]); v.push_back(*x); }
		PBT_CHECK(v.size() == 2 * o.points.size(), "element ", k, " has ", v.size(), " coordinates instead of ", 2 * o.points.size());
		for (size_t i = 0; i < v.size(); i++) { Real want = i % 2 ? -o.points[i / 2].second : o.points[i / 2].first; PBT_CHECK(near(v[i], want), "coordinate ", i, " of element ", k, " is ", v[i], " instead of ", want); }
		a.erase("points");
	}
	const Pen& p = o.pen;
	auto text = [&](const char* key, std::optional<std::string> want, const char* dflt = nullptr) {
		std::optional<std::string> got; if (a.count(key)) got = a[key];
		a.erase(key);
		PBT_CHECK(got == want || (dflt && !want && got == dflt), "element ", k, " <", n.name, ">: ", key, " is ", got.value_or("missing"), " instead of ", want.value_or("missing"));
	};
	text("stroke", p.on ? hexColor(p.c) : "none");
	text("fill", p.fillOn ? hexColor(p.fill) : "none");
	std::optional<std::string> cap, join, ve;
	if (p.on) {
		auto got = a.count("stroke-width") ? number(a["stroke-width"]) : std::nullopt;
		PBT_CHECK(got && near(*got, p.width), "element ", k, ": stroke-width is ", a["stroke-width"], " instead of ", p.width);
		a.erase("stroke-width");
		if (p.cap) cap = *p.cap == Linecap::BUTT ? "butt" : *p.cap == Linecap::ROUND ? "round" : "square";
		if (p.join) join = *p.join == Linejoin::ROUND ? "round" : *p.join == Linejoin::BEVEL ? "bevel" : "miter";
		if (!p.scale) ve = "non-scaling-stroke";
	}
	text("stroke-linecap", cap); text("stroke-linejoin", join); text("vector-effect", ve, "none");
	for (auto& [key, v] : a) for (auto bad : {"x", "y", "width", "height", "cx", "cy", "r", "rx", "ry", "x1", "y1", "x2", "y2", "points", "stroke-width", "transform", "stroke-opacity", "fill-opacity", "opacity", "display", "visibility", "style"})
		PBT_CHECK(key != bad, "element ", k, " <", n.name, "> has an unexpected ", key);
}
// equal for the eye: six decimals, and 15 digits relative to the size of the picture
static bool equals(const Box& a, const Box& b) {
	Real tol = 2e-6L + 1e-15L * std::max({b.most, std::abs(b.x0), std::abs(b.x1), std::abs(b.y0), std::abs(b.y1)});
	return std::abs(a.x0 - b.x0) <= tol && std::abs(a.x1 - b.x1) <= tol && std::abs(a.y0 - b.y0) <= tol && std::abs(a.y1 - b.y1) <= tol;
}
static void checkFile(pbt::Ctx& c, const std::string& name, const std::vector<Obj>& objs, const Box& box, const char* when) {
	auto file = content(name);
	PBT_CHECK(file, when, ": there is no file");
	PBT_NOTE << when << ":\n" << *file << "\n";
	Xml xml(*file); Node root;
	PBT_CHECK(xml.document(root), when, ": not well-formed: ", xml.why);
	PBT_CHECK(root.name == "svg" && root.text.empty(), when, ": root element");
	std::map<std::string, std::string> a(root.attr.begin(), root.attr.end());
	PBT_CHECK(a["xmlns"] == "http://www.w3.org/2000/svg", when, ": namespace is ", a["xmlns"]);
	std::istringstream is(a["viewBox"]); std::vector<Real> v; std::string w;
	while (is >> w) { auto x = number(w); PBT_CHECK(x, when, ": viewBox is ", a["viewBox"]); v.push_back(*x); }
	PBT_CHECK(v.size() == 4, when, ": viewBox is ", a["viewBox"]);
	// the y axis points down in the file
	PBT_CHECK((equals({v[0], -(v[1] + v[3]), v[0] + v[2], -v[1], 0}, box)), when, ": viewBox is ", a["viewBox"], " but the picture is [", box.x0, ",", box.x1, "]x[", box.y0, ",", box.y1, "]");
	PBT_CHECK(root.kids.size() == objs.size(), when, ": ", root.kids.size(), " elements instead of ", objs.size());
	for (size_t i = 0; i < objs.size(); i++) checkNode(c, root.kids[i], objs[i], i);
}
struct Picture {
	pbt::Ctx& c; int scale;
	std::vector<Obj> objs; Box box; bool written = false;
	explicit Picture(pbt::Ctx& c_) : c(c_), scale((int)c_.below(5)) {}
	Real coord() {
		switch (scale) {
			case 0: return (Real)c.range(-9, 9);
			case 1: return (Real)c.range(-200, 200) / 2;
			case 2: return (Real)c.range(-1'000'000'000, 1'000'000'000);
			case 3: return (Real)c.range(-1'000'000, 1'000'000) / 1000;
			default: return std::ldexp((Real)c.range(-1000, 1000), (int)c.range(-20, 40));
		}
	}
	Real length() { return std::abs(coord()); }
	template<typename S> void pen(S& s, Obj& o) {
		Pen& p = o.pen;
		if (c.chance(1, 2)) {
			p.on = true; p.c = color(c); p.width = c.coin() ? 1 : std::abs((Real)c.range(0, 1000) / 100);
			p.scale = !c.chance(1, 4);
			if (c.chance(1, 4)) p.cap = c.pick<Linecap>({Linecap::BUTT, Linecap::ROUND, Linecap::SQUARE});
			if (c.chance(1, 4)) p.join = c.pick<Linejoin>({Linejoin::ROUND, Linejoin::BEVEL, Linejoin::MITER});
			Stroke st = p.scale && c.coin() ? Stroke(p.c, p.width) : Stroke(p.c, p.width, p.scale);
			st.linecap = p.cap; st.linejoin = p.join;
			s.stroke = st;
		}
		if (c.chance(1, 2)) { p.fillOn = true; p.fill = color(c); if (c.coin()) s.fill = Fill(p.fill); else s.fill = p.fill; }
	}
	// draws to os: S& keeps the type for chains
	template<typename F> void draw(F&& put) {
		Obj o; Real x = coord(), y = coord();
		switch (c.below(7)) {
			case 0: {
				Real w = length(), h = length();
				o.name = "rect"; o.nums = {{"x", x}, {"y", -(y + h)}, {"width", w}, {"height", h}};
				auto r = [&]() -> Rectangle { switch (c.below(4)) { case 0: return Rectangle(Point(x, y), Dimension(w, h)); case 1: return Rectangle(Point(x, y), w, h); case 2: return Rectangle(x, y, Dimension(w, h)); default: return Rectangle(x, y, w, h); } }();
				pen(r, o); box.add(x, y); box.add(x + w, y + h); put(r); break;
			}
			case 1: {
				Real r = length();
				o.name = "circle"; o.nums = {{"cx", x}, {"cy", -y}, {"r", r}};
				auto s = c.coin() ? Circle(Point(x, y), r) : Circle(x, y, r);
				pen(s, o); box.add(x - r, y - r); box.add(x + r, y + r); put(s); break;
			}
			case 2: {
				Real rx = length(), ry = length();
				o.name = "ellipse"; o.nums = {{"cx", x}, {"cy", -y}, {"rx", rx}, {"ry", ry}};
				auto s = c.coin() ? Ellipse(Point(x, y), rx, ry) : Ellipse(x, y, rx, ry);
				pen(s, o); box.add(x - rx, y - ry); box.add(x + rx, y + ry); put(s); break;
			}
			case 3: {
				Real u = coord(), v = coord();
				o.name = "line"; o.nums = {{"x1", x}, {"y1", -y}, {"x2", u}, {"y2", -v}};
				auto s = c.coin() ? Line(Point(x, y), Point(u, v)) : Line(x, y, u, v);
				pen(s, o); box.add(x, y); box.add(u, v); put(s); break;
			}
			case 4: o.name = "polygon"; poly<Polygon>(o, put); break;
			case 5: o.name = "polyline"; poly<Polyline>(o, put); break;
			default: {
				o.name = "#comment"; o.text = c.bytes("ab <>&\"'x1/", (size_t)c.below(9));
				Comment s(o.text); put(s);
			}
		}
		PBT_NOTE << o.name << " "; for (auto& [k, v] : o.nums) PBT_NOTE << k << "=" << v << " "; for (auto& [px, py] : o.points) PBT_NOTE << px << "," << py << " "; PBT_NOTE << "\n";
		objs.push_back(o);
	}
	template<typename P, typename F> void poly(Obj& o, F&& put) {
		std::vector<Point> ps;
		for (auto n = c.rarely(0, 5, 80); n > 0; n--) { Real x = coord(), y = coord(); ps.emplace_back(x, y); o.points.emplace_back(x, y); box.add(x, y); }
		P s = ps.size() == 2 && c.coin() ? P({ps[0], ps[1]}) : ps.empty() && c.coin() ? P() : P(ps);
		if (c.chance(1, 4)) { Real x = coord(), y = coord(); s.points.emplace_back(x, y); o.points.emplace_back(x, y); box.add(x, y); }
		pen(s, o); put(s);
	}
	void step(SVG& img) {
		switch (c.weighted({10, 3, 2, 1, 1})) {
			case 0: draw([&](auto& s) { switch (c.below(3)) { case 0: img << s; break; case 1: img << s << std::endl; break; default: img << s << "\n"; } }); break;
			case 1: { // several objects in one expression
				size_t before = objs.size();
				draw([&](auto& s) { draw([&](auto& t) {
					switch (c.below(4)) {
						case 0: img << s << t; break;
						case 1: img << s << std::endl << t; break;
						case 2: img << "\n" << s << t << std::endl; break;
						default: { img << s << Comment("between") << t; Obj o; o.name = "#comment"; o.text = "between"; objs.push_back(o); }
					}
				}); });
				std::rotate(objs.begin() + (long)before, objs.end() - 1, objs.end()); // the first object is recorded last
				break;
			}
			case 2: { Real x = coord(), y = coord(); PBT_NOTE << "include " << x << "," << y << "\n"; img.includeInBB(Point(x, y)); box.add(x, y); break; }
			case 3: { // by hand, as in the example
				if (c.chance(1, 3)) { // the box itself, moved or given another size
					Real x = coord(), y = coord(), w = c.chance(1, 3) ? 0 : length(), h = c.chance(1, 3) ? 0 : length();
					bool move = c.coin(), size = c.coin();
					if (move) { PBT_NOTE << "origin " << x << "," << y << "\n"; img.origin = Point(x, y); box.x1 += x - box.x0; box.y1 += y - box.y0; box.x0 = x; box.y0 = y; }
					if (size) { PBT_NOTE << "dimension " << w << "," << h << "\n"; img.dimension = Dimension(w, h); box.x1 = box.x0 + w; box.y1 = box.y0 + h; }
					box.most = std::max({box.most, std::abs(box.x0), std::abs(box.x1), std::abs(box.y0), std::abs(box.y1)});
					break;
				}
				Real d = length(), e = length();
				PBT_NOTE << "enlarge " << d << "," << e << "\n";
				img.origin -= {d, e}; img.dimension += {2 * d, 2 * e};
				box.x0 -= d; box.y0 -= e; box.x1 += d; box.y1 += e; box.most = std::max({box.most, std::abs(box.x0), std::abs(box.x1), std::abs(box.y0), std::abs(box.y1)});
				break;
			}
			default: img << std::endl;
		}
		PBT_CHECK((equals({img.origin.x, img.origin.y, img.origin.x + img.dimension.width, img.origin.y + img.dimension.height, 0}, box)),
			"the bounding box is [", img.origin.x, ",", img.origin.x + img.dimension.width, "]x[", img.origin.y, ",", img.origin.y + img.dimension.height, "] instead of [", box.x0, ",", box.x1, "]x[", box.y0, ",", box.y1, "]");
	}
};
PBT_PROP(pictures, 30000, 600000) {
	std::string name = scratch(), other = scratch(".other.svg");
	std::remove(name.c_str()); std::remove(other.c_str());
	Picture p(c);
	size_t steps = c.chance(1, 60) ? (size_t)(c.chance(1, 12) ? c.range(80, 1500) : c.range(8, 80)) : (size_t)c.range(0, 7);
	bool silent = true;
	auto run = [&](SVG& img) { for (size_t i = 0; i < steps; i++) p.step(img); silent = p.objs.empty(); if (silent) { Picture q(c); p.draw([&](auto& s) { img << s; }); } };
	switch (c.below(6)) {
		case 0: { { SVG img(name); run(img); PBT_CHECK(!content(name), "written too early"); } checkFile(c, name, p.objs, p.box, "at the end"); break; }
		case 1: {
			{ SVG img(name); run(img); img.write(); checkFile(c, name, p.objs, p.box, "explicit");
				auto first = content(name); img.write(); PBT_CHECK(content(name) == first, "writing twice gives different files");
				if (c.coin()) { p.step(img); if (c.coin()) { img.write(); checkFile(c, name, p.objs, p.box, "continued"); } } }
			checkFile(c, name, p.objs, p.box, "explicit and at the end");
			break;
		}
		case 2: { // nothing to write
			{ SVG img; run(img); img.write(); }
			{ SVG img(name); if (c.coin()) img.includeInBB(Point(1, 2)); if (c.coin()) img.write(); }
			PBT_CHECK(!content(name), "an empty image is written");
			break;
		}
		case 3: { // assigned before drawing
			{ SVG img; img = SVG(name); run(img); if (c.coin()) img.write(); }
			checkFile(c, name, p.objs, p.box, "assigned");
			break;
		}
		case 4: { // the picture moves to another object
			{ SVG img; { SVG first(name); run(first); img = std::move(first); } PBT_CHECK(!content(name), "written by a move"); p.step(img); }
			checkFile(c, name, p.objs, p.box, "moved");
			break;
		}
		default: { // the whole program
			std::string in = scratch(".in"), ans = scratch(".ans"), stem = scratch("");
			std::ofstream(in) << "7 words\n"; std::ofstream(ans) << "answer\n";
			char prog[] = "./visualizer"; std::vector<char> arg(stem.begin(), stem.end()); arg.push_back(0);
			char* argv[] = {prog, arg.data(), nullptr};
			Visualizer::image = SVG(); Visualizer::testIn = std::ifstream(); Visualizer::testAns = std::ifstream();
			Visualizer::init(2, argv);
			std::string a, b, e; Visualizer::testIn >> a >> b; Visualizer::testAns >> e;
			PBT_CHECK(a == "7" && b == "words" && e == "answer", "the files of the test case are not read: ", a, b, e);
			run(Visualizer::image);
			Visualizer::image.write();
			checkFile(c, name, p.objs, p.box, "Visualizer::image");
			Visualizer::image = SVG();
			std::remove(in.c_str()); std::remove(ans.c_str());
		}
	}
	if (p.objs.size() > 1) c.nontrivial();
	std::remove(name.c_str()); std::remove(other.c_str());
}
// objects written to any other stream are the same elements
PBT_PROP(elements, 10000, 200000) {
	Picture p(c);
	std::ostringstream os;
	p.draw([&](auto& s) { os << s; if (c.coin()) os << std::endl; });
	std::string t = "<g>" + os.str() + "</g>";
	PBT_NOTE << t << "\n";
	Xml xml(t); Node root;
	PBT_CHECK(xml.document(root), "not well-formed: ", xml.why);
	PBT_CHECK(root.kids.size() == 1, root.kids.size(), " elements");
	checkNode(c, root.kids[0], p.objs[0], 0);
	if (p.objs[0].name != "#comment") c.nontrivial();
}
// --- values -----------------------------------------------------------------------
static int at(const Color& x, int i) { return i == 0 ? x.r : i == 1 ? x.g : x.b; }
static Real factor(pbt::Ctx& c) {
	switch (c.below(6)) {
		case 0: return (Real)c.range(0, 300) / 100;
		case 1: return (Real)c.range(-3, 300);
		case 2: return (Real)c.below(1 << 20) / (1 << 20);
		case 3: return std::ldexp((Real)c.range(1, 9), (int)c.range(-70, 100)) * (c.chance(1, 4) ? -1 : 1);
		case 4: return c.pick<Real>({0, 1, 0.5L, -1, 1e9L, 255, 1 / 255.0L});
		default: return (Real)c.i64();
	}
}
PBT_PROP(colors, 40000, 1000000) {
	Color a = color(c), b = color(c);
	Real f = factor(c);
	PBT_NOTE << show(a) << " " << show(b) << " " << f << "\n";
	bool same = a.r == b.r && a.g == b.g && a.b == b.b;
	if (!same) c.nontrivial();
	PBT_CHECK((a == b) == same && (a != b) == !same, "comparison of ", show(a), " and ", show(b));
	if (c.chance(1, 50)) {
		struct { Color x; int r, g, b; } named[] = {{BLACK, 0, 0, 0}, {DARKGRAY, 0x40, 0x40, 0x40}, {GRAY, 0x80, 0x80, 0x80}, {LIGHTGRAY, 0xC0, 0xC0, 0xC0}, {WHITE, 255, 255, 255},
			{RED, 255, 0, 0}, {GREEN, 0, 255, 0}, {BLUE, 0, 0, 255}, {YELLOW, 255, 255, 0}, {MAGENTA, 255, 0, 255}, {CYAN, 0, 255, 255}};
		for (auto& n : named) PBT_CHECK(n.x.r == n.r && n.x.g == n.g && n.x.b == n.b, "named colour ", show(n.x), " is not ", n.r, " ", n.g, " ", n.b);
	}
	Color sum = a + b, dif = a - b, mul = a * f, lum = f * a;
	for (int i = 0; i < 3; i++) {
		PBT_CHECK(at(sum, i) == std::min(255, at(a, i) + at(b, i)), show(a), " + ", show(b), " is ", show(sum));
		PBT_CHECK(at(dif, i) == std::max(0, at(a, i) - at(b, i)), show(a), " - ", show(b), " is ", show(dif));
		Real exact = std::clamp(at(a, i) * f, (Real)0, (Real)255);
		PBT_CHECK(std::abs(at(mul, i) - exact) <= 0.5L, show(a), " * ", f, " is ", show(mul));
		PBT_CHECK(std::as_const(a)[(size_t)i] == at(a, i) && Color(a)[(size_t)i] == at(a, i), "index ", i, " of ", show(a));
	}
	PBT_CHECK(mul == lum, show(a), " * ", f, " is ", show(mul), " or ", show(lum));
	Color t = a; t += b; PBT_CHECK(t == sum, "+="); (t = a) -= b; PBT_CHECK(t == dif, "-="); (t = a) *= f; PBT_CHECK(t == mul, "*=");
	t = a; size_t i = (size_t)c.below(3); uint8_t v = channel(c); t[i] = v;
	for (int k = 0; k < 3; k++) PBT_CHECK(at(t, k) == ((size_t)k == i ? v : at(a, k)), "writing index ", i, " of ", show(a), " gives ", show(t));
	for (auto bad : {(size_t)3 + (size_t)c.below(9), (size_t)-1}) {
		int thrown = 0;
		try { (void)t[bad]; } catch (std::out_of_range&) { thrown++; }
		try { (void)std::as_const(t)[bad]; } catch (std::out_of_range&) { thrown++; }
		try { (void)Color(t)[bad]; } catch (std::out_of_range&) { thrown++; }
		PBT_CHECK(thrown == 3, "index ", bad, " is accepted");
	}
	uint32_t rgb = (uint32_t)c.below(1ull << 32);
	Color x(rgb), z(a.r, a.g, a.b), g(a.r), d;
	PBT_CHECK(x.r == (rgb >> 16 & 255) && x.g == (rgb >> 8 & 255) && x.b == (rgb & 255), "Color(", rgb, ") is ", show(x));
	PBT_CHECK(z == a && g.r == a.r && g.g == a.r && g.b == a.r && d == BLACK && at(d, 0) + at(d, 1) + at(d, 2) == 0, "constructors");
	Real l = c.coin() ? (Real)c.below(1001) / 1000 : c.pick<Real>({0, 1, 0.5L});
	Color r = lerp(a, b, l);
	for (int k = 0; k < 3; k++) PBT_CHECK(std::abs(at(r, k) - (at(a, k) * l + at(b, k) * (1 - l))) <= 1 + 1e-9L, "lerp ", l, " of ", show(a), " and ", show(b), " is ", show(r));
	if (l == 1) PBT_CHECK(r == a, "lerp 1"); if (l == 0) PBT_CHECK(r == b, "lerp 0");
	std::ostringstream os; os << a << " " << 30 << " " << b;
	PBT_CHECK(os.str() == hexColor(a) + " 30 " + hexColor(b), "printed colors: ", os.str());
}
PBT_PROP(arithmetic, 10000, 200000) {
	Picture q(c);
	Real x = q.coord(), y = q.coord(), w = q.coord(), h = q.coord(), u = q.coord(), v = q.coord();
	if (x != y && w != h) c.nontrivial();
	PBT_NOTE << x << " " << y << " " << w << " " << h << " " << u << " " << v << "\n";
	Point p(x, y); Dimension d(w, h), e(u, v);
	auto is = [](auto&& o, Real a, Real b) { if constexpr (std::is_same_v<std::decay_t<decltype(o)>, Point>) return o.x == a && o.y == b; else return o.width == a && o.height == b; };
	PBT_CHECK(is(p + d, x + w, y + h) && is(p - d, x - w, y - h) && is(d + e, w + u, h + v) && is(d - e, w - u, h - v), "sum or difference");
	Point s = p; Dimension t = d;
	PBT_CHECK(is(s += d, x + w, y + h) && is(s, x + w, y + h), "+="); s = p; PBT_CHECK(is(s -= d, x - w, y - h) && is(s, x - w, y - h), "-=");
	PBT_CHECK(is(t += e, w + u, h + v) && is(t, w + u, h + v), "+="); t = d; PBT_CHECK(is(t -= e, w - u, h - v) && is(t, w - u, h - v), "-=");
	PBT_CHECK(is(p, x, y) && is(d, w, h), "operands changed");
	PBT_CHECK(flipY(y) == -y && flipY(y, h) == -(y + h), "flipY");
}
