// C03 (in-process part): the tolerance rule itself, exact at its boundary
#include "inputmodel.h"
using namespace im;
using ValidateBase::floatEqual; using ValidateBase::floatLess; using ValidateBase::floatGreater;

static Real pow2(Integer k) { return std::ldexp(1.0L, (int)k); }
static const Real INF = std::numeric_limits<Real>::infinity(), NOT = std::numeric_limits<Real>::quiet_NaN();

// numbers with few significant bits: all sums, differences and products with powers of two below are exact
static Real dyadic(pbt::Ctx& c) {
	Integer m = c.weighted({1, 6}) == 0 ? 0 : c.range(-(1 << 20), 1 << 20);
	return (Real)m * pow2(c.range(-30, 10));
}
struct Pair { Real g, e, ta, tr; bool equal; };
// a pair at, just inside or just outside of one of its tolerances
static Pair boundary(pbt::Ctx& c) {
	Pair p;
	p.e = dyadic(c);
	p.ta = c.chance(1, 6) ? 0 : pow2(c.range(-40, 6));
	p.tr = c.chance(1, 6) ? 0 : pow2(c.range(-30, 2));
	Real tol = c.coin() ? p.ta : p.tr * std::abs(p.e);
	if (c.chance(1, 6)) tol = std::max(p.ta, p.tr * std::abs(p.e));
	Integer step = c.range(-2, 2);
	Real d = tol + (Real)step * tol * pow2(-8);
	if (tol == 0 && c.coin()) d = pow2(c.range(-60, -20));
	p.g = c.coin() ? p.e + d : p.e - d;
	Real diff = std::abs(p.g - p.e); // exact
	p.equal = diff <= p.ta || diff <= p.tr * std::abs(p.e);
	return p;
}
PBT_PROP(exactBoundary, 400000, 12000000) {
	Pair p = boundary(c);
	if (p.e + (p.g - p.e) != p.g) c.discard();
	PBT_NOTE << "given " << (double)p.g << " expected " << (double)p.e << " (" << Model::R(p.g) << ", " << Model::R(p.e) << ") absolute tolerance " << (double)p.ta << " relative " << (double)p.tr << "\n";
	if (p.g != p.e) c.nontrivial();
	c.label(p.equal ? "equal" : p.g < p.e ? "less" : "greater");
	PBT_CHECK(floatEqual(p.g, p.e, p.ta, p.tr) == p.equal, "floatEqual is ", !p.equal);
	PBT_CHECK(floatLess(p.g, p.e, p.ta, p.tr) == (p.equal || p.g <= p.e), "floatLess is wrong");
	PBT_CHECK(floatGreater(p.g, p.e, p.ta, p.tr) == (p.equal || p.g >= p.e), "floatGreater is wrong");
}
PBT_PROP(specialValues, 200000, 3000000) {
	auto any = [&]() -> Real {
		switch (c.weighted({3, 3, 2, 2})) {
			case 0: return c.pick<Real>({INF, -INF, NOT, -NOT, 0, -0.0L});
			case 1: return (c.coin() ? 1 : -1) * std::ldexp(1.0L + (Real)c.below(1000) / 1000, (int)c.range(-16440, 16383));
			case 2: return c.pick<Real>({std::numeric_limits<Real>::max(), std::numeric_limits<Real>::min(), std::numeric_limits<Real>::denorm_min(), 1, -1, std::numeric_limits<double>::max(), -std::numeric_limits<Real>::max()});
			default: return dyadic(c);
		}
	};
	Real g = any(), e = c.chance(1, 3) ? g : any();
	if (c.chance(1, 4)) e = -e;
	Real ta = c.pick<Real>({0, 1e-9L, 1e-6L, 0.5L, 1000}), tr = c.pick<Real>({0, 1e-9L, 1e-6L, 0.5L, 1});
	PBT_NOTE << "given " << Model::R(g) << " expected " << Model::R(e) << " absolute tolerance " << (double)ta << " relative " << (double)tr << "\n";
	bool anyTol = c.chance(1, 6);
	if (anyTol) (c.coin() ? ta : tr) = INF; // every finite difference is allowed
	bool finite = std::isfinite(g) && std::isfinite(e);
	int eq = !anyTol || !finite ? closeTo(g, e, anyTol ? 0 : ta, anyTol ? 0 : tr) : ta == INF || e != 0 || g == 0 ? 1 : -1;
	if (anyTol) c.label("infinite tolerance");
	bool inf = !std::isfinite(g) || !std::isfinite(e);
	if (inf) c.nontrivial();
	c.label(eq < 0 ? "undecided" : inf ? "not finite" : eq ? "equal" : "different");
	if (eq < 0) return;
	PBT_CHECK(floatEqual(g, e, ta, tr) == (eq == 1), "floatEqual is ", !eq);
	PBT_CHECK(floatLess(g, e, ta, tr) == (eq == 1 || g <= e), "floatLess is wrong");
	PBT_CHECK(floatGreater(g, e, ta, tr) == (eq == 1 || g >= e), "floatGreater is wrong");
}
PBT_PROP(overloads, 100000, 2000000) { // missing tolerances are those of the program (here: the default)
	Real e = c.chance(1, 5) ? 0 : (Real)c.range(-1000, 1000) / c.pick<Real>({1, 7, 1000});
	Real g = e + c.pick<Real>({1e-9L, H_EPS, 1e-3L, 0.5L}) * c.pick<Real>({0, 0.5L, 0.9L, 1.1L, 2, -0.5L, -0.9L, -1.1L}) * (c.coin() ? 1 : std::abs(e));
	Real ta = c.pick<Real>({0, 1e-9L, 1e-3L, 0.5L});
	PBT_NOTE << "given " << Model::R(g) << " expected " << Model::R(e) << " absolute tolerance " << (double)ta << "\n";
	int one = closeTo(g, e, ta, H_EPS), none = closeTo(g, e, H_EPS, H_EPS);
	c.nontrivial();
	if (none >= 0) {
		PBT_CHECK(floatEqual(g, e) == (none == 1), "floatEqual without tolerances");
		PBT_CHECK(floatLess(g, e) == (none == 1 || g <= e), "floatLess without tolerances");
		PBT_CHECK(floatGreater(g, e) == (none == 1 || g >= e), "floatGreater without tolerances");
	}
	if (one >= 0) {
		PBT_CHECK(floatEqual(g, e, ta) == (one == 1), "floatEqual with an absolute tolerance");
		PBT_CHECK(floatLess(g, e, ta) == (one == 1 || g <= e), "floatLess with an absolute tolerance");
		PBT_CHECK(floatGreater(g, e, ta) == (one == 1 || g >= e), "floatGreater with an absolute tolerance");
	}
}
PBT_PROP(streamBoundary, 60000, 1500000) { // the reading calls at the exact boundary
	Pair p = boundary(c);
	if (p.e + (p.g - p.e) != p.g) c.discard();
	Real g = p.g;
	char buf[200];
	snprintf(buf, sizeof buf, "%.100Lf", g); // exact
	if (std::strtold(buf, nullptr) != g) c.discard();
	std::string tok = buf;
	if (tok == "-0" || g == 0) tok = "0";
	int mode = (int)c.below(3);
	Real lo, hi;
	bool ok;
	if (mode == 0) { ok = p.equal; lo = hi = p.e; }
	else {
		Real width = pow2(c.range(-5, 5));
		lo = mode == 1 ? p.e : p.e - width; hi = mode == 1 ? p.e + width : p.e;
		Real other = mode == 1 ? hi : lo, d = std::abs(g - other);
		ok = p.equal || d <= p.ta || d <= p.tr * std::abs(other) || (lo <= g && g < hi);
	}
	PBT_NOTE << "token " << tok << (mode == 0 ? " expected " : " range ") << Model::R(lo) << " " << Model::R(hi) << " absolute tolerance " << Model::R(p.ta) << " relative " << Model::R(p.tr) << "\n";
	c.label(ok ? "accepted" : "refused");
	if (g != p.e) c.nontrivial();
	std::istringstream is(tok);
	std::ostringstream msg;
	OutputStream out(msg);
	InputStream s(is, c.coin(), c.coin(), out, Verdicts::WA, p.ta, p.tr);
	Real got = g;
	auto o = outcome([&] { if (mode == 0) s.expectReal(lo); else got = s.real(lo, hi); });
	PBT_CHECK((o.end == End::Value) == ok, ok ? "refused" : "accepted", " the value, message ", pbt::quote(msg.str()), o.what);
	PBT_CHECK(o.end == End::Value || (o.end == End::Exit && o.code == 43), "ended in another way");
	PBT_CHECK(got == g, "returned ", Model::R(got));
}
