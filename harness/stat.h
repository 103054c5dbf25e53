// Statistics with explicit error bounds for distribution checks
#pragma once
#include "pbt.h"
#include <cmath>
#include <map>
namespace stat {
static const double ALPHA = 1e-12; // probability of a false alarm per test
// regularised upper incomplete gamma function Q(a, x)
inline double gammaQ(double a, double x) {
	if (x <= 0) return 1;
	if (x < a + 1) {
		double sum = 1 / a, del = sum, ap = a;
		for (int i = 0; i < 100000; i++) { del *= x / ++ap; sum += del; if (std::fabs(del) < std::fabs(sum) * 1e-16) break; }
		return 1 - sum * std::exp(-x + a * std::log(x) - std::lgamma(a));
	}
	double b = x + 1 - a, cc = 1e300, d = 1 / b, h = d;
	for (int i = 1; i < 100000; i++) {
		double an = -i * (i - a);
		b += 2;
		d = an * d + b; if (std::fabs(d) < 1e-300) d = 1e-300;
		cc = b + an / cc; if (std::fabs(cc) < 1e-300) cc = 1e-300;
		d = 1 / d; double del = d * cc; h *= del;
		if (std::fabs(del - 1) < 1e-16) break;
	}
	return std::exp(-x + a * std::log(x) - std::lgamma(a)) * h;
}
// p-value of observed counts against expected probabilities; cells with small
// expectation are merged so that the chi-square approximation is sound
struct Chi { double p = 1, chi = 0; int df = 0; };
inline Chi chi2(const std::vector<double>& obs, const std::vector<double>& prob, double n, double minExp = 60) {
	Chi r;
	double o = 0, e = 0, rest = 1;
	std::vector<std::pair<double, double>> cells;
	for (size_t i = 0; i < prob.size(); i++) {
		o += obs[i]; e += prob[i] * n; rest -= prob[i];
		if (e >= minExp) { cells.emplace_back(o, e); o = e = 0; }
	}
	if (e > 0 || o > 0) { if (cells.empty()) cells.emplace_back(o, e); else { cells.back().first += o; cells.back().second += e; } }
	for (auto [a, b] : cells) r.chi += (a - b) * (a - b) / b;
	r.df = (int)cells.size() - 1;
	r.p = r.df > 0 ? gammaQ(r.df / 2.0, r.chi / 2) : 1;
	return r;
}
// Kolmogorov-Smirnov: bound on the p-value (Massart)
inline double ks(std::vector<double> u) { // values of the distribution function
	std::sort(u.begin(), u.end());
	double d = 0, n = (double)u.size();
	for (size_t i = 0; i < u.size(); i++) d = std::max({d, (double)(i + 1) / n - u[i], u[i] - (double)i / n});
	return 2 * std::exp(-2 * n * d * d);
}
}
