// How the harnesses include the library under test: the verdict exit is turned
// into an exception (a documented customisation point, used by the repository's
// own tests as well) so that millions of cases run in one process.
#pragma once
#include "pbt.h"
#include <bits/stdc++.h>
#include <sstream>
#if defined(__clang__) && !defined(DOUBLE_FALLBACK)
#define DOUBLE_FALLBACK
#endif
// what the harness expects of the compile-time settings (not read from the library)
#ifdef VH_SETTINGS
namespace Settings {
	constexpr int DEFAULT_PRECISION = 3;
	constexpr long double DEFAULT_EPS = 0.015625L;
	constexpr bool DEFAULT_CASE_LOWER = false;
	constexpr std::int64_t LARGE = 0x3FFF'0000'0000'0000;
#ifdef VH_REAL_EXIT
	[[noreturn]] void exitVerdict(int exitCode) { std::exit(exitCode + 100); }
#endif
}
constexpr int H_CODE(int verdict) { return verdict + 100; }
constexpr std::int64_t H_LARGE = 0x3FFF'0000'0000'0000;
constexpr int H_PREC = 3;
constexpr long double H_EPS = 0.015625L;
constexpr bool H_LOWER = false;
#else
constexpr int H_CODE(int verdict) { return verdict; }
constexpr std::int64_t H_LARGE = 0x3FFF'FFFF'FFFF'FFFF;
constexpr int H_PREC = 6;
constexpr long double H_EPS = 1e-6L;
constexpr bool H_LOWER = true;
#endif
struct ExitCode { int code; };
#ifndef VH_REAL_EXIT
namespace Settings {
	[[noreturn]] void exitVerdict(int exitCode) { throw ExitCode{exitCode}; }
#ifdef VH_ENGINE
	using RandomEngine = VH_ENGINE;
#endif
}
#endif
#include "validate.h"
#ifndef VH_NO_INIT
// same convention as the repository's tests: a program that never calls an
// init() marks the library as initialised itself
static const bool vhInitialized = (details::initialized(true), true);
#endif

// Runs f and reports what happened: value, domain error (which exception), verdict exit
enum class End { Value, Exception, Exit };
struct Outcome {
	End end = End::Value;
	int code = 0;
	std::string what;
};
template<typename F> Outcome outcome(F&& f) {
	Outcome o;
	try { f(); }
	catch (ExitCode& e) { o.end = End::Exit; o.code = e.code; }
	catch (pbt::Violation&) { throw; }
	catch (pbt::Discard&) { throw; }
	catch (std::exception& e) { o.end = End::Exception; o.what = e.what(); }
	return o;
}
