From c60550fe861d242a49c51e9aa3962d6e0c1e5fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 01/57] fix: powMod(x, 0, 1) returned 1, which is no residue
 modulo 1

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index cdf5cc2..0924f45 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1018,7 +1018,7 @@ namespace details {
 	}
 
 	constexpr UInteger powMod(UInteger base, UInteger exp, UInteger mod) {
-		UInteger res = 1;
+		UInteger res = 1 % mod;
 		if (mod <= 0x1'0000'0000) {
 			while (exp > 0) {
 				if (exp & 1) res = (base * res) % mod;
-- 
2.43.0


From a2476caf9e850916077b17853a7aee3608840567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 02/57] fix: multInv() reported invertible negative numbers as
 not invertible

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 0924f45..9de9e7d 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1078,7 +1078,7 @@ constexpr Integer multInv(Integer n, Integer mod) {
 	judgeAssert<std::domain_error>(mod > 0, "multInv(): mod must be positive!");
 	Integer x = 0;
 	Integer y = 0;
-	Integer g = details::extendedEuclid(n, mod, x, y);
+	Integer g = details::extendedEuclid(applyMod(n, mod), mod, x, y);
 	if (g != 1) return -1;
 	else return applyMod(x, mod);
 }
-- 
2.43.0


From a759778b342893be66e7ea4c4ad4d52cd92131e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 03/57] fix: Random::prime(lower, 2) returned 2, which is
 outside of the range

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 9de9e7d..71cd3d3 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1592,7 +1592,7 @@ namespace Random {
 		if (sampleL < sampleU) {
 			for (Integer i = 0; i < details::PRIME_TRIALS and i < 4 * (upper - lower); i++) {
 				Integer res = std::max<Integer>(2, 2*integer(sampleL, sampleU) | 1);
-				if (isPrime(res)) return res;
+				if (res < upper and isPrime(res)) return res;
 			}
 		}
 		judgeAssert<std::domain_error>(false, "Random::prime(): range contains no primes?");
-- 
2.43.0


From c5b9b37b236c0561ec55b76a2fe730562cdb852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 04/57] fix: Random::prime() found no primes in huge ranges
 because 4 * (upper - lower) overflowed

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 71cd3d3..e79ebb5 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1590,7 +1590,7 @@ namespace Random {
 		Integer sampleL = lower <= 2 ? 0 : (lower / 2);
 		Integer sampleU = upper / 2;
 		if (sampleL < sampleU) {
-			for (Integer i = 0; i < details::PRIME_TRIALS and i < 4 * (upper - lower); i++) {
+			for (Integer i = 0; i < details::PRIME_TRIALS and static_cast<UInteger>(i / 4) < static_cast<UInteger>(upper) - static_cast<UInteger>(lower); i++) {
 				Integer res = std::max<Integer>(2, 2*integer(sampleL, sampleU) | 1);
 				if (res < upper and isPrime(res)) return res;
 			}
-- 
2.43.0


From 501fa9460f3a53026b50a8de41659e3b6cfda12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 05/57] fix: primes() wrote out of bounds for ranges close to
 2^63

---
 src/validate.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index e79ebb5..4acdd08 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1126,9 +1126,10 @@ std::vector<Integer> primes(Integer lower, Integer upper) {
 			for (Integer j = i * i; j < count; j += 2 * i) {
 				notPrime[j / 2] = true;
 			}
-			Integer lowest = lower - (lower % (2*i)) + i;
-			if (lowest < lower) lowest += 2*i;
-			for (Integer j = std::max(i * i, lowest); j < upper; j += 2 * i) {
+			// unsigned, these values can exceed the range of Integer
+			UInteger lowest = static_cast<UInteger>(lower - (lower % (2*i))) + i;
+			if (lowest < static_cast<UInteger>(lower)) lowest += 2*i;
+			for (UInteger j = std::max<UInteger>(i * i, lowest); j < static_cast<UInteger>(upper); j += 2 * i) {
 				notPrimeSegment[(j - lower) / 2] = true;
 			}
 		}
-- 
2.43.0


From 4aa2b7cab63744ac778d1eb9622c6c7427d5c26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 06/57] fix: allAdjacent(container, predicate) checked that no
 adjacent entries satisfy the predicate

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 4acdd08..5e66c8f 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -630,7 +630,7 @@ constexpr boolean<Integer> allAdjacent(RandomIt first, RandomIt last, BinaryPred
 }
 template<typename C, typename BinaryPredicate>
 constexpr boolean<Integer> allAdjacent(const C& c, BinaryPredicate p) {
-	return noneAdjacent(std::begin(c), std::end(c), p);
+	return allAdjacent(std::begin(c), std::end(c), p);
 }
 
 template<typename RandomIt>
-- 
2.43.0


From 5717200980fc1c1dafde2e598c6ef56bd9894a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 07/57] fix: isPerm() accessed memory out of bounds for values
 far away from a negative offset

---
 src/validate.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 5e66c8f..61dfc91 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -564,10 +564,12 @@ auto isPerm(RandomIt first, RandomIt last, typename std::iterator_traits<RandomI
 	std::vector<bool> seen(count, false);
 	for (; first != last; first++) {
 		const T& x = *first;
-		if (x < offset or x - offset >= count or seen[x - offset]) {
+		// unsigned, x - offset can exceed the range of T
+		UInteger pos = static_cast<UInteger>(x) - static_cast<UInteger>(offset);
+		if (x < offset or pos >= static_cast<UInteger>(count) or seen[pos]) {
 			return boolean<T>(false, x);
 		}
-		seen[x - offset] = true;
+		seen[pos] = true;
 	}
 	return boolean<T>(true);
 }
-- 
2.43.0


From 09f505162d4619722cf46b25765992dcd8069d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 08/57] fix: isLower(string) did not return the documented
 witness

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 61dfc91..da169e3 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -747,9 +747,9 @@ void toDefaultCase(std::string& s) {
 	return toUpper(s);
 }
 
-constexpr bool isLower(std::string_view s) {
-	for (char c : s) if (!isLower(c)) return false;
-	return true;
+constexpr boolean<char> isLower(std::string_view s) {
+	for (char c : s) if (!isLower(c)) return boolean<char>(false, c);
+	return boolean<char>(true);
 }
 
 constexpr boolean<char> isUpper(std::string_view s) {
-- 
2.43.0


From 7018c0c692e0d75bd8e3345bcad31f31198706d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 09/57] fix: expectReal() failed if the value is as expected
 and accepted every other value

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index da169e3..d19fa49 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2654,7 +2654,7 @@ public:
 
 	void expectReal(Real expected) {
 		Real seen = real();
-		if (details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
+		if (!details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
 			*out << "Expected " << expected << " but got " << seen << "!";
 			if (std::isfinite(seen) and std::isfinite(expected)) {
 				Real absDiff = std::abs(seen-expected);
-- 
2.43.0


From 2dc09bff4a4fcd96354a866813a1701d00da575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 10/57] fix: realStrict() accepted numbers with leading zeros

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index d19fa49..cb600ea 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -140,7 +140,7 @@ constexpr std::string_view TEXT_ELLIPSIS                = "[...]";
 constexpr auto REGEX_OPTIONS                            = std::regex::nosubs | std::regex::optimize;
 inline const std::regex INTEGER_REGEX("0|-?[1-9][0-9]*", REGEX_OPTIONS);
 inline const std::regex REAL_REGEX("[+-]?(([0-9]*\\.[0-9]+)|([0-9]+\\.)|([0-9]+))([eE][+-]?[0-9]+)?", REGEX_OPTIONS);
-inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))\\.?[0-9]*", REGEX_OPTIONS);
+inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))(\\.[0-9]*)?", REGEX_OPTIONS);
 
 static_assert(2'000'000'000'000'000'000_int < LARGE / 2, "LARGE too small");
 static_assert(LARGE <= std::numeric_limits<Integer>::max() / 2, "LARGE too big");
-- 
2.43.0


From f2b96dccee88aee4158b2efd93699823a8ce2c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 11/57] fix: very long numeric tokens crashed integer(),
 real(), realStrict(), isInteger() and isReal() (regex recursion)

---
 src/validate.h | 63 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index cb600ea..2fd8149 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -977,17 +977,59 @@ namespace details {
 		return true;
 	}
 
+	// std::regex_match() needs stack memory linear in the length of the token
+	// and crashes for long tokens. Therefore, numbers are matched by hand.
+	constexpr std::size_t skipDigits(std::string_view s, std::size_t i) {
+		while (i < s.size() and isDigit(s[i])) i++;
+		return i;
+	}
+
+	// same as INTEGER_REGEX
+	constexpr bool isIntegerToken(std::string_view s) {
+		if (s == "0") return true;
+		std::size_t i = !s.empty() and s[0] == '-' ? 1 : 0;
+		return i < s.size() and s[i] != '0' and isDigit(s[i]) and skipDigits(s, i) == s.size();
+	}
+
+	// same as REAL_REGEX
+	constexpr bool isRealToken(std::string_view s) {
+		std::size_t begin = !s.empty() and (s[0] == '+' or s[0] == '-') ? 1 : 0;
+		std::size_t i = skipDigits(s, begin);
+		bool hasDigits = i > begin;
+		if (i < s.size() and s[i] == '.') {
+			begin = i + 1;
+			i = skipDigits(s, begin);
+			hasDigits |= i > begin;
+		}
+		if (!hasDigits) return false;
+		if (i < s.size() and (s[i] == 'e' or s[i] == 'E')) {
+			begin = i + 1;
+			if (begin < s.size() and (s[begin] == '+' or s[begin] == '-')) begin++;
+			i = skipDigits(s, begin);
+			if (i == begin) return false;
+		}
+		return i == s.size();
+	}
+
+	// same as STRICT_REAL_REGEX
+	constexpr bool isStrictRealToken(std::string_view s) {
+		std::size_t begin = !s.empty() and s[0] == '-' ? 1 : 0;
+		std::size_t i = skipDigits(s, begin);
+		if (i == begin or (s[begin] == '0' and i > begin + 1)) return false;
+		if (i < s.size() and s[i] == '.') i = skipDigits(s, i + 1);
+		return i == s.size();
+	}
 }
 
 boolean<Integer> isInteger(const std::string& s) {
-	if (!std::regex_match(s, INTEGER_REGEX)) return boolean<Integer>(false);
+	if (!details::isIntegerToken(s)) return boolean<Integer>(false);
 	Integer value = 0;
 	if (!details::parse<Integer>(s, value)) return boolean<Integer>(false);
 	return boolean<Integer>(true, value);
 }
 
 boolean<Real> isReal(const std::string& s) {
-	if (!std::regex_match(s, REAL_REGEX)) return boolean<Real>(false);
+	if (!details::isRealToken(s)) return boolean<Real>(false);
 	Real value = 0;
 	if (!details::parse<Real>(s, value)) return boolean<Real>(false);
 	return boolean<Real>(true, value);
@@ -2358,7 +2400,11 @@ public:
 
 private:
 	void check(const std::string& token, const std::regex& pattern) {
-		if (!std::regex_match(token, pattern)) {
+		check(token, std::regex_match(token, pattern));
+	}
+
+	void check(const std::string& token, bool matches) {
+		if (!matches) {
 			*out << "Token \"" << token << "\" does not match pattern!";
 			fail();
 		}
@@ -2473,7 +2519,9 @@ public:
 	}
 
 	Integer integer() {
-		return parse<Integer>(string(INTEGER_REGEX));
+		std::string t = string();
+		check(t, details::isIntegerToken(t));
+		return parse<Integer>(t);
 	}
 
 	Integer integer(Integer lower, Integer upper) {
@@ -2519,7 +2567,9 @@ public:
 	// this does not allow NaN or Inf!
 	// However, those should never be desired.
 	Real real() {
-		return parse<Real>(string(REAL_REGEX));
+		std::string t = string();
+		check(t, details::isRealToken(t));
+		return parse<Real>(t);
 	}
 
 	Real real(Real lower, Real upper) {// uses eps
@@ -2565,7 +2615,8 @@ public:
 	}
 
 	Real realStrict(Real lower, Real upper, Integer minDecimals, Integer maxDecimals) {// does not use eps
-		std::string t = string(STRICT_REAL_REGEX);
+		std::string t = string();
+		check(t, details::isStrictRealToken(t));
 		auto dot = t.find('.');
 		Integer decimals = dot == std::string::npos ? 0 : t.size() - dot - 1;
 		if (decimals < minDecimals or decimals >= maxDecimals) {
-- 
2.43.0


From a5d0d84029566d1d67a3e0c098eba14d404cded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 12/57] fix: floatAbsTol and floatRelTol had no effect on the
 streams of AnswerValidator, OutputValidator and Interactor

---
 src/validate.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 2fd8149..9bd6d5f 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2958,8 +2958,8 @@ namespace AnswerValidator {
 		ValidateBase::details::init(argc, argv);
 		juryOut = OutputStream(std::cout);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2981,9 +2981,9 @@ namespace OutputValidator {
 		juryOut = OutputStream(std::filesystem::path(arguments[3]) / JUDGE_MESSAGE, MESSAGE_MODE);
 		teamOut = OutputStream(std::filesystem::path(arguments[3]) / TEAM_MESSAGE, MESSAGE_MODE);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -3005,8 +3005,8 @@ namespace Interactor {
 		teamOut = OutputStream(std::filesystem::path(arguments[3]) / TEAM_MESSAGE, MESSAGE_MODE);
 		toTeam = OutputStream(std::cout);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 	}
 
 } // namespace Interactor
-- 
2.43.0


From 349004df153d15c835cf0ff534081c3bc7763400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 13/57] fix: a refused newline was reported in the line after
 it

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 9bd6d5f..9492c01 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2733,9 +2733,9 @@ private:
 					*in >> tmp;
 					buffer += tmp;
 				} else if (in->peek() == std::char_traits<char>::to_int_type(NEWLINE)) {
-					line++;
 					in->get();
 					if (in->tellg() < originalPos) {
+						line++;
 						buffer.clear();
 					} else {
 						buffer += ' ';
-- 
2.43.0


From 50d71a96711f5c5fbdfc670f33a89c756d3a70da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 14/57] fix: no position was reported for a refused token at
 the very end of the input

---
 src/validate.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/validate.h b/src/validate.h
index 9492c01..d2c5b16 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2731,6 +2731,7 @@ private:
 				if (std::isgraph(in->peek())) {
 					std::string tmp;
 					*in >> tmp;
+					if (in->eof()) in->clear(); // the token may end with the input
 					buffer += tmp;
 				} else if (in->peek() == std::char_traits<char>::to_int_type(NEWLINE)) {
 					in->get();
-- 
2.43.0


From d17a529df78db6e2a2f057eee785f4920ff9cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 15/57] fix: the reported position of a refused token starting
 with unprintable bytes was behind these bytes

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index d2c5b16..7d1ccf6 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2728,7 +2728,7 @@ private:
 			bool extend = true;
 			while (*in and in->tellg() < originalPos) {
 				l = r = buffer.size();
-				if (std::isgraph(in->peek())) {
+				if (!std::isspace(in->peek())) {
 					std::string tmp;
 					*in >> tmp;
 					if (in->eof()) in->clear(); // the token may end with the input
-- 
2.43.0


From 324cd13cf5d107d827eabf14708aee4bdcc45a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 16/57] fix: parsing a number of an argument accepted two signs
 ("+-5")

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 7d1ccf6..45379ed 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -955,7 +955,7 @@ namespace details {
 	bool parse(std::string_view s, T& res) {
 		const char* begin = s.data();
 		const char* end = s.data() + s.size();
-		if (!s.empty() && s[0] == '+') begin++;
+		if (s.size() > 1 and s[0] == '+' and s[1] != '-') begin++;
 		auto [ptr, ec] = std::from_chars(begin, end, res);
 		return ptr == end and ec == std::errc();
 	}
-- 
2.43.0


From f95fc676d444f31ba53500757d65fafc67908e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 17/57] fix: with DOUBLE_FALLBACK a real argument could start
 with white space

---
 src/validate.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/validate.h b/src/validate.h
index 45379ed..b045739 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -963,6 +963,7 @@ namespace details {
 	template<>
 	bool parse(std::string_view s, Real& res) {
 		try {
+			if (!s.empty() and std::isspace(s[0])) return false;
 			std::size_t pos = 0;
 			res = std::stold(std::string(s), &pos);
 			return pos == s.size();
-- 
2.43.0


From 0c664e66459fe6cb6c279eb9acba5e1422ec6768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 18/57] fix: isConvex() accepted polygons whose boundary is
 traversed multiple times

---
 src/validate.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index b045739..74b508b 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1253,14 +1253,21 @@ template<typename RandomIt>
 constexpr bool isConvex(RandomIt first, RandomIt last) {
 	std::size_t n = details::assertBounds(first, last);
 	if (n < 3) return false;
+	auto isLeft = [&](std::size_t i) { // direction of the i-th edge, see details::left
+		const auto& a = first[i % n];
+		const auto& b = first[(i+1) % n];
+		return getX(a) == getX(b) ? getY(b) < getY(a) : getX(b) < getX(a);
+	};
 	bool hasArea = false;
+	std::size_t halfTurns = 0;
 	for (std::size_t i = 0; i < n; i++) {
 		if (first[i] == first[(i+1) % n]) return false;
 		if (cross(first[0], first[i], first[(i+1) % n]) < 0) return false;
 		if (cross(first[i], first[(i+1) % n], first[(i+2) % n]) < 0) return false;
 		hasArea |= cross(first[i], first[(i+1) % n], first[(i+2) % n]) != 0;
+		halfTurns += isLeft(i) != isLeft(i+1);
 	}
-	return hasArea;
+	return hasArea and halfTurns == 2; // more half turns: the boundary is traversed multiple times
 }
 template<typename C>
 constexpr bool isConvex(const C& c) {
-- 
2.43.0


From 387bdc33b9a2eef68844b3c6d6a4aa5bda34c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 19/57] fix: nonCollinearPoints() could give multiple collinear
 or equal points (singular rotation)

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 74b508b..46240bf 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1937,7 +1937,7 @@ namespace Random {
 		Integer p = prime(dim - 1, 2*dim + 2);
 		Integer rotA = 0;
 		Integer rotB = 0;
-		while (rotA == 0 and rotB == 0) {
+		while ((rotA * rotA + rotB * rotB) % p == 0) { // must be invertible modulo p
 			rotA = integer(0, p);
 			rotB = integer(0, p);
 		}
-- 
2.43.0


From 51c40472e49841eaf41614364bbc585e9841c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 20/57] fix: nonCollinearPoints() chose a prime that does not
 fit into the requested square and raised an error

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 46240bf..920fb9c 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1934,7 +1934,7 @@ namespace Random {
 		judgeAssert<std::invalid_argument>(dim <= 0x1FFF'FFFF, "Random::nonCollinearPoints(): dim too large!");
 		judgeAssert<std::invalid_argument>(n >= 0, "Random::nonCollinearPoints(): dim must be non negative!");
 		judgeAssert<std::invalid_argument>(dim > n, "Random::nonCollinearPoints(): dim too small!");
-		Integer p = prime(dim - 1, 2*dim + 2);
+		Integer p = prime(dim - 1, 2*dim); // p <= 2*dim - 1
 		Integer rotA = 0;
 		Integer rotB = 0;
 		while ((rotA * rotA + rotB * rotB) % p == 0) { // must be invertible modulo p
@@ -1946,8 +1946,8 @@ namespace Random {
 			integer(0, p),
 			integer(0, p),
 		};
-		Integer dx = integer(-dim + 1, dim - p);
-		Integer dy = integer(-dim + 1, dim - p);
+		Integer dx = integer(-dim + 1, dim - p + 1);
+		Integer dy = integer(-dim + 1, dim - p + 1);
 
 		auto xs = distinct(n, p);
 		std::vector<Point> res;
-- 
2.43.0


From a714eafb146296050e0f3b1b062839c73d144313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 21/57] fix: Random::convex() could give collinear points

---
 src/validate.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/validate.h b/src/validate.h
index 920fb9c..a10c9fc 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1907,6 +1907,7 @@ namespace Random {
 			for (std::size_t i = 0; i < dirs.size(); i++) {
 				dirs[i] = {x[i], y[i]};
 			}
+			if (std::all_of(dirs.begin(), dirs.end(), [&](const Point& d){return cross(dirs[0], d) == 0;})) continue;
 			::details::cyclicSort(dirs);
 
 			std::vector<Point> res = {{0, 0}};
-- 
2.43.0


From c5fa21aed0af7731d040581486dc984c7afedfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 22/57] fix: isSimple() accepted polygons whose consecutive
 edges overlap

---
 src/validate.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/validate.h b/src/validate.h
index a10c9fc..e8c1dc1 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1322,6 +1322,9 @@ bool isSimple(RandomIt first, RandomIt last) {
 		bool swap = false;
 		Point a = first[i];
 		Point b = first[(i+1) % n];
+		Point c = first[(i+2) % n];
+		// consecutive edges must not overlap
+		if (cross(a, b, c) == 0 and (getX(a) - getX(b)) * (getX(c) - getX(b)) + (getY(a) - getY(b)) * (getY(c) - getY(b)) >= 0) return false;
 		if (getX(a) > getX(b)) swap = true;
 		if (getX(a) == getX(b) and getY(a) > getY(b)) swap = true;
 		if (swap) std::swap(a, b);
-- 
2.43.0


From bdaa20e59b930c94ae5d5a25f91897089b268430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 23/57] fix: Random::real() could return 1

---
 src/validate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index e8c1dc1..69b1be6 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1455,7 +1455,8 @@ namespace Random {
 			//count trailing (or leading) zeroes in x
 			exponent -= static_cast<int>(std::bitset<64>(~x & (x-1)).count());
 		} while (x == 0);
-		return std::ldexp(mantissa, exponent);
+		Real res = std::ldexp(mantissa, exponent);
+		return res < 1.0_real ? res : real(); // the mantissa might get rounded up
 	}
 	Real real(Real upper) {// in [0, upper)
 		judgeAssert<std::domain_error>(std::isfinite(upper), "Random::real(): Upper must be finite!");
-- 
2.43.0


From 333a66a87f70a5662dd50489bcc0eae116a2af92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 24/57] fix: Random::normal() used the square root of the
 standard deviation

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 69b1be6..b4ae3f7 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1489,7 +1489,7 @@ namespace Random {
 		Real u1 = real();
 		Real u2 = real();
 		Real res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-		return std::sqrt(stddev) * res + mean;
+		return stddev * res + mean;
 	}
 	Real normal(Real lower, Real upper, Real mean, Real stddev) {// in [lower, upper)
 		judgeAssert<std::domain_error>(!std::isnan(lower), "Random::normal(): Lower must not be NaN!");
@@ -1503,10 +1503,10 @@ namespace Random {
 			// Box-Muller-Methode
 			// https://en.wikipedia.org/wiki/Box%E2%80%93Muller_transform
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::sin(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 		}
 	}
-- 
2.43.0


From 2c3b52b2c3189df840e6b3cc5630612c583f7d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 25/57] fix: Random::geometric() accepted p = 0 for which no
 number exists

---
 src/validate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index b4ae3f7..188c0bc 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1527,12 +1527,12 @@ namespace Random {
 	}
 
 	Integer geometric(Real p) {// theoretically in [0, inf)
-		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
+		judgeAssert<std::domain_error>(0.0_real < p and p < 1.0_real, "Random::geometric(): p must be in (0,1)!");
 		return std::llround(std::floor(std::log(real()) / std::log1p(-p)));
 	}
 	Integer geometric(Integer lower, Integer upper, Real p) {// in [lower, upper)
 		judgeAssert<std::invalid_argument>(lower < upper, "Random::geometric(): Lower must be less than upper!");
-		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
+		judgeAssert<std::domain_error>(0.0_real < p and p < 1.0_real, "Random::geometric(): p must be in (0,1)!");
 		while (true) {
 			// https://en.wikipedia.org/wiki/Geometric_distribution
 			// "The exponential distribution is the continuous analogue of the geometric distribution[...]"
-- 
2.43.0


From 0e27db1f689b1cdc5bbaa64684475ab698c89e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 26/57] fix: Random::binomial() overflowed for tiny
 probabilities and returned wrong numbers

---
 src/validate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 188c0bc..4d8f5b2 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1554,8 +1554,9 @@ namespace Random {
 			Real lg = std::log1p(-p);
 			if (lg >= 0) return swap ? n : 0;
 			do {
-				y += std::llround(std::floor(std::log(real()) / lg)) + 1;
-				if (y > n) return swap ? n - res : res;
+				Real skip = std::floor(std::log(real()) / lg);
+				if (skip >= n - y) return swap ? n - res : res; // note that skip can be too large for an Integer
+				y += std::llround(skip) + 1;
 				res++;
 			} while (true);
 		} else {
-- 
2.43.0


From 36114e4d7c2babc1b171ec7ecbe4ba4e1fbaa720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 27/57] fix: Random::minimum() raised an error for ranges with
 more than 2^63 numbers

---
 src/validate.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 4d8f5b2..ac605f5 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1625,7 +1625,9 @@ namespace Random {
 	}
 
 	Integer minimum(Integer lower, Integer upper, Integer n) {// in [lower, upper)
-		return upper - 1 - maximum(0, upper - lower, n);
+		UInteger ul = static_cast<UInteger>(lower);
+		UInteger uu = static_cast<UInteger>(upper);
+		return static_cast<Integer>(ul + (uu - 1 - static_cast<UInteger>(maximum(lower, upper, n))));
 	}
 	Integer minimum(Integer upper, Integer n) {
 		return minimum(0, upper, n);
-- 
2.43.0


From fe6d444c51301d68fbb83b2600345ba3438b7e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 28/57] fix: Random::perm() ignored fix points that were given
 an even number of times

---
 src/validate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index ac605f5..e65d5a5 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1791,7 +1791,8 @@ namespace Random {
 		std::vector<Integer> res(count, -1);
 		for (Integer x : fix) {
 			judgeAssert<std::invalid_argument>(offset <= x and x < offset + count, "Random::perm(): fix point outside of permutation!");
-			std::swap(tmp[x - offset], res[x - offset]);
+			tmp[x - offset] = -1;
+			res[x - offset] = x - offset;
 		}
 		shuffle(tmp);
 		std::size_t i = 0;
-- 
2.43.0


From 8370745c0a43d7193149b915657e63a5c72436fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 29/57] fix: Random::perm() accessed memory out of bounds for
 non positive cycle lengths

---
 src/validate.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index e65d5a5..a1e6135 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1772,11 +1772,13 @@ namespace Random {
 	}
 
 	std::vector<Integer> perm(const std::vector<Integer>& cycles, Integer offset = 0) {
+		for (Integer length : cycles) {
+			judgeAssert<std::invalid_argument>(length > 0, "Random::perm(): Cycle lengths must be positive!");
+		}
 		auto p = perm(std::accumulate(cycles.begin(), cycles.end(), 0_int));
 		std::vector<Integer> res(p.size());
 		Integer tmp = 0;
 		for (std::size_t i = 0; i < cycles.size(); tmp += cycles[i], i++) {
-			judgeAssert<std::invalid_argument>(cycles[i] > 0, "Random::perm(): Cycle lengths must be positive!");
 			for (Integer j = tmp; j + 1 < tmp + cycles[i]; j++) {
 				res[p[j]] = p[j + 1] + offset;
 			}
-- 
2.43.0


From e5e2c39608668c005e089621409d3dbb1cac7133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 30/57] fix: Random::geometric() overflowed for tiny
 probabilities and returned wrong numbers

---
 src/validate.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index a1e6135..5bad516 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1526,20 +1526,21 @@ namespace Random {
 		}
 	}
 
-	Integer geometric(Real p) {// theoretically in [0, inf)
-		judgeAssert<std::domain_error>(0.0_real < p and p < 1.0_real, "Random::geometric(): p must be in (0,1)!");
-		return std::llround(std::floor(std::log(real()) / std::log1p(-p)));
-	}
 	Integer geometric(Integer lower, Integer upper, Real p) {// in [lower, upper)
 		judgeAssert<std::invalid_argument>(lower < upper, "Random::geometric(): Lower must be less than upper!");
 		judgeAssert<std::domain_error>(0.0_real < p and p < 1.0_real, "Random::geometric(): p must be in (0,1)!");
+		UInteger ul = static_cast<UInteger>(lower);
+		UInteger uu = static_cast<UInteger>(upper);
 		while (true) {
 			// https://en.wikipedia.org/wiki/Geometric_distribution
 			// "The exponential distribution is the continuous analogue of the geometric distribution[...]"
-			Integer res = lower + std::llround(std::floor(std::log(real()) / std::log1p(-p)));
-			if (res < upper) return res;
+			Real res = std::floor(std::log(real()) / std::log1p(-p)); // can be too large for an Integer
+			if (res < static_cast<Real>(uu - ul)) return static_cast<Integer>(ul + static_cast<UInteger>(res));
 		}
 	}
+	Integer geometric(Real p) {// theoretically in [0, inf)
+		return geometric(0, std::numeric_limits<Integer>::max(), p);
+	}
 
 	Integer binomial(Integer n, Real p) {// in [0, n]
 		judgeAssert<std::domain_error>(n >= 0, "Random::binomial(): n must be non negative!");
-- 
2.43.0


From edf64090aa4ebbb63ee83ef5ebf8871cb7d54085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 31/57] fix: Graph::range() lost edges of graphs whose smallest
 id is not 0 and did not compile without edge data

---
 src/graph_gen.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index e9d0259..f34deac 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -226,11 +226,9 @@ namespace GraphDetail {
 		Graph range(Integer from, Integer to) const {
 			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
 			Graph res(from, to);
-			from = std::max(static_cast<Integer>(0), from - minId);
-			to = std::min(nodeCount(), to - minId);
 			for (const auto& e : getEdges()) {
 				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, e.data);
+					res.addEdge(e.from, e.to, *e);
 				}
 			}
 			return res;
-- 
2.43.0


From 522040b3ec631bb552571a898623227117511333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 32/57] fix: cycle<E, true>() did not compile

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index f34deac..e952171 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -705,7 +705,7 @@ GraphDetail::GraphType<E, DIR> path(Integer edges) {
 // path 0-1-2-...-n-1-0 with vertices [0, n)
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E>(n-1);
+	auto p = path<E, DIR>(n-1);
 	p.addEdge(n - 1, 0);
 	return p;
 }
-- 
2.43.0


From 80a681d4d49f2aa3497995e420a678310e2c338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 33/57] fix: wheel() had a superfluous vertex and its outer
 vertices did not form a cycle

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index e952171..683f6a8 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -713,7 +713,7 @@ GraphDetail::GraphType<E, DIR> cycle(Integer n) {
 // wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
 template<typename E = NoData>
 Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(path<E>(outer).setMinId(1));
+	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
 }
 
 // lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-- 
2.43.0


From c0535753a5633b79343cafd1cea7a454e9aef28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 34/57] fix: Graph::transitiveClosure() did not compile

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 683f6a8..a23b9f6 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -522,7 +522,7 @@ namespace GraphDetail {
 			return res;
 		}
 
-		Graph& transitiveClosure() const {
+		Graph transitiveClosure() const {
 			return power(nodeCount());
 		}
 
-- 
2.43.0


From 222b4cb0ad08914888f382636e77dadf6161591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 35/57] fix: Graph::power() of undirected graphs contained
 every edge twice

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index a23b9f6..7eca7e1 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -513,7 +513,7 @@ namespace GraphDetail {
 				}
 				for (auto [c, d] : queue) {
 					seen[c] = false;
-					if (i != c) {
+					if (DIR ? i != c : i < c) {
 						res.emplaceEdge(i + minId, c + minId);
 					}
 				}
-- 
2.43.0


From c77c55dc7b05480f84cd5f104b57df68a5c86dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 36/57] fix: Graph::lineGraph() did not compile for graphs
 whose edge data is not an integer

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 7eca7e1..029b6a7 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -571,7 +571,7 @@ namespace GraphDetail {
 		}
 
 		Graph lineGraph() const {
-			Graph tmp(minId, minId + nodeCount());
+			GraphType<Integer, DIR> tmp(minId, minId + nodeCount());
 			Integer nextEdge = 0;
 			for (const auto& e : getEdges()) {
 				tmp.emplaceEdge(e.from, e.to, nextEdge);
-- 
2.43.0


From 63473dbab6a10f0175bda07a2985fa268490fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 37/57] fix: rado() missed the edges of the most significant
 bit

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 029b6a7..96c6268 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -792,7 +792,7 @@ template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> rado(Integer n) {
 	GraphDetail::GraphType<E, DIR> res(n);
 	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) < i; j++) {
+		for (Integer j = 0; (1 << j) <= i; j++) {
 			if ((i | (1 << j)) == i) {
 				res.addEdge(i, j);
 			}
-- 
2.43.0


From 08c6e5b3293fcf315b4dd2c9d2cd08d7546f0f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 38/57] fix: the edges of the directed rado() graph were
 reversed

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 96c6268..682443f 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -794,7 +794,7 @@ GraphDetail::GraphType<E, DIR> rado(Integer n) {
 	for (Integer i = 0; i < n; i++) {
 		for (Integer j = 0; (1 << j) <= i; j++) {
 			if ((i | (1 << j)) == i) {
-				res.addEdge(i, j);
+				res.addEdge(j, i);
 			}
 		}
 	}
-- 
2.43.0


From fe77efe0eda0282e35af8a496f885935c8fac9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 39/57] fix: randomGraph() raised an error for degree sequences
 without edges

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 682443f..c82711f 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -926,7 +926,7 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 		for (const auto& e : todo) pq.push(e);
 	}
 	// randomly flip edges O(m*log(n))
-	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
+	for (Integer i = 0; res.edgeCount() > 0 and i < averageFlips*res.nodeCount(); i++) {
 		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
 		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
 		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
-- 
2.43.0


From 4d6dc940e8b0ad9babc3d409d261869f0cbc32e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 40/57] fix: randomGraph() ignored negative degrees

---
 src/graph_gen.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index c82711f..429b062 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -905,6 +905,7 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 	// havel hakimi in O(m*log(n))
 	std::priority_queue<std::pair<Integer, Integer>> pq;
 	for (Integer i = 0; i < std::ssize(degree); i++) {
+		judgeAssert<std::invalid_argument>(degree[i] >= 0, "randomGraph(): Invalid degree sequence!");
 		if (degree[i] > 0) {
 			pq.emplace(degree[i], i);
 		}
-- 
2.43.0


From fa8211b2215e5f14adc8b2e139fbcec01036c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 41/57] fix: Graph::directed() only accepted temporary
 predicates

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 429b062..d6aae6d 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -453,7 +453,7 @@ namespace GraphDetail {
 		}
 
 		template<typename PRED>
-		GraphType<E, true> directed(const PRED&& p) const {
+		GraphType<E, true> directed(const PRED& p) const {
 			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
 			GraphType<E, true> res(minId, minId + nodeCount());
 			for (const auto& e : getEdges()) {
-- 
2.43.0


From 39d6b547e286dd745432c18ed3d12f99c75530eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 42/57] fix: directed randomGraph() contained edges with
 probability p/2 instead of p

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index d6aae6d..65c2bfb 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -881,7 +881,7 @@ GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
+	return randomGraph<E, DIR>(n, Random::binomial(DIR ? n * (n - 1) : n * (n - 1) / 2, p));
 }
 
 // generate a random graph with linear growing degrees
-- 
2.43.0


From 3778cdb1c6ad5e88da31aee23ce9f17ba52eb91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 43/57] fix: directed randomBipartite() contained edges with
 probability p/2 instead of p

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 65c2bfb..9c250a9 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -682,7 +682,7 @@ GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k)
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
+	return randomBipartite<E, DIR>(n, m, Random::binomial(DIR ? 2 * n * m : n * m, p));
 }
 
 // star with root = 0 and chilrden [1, leaves]
-- 
2.43.0


From a1ffc23d83823d528323f556ee7d0f4ec0490c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 44/57] fix: Graph::areConnected() was not const

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 23ce11e..88738db 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -138,7 +138,7 @@ public:
 	bool isForest() const {return forest;}
 	bool isTree() const {return components <= 1 and forest;}
 	bool isBipartite() const {return bipartite;}
-	bool areConnected(Integer a, Integer b) {return uf.connected(a - offset, b - offset);}
+	bool areConnected(Integer a, Integer b) const {return uf.connected(a - offset, b - offset);}
 };
 
 class DiGraph final : private details::BaseGraph  {
-- 
2.43.0


From c673b41df761ca015de6dbe5f9902ab20d41a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 45/57] fix: DiGraph::isTree() accepted graphs with a cycle and
 an isolated vertex

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 88738db..f82283d 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -209,7 +209,7 @@ public:
 	}
 
 	std::optional<Integer> isTree() const {
-		if (rootCount == 1 and edgeCount() + 1 == nodeCount()) return root + offset;
+		if (root < nodeCount() and rootCount == 1 and edgeCount() + 1 == nodeCount()) return root + offset;
 		return std::nullopt;
 	}
 
-- 
2.43.0


From f5e6e50f9801fa4e6533cd475cd56ae9179e1ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 46/57] fix: DiGraph::isDAG() used out degrees instead of in
 degrees

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index f82283d..c9b2295 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -191,7 +191,7 @@ public:
 		std::vector<std::size_t> deg(adj.size());
 		std::vector<Integer> order, todo;
 		for (std::size_t i = 0; i < adj.size(); i++) {
-			deg[i] = adj[i].size();
+			deg[i] = rev[i].size();
 			if (deg[i] == 0) todo.push_back(i);
 		}
 		while (!todo.empty()) {
-- 
2.43.0


From 6bc5fa4a1f1592e5c4015b163bca50199b3a27bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 47/57] fix: Random::seed() did not compile with the engines of
 this repository

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 5bad516..e9aed65 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1399,7 +1399,7 @@ namespace Random {
 	}
 
 	void seed(UInteger seed) {
-		details::randomNumberGenerator.seed(seed);
+		details::randomNumberGenerator = RandomEngine(seed);
 	}
 
 	//========================================================================//
-- 
2.43.0


From 719d8f6c166be18ae95c00b20a5861765f22265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 48/57] fix: PNG::fillRectangle() assigned the y coordinate
 instead of comparing it

---
 src/visualizer_png.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index edc8d5b..875d86a 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -342,7 +342,7 @@ public:
 	void fillRectangle(const Point& a, const Point& b, const Color border, const Color& fill) {
 		for (Integer y = std::min(a.y, b.y); y <= std::max(a.y, b.y); y++) {
 			for (Integer x = std::min(a.x, b.x); x <= std::max(a.x, b.x); x++) {
-				if (y = a.y or y == b.y or x == a.x or x == b.x) {
+				if (y == a.y or y == b.y or x == a.x or x == b.x) {
 					colors[y][x] = details::combine<M>(colors[y][x], border);
 				} else {
 					colors[y][x] = details::combine<M>(colors[y][x], fill);
-- 
2.43.0


From cc0789ac00358e331bc4a7cc5f5f980e6876df8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 49/57] fix: png colors constructed from a single std::uint8_t
 were not gray

---
 src/visualizer_png.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index 875d86a..4bb5489 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -34,6 +34,10 @@ struct Color {
 	constexpr explicit Color(std::uint8_t r_, std::uint8_t g_, std::uint8_t b_, std::uint8_t a_ = 0xFF) :
 		r(r_), g(g_), b(b_), a(a_) {}
 
+	// only for std::uint8_t, other integers are rgb values
+	template<typename T, std::enable_if_t<std::is_same_v<T, std::uint8_t>, bool> = true>
+	constexpr explicit Color(T gray) : Color(gray, gray, gray) {}
+
 	constexpr std::uint8_t& operator[](std::size_t i) & {
 		switch(i) {
 			case 0: return r;
-- 
2.43.0


From 8bde45e2dee74f8d9d4cede4c156981ca1854934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 50/57] fix: clamp_color() of huge values overflowed instead of
 clamping

---
 src/visualizer_png.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index 4bb5489..7ca0547 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -96,12 +96,12 @@ constexpr std::uint8_t clamp_color(int c) {
 
 template<>
 constexpr std::uint8_t clamp_color(long double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0l, 255.0l)));
 }
 
 template<>
 constexpr std::uint8_t clamp_color(double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0, 255.0)));
 }
 
 constexpr Color operator*(Real f, const Color& c) {
-- 
2.43.0


From 9a12af45f5a94c50abe364e1c8e992ea2d74285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 51/57] fix: objects written after std::endl did not change the
 bounding box of the SVG

---
 src/visualizer_svg.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index ecd0768..016f409 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -344,6 +344,11 @@ public:
 		}
 	}
 
+	// after e.g. std::endl objects are written to a std::ostream&
+	static void includeInBB(std::ostream& os, const Point& p) {
+		if (SVG* svg = dynamic_cast<SVG*>(&os)) svg->includeInBB(p);
+	}
+
 	~SVG() {
 		write();
 	}
@@ -389,13 +394,13 @@ struct Rectangle final : public Shape {
 		os << attribute("height", rectangle.dimension.height);
 		os << static_cast<const Shape&>(rectangle);
 		os << "/>";
+		SVG::includeInBB(os, rectangle.origin);
+		SVG::includeInBB(os, rectangle.origin + rectangle.dimension);
 		return os;
 	}
 
 	friend SVG& operator<<(SVG& os, const Rectangle& rectangle) {
 		static_cast<std::ostream&>(os) << rectangle;
-		os.includeInBB(rectangle.origin);
-		os.includeInBB(rectangle.origin + rectangle.dimension);
 		return os;
 	}
 };
@@ -415,13 +420,13 @@ struct Circle final : public Shape {
 		os << attribute("cy", flipY(circle.origin.y));
 		os << static_cast<const Shape&>(circle);
 		os << "/>";
+		SVG::includeInBB(os, circle.origin + Dimension(circle.r, circle.r));
+		SVG::includeInBB(os, circle.origin + Dimension(-circle.r, -circle.r));
 		return os;
 	}
 
 	friend SVG& operator<<(SVG& os, const Circle& circle) {
 		static_cast<std::ostream&>(os) << circle;
-		os.includeInBB(circle.origin + Dimension(circle.r, circle.r));
-		os.includeInBB(circle.origin + Dimension(-circle.r, -circle.r));
 		return os;
 	}
 };
@@ -442,13 +447,13 @@ struct Ellipse final : public Shape {
 		os << attribute("cy", flipY(ellipse.origin.y));
 		os << static_cast<const Shape&>(ellipse);
 		os << "/>";
+		SVG::includeInBB(os, ellipse.origin + Dimension(ellipse.rx, ellipse.ry));
+		SVG::includeInBB(os, ellipse.origin + Dimension(-ellipse.rx, -ellipse.ry));
 		return os;
 	}
 
 	friend SVG& operator<<(SVG& os, const Ellipse& ellipse) {
 		static_cast<std::ostream&>(os) << ellipse;
-		os.includeInBB(ellipse.origin + Dimension(ellipse.rx, ellipse.ry));
-		os.includeInBB(ellipse.origin + Dimension(-ellipse.rx, -ellipse.ry));
 		return os;
 	}
 };
@@ -467,12 +472,12 @@ struct Polygon final : public Shape {
 		os << "\" ";
 		os << static_cast<const Shape&>(polygon);
 		os << "/>";
+		for (const Point& p : polygon.points) SVG::includeInBB(os, p);
 		return os;
 	}
 
 	friend SVG& operator<<(SVG& os, const Polygon& polygon) {
 		static_cast<std::ostream&>(os) << polygon;
-		for (const Point& p : polygon.points) os.includeInBB(p);
 		return os;
 	}
 };
@@ -492,13 +497,13 @@ struct Line final : public Shape {
 		os << attribute("y2", flipY(line.p2.y));
 		os << static_cast<const Shape&>(line);
 		os << "/>";
+		SVG::includeInBB(os, line.p1);
+		SVG::includeInBB(os, line.p2);
 		return os;
 	}
 
 	friend SVG& operator<<(SVG& os, const Line& line) {
 		static_cast<std::ostream&>(os) << line;
-		os.includeInBB(line.p1);
-		os.includeInBB(line.p2);
 		return os;
 	}
 };
@@ -517,12 +522,12 @@ struct Polyline final : public Shape {
 		os << "\" ";
 		os << static_cast<const Shape&>(polyline);
 		os << "/>";
+		for (const Point& p : polyline.points) SVG::includeInBB(os, p);
 		return os;
 	}
 
 	friend SVG& operator<<(SVG& os, const Polyline& polyline) {
 		static_cast<std::ostream&>(os) << polyline;
-		for (const Point& p : polyline.points) os.includeInBB(p);
 		return os;
 	}
 };
-- 
2.43.0


From a46f6cc2a40ccdb323689e5da88bf282a8cd64f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 52/57] fix: clamp_color() of huge values overflowed instead of
 clamping (svg)

---
 src/visualizer_svg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index 016f409..7cd5cef 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -101,12 +101,12 @@ constexpr std::uint8_t clamp_color(int c) {
 
 template<>
 constexpr std::uint8_t clamp_color(long double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0l, 255.0l)));
 }
 
 template<>
 constexpr std::uint8_t clamp_color(double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0, 255.0)));
 }
 
 constexpr Color operator*(Real f, const Color& c) {
-- 
2.43.0


From 4b428fd5ce5fe1c2f834b7bb059e48f5f816b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 53/57] fix: Random::binomial overflowed for n = 2^63-1

---
 src/validate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index e9aed65..957bf03 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1588,12 +1588,12 @@ namespace Random {
 				if (!initialized) {
 					alpha = (2.83_real + 5.1_real / b) * spq;
 					lpq = std::log(p / q);
-					m = std::round(std::floor((n + 1) * p));
+					m = std::round(std::floor((n + 1.0_real) * p));
 					h = std::lgamma(m + 1) + std::lgamma(n - m + 1);
 					initialized = true;
 				}
 				v *= alpha / (a / (us * us) + b);
-				if (std::log(v) <= h - std::lgamma(res + 1) - std::lgamma(n - res + 1) + (res - m) * lpq) {
+				if (std::log(v) <= h - std::lgamma(res + 1.0_real) - std::lgamma(n - res + 1.0_real) + (res - m) * lpq) {
 					return swap ? n - res : res;
 				}
 			} while (true);
-- 
2.43.0


From 5c5dc0746e693515e39a88073281505db5e3a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 54/57] fix: convert(std::pair) narrows if the types of the
 pair differ

---
 src/validate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 957bf03..4430b93 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -890,7 +890,8 @@ constexpr std::pair<T,T> convert(const std::complex<T>& t) {
 template<typename L, typename R>
 constexpr std::complex<typename std::common_type<L, R>::type>
 convert(const std::pair<L,R>& t) {
-	return {getX(t), getY(t)};
+	using T = typename std::common_type<L, R>::type;
+	return {static_cast<T>(getX(t)), static_cast<T>(getY(t))};
 }
 
 
-- 
2.43.0


From e2de98471be3f1a1e23df23aa26af3cb42a2e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:12 +0000
Subject: [PATCH 55/57] fix: a default constructed InputStream which is no
 static object reads through an indeterminate pointer

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 4430b93..8bc1671 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2321,9 +2321,9 @@ public:
 //============================================================================//
 class InputStream final {
 	std::unique_ptr<std::ifstream> managed;
-	std::istream* in;
-	bool spaceSensitive, caseSensitive;
-	OutputStream* out;
+	std::istream* in = nullptr;
+	bool spaceSensitive = true, caseSensitive = true;
+	OutputStream* out = nullptr;
 	Verdicts::Verdict onFail;
 	Real floatAbsTol;
 	Real floatRelTol;
-- 
2.43.0


From 0569033ec72f6dc86f26ea971c313c183df223e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:53 +0000
Subject: [PATCH 56/57] fix: drawing with a color of the image itself used the
 already overwritten pixel

---
 src/visualizer_png.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index 7ca0547..4486458 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -343,7 +343,7 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void fillRectangle(const Point& a, const Point& b, const Color border, const Color& fill) {
+	void fillRectangle(const Point& a, const Point& b, const Color border, const Color fill) {
 		for (Integer y = std::min(a.y, b.y); y <= std::max(a.y, b.y); y++) {
 			for (Integer x = std::min(a.x, b.x); x <= std::max(a.x, b.x); x++) {
 				if (y == a.y or y == b.y or x == a.x or x == b.x) {
@@ -361,7 +361,7 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void floodFill(const Point& a, const Color& fill) {
+	void floodFill(const Point& a, const Color fill) {
 		std::vector<Point> todo = {a};
 		Color old = colors[a.y][a.x];
 		colors[a.y][a.x] = details::combine<M>(colors[a.y][a.x], fill);
@@ -380,7 +380,7 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void drawLine(const Point& a, const Point& b, const Color& fill) {
+	void drawLine(const Point& a, const Point& b, const Color fill) {
 		// Bresenham Algorithm
 		Integer dx = std::abs(b.x - a.x);
 		Integer sx = (a.x - b.x < 0) - (a.x - b.x > 0);
-- 
2.43.0


From 7739cc455e377ca0214beac8ee7a753bdcf06156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:08 +0000
Subject: [PATCH 57/57] fix: primes() accessed memory out of bounds for ranges
 with more than 2^30 numbers

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 8bc1671..ec092ec 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1166,7 +1166,7 @@ std::vector<Integer> primes(Integer lower, Integer upper) {
 	Integer count = std::min<Integer>(0x3FFF'FFFF, upper - lower);
 	Integer cache = (count + 1) / 2;
 
-	std::vector<bool> notPrime(cache), notPrimeSegment(cache);
+	std::vector<bool> notPrime(cache), notPrimeSegment((upper - lower + 1) / 2);
 	for (Integer i = 3; i < count; i += 2) {
 		if (!notPrime[i / 2]) {
 			for (Integer j = i * i; j < count; j += 2 * i) {
-- 
2.43.0

