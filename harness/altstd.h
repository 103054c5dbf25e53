// C19: stands for a different, equally conforming standard library: algorithms
// that leave the order of equivalent elements open leave them in another order.
// (-include'd before the library; only names qualified by std:: in it change.)
#pragma once
#include <bits/stdc++.h>
namespace std { inline namespace verif_alt {
	template<typename It> void verif_sort(It a, It b) { std::reverse(a, b); std::stable_sort(a, b); }
	template<typename It, typename C> void verif_sort(It a, It b, C c) { std::reverse(a, b); std::stable_sort(a, b, c); }
	template<typename It, typename P> It verif_partition(It a, It b, P p) { std::reverse(a, b); return std::stable_partition(a, b, p); }
} }
#define sort verif_sort
#define partition verif_partition
