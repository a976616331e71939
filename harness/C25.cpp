// C25: sequence order and ranges are right at every position of the number circle.
#include "common.h"
#include <limits>
#include "macoro/sequence_traits.h"
#include "macoro/sequence_range.h"
using namespace macoro;
typedef unsigned long long U;
// oracle: arithmetic on unsigned long long modulo 2^bits
template<class S> struct O {
	static constexpr int bits = sizeof(S) * 8; static constexpr U mask = bits == 64 ? ~0ULL : (1ULL << (bits % 64)) - 1;
	static U of(S s) { return (U)s & mask; }
	static U dist(S from, S to) { return (of(to) - of(from)) & mask; }
	static S at(S from, U k) { return (S)((of(from) + k) & mask); }
};
template<class S> static void pairs(S a, S b) {
	using T = sequence_traits<S>; U d = O<S>::dist(b, a); // a - b
	bool neg = d >> (O<S>::bits - 1);
	MC_REQUIRE(T::precedes(a, b) == neg, "precedes is the sign of the wrapped difference");
	MC_REQUIRE(((U)T::difference(a, b) & O<S>::mask) == d && (T::difference(a, b) < 0) == neg, "difference is the wrapped signed distance");
	if (d != 0 && d != (U)1 << (O<S>::bits - 1)) MC_REQUIRE(T::precedes(a, b) != T::precedes(b, a), "order is total and antisymmetric");
	if (d == 0) MC_REQUIRE(!T::precedes(a, b), "a number does not precede itself");
}
template<class S> static void range(S b, S e, bool iterate, U allCounts) {
	using R = sequence_range<S>; R r(b, e); U n = O<S>::dist(b, e);
	MC_REQUIRE(r.size() == n, "size is the wrapped distance"); MC_REQUIRE(r.empty() == (n == 0), "empty iff size is zero");
	if (n) { MC_REQUIRE(r.front() == b && r.back() == O<S>::at(b, n - 1), "front and back"); MC_REQUIRE(r[0] == b && r[(typename R::size_type)(n - 1)] == r.back(), "index"); }
	MC_REQUIRE(*r.begin() == b && *r.end() == e && (r.begin() == r.end()) == r.empty() && (r.begin() != r.end()) != r.empty(), "begin and end");
	MC_REQUIRE(((U)(r.end() - r.begin()) & O<S>::mask) == n, "iterator difference");
	if (iterate) {
		U k = 0; for (S s : r) { if (s != O<S>::at(b, k) || k >= n) mc::fail("property", "iteration visits each number in order"); k++; } MC_REQUIRE(k == n, "iteration visits each number once");
		auto it = r.begin(); for (U i = 0; i < n && i < 9; i++) { auto old = it++; MC_REQUIRE(*old == O<S>::at(b, i) && *it == O<S>::at(b, i + 1), "post increment"); MC_REQUIRE(*(r.begin() + (typename R::difference_type)i) == O<S>::at(b, i), "iterator plus"); MC_REQUIRE(*(r.end() - (typename R::difference_type)i) == O<S>::at(e, 0 - i), "iterator minus"); MC_REQUIRE(r[(typename R::size_type)i] == O<S>::at(b, i), "index"); }
		auto en = r.end(); if (n) { auto o = en--; MC_REQUIRE(*o == e && *en == r.back(), "post decrement"); ++en; --en; MC_REQUIRE(*en == r.back(), "pre decrement"); }
	}
	auto cut = [&](U c) {
		auto f = r.first((typename R::size_type)c); U m = c < n ? c : n; MC_REQUIRE(f.size() == m && f.begin() == r.begin() && *f.end() == O<S>::at(b, m), "first(count) is the prefix of that size");
		auto s = r.skip((typename R::size_type)c); MC_REQUIRE(s.size() == n - m && *s.begin() == O<S>::at(b, m) && *s.end() == e, "skip(count) is the remainder"); };
	for (U c = 0; c <= allCounts; c++) cut(c); if (n) cut(n - 1); cut(n); if (n < O<S>::mask) cut(n + 1); cut(O<S>::mask);
}
template<class S> static void eight() { S b = (S)(mc::choose(16, "begin hi") * 16 + mc::choose(16, "begin lo")); for (int e = 0; e < 256; e++) { pairs<S>(b, (S)e); range<S>(b, (S)e, true, O<S>::dist(b, (S)e) < 8 || mc::thorough() ? 255 : 4); } sequence_range<S> z; MC_REQUIRE(z.empty() && z.size() == 0, "default range is empty"); }
MC_SCENARIO("C25.uint8", S().sh(8)) { eight<unsigned char>(); }
MC_SCENARIO("C25.int8", S().sh(8)) { eight<signed char>(); }
template<class S> static void wide() {
	U base[] = { 0, (U)1 << (O<S>::bits - 1), (U)1 << (O<S>::bits - 2), O<S>::mask >> 1, O<S>::mask / 3 }; U c = base[mc::choose(5, "base")];
	S b = (S)((c + (U)(mc::choose(17, "offset") - 8)) & O<S>::mask);
	for (U n = 0; n <= 12; n++) { range<S>(b, O<S>::at(b, n), true, 14); for (U k : base) pairs<S>(b, O<S>::at(b, n + k)), pairs<S>(O<S>::at(b, n + k), b); }
	for (U k : base) for (U n : { (U)0, (U)1, O<S>::mask }) range<S>(b, O<S>::at(b, n + k), false, 3);
}
MC_SCENARIO("C25.uint16", S()) { wide<unsigned short>(); }
MC_SCENARIO("C25.uint32", S()) { wide<unsigned>(); }
MC_SCENARIO("C25.size", S()) { wide<std::size_t>(); }
