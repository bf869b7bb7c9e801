#include <macoro/sequence_traits.h>
#include <macoro/sequence_range.h>
#include "dual.h"
using namespace macoro;
namespace p22 {
// any number of the type (bounded stand-in: values near the edges)
template<class S> S any() {
#ifdef VP_VERIFY
    return (S)vp_nondet_u64();
#else
    int k = nx::choose(6); int o = nx::choose(9) - 4; S h = (S)((S)1 << (sizeof(S) * 8 - 1)); return k == 0 ? (S)o : k == 1 ? (S)(h + o) : k == 2 ? (S)nx::choose(256) : k == 3 ? (S)(h + nx::choose(64)) : (S)(nx::choose(65536) * 2654435761ull);
#endif
}
using W = __int128;
template<class S> W mod(W x) { return x & (((W)1 << (sizeof(S) * 8)) - 1); }
template<class S> W dist(S a, S b) { W m = (W)1 << (sizeof(S) * 8); W d = mod<S>((W)a - (W)b); return d >= m / 2 ? d - m : d; }   // signed distance modulo the width
template<class S> void order() {
    using T = sequence_traits<S>; S a = any<S>(), b = any<S>();
    D_CHECK((W)T::difference(a, b) == dist<S>(a, b), "difference is not the signed distance");
    D_CHECK(T::precedes(a, b) == (dist<S>(a, b) < 0), "precedes is not the sign of the distance");
    D_CHECK(!(T::precedes(a, b) && T::precedes(b, a)) || mod<S>((W)a - (W)b) == ((W)1 << (sizeof(S) * 8 - 1)), "both of two numbers precede each other");
    D_CHECK(!T::precedes(a, a) && (a == b || T::precedes(a, b) || T::precedes(b, a)), "ordering is not total");
    D_CHECK((S)(T::initial_sequence + 1) == 0 && !T::precedes(0, T::initial_sequence) && T::precedes(T::initial_sequence, 0), "initial sequence does not precede 0");
    if (T::precedes(a, b)) D_COVER("before"); else D_COVER("not-before");
    static_assert(T::difference(S(3), S(5)) == -2);
}
template<class S> W len(S b, S e) { return mod<S>((W)e - (W)b); }
template<class S> void range() {
    using R = sequence_range<S>; using Z = typename R::size_type; S b = any<S>(), e = any<S>(); R r(b, e); W n = len<S>(b, e);
    D_CHECK((W)r.size() == n && r.empty() == (n == 0), "size or empty disagree with the bounds");
    D_CHECK(*r.begin() == b && *r.end() == e && r.front() == b && (W)r.back() == mod<S>((W)e - 1), "first or last element wrong");
    D_CHECK((W)(typename std::make_unsigned<typename R::difference_type>::type)(r.end() - r.begin()) == n, "iterator distance is not the size");
    Z i = any<Z>(); if ((W)i < n) { D_CHECK((W)r[i] == mod<S>((W)b + i), "element wrong"); D_CHECK(*(r.begin() + (typename R::difference_type)i) == r[i] && *(r.end() - (typename R::difference_type)i) == (S)(e - i), "iterator arithmetic wrong"); if ((W)i == n - 1) D_CHECK(r[i] == r.back(), "last element is not back()"); D_COVER("element"); }
    Z c = any<Z>(); W k = (W)c < n ? (W)c : n; R f = r.first(c), s = r.skip(c);
    D_CHECK((W)f.size() == k && f.front() == b && *f.end() == (S)mod<S>((W)b + k), "first(n) wrong"); D_CHECK((W)s.size() == n - k && *s.begin() == (S)mod<S>((W)b + k) && *s.end() == e, "skip(n) wrong");
    D_CHECK(*f.end() == *s.begin() && (W)r.size() == n && r.front() == b, "first and skip do not partition the range, or change it");
    R d; D_CHECK(d.empty() && d.size() == 0, "a default range is not empty");
    if (n == 0) D_COVER("empty"); else D_COVER("nonempty");
}
template<class S> void steps() {
    using I = typename sequence_range<S>::const_iterator; S a = any<S>(), b = any<S>(); I i(a), j(b);
    D_CHECK((i == j) == (a == b) && (i != j) == (a != b) && *i == a && *i.operator->() == a, "iterator comparison or access wrong");
    I p = i++; D_CHECK(*p == a && *i == (S)mod<S>((W)a + 1), "i++ wrong"); I q = i--; D_CHECK(*q == (S)mod<S>((W)a + 1) && *i == a, "i-- wrong");
    I& u = ++i; D_CHECK(&u == &i && *i == (S)mod<S>((W)a + 1), "++i wrong"); I& v = --i; D_CHECK(&v == &i && *i == a, "--i wrong"); D_COVER("steps");
}
template<class S> void walk() {
    S b = any<S>(), e = any<S>();
#ifndef VP_VERIFY
    if (len<S>(b, e) > 2000) e = (S)(b + nx::choose(700));
#endif
    sequence_range<S> r(b, e); typename sequence_range<S>::size_type k = 0, n = r.size(); bool ok = true;
    for (S x : r) { D_CHECK(x == (S)(b + k), "iteration does not visit the numbers in order"); D_CHECK(k < n, "iteration visits more numbers than size()"); ++k; }
    D_CHECK(k == n, "iteration does not visit exactly size() numbers"); (void)ok; D_COVER("walked");
}
}
#define P22C(f) D_CLIENT(P22, f##8) { p22::f<uint8_t>(); } D_CLIENT(P22, f##16) { p22::f<uint16_t>(); } D_CLIENT(P22, f##32) { p22::f<uint32_t>(); } D_CLIENT(P22, f##64) { p22::f<uint64_t>(); }
P22C(order) P22C(range) P22C(steps) P22C(walk)
