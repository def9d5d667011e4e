// Stands in for the gcem library (a dependency that is not installed here): the
// functions the library imports from it, with gcem's signatures (arguments of
// any arithmetic types, integers count as double, results by value), as C++11
// constant expressions where a design needs them. Evaluated in long double.
#pragma once

#include <cmath>
#include <cstddef>
#include <type_traits>

namespace gcem {
namespace stub {

using ld = long double;

template <typename T>
using ret = typename std::conditional<std::is_integral<T>::value, double, T>::type;
template <typename T1, typename T2>
using common = typename std::common_type<T1, T2>::type;
template <typename T1, typename T2>
using ret2 = ret<common<T1, T2>>;

constexpr ld ln2() { return 0.693147180559945309417232121458176568L; }
constexpr ld half_pi_hi() { return 1.57079632679489661925640447970309372L; }
constexpr ld half_pi_lo() { return -2.508278806334e-20L; }
constexpr ld inf() { return __builtin_huge_vall(); }

constexpr ld abs1(ld x) { return x < 0 ? -x : x == 0 ? 0 : x; }
constexpr ld sq(ld x) { return x * x; }
constexpr ld even_power(ld x, unsigned long long n);
constexpr ld power(ld x, unsigned long long n) {
  return n == 0 ? 1 : n % 2 ? x * power(x, n - 1) : even_power(x, n);
}
constexpr ld even_power(ld x, unsigned long long n) { return sq(power(x, n / 2)); }
constexpr ld scale2(ld x, long n) {
  return n >= 0 ? x * power(2, static_cast<unsigned long long>(n)) : x / power(2, static_cast<unsigned long long>(-n));
}

// nearest integer of moderate numbers
constexpr long nearest(ld x) { return static_cast<long>(x < 0 ? x - 0.5L : x + 0.5L); }

constexpr ld exp_series(ld x, ld n) { return n > 26 ? 1 : 1 + x / n * exp_series(x, n + 1); }
constexpr ld exp_at(ld x, long k) { return scale2(exp_series(x - static_cast<ld>(k) * ln2(), 1), k); }
constexpr ld exp1(ld x) { return x != x ? x : x > 11356 ? inf() : x < -11300 ? 0 : exp_at(x, nearest(x / ln2())); }
constexpr ld expm1_series(ld x, ld n) { return n > 30 ? 0 : x / n * (1 + expm1_series(x, n + 1)); }
constexpr ld expm11(ld x) { return abs1(x) < 0.5L ? expm1_series(x, 1) : exp1(x) - 1; }

// 2 artanh(y) = 2 (y + y^3/3 + ...)
constexpr ld artanh_series(ld y2, ld n) { return n > 75 ? 0 : 1 / n + y2 * artanh_series(y2, n + 2); }
constexpr ld artanh2(ld y) { return 2 * y * artanh_series(y * y, 1); }
constexpr ld log_norm(ld x, long e) {
  return x > 1e9L ? log_norm(x / 1073741824, e + 30) : x > 1.5L ? log_norm(x / 2, e + 1)
         : x < 1e-9L ? log_norm(x * 1073741824, e - 30) : x < 0.75L ? log_norm(x * 2, e - 1)
         : artanh2((x - 1) / (x + 1)) + static_cast<ld>(e) * ln2();
}
constexpr ld log1(ld x) { return x != x || x < 0 ? __builtin_nanl("") : x == 0 ? -inf() : x == inf() ? x : log_norm(x, 0); }

constexpr ld newton(ld x, ld y, int n) { return n == 0 ? y : newton(x, (y + x / y) / 2, n - 1); }
constexpr ld sqrt_norm(ld x, long e) {
  return x > 4e9L ? sqrt_norm(x / 1073741824, e + 15) : x >= 4 ? sqrt_norm(x / 4, e + 1)
         : x < 1e-9L ? sqrt_norm(x * 1073741824, e - 15) : x < 1 ? sqrt_norm(x * 4, e - 1)
         : scale2(newton(x, 1 + (x - 1) / 3, 7), e);
}
constexpr ld sqrt1(ld x) { return x != x || x < 0 ? __builtin_nanl("") : x == 0 || x == inf() ? x : sqrt_norm(x, 0); }

constexpr ld sin_series(ld x2, ld n) { return n > 32 ? 1 : 1 - x2 / (n * (n + 1)) * sin_series(x2, n + 2); }
constexpr ld cos_series(ld x2, ld n) { return n > 32 ? 1 : 1 - x2 / (n * (n + 1)) * cos_series(x2, n + 2); }
constexpr ld sin0(ld x) { return x * sin_series(x * x, 2); }
constexpr ld cos0(ld x) { return cos_series(x * x, 1); }
// x = k pi/2 + r
constexpr ld reduced(ld x, long k) { return (x - static_cast<ld>(k) * half_pi_hi()) - static_cast<ld>(k) * half_pi_lo(); }
constexpr ld sin_at(ld r, long q) { return q == 0 ? sin0(r) : q == 1 ? cos0(r) : q == 2 ? -sin0(r) : -cos0(r); }
constexpr ld sin_k(ld x, long k, long shift) { return sin_at(reduced(x, k), ((k + shift) % 4 + 4) % 4); }
constexpr ld sin1(ld x) { return sin_k(x, nearest(x / half_pi_hi()), 0); }
constexpr ld cos1(ld x) { return sin_k(x, nearest(x / half_pi_hi()), 1); }
constexpr ld tan1(ld x) { return sin1(x) / cos1(x); }

constexpr ld sinh1(ld x) { return abs1(x) < 0.5L ? (expm11(x) - expm11(-x)) / 2 : (exp1(x) - exp1(-x)) / 2; }
constexpr ld cosh1(ld x) { return (exp1(x) + exp1(-x)) / 2; }
constexpr ld asinh_pos(ld x) {
  return x < 0.25L ? artanh2(x / sqrt1(1 + x * x)) / 2 : x > 1e9L ? log1(x) + ln2() : log1(x + sqrt1(1 + x * x));
}
constexpr ld asinh1(ld x) { return x < 0 ? -asinh_pos(-x) : x == 0 ? x : asinh_pos(x); }

constexpr bool whole(ld y) { return abs1(y) < 1e6L && static_cast<ld>(static_cast<long>(y)) == y; }
constexpr ld pow1(ld x, ld y) {
  return whole(y) ? (y < 0 ? 1 / power(x, static_cast<unsigned long long>(-y)) : power(x, static_cast<unsigned long long>(y)))
         : x == 0 ? (y > 0 ? 0 : inf()) : exp1(y * log1(x));
}

} // namespace stub

#define GCEM_STUB(name)                                                        \
  template <typename T>                                                        \
  constexpr stub::ret<T> name(T x) noexcept {                                  \
    return static_cast<stub::ret<T>>(stub::name##1(static_cast<long double>(x))); \
  }
GCEM_STUB(exp)
GCEM_STUB(expm1)
GCEM_STUB(log)
GCEM_STUB(sqrt)
GCEM_STUB(sin)
GCEM_STUB(cos)
GCEM_STUB(tan)
GCEM_STUB(sinh)
GCEM_STUB(cosh)
GCEM_STUB(asinh)
#undef GCEM_STUB

template <typename T>
constexpr T abs(T x) noexcept {
  return x < T(0) ? -x : x == T(0) ? T(0) : x;
}
template <typename T1, typename T2>
constexpr stub::common<T1, T2> max(T1 a, T2 b) noexcept {
  return a < b ? static_cast<stub::common<T1, T2>>(b) : static_cast<stub::common<T1, T2>>(a);
}
template <typename T1, typename T2>
constexpr stub::common<T1, T2> min(T1 a, T2 b) noexcept {
  return b < a ? static_cast<stub::common<T1, T2>>(b) : static_cast<stub::common<T1, T2>>(a);
}
template <typename T>
constexpr bool signbit(T x) noexcept {
  return x < T(0);
}
template <typename T1, typename T2>
constexpr stub::ret2<T1, T2> pow(T1 x, T2 y) noexcept {
  return static_cast<stub::ret2<T1, T2>>(stub::pow1(static_cast<long double>(x), static_cast<long double>(y)));
}

#define GCEM_STUB(name)                                                        \
  template <typename T>                                                        \
  stub::ret<T> name(T x) noexcept {                                            \
    return static_cast<stub::ret<T>>(std::name(static_cast<long double>(x)));  \
  }
GCEM_STUB(acos)
GCEM_STUB(acosh)
GCEM_STUB(asin)
GCEM_STUB(atan)
GCEM_STUB(atanh)
GCEM_STUB(ceil)
GCEM_STUB(erf)
GCEM_STUB(floor)
GCEM_STUB(lgamma)
GCEM_STUB(log10)
GCEM_STUB(log1p)
GCEM_STUB(log2)
GCEM_STUB(round)
GCEM_STUB(tanh)
GCEM_STUB(tgamma)
GCEM_STUB(trunc)
#undef GCEM_STUB

#define GCEM_STUB(name)                                                        \
  template <typename T1, typename T2>                                          \
  stub::ret2<T1, T2> name(T1 x, T2 y) noexcept {                               \
    return static_cast<stub::ret2<T1, T2>>(                                    \
        std::name(static_cast<long double>(x), static_cast<long double>(y)));  \
  }
GCEM_STUB(atan2)
GCEM_STUB(copysign)
GCEM_STUB(fmod)
#undef GCEM_STUB

// multivariate log gamma function
template <typename T1, typename T2>
stub::ret<T1> lmgamma(T1 a, T2 p) noexcept {
  return p == T2(1) ? lgamma(a)
                    : static_cast<stub::ret<T1>>(0.5723649429247000870717L * static_cast<long double>(p - T2(1))) +
                          lgamma(a) + lmgamma(a - T1(0.5), p - T2(1));
}

} // namespace gcem
