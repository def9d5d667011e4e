// M03: polynomial construction and convolution are exact.
#include <cmath>
#include <complex>
#include <cstdint>
#include <limits>
#include <vector>

#include <embedded/constexpr_math.h>

#include "pbt.h"

namespace cm = embedded::cmath;

namespace {

using I128 = __int128;

// Gaussian integers as reference for complex operands
struct G {
  I128 re, im;
};

template <typename T>
struct Num;
template <>
struct Num<int64_t> {
  using Ref = I128;
  static constexpr bool exact = true;
  static int64_t gen(pbt::Case& c, int64_t lim, bool) {
    return c.range(-lim, lim);
  }
  static Ref up(int64_t v) { return v; }
  static Ref zero() { return 0; }
  static Ref mul(Ref a, Ref b) { return a * b; }
  static Ref add(Ref a, Ref b) { return a + b; }
  static bool ok(int64_t got, Ref want, long double) { return got == want; }
  static long double mag(Ref v) { return static_cast<long double>(v < 0 ? -v : v); }
};
template <>
struct Num<int> : Num<int64_t> {
  static int gen(pbt::Case& c, int64_t lim, bool) {
    return static_cast<int>(c.range(-lim, lim));
  }
};
template <typename F>
struct Real {
  using Ref = long double;
  static F gen(pbt::Case& c, int64_t lim, bool integral) {
    return integral ? static_cast<F>(c.range(-lim, lim))
                    : static_cast<F>(c.real(-static_cast<double>(lim), static_cast<double>(lim)));
  }
  static Ref up(F v) { return static_cast<long double>(v); }
  static Ref zero() { return 0; }
  static Ref mul(Ref a, Ref b) { return a * b; }
  static Ref add(Ref a, Ref b) { return a + b; }
  static bool ok(F got, Ref want, long double tol) {
    return std::fabs(static_cast<long double>(got) - want) <= tol;
  }
  static long double mag(Ref v) { return std::fabs(v); }
};
template <>
struct Num<double> : Real<double> {};
template <>
struct Num<float> : Real<float> {};
template <>
struct Num<cm::complex<double>> {
  using Ref = std::complex<long double>;
  static cm::complex<double> gen(pbt::Case& c, int64_t lim, bool integral) {
    double const re = Num<double>::gen(c, lim, integral);
    return cm::complex<double>(re, c.chance(1, 4) ? 0.0 : Num<double>::gen(c, lim, integral));
  }
  static Ref up(cm::complex<double> const& z) { return {z.real(), z.imag()}; }
  static Ref zero() { return 0; }
  static Ref mul(Ref a, Ref b) { return a * b; }
  static Ref add(Ref a, Ref b) { return a + b; }
  static bool ok(cm::complex<double> const& got, Ref want, long double tol) {
    return std::fabs(got.real() - want.real()) <= tol &&
           std::fabs(got.imag() - want.imag()) <= tol;
  }
  static long double mag(Ref v) { return std::abs(v); }
};

template <typename T>
struct EpsOf {
  static constexpr long double value = std::numeric_limits<T>::epsilon();
};
template <>
struct EpsOf<cm::complex<double>> {
  static constexpr long double value = std::numeric_limits<double>::epsilon();
};

template <typename T, std::size_t... I>
cm::vector<T, sizeof...(I)> build(std::vector<T> const& v,
                                  embedded::index_sequence<I...>) {
  return cm::vector<T, sizeof...(I)>{v[I]...};
}
template <std::size_t N, typename T>
cm::vector<T, N> make(std::vector<T> const& v) {
  return build(v, embedded::make_index_sequence<N>{});
}

// reference convolution, with the sum of magnitudes per coefficient
template <typename T>
struct Conv {
  using R = typename Num<T>::Ref;
  std::vector<R> v;
  std::vector<long double> mag;
};
template <typename T>
Conv<T> ref_conv(std::vector<T> const& a, std::vector<T> const& b) {
  using N = Num<T>;
  Conv<T> r;
  r.v.assign(a.size() + b.size() - 1, N::zero());
  r.mag.assign(r.v.size(), 0);
  for (std::size_t i = 0; i < a.size(); ++i) {
    for (std::size_t j = 0; j < b.size(); ++j) {
      auto const p = N::mul(N::up(a[i]), N::up(b[j]));
      r.v[i + j] = N::add(r.v[i + j], p);
      r.mag[i + j] += N::mag(p);
    }
  }
  return r;
}

template <typename T, std::size_t S1, std::size_t S2>
void convolution(pbt::Case& c) {
  bool const integral = c.flip();
  int64_t const lim = c.pick<int64_t>({1, 3, 100, 2000});
  std::vector<T> a, b;
  for (std::size_t i = 0; i < S1; ++i) {
    a.push_back(Num<T>::gen(c, lim, integral));
  }
  for (std::size_t i = 0; i < S2; ++i) {
    b.push_back(Num<T>::gen(c, lim, integral));
  }
  c.trace("%zu * %zu coefficients", S1, S2);
  auto const va = make<S1>(a);
  auto const vb = make<S2>(b);
  auto const r = cm::convolve_full(va, vb);
  auto const q = cm::convolve_full(vb, va);
  static_assert(std::is_same<decltype(cm::convolve_full(va, vb)),
                             cm::vector<T, S1 + S2 - 1>>::value,
                "length");
  auto const want = ref_conv(a, b);
  bool const exact = std::is_integral<T>::value || (integral && EpsOf<T>::value < 1e-10L) ||
                     (integral && lim <= 100);
  for (std::size_t i = 0; i < want.v.size(); ++i) {
    long double const tol =
        exact ? 0
              : static_cast<long double>(S1 + S2 + 4) * EpsOf<T>::value *
                    want.mag[i] * 4;
    PBT_CHECK(c, Num<T>::ok(r[i], want.v[i], tol),
              "coefficient %zu of the convolution of %zu and %zu", i, S1, S2);
    PBT_CHECK(c, Num<T>::ok(q[i], want.v[i], tol),
              "coefficient %zu of the convolution of %zu and %zu", i, S2, S1);
  }
  // both operands are the same object
  auto const sq = cm::convolve_full(va, va);
  auto const wsq = ref_conv(a, a);
  for (std::size_t i = 0; i < wsq.v.size(); ++i) {
    long double const tol = exact ? 0 : static_cast<long double>(2 * S1 + 4) * EpsOf<T>::value * wsq.mag[i] * 4;
    PBT_CHECK(c, Num<T>::ok(sq[i], wsq.v[i], tol), "coefficient %zu of the convolution of %zu with itself", i, S1);
  }
  auto const one = cm::vector<T, 1>{T{1}};
  auto const ida = cm::convolve_full(va, one);
  auto const idb = cm::convolve_full(one, va);
  for (std::size_t i = 0; i < S1; ++i) {
    PBT_CHECK(c, ida[i] == a[i] && idb[i] == a[i], "[1] is not the identity");
    PBT_CHECK(c, va[i] == a[i], "operand");
  }
  if (S1 > 1 && S2 > 1) {
    c.nontrivial();
  }
}

template <typename T, std::size_t S>
void polynomial(pbt::Case& c) {
  bool const integral = c.flip();
  int64_t const lim = S <= 6 ? c.pick<int64_t>({1, 2, 5, 20}) : c.pick<int64_t>({1, 2});
  std::vector<T> z;
  for (std::size_t i = 0; i < S; ++i) {
    z.push_back(!z.empty() && c.chance(1, 6) ? z.back()
                                             : Num<T>::gen(c, lim, integral));
  }
  c.trace("%zu zeros", S);
  auto const p = cm::poly(make<S>(z));
  static_assert(std::is_same<decltype(cm::poly(make<S>(z))),
                             cm::vector<T, S + 1>>::value,
                "length");
  using N = Num<T>;
  std::vector<typename N::Ref> want{N::up(T{1})};
  std::vector<long double> mag{1};
  for (auto const& x : z) {
    auto next = want;
    auto nmag = mag;
    next.push_back(N::zero());
    nmag.push_back(0);
    for (std::size_t i = 0; i < want.size(); ++i) {
      next[i + 1] = N::add(next[i + 1], N::mul(N::up(-x), want[i]));
      nmag[i + 1] += N::mag(N::up(x)) * mag[i];
    }
    want = next;
    mag = nmag;
  }
  PBT_CHECK(c, p[0] == T{1}, "the polynomial of %zu zeros is not monic", S);
  bool const exact = std::is_integral<T>::value ||
                     (integral && EpsOf<T>::value < 1e-10L);
  for (std::size_t i = 0; i <= S; ++i) {
    long double const tol =
        exact ? 0 : static_cast<long double>(S + 4) * 6 * EpsOf<T>::value * mag[i];
    PBT_CHECK(c, N::ok(p[i], want[i], tol),
              "coefficient %zu of the polynomial with %zu zeros", i, S);
  }
  if (S > 1) {
    c.nontrivial();
  }
}

#ifndef SHARD
#define SHARD 0
#endif

using Fn = void (*)(pbt::Case&);
constexpr std::size_t M = 8;

template <typename T, std::size_t... K>
void conv_any(pbt::Case& c, embedded::index_sequence<K...>) {
  static Fn const f[] = {&convolution<T, K / M + 1, K % M + 1>...,
                         &convolution<T, 20, 3>, &convolution<T, 2, 17>};
  f[c.draw(sizeof...(K) + 2)](c);
}
template <typename T, std::size_t... K>
void poly_any(pbt::Case& c, embedded::index_sequence<K...>) {
  static Fn const f[] = {&polynomial<T, K>..., &polynomial<T, 16>};
  f[c.draw(sizeof...(K) + 1)](c);
}

#define X(n, t)                                                                \
  void convolve_##n(pbt::Case& c) {                                            \
    conv_any<t>(c, embedded::make_index_sequence<M * M>{});                    \
  }                                                                            \
  PBT_REGISTER(convolve_##n, &convolve_##n, 120000, 6000000);                  \
  void poly_##n(pbt::Case& c) {                                                \
    poly_any<t>(c, embedded::make_index_sequence<11>{});                       \
  }                                                                            \
  PBT_REGISTER(poly_##n, &poly_##n, 60000, 3000000);
#if SHARD == 0
X(int64, int64_t)
#elif SHARD == 1
X(double, double)
#elif SHARD == 2
X(complex, cm::complex<double>)
#elif SHARD == 3
X(float, float)
#endif

} // namespace
