// M02: compile-time complex arithmetic is correct.
#include <cmath>
#include <complex>
#include <limits>
#include <string>
#include <vector>

#include <embedded/constexpr_math.h>

#include "pbt.h"

namespace cm = embedded::cmath;

namespace {

template <typename T>
struct Lim {
  static constexpr T eps = std::numeric_limits<T>::epsilon();
  // products of three factors and squares of quotients stay in range
  static constexpr int max_exp = std::numeric_limits<T>::max_exponent / 8;
};

template <typename T>
T gen_real(pbt::Case& c, int max_exp) {
  T v;
  switch (c.weighted({3, 3, 3, 1})) {
  case 0:
    v = static_cast<T>(c.range(0, 12));
    break;
  case 1:
    v = static_cast<T>(c.real(0, 4));
    break;
  case 2:
    v = static_cast<T>(
        std::ldexp(static_cast<T>(c.real(1, 2)),
                   static_cast<int>(c.range(-max_exp, max_exp))));
    break;
  default:
    return c.flip() ? -T{} : T{};
  }
  return c.flip() ? -v : v;
}

template <typename T>
cm::complex<T> gen(pbt::Case& c, int max_exp = Lim<T>::max_exp) {
  T const re = gen_real<T>(c, max_exp);
  T im;
  switch (c.weighted({6, 1, 1, 1})) {
  case 0:
    im = gen_real<T>(c, max_exp);
    break;
  case 1:
    im = 0;
    break;
  case 2:
    im = re;
    break;
  default:
    im = -re;
  }
  return cm::complex<T>(re, im);
}

template <typename T>
std::complex<long double> up(cm::complex<T> const& z) {
  return {static_cast<long double>(z.real()),
          static_cast<long double>(z.imag())};
}

// |got - want| <= n eps * scale. The reference is computed in long double.
template <typename T>
void near(pbt::Case& c, cm::complex<T> const& got, std::complex<long double> want,
          long double scale, int n, char const* what) {
  long double const tol =
      n * static_cast<long double>(Lim<T>::eps) * scale +
      4 * static_cast<long double>(std::numeric_limits<T>::min());
  long double const dr = std::fabs(static_cast<long double>(got.real()) - want.real());
  long double const di = std::fabs(static_cast<long double>(got.imag()) - want.imag());
  PBT_CHECK(c, dr <= tol && di <= tol,
            "%s: (%.17Lg, %.17Lg) instead of (%.17Lg, %.17Lg)", what,
            static_cast<long double>(got.real()),
            static_cast<long double>(got.imag()), want.real(), want.imag());
}
template <typename T>
void near1(pbt::Case& c, T got, long double want, int n, char const* what) {
  long double const tol =
      n * static_cast<long double>(Lim<T>::eps) * std::fabs(want) +
      4 * static_cast<long double>(std::numeric_limits<T>::min());
  PBT_CHECK(c, std::fabs(static_cast<long double>(got) - want) <= tol,
            "%s: %.17Lg instead of %.17Lg", what, static_cast<long double>(got),
            want);
}

template <typename T>
void exactly(pbt::Case& c, cm::complex<T> const& got, T re, T im,
             char const* what) {
  PBT_CHECK(c, got.real() == re && got.imag() == im,
            "%s: (%.17Lg, %.17Lg) instead of (%.17Lg, %.17Lg)", what,
            static_cast<long double>(got.real()),
            static_cast<long double>(got.imag()), static_cast<long double>(re),
            static_cast<long double>(im));
}

template <typename T>
void prop_general(pbt::Case& c) {
  using Z = cm::complex<T>;
  Z const a = gen<T>(c), b = gen<T>(c);
  T const s = gen_real<T>(c, Lim<T>::max_exp);
  c.trace("a=(%.17Lg, %.17Lg) b=(%.17Lg, %.17Lg) s=%.17Lg",
          static_cast<long double>(a.real()), static_cast<long double>(a.imag()),
          static_cast<long double>(b.real()), static_cast<long double>(b.imag()),
          static_cast<long double>(s));
  auto const A = up(a), B = up(b);
  long double const S = s;
  long double const ma = std::abs(A), mb = std::abs(B);
  near(c, a + b, A + B, std::abs(A + B), 2, "a + b");
  near(c, a - b, A - B, std::abs(A - B), 2, "a - b");
  near(c, a * b, A * B, ma * mb, 4, "a * b");
  near(c, s + a, S + A, std::abs(S + A), 2, "s + a");
  near(c, s - a, S - A, std::abs(S - A), 2, "s - a");
  near(c, s * a, S * A, std::fabs(S) * ma, 4, "s * a");
  if (mb != 0) {
    near(c, a / b, A / B, ma / mb, 16, "a / b");
    near(c, s / b, S / B, std::fabs(S) / mb, 16, "s / b");
    near(c, (a / b) * b, A, ma, 40, "a / b * b");
  }
  if (s != 0) {
    near(c, a / s, A / S, ma / std::fabs(S), 16, "a / s");
  }
  exactly(c, -a, -a.real(), -a.imag(), "-a");
  exactly(c, a.conj(), a.real(), -a.imag(), "conj");
  near1(c, a.norm(), static_cast<long double>(a.real()) * a.real() +
                         static_cast<long double>(a.imag()) * a.imag(),
        6, "norm");
  near1(c, a.abs(), ma, 6, "abs");
  near(c, Z(a.distance(b)), std::complex<long double>(std::abs(A - B)),
       std::abs(A - B), 8, "distance");
  PBT_CHECK(c, a.distance(a) == 0, "distance to itself");
  PBT_CHECK(c, a == a && a.conj().conj() == a && -(-a) == a, "a == a");
  bool const eq = a.real() == b.real() && a.imag() == b.imag();
  PBT_CHECK(c, (a == b) == eq && (b == a) == eq, "a == b is %d", !eq);
  PBT_CHECK(c, (a == a.conj()) == (a.imag() == 0), "a == conj(a)");
  PBT_CHECK(c, (a == Z(a.real())) == (a.imag() == 0), "a == real(a)");
  PBT_CHECK(c, (a == Z(-a.real(), a.imag())) == (a.real() == 0), "a == -conj(a)");
  PBT_CHECK(c, a.is_real() == (a.imag() == 0), "is_real is %d", a.is_real());
  exactly(c, Z(s), s, T{}, "complex(s)");
  exactly(c, Z(), T{}, T{}, "complex()");
  Z const copy = a;
  exactly(c, copy, a.real(), a.imag(), "copy");
  if (a.imag() != 0 && b.imag() != 0 && a.real() != 0) {
    c.nontrivial();
  }
}

template <typename T>
void prop_exact(pbt::Case& c) {
  using Z = cm::complex<T>;
  // products and their sums stay below 2^24 (float)
  int64_t const lim = std::numeric_limits<T>::digits > 24 ? 30000000 : 2000;
  auto part = [&] {
    int64_t v = c.flip() ? c.range(0, 6) : c.range(0, lim);
    return c.flip() ? -v : v;
  };
  int64_t const ar = part(), ai = part(), br = part(), bi = part(), s = part();
  Z const a(static_cast<T>(ar), static_cast<T>(ai)),
      b(static_cast<T>(br), static_cast<T>(bi));
  T const x = static_cast<T>(s);
  auto is = [&](Z const& z, int64_t re, int64_t im, char const* what) {
    exactly(c, z, static_cast<T>(re), static_cast<T>(im), what);
  };
  c.trace("a=(%ld, %ld) b=(%ld, %ld) s=%ld", ar, ai, br, bi, s);
  is(a + b, ar + br, ai + bi, "a + b");
  is(a - b, ar - br, ai - bi, "a - b");
  is(a * b, ar * br - ai * bi, ar * bi + ai * br, "a * b");
  is(x + a, s + ar, ai, "s + a");
  is(x - a, s - ar, -ai, "s - a");
  is(x * a, s * ar, s * ai, "s * a");
  is(-a, -ar, -ai, "-a");
  is(Z(a.norm()), ar * ar + ai * ai, 0, "norm");
  is(a * a.conj(), ar * ar + ai * ai, 0, "a * conj(a)");
  if (ar && ai && br && bi) {
    c.nontrivial();
  }
}

template <typename T>
void prop_exp(pbt::Case& c) {
  using Z = cm::complex<T>;
  Z const a(static_cast<T>(c.flip() ? c.real(-20, 20) : c.real(-1, 1)),
            static_cast<T>(c.flip() ? c.real(-50, 50)
                                    : c.pick<double>({0, 1, -1, 1.5707963267948966, 3.141592653589793, -3.141592653589793, 0.25})));
  c.trace("a=(%.17Lg, %.17Lg)", static_cast<long double>(a.real()),
          static_cast<long double>(a.imag()));
  auto const e = std::exp(up(a));
  near(c, exp(a), e, std::abs(e), 12, "exp");
  // exp(a + b) = exp(a) exp(b), exp(conj) = conj(exp)
  near(c, exp(a.conj()), std::conj(e), std::abs(e), 12, "exp(conj)");
  near(c, exp(-a) * exp(a), 1, 1, 60, "exp(-a) exp(a)");
  c.nontrivial();
}

template <typename T, std::size_t... I>
void vectors(pbt::Case& c, embedded::index_sequence<I...>) {
  using Z = cm::complex<T>;
  constexpr std::size_t N = sizeof...(I);
  std::vector<Z> m;
  for (std::size_t i = 0; i < N; ++i) {
    m.push_back(gen<T>(c, 3));
  }
  cm::vector<Z, N> const v{m[I]...};
  auto const re = real(v);
  auto const im = imag(v);
  auto const no = norm(v);
  auto const ab = abs(v);
  auto const ex = exp(v);
  static_assert(std::is_same<decltype(real(v)), cm::vector<T, N>>::value &&
                    std::is_same<decltype(imag(v)), cm::vector<T, N>>::value &&
                    std::is_same<decltype(norm(v)), cm::vector<T, N>>::value &&
                    std::is_same<decltype(abs(v)), cm::vector<T, N>>::value,
                "element types");
  Z p(T{1});
  std::complex<long double> P(1);
  for (std::size_t i = 0; i < N; ++i) {
    auto const z = up(m[i]);
    PBT_CHECK(c, re[i] == m[i].real(), "real of element %zu", i);
    PBT_CHECK(c, im[i] == m[i].imag(), "imag of element %zu", i);
    near1(c, no[i], std::norm(z), 6, "norm of an element");
    near1(c, ab[i], std::abs(z), 6, "abs of an element");
    auto const e = std::exp(z);
    near(c, ex[i], e, std::abs(e), 12, "exp of an element");
    P *= z;
  }
  near(c, prod(v), P, std::abs(P), 8 * static_cast<int>(N) + 8, "prod");
  T q{1};
  long double Q = 1;
  for (std::size_t i = 0; i < N; ++i) {
    Q *= static_cast<long double>(re[i]);
  }
  near1(c, prod(re), Q, 2 * static_cast<int>(N) + 4, "prod of reals");
  (void)q;
  (void)p;
  if (N > 1) {
    c.nontrivial();
  }
}

template <typename T>
void prop_vectors(pbt::Case& c) {
  using Fn = void (*)(pbt::Case&);
  switch (c.draw(6)) {
  case 0: vectors<T>(c, embedded::make_index_sequence<1>{}); break;
  case 1: vectors<T>(c, embedded::make_index_sequence<2>{}); break;
  case 2: vectors<T>(c, embedded::make_index_sequence<3>{}); break;
  case 3: vectors<T>(c, embedded::make_index_sequence<5>{}); break;
  case 4: vectors<T>(c, embedded::make_index_sequence<8>{}); break;
  default: vectors<T>(c, embedded::make_index_sequence<13>{});
  }
}

#define X(n, t)                                                                \
  void general_##n(pbt::Case& c) { prop_general<t>(c); }                       \
  PBT_REGISTER(general_##n, &general_##n, 500000, 30000000);                   \
  void exact_##n(pbt::Case& c) { prop_exact<t>(c); }                           \
  PBT_REGISTER(exact_##n, &exact_##n, 300000, 15000000);                       \
  void exp_##n(pbt::Case& c) { prop_exp<t>(c); }                               \
  PBT_REGISTER(exp_##n, &exp_##n, 150000, 8000000);                            \
  void vectors_##n(pbt::Case& c) { prop_vectors<t>(c); }                       \
  PBT_REGISTER(vectors_##n, &vectors_##n, 150000, 8000000);
X(float, float)
X(double, double)

// pi, to the precision of each type
PBT_ENUM(constants, 1, 1) {
  c.draw(1);
  long double const p = std::acos(-1.0L);
  PBT_CHECK(c, cm::pi<long double>() == p, "pi<long double>");
  PBT_CHECK(c, cm::pi<double>() == static_cast<double>(p), "pi<double>");
  PBT_CHECK(c, cm::pi<float>() == static_cast<float>(p), "pi<float>");
  c.nontrivial();
}

} // namespace
