// S13: the specification objects report the normalised analog prototypes.
#include "signal_common.h"

#ifndef SHARD
#define SHARD 0
#endif

namespace {

template <typename F>
struct Name;
template <>
struct Name<float> {
  static char const* get() { return "float"; }
};
template <>
struct Name<double> {
  static char const* get() { return "double"; }
};
template <>
struct Name<long double> {
  static char const* get() { return "long double"; }
};

constexpr ld kSlack = 16;

// every wanted root is there once
template <typename V>
void same_roots(pbt::Case& c, V const& got, std::vector<lc> want, std::vector<ld> tol, char const* what) {
  PBT_CHECK(c, got.size() == want.size(), "%zu %s instead of %zu", static_cast<std::size_t>(got.size()), what,
            want.size());
  for (std::size_t i = 0; i < got.size(); ++i) {
    lc const g(static_cast<ld>(got[i].real()), static_cast<ld>(got[i].imag()));
    std::size_t best = 0;
    for (std::size_t k = 1; k < want.size(); ++k) {
      if (std::abs(g - want[k]) < std::abs(g - want[best])) {
        best = k;
      }
    }
    PBT_CHECK(c, std::abs(g - want[best]) <= tol[best],
              "%s[%zu] is (%.17Lg,%.17Lg), nearest one missing (%.17Lg,%.17Lg), off by %.3Lg (tolerance %.3Lg)", what,
              i, g.real(), g.imag(), want[best].real(), want[best].imag(), std::abs(g - want[best]), tol[best]);
    want.erase(want.begin() + static_cast<std::ptrdiff_t>(best));
    tol.erase(tol.begin() + static_cast<std::ptrdiff_t>(best));
  }
}

template <typename S>
ld ripple_factor(S const&, long) {
  return -1;
}
template <typename S>
auto ripple_factor(S const& s, int) -> decltype(static_cast<ld>(s.rf())) {
  return static_cast<ld>(s.rf());
}

template <typename F, typename V, typename W>
bool equal(V const& a, W const& b) {
  if (a.size() != b.size()) {
    return false;
  }
  for (std::size_t i = 0; i < a.size(); ++i) {
    if (a[i].real() != b[i].real() || a[i].imag() != b[i].imag()) {
      return false;
    }
  }
  return true;
}

template <typename F, typename S>
void verify(pbt::Case& c, Spec const& s, S const& spec) {
  // the table of Bessel poles and the constants of the Chebyshev designs have
  // the digits of a double
  ld const eps = s.family == BUTTER ? eps_of<F>() : std::max<ld>(eps_of<F>(), eps_of<double>());
  Zpk const ref = prototype(s);
  std::size_t const n = static_cast<std::size_t>(s.order);
  // the poles of the Chebyshev prototypes depend on the ripple and are
  // computed as sums of values of the order of cosh(mu)
  ld const e2 = s.family == CHEBY1 || s.family == CHEBY2 ? std::expm1(std::log(10.0L) * s.param / 10) : 1;
  ld const mu = s.family == CHEBY1   ? std::asinh(1 / std::sqrt(e2)) / n
                : s.family == CHEBY2 ? std::asinh(std::sqrt(e2)) / n
                                     : 0;
  ld const cond = (4 + param_condition(s)) * (1 + mu);
  auto const tolerance = [&](lc const& x) {
    ld const a = std::abs(x);
    // reciprocals in Chebyshev II: the absolute error of 1/x
    return kSlack * eps * cond * (s.family == CHEBY2 ? a + a * a * std::cosh(mu) : a + std::cosh(mu));
  };
  std::vector<ld> tp, tz;
  ld rel = 0;
  for (auto const& x : ref.p) {
    tp.push_back(tolerance(x));
    rel += tp.back() / std::abs(x);
  }
  for (auto const& x : ref.z) {
    ld const a = std::abs(x);
    tz.push_back(kSlack * eps * (a + a * a));
    rel += tz.back() / std::abs(x);
  }
  auto const poles = spec.poles();
  auto const zeros = spec.zeros();
  same_roots(c, poles, ref.p, tp, "poles");
  same_roots(c, zeros, ref.z, tz, "zeros");
  PBT_CHECK(c, rel < 0.5L || sizeof(F) == 4, "harness: no digits left");
  if (rel < 0.5L) {
    // |H(0)| is the gain in the limit of low frequencies
    lc h = ref.g;
    for (auto const& x : ref.p) {
      h *= -x;
    }
    for (auto const& x : ref.z) {
      h /= -x;
    }
    ld const g = static_cast<ld>(spec.gain());
    ld const t = std::fabs(h.real()) * (2 * rel + kSlack * eps * (static_cast<ld>(n) + cond));
    PBT_CHECK(c, std::fabs(g - h.real()) <= t, "the gain is %.17Lg instead of %.17Lg (tolerance %.3Lg)", g, h.real(), t);
  }
  // the combination reports the same values
  auto const zpk = spec.zpk();
  PBT_CHECK(c, equal<F>(zpk.poles(), poles) && equal<F>(zpk.zeros(), zeros) && zpk.gain() == spec.gain(),
            "zpk() differs from poles(), zeros() and gain()");
  ld const rf = ripple_factor(spec, 0);
  PBT_CHECK(c, (rf >= 0) == (s.family == CHEBY1 || s.family == CHEBY2), "ripple factor");
  if (rf >= 0) {
    ld const want = s.family == CHEBY1 ? std::sqrt(e2) : 1 / std::sqrt(e2);
    PBT_CHECK(c, std::fabs(rf - want) <= kSlack * eps * want * (1 + param_condition(s)),
              "ripple factor %.17Lg instead of %.17Lg", rf, want);
  }
}

template <typename F, int Fam, std::size_t N>
void checked(pbt::Case& c) {
  Spec s;
  s.family = Fam;
  s.order = static_cast<int>(N);
  gen_param(c, s);
  using PF = typename std::conditional<std::is_same<F, float>::value, float,
                                       typename std::conditional<std::is_same<F, double>::value, double, ld>::type>::type;
  s.param = static_cast<ld>(static_cast<PF>(s.param));
  if (sizeof(F) == 4) { // pow(10, x / 10) has to leave some digits
    s.param = static_cast<PF>(std::min<ld>(s.param, 120));
  }
  c.trace("%s<%d> in %s, param %.17Lg\n", family_name(Fam), s.order, Name<F>::get(), s.param);
  auto const p = Proto<Fam, N, PF>::make(static_cast<PF>(s.param));
  PBT_CHECK(c, p.order() == N, "order() is %zu", static_cast<std::size_t>(p.order()));
  verify<F>(c, s, p.template spec<F>());
  if (N > 1) {
    c.nontrivial();
  }
}

template <int Fam, std::size_t N>
struct AnyType {
  static void run(pbt::Case& c) {
    switch (c.draw(3)) {
    case 0:
      return checked<double, Fam, N>(c);
    case 1:
      return checked<ld, Fam, N>(c);
    default:
      return checked<float, Fam, N>(c);
    }
  }
};

void low(pbt::Case& c) { any_order<AnyType, SHARD, 1>(c, embedded::make_index_sequence<16>{}); }
void high(pbt::Case& c) {
  switch (c.draw(5)) {
  case 0: return AnyType<SHARD, 19>::run(c);
  case 1: return AnyType<SHARD, 24>::run(c);
  case 2: return AnyType<SHARD, 31>::run(c);
  case 3: return AnyType<SHARD, 40>::run(c);
  default: return AnyType<SHARD, 49>::run(c);
  }
}
PBT_REGISTER(orders_1_16, &low, 20000, 1000000);
PBT_REGISTER(high_orders, &high, 5000, 200000);

} // namespace
