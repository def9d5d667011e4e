// Shared parts of the filter checks: design specifications, the analytic
// reference and type-erased designs.
#pragma once

#include <algorithm>
#include <cmath>
#include <complex>
#include <limits>
#include <type_traits>
#include <vector>

#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>

#include "bessel_ref.h"
#include "pbt.h"

namespace es = embedded::signal;

typedef long double ld;
typedef std::complex<long double> lc;

enum Family { BUTTER, CHEBY1, CHEBY2, BESSEL };
inline char const* family_name(int f) {
  static char const* const n[] = {"butterworth", "chebyshev1", "chebyshev2",
                                  "bessel"};
  return n[f];
}

struct Spec {
  int family{BUTTER};
  int order{1};
  bool hp{false};
  ld fs{1}, fc{0.25};
  ld param{1}; // ripple or attenuation in dB
};

// --- the library's prototypes ---------------------------------------------------

// PF: type of the ripple or attenuation
template <int Fam, std::size_t N, typename PF = double>
struct Proto;
template <std::size_t N, typename PF>
struct Proto<BUTTER, N, PF> {
  static constexpr es::butterworth<N> make(PF) { return es::butterworth<N>(); }
};
template <std::size_t N, typename PF>
struct Proto<CHEBY1, N, PF> {
  static constexpr es::chebyshev1<N, PF> make(PF p) {
    return es::chebyshev1<N, PF>(p);
  }
};
template <std::size_t N, typename PF>
struct Proto<CHEBY2, N, PF> {
  static constexpr es::chebyshev2<N, PF> make(PF p) {
    return es::chebyshev2<N, PF>(p);
  }
};
template <std::size_t N, typename PF>
struct Proto<BESSEL, N, PF> {
  static constexpr es::bessel<N> make(PF) { return es::bessel<N>(); }
};
template <typename T>
struct ParamOf { // no narrowing into T
  using type = double;
};
template <>
struct ParamOf<float> {
  using type = float;
};

// the base design of a specification, computed in T
template <int Fam, std::size_t N, typename T>
typename es::iirfilter<T>::template design<N> base_design(Spec const& s) {
  es::iirfilter<T> const f(static_cast<T>(s.fs));
  using PF = typename ParamOf<T>::type;
  auto const p = Proto<Fam, N, PF>::make(static_cast<PF>(s.param));
  return s.hp ? f.highpass(p, static_cast<T>(s.fc))
              : f.lowpass(p, static_cast<T>(s.fc));
}

struct Section {
  ld b[3], a[3];
};

struct Designed {
  std::vector<Section> first, dist; // both gain modes
  std::vector<ld> b, a;             // polynomial
};

template <typename F, std::size_t N>
std::vector<Section> sections(es::sos_design<F, N> const& d) {
  std::vector<Section> r;
  for (std::size_t i = 0; i < d.size(); ++i) {
    Section s;
    auto const& x = d.sos()[i];
    for (std::size_t k = 0; k < 3; ++k) {
      s.b[k] = static_cast<ld>(x.b()[k]);
      s.a[k] = static_cast<ld>(x.a()[k]);
    }
    r.push_back(s);
  }
  return r;
}

template <typename F, std::size_t N>
void coefficients(es::poly_design<F, N> const& d, std::vector<ld>& b,
                  std::vector<ld>& a) {
  for (std::size_t i = 0; i <= N; ++i) {
    b.push_back(static_cast<ld>(d.b()[i]));
    a.push_back(static_cast<ld>(d.a()[i]));
  }
}

template <typename F, typename D>
Designed collect(D const& base) {
  Designed r;
  auto const f = base.template sos<F>(es::sos_gain::first_section);
  auto const g = base.template sos<F>(es::sos_gain::distribute);
  auto const p = base.template poly<F>();
  r.first = sections(f);
  r.dist = sections(g);
  coefficients(p, r.b, r.a);
  return r;
}

template <int Fam, std::size_t N, typename T, typename F>
Designed run_design(Spec const& s) {
  return collect<F>(base_design<Fam, N, T>(s));
}

// --- the analytic reference --------------------------------------------------------

struct Zpk {
  std::vector<lc> z, p;
  std::vector<lc> dz, dp; // distances to the end that passes, not cancelled
  ld g{1};
};

inline ld pi_l() { return std::acos(-1.0L); }

// analog prototype, cutoff at 1 rad/s (as specified: Butterworth -3 dB,
// Chebyshev I end of the ripple band, Chebyshev II begin of the stop band)
inline Zpk prototype(Spec const& s) {
  Zpk r;
  int const n = s.order;
  ld const pi = pi_l();
  if (s.family == BESSEL) {
    for (int i = bessel_off[n - 1]; i < bessel_off[n]; ++i) {
      r.p.push_back(lc(bessel_ref[i].re, bessel_ref[i].im));
      if (bessel_ref[i].im != 0) {
        r.p.push_back(lc(bessel_ref[i].re, -bessel_ref[i].im));
      }
    }
    return r;
  }
  ld const e2 = std::expm1(std::log(10.0L) * s.param / 10);
  ld sh = 1, ch = 1;
  if (s.family == CHEBY1) {
    ld const mu = std::asinh(1 / std::sqrt(e2)) / n;
    sh = std::sinh(mu);
    ch = std::cosh(mu);
  } else if (s.family == CHEBY2) {
    ld const mu = std::asinh(std::sqrt(e2)) / n;
    sh = std::sinh(mu);
    ch = std::cosh(mu);
  }
  for (int k = 0; k < n; ++k) {
    int const m = 2 * k + 1 - n;
    ld const th = pi * m / (2 * n);
    // the middle pole is exactly real
    ld const si = m == 0 ? 0 : std::sin(th), co = std::cos(th);
    lc const q(-sh * co, -ch * si);
    r.p.push_back(s.family == CHEBY2 ? 1.0L / q : q);
    if (s.family == CHEBY2 && m != 0) {
      r.z.push_back(lc(0, 1 / si));
    }
  }
  if (s.family == CHEBY1 && n % 2 == 0) {
    r.g = 1 / std::sqrt(1 + e2);
  }
  return r;
}

// 2 x / sin(2 x): how much relative errors of the ratio get amplified
inline ld warp_condition(Spec const& s) {
  ld const x = pi_l() * s.fc / s.fs;
  return 2 * x / std::sin(2 * x);
}

// relative error of the ripple factor sqrt(10^(r/10) - 1), in rounding errors
inline ld param_condition(Spec const& s) {
  if (s.family != CHEBY1 && s.family != CHEBY2) {
    return 0;
  }
  ld const e2 = std::expm1(std::log(10.0L) * s.param / 10);
  return (1 + e2) / (2 * e2);
}

// z-plane zeros and poles; g is the gain at the end that passes (z = 1 or -1)
inline Zpk digital(Spec const& s) {
  Zpk const a = prototype(s);
  ld const w = std::tan(pi_l() * s.fc / s.fs);
  Zpk r;
  r.g = a.g;
  auto const map = [&](lc const& x, std::vector<lc>& to, std::vector<lc>& d) {
    lc const y = s.hp ? w / x : w * x;
    to.push_back((1.0L + y) / (1.0L - y));
    d.push_back(s.hp ? -2.0L / (1.0L - y) : -2.0L * y / (1.0L - y));
  };
  for (auto const& x : a.p) {
    map(x, r.p, r.dp);
  }
  for (auto const& x : a.z) {
    map(x, r.z, r.dz);
  }
  while (r.z.size() < r.p.size()) {
    r.z.push_back(s.hp ? 1.0L : -1.0L);
    r.dz.push_back(s.hp ? -2.0L : 2.0L);
  }
  return r;
}

// e^(j 2 pi f / fs), exact at 0, fs/4 and fs/2
inline lc on_circle(ld f, ld fs) {
  ld const x = f / fs;
  if (x == 0.5L) {
    return -1.0L;
  }
  if (x == 0.25L) {
    return lc(0, 1);
  }
  return std::polar(1.0L, 2 * pi_l() * x);
}

inline lc response(Zpk const& r, lc const& z) {
  lc h = r.g;
  for (std::size_t i = 0; i < r.p.size(); ++i) {
    h *= (z - r.z[i]) / r.dz[i] * (r.dp[i] / (z - r.p[i]));
  }
  return h;
}

// leading coefficient of the numerator
inline ld leading(Zpk const& r) {
  lc h = r.g;
  for (std::size_t i = 0; i < r.p.size(); ++i) {
    h *= r.dp[i] / r.dz[i];
  }
  return h.real();
}

// Polynomial with the given roots, and how far its coefficients can be off, in
// units of rounding errors, if the roots are (each by about 1) and the products.
inline void expand(std::vector<lc> const& roots, std::vector<ld>& c,
                   std::vector<ld>& bound) {
  std::vector<lc> p(1, 1.0L);
  bound.assign(1, 1.0L);
  for (auto const& r : roots) {
    p.push_back(0);
    bound.push_back(0);
    for (std::size_t i = p.size() - 1; i > 0; --i) {
      p[i] -= r * p[i - 1];
      bound[i] += std::abs(r) * bound[i - 1];
    }
  }
  // sum over i of prod over j != i of (x + |r_j|) is the derivative
  std::size_t const n = roots.size();
  for (std::size_t k = n; k > 0; --k) {
    bound[k] = static_cast<ld>(n) * bound[k] +
               static_cast<ld>(n - k + 1) * bound[k - 1];
  }
  bound[0] *= static_cast<ld>(n);
  c.clear();
  for (auto const& x : p) {
    c.push_back(x.real());
  }
}

// Magnitude from the textbook formulas (not from poles and zeros). v is the
// frequency relative to the cutoff on the warped axis.
inline ld closed_form(Spec const& s, ld f) {
  ld const pi = pi_l();
  ld const x = pi * f / s.fs;
  ld const t = std::tan(pi * s.fc / s.fs);
  bool const top = 2 * f >= s.fs;
  ld v;
  if (s.hp) {
    v = top ? 0 : t / std::tan(x); // f = 0: infinite
  } else {
    v = top ? std::numeric_limits<ld>::infinity() : std::tan(x) / t;
  }
  int const n = s.order;
  auto const cheb = [&](ld y) -> ld { // |T_n(y)|
    if (y < 0.5L) { // no cancellation next to zero
      ld const x = n * std::asin(y);
      return std::fabs(n % 2 != 0 ? std::sin(x) : std::cos(x));
    }
    return y <= 1 ? std::fabs(std::cos(n * std::acos(y)))
                  : std::cosh(n * std::acosh(y));
  };
  ld const e2 = std::expm1(std::log(10.0L) * s.param / 10);
  switch (s.family) {
  case BUTTER:
    return 1 / std::sqrt(1 + std::pow(v, 2 * n));
  case CHEBY1: {
    ld const c = std::isinf(v) ? v : cheb(v);
    return 1 / std::sqrt(1 + e2 * c * c);
  }
  case CHEBY2: {
    if (v == 0) {
      return 1;
    }
    ld const c = cheb(1 / v);
    // 1 / sqrt(1 + e2/c^2)
    return c / std::sqrt(c * c + e2);
  }
  default: { // |theta_n(0) / theta_n(j v w0)| by the recurrence
    if (std::isinf(v)) {
      return 0;
    }
    ld la0 = 0;
    for (int k = 1; k <= n; ++k) {
      la0 += std::log(static_cast<ld>(2 * k - 1));
    }
    lc const y(0, v * std::exp(la0 / n));
    lc q0 = 1, q1 = y + 1.0L;
    ld scale = 0;
    for (int k = 2; k <= n; ++k) {
      lc const q2 = static_cast<ld>(2 * k - 1) * q1 + y * y * q0;
      q0 = q1;
      q1 = q2;
      ld const m = std::abs(q1) + std::abs(q0);
      if (m > 1e200L) {
        q0 /= m;
        q1 /= m;
        scale += std::log(m);
      }
    }
    return std::exp(la0 - scale - std::log(std::abs(q1)));
  }
  }
}

// --- generation ---------------------------------------------------------------------

struct Limits {
  ld lo{0.002L}, hi{0.498L}; // cutoff relative to the sample rate
};

// what an order and precision admit; every third case includes very narrow bands
// (in single precision products of the large poles of type II overflow)
inline Limits draw_limits(pbt::Case& c, int family, std::size_t n, bool single) {
  Limits l;
  if (c.draw(3) == 0 && !(single && family == CHEBY2)) {
    l.lo = single ? 0.002L : n <= 8 ? 1e-6L : n <= 22 ? 1e-4L : 1e-3L;
    l.hi = single ? 0.498L : n <= 8 ? 0.5L - 1e-5L : n <= 22 ? 0.4995L : 0.498L;
  } else if (single) {
    l.lo = 0.02L;
    l.hi = 0.48L;
  } else if (n > 12) {
    l.lo = 0.004L;
    l.hi = 0.496L;
  }
  return l;
}

inline void gen_frequencies(pbt::Case& c, Spec& s, Limits const& l) {
  switch (c.weighted({4, 3, 2})) {
  case 0:
    s.fs = c.pick<double>({1, 2, 1000, 8000, 44100, 48000, 0.5, 3e6});
    break;
  case 1:
    s.fs = static_cast<double>(c.range(1, 200000));
    break;
  default:
    s.fs = std::pow(10.0, c.real(-3, 7));
  }
  ld r;
  switch (c.weighted({3, 5, 3, 2})) {
  case 0:
    r = c.pick<double>({0.04, 0.25, 0.125, 0.1, 0.01, 0.45, 0.3, 0.375});
    break;
  case 1:
    r = c.real(static_cast<double>(l.lo), static_cast<double>(l.hi));
    break;
  case 2: // low end, logarithmic
    r = static_cast<double>(l.lo) *
        std::pow(static_cast<double>(0.25L / l.lo), c.unit());
    break;
  default: // high end
    r = 0.5 - static_cast<double>(0.5L - l.hi) *
                  std::pow(static_cast<double>(0.25L / (0.5L - l.hi)), c.unit());
  }
  r = std::min(std::max(r, l.lo), l.hi);
  s.fc = static_cast<double>(r * s.fs);
}

inline void gen_param(pbt::Case& c, Spec& s) {
  if (s.family == CHEBY1) {
    s.param = c.flip() ? c.pick<double>({1, 0.1, 0.5, 3, 6, 0.01})
              : c.chance(2, 3) ? c.real(0.01, 12) : std::pow(10.0, c.real(-4, 1.6));
  } else if (s.family == CHEBY2) {
    s.param = c.flip() ? c.pick<double>({20, 80, 40, 60, 10, 30, 120, 150, 180})
                       : c.flip() ? c.real(3, 100)
                       : c.chance(2, 3) ? c.real(0.5, 200) : std::pow(10.0, c.real(-2, 2.3));
    // low orders reach a high attenuation only with poles next to z = 1
    s.param = std::min<ld>(s.param, 60 + 40 * s.order);
  } else {
    s.param = 0;
  }
}

inline void describe(pbt::Case& c, Spec const& s, char const* types) {
  c.trace("%s<%d> %s fs=%.17Lg fc=%.17Lg (ratio %.6Lg) param=%.17Lg %s\n",
          family_name(s.family), s.order, s.hp ? "highpass" : "lowpass", s.fs,
          s.fc, s.fc / s.fs, s.param, types);
}

// float types round the specification itself
template <typename T>
inline void round_spec(Spec& s) {
  s.fs = static_cast<ld>(static_cast<T>(s.fs));
  s.fc = static_cast<ld>(static_cast<T>(s.fc));
  s.param = static_cast<ld>(static_cast<typename ParamOf<T>::type>(s.param));
}

template <typename T>
inline ld eps_of() {
  return std::numeric_limits<T>::epsilon();
}

// --- dispatch over orders -------------------------------------------------------------

// G<Fam, N>::run(c) for a drawn order; shard k of a check covers family k % 4,
// orders 1..12 (k < 4) or a sample of higher ones
template <template <int, std::size_t> class G, int Fam, std::size_t First,
          std::size_t... I>
void any_order(pbt::Case& c, embedded::index_sequence<I...>) {
  using Fn = void (*)(pbt::Case&);
  static Fn const t[] = {&G<Fam, First + I>::run...};
  t[c.draw(sizeof...(I))](c);
}
template <template <int, std::size_t> class G, int Shard>
void sharded(pbt::Case& c) {
  using Fn = void (*)(pbt::Case&);
  if (Shard < 4) {
    any_order<G, Shard % 4, 1>(c, embedded::make_index_sequence<12>{});
  } else {
    static Fn const t[] = {
        &G<Shard % 4, Shard < 4 ? 1 : 13>::run,
        &G<Shard % 4, Shard < 4 ? 1 : 16>::run,
        &G<Shard % 4, Shard < 4 ? 1 : 19>::run,
        &G<Shard % 4, Shard < 4 ? 1 : 24>::run,
        &G<Shard % 4, Shard < 4 ? 1 : 35>::run,
    };
    t[c.draw(5)](c);
  }
}
