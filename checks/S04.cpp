// S04: every designed filter is stable and well-formed.
#include "signal_common.h"

#include <array>

#ifndef SHARD
#define SHARD 0
#endif

namespace {

// largest pole modulus of z^2 + a1 z + a2
ld pole_modulus(Section const& s) {
  ld const a1 = s.a[1], a2 = s.a[2];
  ld const disc = a1 * a1 / 4 - a2;
  if (disc < 0) {
    return std::sqrt(a2);
  }
  return std::fabs(a1) / 2 + std::sqrt(disc);
}

void check_sections(pbt::Case& c, Spec const& s, std::vector<Section> const& v,
                    ld eps, char const* what, ld& modulus) {
  std::size_t const n = static_cast<std::size_t>(s.order);
  PBT_CHECK(c, v.size() == (n + 1) / 2, "%s: %zu sections", what, v.size());
  std::size_t first_a = 0, first_b = 0;
  Zpk const ref = digital(s);
  ld margin = 1; // smallest distance of an analytic pole from the circle
  for (auto const& p : ref.p) {
    margin = std::min(margin, 1 - std::abs(p));
  }
  for (std::size_t i = 0; i < v.size(); ++i) {
    auto const& q = v[i];
    for (int k = 0; k < 3; ++k) {
      PBT_CHECK(c, std::isfinite(q.b[k]) && std::isfinite(q.a[k]),
                "%s: section %zu has a coefficient that is not finite", what, i);
    }
    PBT_CHECK(c, q.a[0] == 1, "%s: section %zu: a0 is %Lg", what, i, q.a[0]);
    PBT_CHECK(c, q.b[0] != 0, "%s: section %zu: b0 is zero", what, i);
    // strictly inside the unit circle (Jury), unless rounding to the output
    // type alone may put the pole on it
    if (margin * margin > 16 * eps) {
      PBT_CHECK(c,
                std::fabs(q.a[2]) < 1 && std::fabs(q.a[1]) < 1 + q.a[2],
                "%s: section %zu is unstable: a1=%.17Lg a2=%.17Lg", what, i,
                q.a[1], q.a[2]);
      modulus = std::max(modulus, pole_modulus(q));
    } else {
      PBT_LABEL("poles within rounding of the unit circle");
    }
    first_a += q.a[2] == 0;
    first_b += q.b[2] == 0;
  }
  PBT_CHECK(c, first_a == n % 2 && first_b == n % 2,
            "%s: %zu denominators and %zu numerators of first order for order "
            "%zu",
            what, first_a, first_b, n);
}

// response of an instance to an impulse and to bounded noise
template <typename D>
void check_decay(pbt::Case& c, Spec const& s, D const& d, ld modulus,
                 char const* what) {
  using F = typename std::decay<decltype(d.instance())>::type::value_type;
  // steps until the slowest pole has decayed by 1e-3 for each order
  ld const per = std::log(1e-3L) / std::log(std::min(modulus, 0.9999L));
  ld const want = (per + 50) * (1 + s.order / 3.0L);
  if (!(want < 6000)) {
    return;
  }
  std::size_t const steps = static_cast<std::size_t>(want) + 20;
  auto inst = d.instance();
  std::vector<ld> h;
  for (std::size_t i = 0; i < steps; ++i) {
    F const y = inst(i == 0 ? F{1} : F{0});
    PBT_CHECK(c, std::isfinite(y), "%s: impulse response not finite", what);
    h.push_back(static_cast<ld>(y));
  }
  ld peak = 0, tail = 0, sum = 0;
  for (std::size_t i = 0; i < steps; ++i) {
    peak = std::max(peak, std::fabs(h[i]));
    sum += std::fabs(h[i]);
    if (i >= steps - 10) {
      tail = std::max(tail, std::fabs(h[i]));
    }
  }
  PBT_CHECK(c, peak > 0, "%s: no response", what);
  // sum h = H(1): 1 for lowpass, up to the ripple
  PBT_CHECK(c, tail <= peak * 1e-2L,
            "%s: impulse response does not decay: %.3Lg after %zu steps, peak "
            "%.3Lg",
            what, tail, steps, peak);
  auto noisy = d.instance();
  ld const bound = sum * 1.02L + tail * static_cast<ld>(steps) * 0.1L;
  bool const alt = c.flip();
  for (std::size_t i = 0; i < std::min<std::size_t>(steps, 400); ++i) {
    // signs that add up as much as possible, or alternate
    F const x = alt ? (i % 2 ? F{-1} : F{1})
                    : (h[(400 - i) % steps] < 0 ? F{-1} : F{1});
    ld const y = static_cast<ld>(noisy(x));
    PBT_CHECK(c, std::fabs(y) <= bound, "%s: bounded input, output %Lg > %Lg",
              what, y, bound);
  }
  PBT_LABEL("impulse and bounded response simulated");
}

template <int Fam, std::size_t N, typename T, typename F>
void well_formed(pbt::Case& c) {
  Spec s;
  s.family = Fam;
  s.order = static_cast<int>(N);
  s.hp = c.flip();
  Limits const l = draw_limits(c, Fam, N, eps_of<F>() > 1e-10L || eps_of<T>() > 1e-10L);
  gen_frequencies(c, s, l);
  gen_param(c, s);
  round_spec<T>(s);
  describe(c, s, eps_of<F>() > 1e-10L ? "(single)" : "");
  auto const base = base_design<Fam, N, T>(s);
  auto const f = base.template sos<F>();
  auto const g = base.template sos<F>(es::sos_gain::distribute);
  auto const p = base.template poly<F>();
  static_assert(decltype(f)::order() == N && decltype(p)::order() == N, "order");
  static_assert(decltype(f)::size() == (N + 1) / 2, "size");
  ld const eps = std::max(eps_of<F>(), eps_of<T>());
  ld modulus = 0;
  check_sections(c, s, sections(f), eps, "first_section", modulus);
  ld m2 = 0;
  check_sections(c, s, sections(g), eps, "distribute", m2);
  std::vector<ld> b, a;
  coefficients(p, b, a);
  PBT_CHECK(c, a[0] == 1, "polynomial: a0 is %Lg", a[0]);
  for (std::size_t i = 0; i <= N; ++i) {
    PBT_CHECK(c, std::isfinite(a[i]) && std::isfinite(b[i]),
              "polynomial: coefficient %zu is not finite", i);
  }
  // the highest one is the product of all poles, not zero
  PBT_CHECK(c, b[0] != 0, "polynomial: b0 is zero");
  if (modulus > 0) {
    check_decay(c, s, f, modulus, "first_section");
    if (c.flip()) {
      check_decay(c, s, g, modulus, "distribute");
    }
    // the direct form is much more sensitive: low orders only
    if (N <= 3 && eps < 1e-10L) {
      check_decay(c, s, p, modulus, "polynomial");
    }
  }
  if (N > 1) {
    c.nontrivial();
  }
}

template <int Fam, std::size_t N>
struct InDouble {
  static void run(pbt::Case& c) { well_formed<Fam, N, double, double>(c); }
};
template <int Fam, std::size_t N>
struct InFloat {
  static void run(pbt::Case& c) { well_formed<Fam, N, double, float>(c); }
};

#if SHARD < 4
PBT_REGISTER(orders_1_12, (&sharded<InDouble, SHARD>), 20000, 700000);
void single(pbt::Case& c) {
  any_order<InFloat, SHARD, 1>(c, embedded::make_index_sequence<8>{});
}
PBT_REGISTER(to_float, &single, 8000, 250000);
#else
PBT_REGISTER(orders_13_35, (&sharded<InDouble, SHARD>), 2500, 100000);
#endif

} // namespace
