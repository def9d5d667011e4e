// S05: polynomial, section and gain-mode representations are equivalent.
#include "signal_common.h"

#ifndef SHARD
#define SHARD 0
#endif

namespace {

constexpr ld kSlack = 64;

std::vector<ld> product(std::vector<Section> const& v, bool num) {
  std::vector<ld> p(1, 1.0L);
  for (auto const& s : v) {
    ld const* const q = num ? s.b : s.a;
    std::vector<ld> r(p.size() + 2, 0.0L);
    for (std::size_t i = 0; i < p.size(); ++i) {
      for (std::size_t k = 0; k < 3; ++k) {
        r[i + k] += p[i] * q[k];
      }
    }
    p = r;
  }
  return p;
}

void compare(pbt::Case& c, std::vector<ld> const& got,
             std::vector<ld> const& want, std::vector<ld> const& bound, ld unit,
             char const* what) {
  for (std::size_t i = 0; i < got.size(); ++i) {
    ld const w = i < want.size() ? want[i] : 0;
    ld const t = i < bound.size() ? bound[i] * unit : 0;
    PBT_CHECK(c, std::fabs(got[i] - w) <= t,
              "%s: coefficient %zu of the product of the sections is %.17Lg, of "
              "the polynomial %.17Lg (tolerance %.3Lg)",
              what, i, got[i], w, t);
  }
}

void structure(pbt::Case& c, Designed const& d, ld eps, ld gain, ld tol) {
  std::size_t const m = d.first.size();
  // first_section: the whole gain is in the first section
  for (std::size_t i = 1; i < m; ++i) {
    PBT_CHECK(c, std::fabs(d.first[i].b[0] - 1) <= 4 * eps,
              "first_section: b0 of section %zu is %.17Lg", i, d.first[i].b[0]);
  }
  PBT_CHECK(c, std::fabs(d.first[0].b[0] - gain) <= tol,
            "first_section: b0 of the first section is %.17Lg, total gain %.17Lg",
            d.first[0].b[0], gain);
  ld lo = d.dist[0].b[0], hi = lo;
  for (auto const& s : d.dist) {
    lo = std::min(lo, s.b[0]);
    hi = std::max(hi, s.b[0]);
  }
  PBT_CHECK(c, hi - lo <= 8 * eps * std::fabs(hi),
            "distribute: b0 between %.17Lg and %.17Lg", lo, hi);
  PBT_CHECK(c, lo > 0, "distribute: b0 is %.17Lg", lo);
  // the modes differ in nothing but the gain
  for (std::size_t i = 0; i < m; ++i) {
    for (int k = 0; k < 3; ++k) {
      PBT_CHECK(c, d.first[i].a[k] == d.dist[i].a[k],
                "denominator of section %zu depends on the gain mode", i);
      ld const x = d.first[i].b[k] / d.first[i].b[0],
               y = d.dist[i].b[k] / d.dist[i].b[0];
      PBT_CHECK(c, std::fabs(x - y) <= 16 * eps * (1 + std::fabs(x)),
                "numerator of section %zu depends on the gain mode", i);
    }
  }
}

void rounded(pbt::Case& c, std::vector<Section> const& wide,
             std::vector<Section> const& narrow, ld eps, char const* what) {
  PBT_CHECK(c, wide.size() == narrow.size(), "number of sections");
  for (std::size_t i = 0; i < wide.size(); ++i) {
    for (int k = 0; k < 3; ++k) {
      PBT_CHECK(c,
                std::fabs(wide[i].b[k] - narrow[i].b[k]) <=
                        eps * std::fabs(wide[i].b[k]) &&
                    std::fabs(wide[i].a[k] - narrow[i].a[k]) <=
                        eps * std::fabs(wide[i].a[k]),
                "%s: section %zu differs by more than rounding: b[%d] %.17Lg / "
                "%.17Lg, a[%d] %.17Lg / %.17Lg",
                what, i, k, wide[i].b[k], narrow[i].b[k], k, wide[i].a[k],
                narrow[i].a[k]);
    }
  }
}

template <int Fam, std::size_t N, typename T>
void equivalent(pbt::Case& c) {
  Spec s;
  s.family = Fam;
  s.order = static_cast<int>(N);
  s.hp = c.flip();
  Limits const l = draw_limits(c, Fam, N, eps_of<T>() > 1e-10L);
  gen_frequencies(c, s, l);
  gen_param(c, s);
  round_spec<T>(s);
  describe(c, s, "");
  auto const base = base_design<Fam, N, T>(s);
  Designed const d = collect<T>(base);
  Zpk const ref = digital(s);
  std::vector<ld> dummy, bb, ba;
  expand(ref.z, dummy, bb);
  expand(ref.p, dummy, ba);
  ld const u = kSlack * eps_of<T>();
  ld const g = std::fabs(d.b[0]);
  compare(c, product(d.first, false), d.a, ba, u, "denominator (first_section)");
  compare(c, product(d.dist, false), d.a, ba, u, "denominator (distribute)");
  compare(c, product(d.first, true), d.b, bb, u * g, "numerator (first_section)");
  // the n-th root of the gain, raised to n again
  ld const lg = 1 + std::fabs(std::log(g));
  compare(c, product(d.dist, true), d.b, bb, u * g * lg, "numerator (distribute)");
  structure(c, d, eps_of<T>(), d.b[0], u * g);

  // the default mode is first_section
  rounded(c, d.first, sections(base.template sos<T>()), 0, "default mode");

  // output types
  Designed const f = collect<float>(base);
  ld const ef = eps_of<float>();
  bool const fits = g > 1e-30L; // away from single precision underflow
  bool dist_fits = true; // the sections may fit where the whole gain does not
  for (auto const& q : d.dist) {
    for (int k = 0; k < 3; ++k) {
      dist_fits = dist_fits && (q.b[k] == 0 || std::fabs(q.b[k]) > 1e-30L) &&
                  (q.a[k] == 0 || std::fabs(q.a[k]) > 1e-30L);
    }
  }
  if (dist_fits) {
    rounded(c, d.dist, f.dist, ef, "float, distribute");
    if (!fits) {
      PBT_LABEL("only the distributed gain fits into float");
    }
  }
  if (fits) {
    rounded(c, d.first, f.first, ef, "float, first_section");
    for (std::size_t i = 0; i <= N; ++i) {
      PBT_CHECK(c,
                std::fabs(f.a[i] - d.a[i]) <= ef * std::fabs(d.a[i]) + 1e-37L &&
                    std::fabs(f.b[i] - d.b[i]) <=
                        ef * std::fabs(d.b[i]) + 1e-37L,
                "float: coefficient %zu of the polynomial: b %.17Lg / %.17Lg, a "
                "%.17Lg / %.17Lg",
                i, d.b[i], f.b[i], d.a[i], f.a[i]);
    }
  }
  if (N > 1) {
    c.nontrivial();
  }
}

template <int Fam, std::size_t N>
struct InDouble {
  static void run(pbt::Case& c) { equivalent<Fam, N, double>(c); }
};
template <int Fam, std::size_t N>
struct InOther {
  static void run(pbt::Case& c) {
    if (c.flip()) {
      equivalent<Fam, N, long double>(c);
    } else {
      equivalent<Fam, N, float>(c);
    }
  }
};

#if SHARD < 4
PBT_REGISTER(orders_1_12, (&sharded<InDouble, SHARD>), 60000, 2000000);
void other(pbt::Case& c) {
  any_order<InOther, SHARD, 1>(c, embedded::make_index_sequence<5>{});
}
PBT_REGISTER(other_types, &other, 20000, 600000);
#else
PBT_REGISTER(orders_13_35, (&sharded<InDouble, SHARD>), 8000, 250000);
#endif

} // namespace
