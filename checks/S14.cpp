// S14: a prototype written by the user is designed as what it is.
#include <array>

#include "custom_proto.h"

#ifndef SHARD
#define SHARD 0
#endif

namespace {

constexpr ld kSlack = 16;

std::vector<ld> product(std::vector<Section> const& v, bool num) {
  std::vector<ld> p(1, 1.0L);
  for (auto const& s : v) {
    ld const* const q = num ? s.b : s.a;
    std::vector<ld> r(p.size() + 2, 0.0L);
    for (std::size_t i = 0; i < p.size(); ++i) {
      for (std::size_t k = 0; k < 3; ++k) {
        r[i + k] += p[i] * q[k];
      }
    }
    p = r;
  }
  return p;
}

ld worst = 0;

void compare(pbt::Case& c, std::vector<ld> const& got, std::vector<ld> const& want, std::vector<ld> const& bound,
             ld unit, ld scale, char const* what) {
  for (std::size_t i = 0; i < got.size(); ++i) {
    ld const w = i < want.size() ? scale * want[i] : 0;
    ld const t = i < bound.size() ? bound[i] * unit * std::fabs(scale) : 0;
    ld const e = std::fabs(got[i] - w);
    if (t > 0) {
      worst = std::max(worst, e / t);
    }
    PBT_CHECK(c, e <= t, "%s: coefficient %zu is %.17Lg instead of %.17Lg (tolerance %.3Lg)", what, i, got[i], w, t);
  }
}

// roots next to 0 are known as well as others, no better
void bounded(std::vector<lc> const& roots, ld u, std::vector<ld>& v, std::vector<ld>& bound) {
  std::vector<lc> wide;
  for (auto const& r : roots) {
    wide.push_back(std::abs(r) + u);
  }
  expand(wide, v, bound);
  std::vector<ld> unused;
  expand(roots, v, unused);
}

template <std::size_t Zn, std::size_t Pn, typename T>
void custom_case(pbt::Case& c) {
  Spec s;
  s.order = static_cast<int>(Pn);
  s.hp = c.flip();
  Limits l;
  bool const single = eps_of<T>() > 1e-10L;
  l.lo = single ? 0.01L : 0.001L;
  l.hi = 0.5L - l.lo;
  gen_frequencies(c, s, l);
  round_spec<T>(s);
  c.trace("%s of %zu zeros and %zu poles, fs=%.17Lg fc=%.17Lg\n", s.hp ? "highpass" : "lowpass", Zn, Pn, s.fs, s.fc);
  CustomRef ref;
  auto const a = gen_custom<Zn, Pn, T>(c, s, c.chance(1, 3), ref);
  auto const base = custom_design<Zn, Pn, T>(s, a);
  std::vector<ld> b, bb, q, qb;
  worst = 0;
  ld const cond = warp_condition(s);
  ld const u = kSlack * eps_of<T>() * (1 + cond * ref.amp / 4);
  bounded(ref.z, u, b, bb);
  bounded(ref.p, u, q, qb);
  ld const ug = u * static_cast<ld>(1 + (Pn + cond * Pn) / 8);
  std::vector<ld> pb, pa;
  coefficients(base.template poly<T>(), pb, pa);
  compare(c, pa, q, qb, u, 1, "polynomial, denominator");
  compare(c, pb, b, bb, ug, ref.lead, "polynomial, numerator");
  auto const first = sections(base.template sos<T>(es::sos_gain::first_section));
  PBT_CHECK(c, first.size() == (Pn + 1) / 2, "%zu sections", first.size());
  compare(c, product(first, false), q, qb, u, 1, "sections, denominator");
  compare(c, product(first, true), b, bb, ug, ref.lead, "sections, numerator");
  bool inside = true;
  for (auto const& p : ref.p) {
    inside = inside && std::abs(p) < 1 - 1e4L * eps_of<T>();
  }
  for (std::size_t i = 0; i < first.size() && inside; ++i) {
    ld const* const d = first[i].a;
    PBT_CHECK(c, d[0] == 1 && std::fabs(d[2]) < 1 && std::fabs(d[1]) < 1 + d[2],
              "section %zu is not stable: %.17Lg %.17Lg %.17Lg", i, d[0], d[1], d[2]);
  }
  if (ref.lead > 0) {
    ld const lg = 1 + std::fabs(std::log(ref.lead));
    auto const dist = sections(base.template sos<T>(es::sos_gain::distribute));
    compare(c, product(dist, false), q, qb, u, 1, "distributed gain, denominator");
    compare(c, product(dist, true), b, bb, ug * lg, ref.lead, "distributed gain, numerator");
  } else {
    PBT_LABEL("negative gain");
  }
  c.trace("worst error: %.3Lg of the tolerance\n", worst);
  if (worst > 0.3L) {
    PBT_LABEL("worst error above a third of the tolerance");
  }
  std::size_t rp = 0, rz = 0;
  for (auto const& p : a.p) {
    rp += p.is_real();
  }
  for (auto const& z : a.z) {
    rz += z.is_real();
  }
  if (rp > 1 && rp < Pn) {
    PBT_LABEL("several real poles and complex ones");
  }
  if (rz > 1 && rz < Zn) {
    PBT_LABEL("several real zeros and complex ones");
  }
  if (Pn > 1) {
    c.nontrivial();
  }
}

using Fn = void (*)(pbt::Case&);

template <std::size_t Pn, typename T, std::size_t... Z>
void zeros_of(pbt::Case& c, embedded::index_sequence<Z...>) {
  static Fn const t[] = {&custom_case<Z, Pn, T>...};
  t[c.draw(sizeof...(Z))](c);
}
template <std::size_t Pn, typename T>
void any_zeros(pbt::Case& c) {
  zeros_of<Pn, T>(c, embedded::make_index_sequence<Pn + 1>{});
}

#if SHARD == 0
void small(pbt::Case& c) {
  static Fn const t[] = {&any_zeros<1, double>, &any_zeros<2, double>, &any_zeros<3, double>, &any_zeros<4, double>,
                         &any_zeros<5, double>};
  t[c.draw(5)](c);
}
PBT_REGISTER(orders_1_5, &small, 100000, 6000000);
#elif SHARD == 1
void medium(pbt::Case& c) {
  static Fn const t[] = {&any_zeros<6, double>, &any_zeros<7, double>, &any_zeros<8, double>};
  t[c.draw(3)](c);
}
PBT_REGISTER(orders_6_8, &medium, 60000, 3000000);
#elif SHARD == 2
void types(pbt::Case& c) {
  static Fn const t[] = {&any_zeros<2, float>, &any_zeros<3, float>, &any_zeros<4, float>,
                         &any_zeros<3, long double>, &any_zeros<5, long double>, &any_zeros<6, long double>};
  t[c.draw(6)](c);
}
PBT_REGISTER(other_types, &types, 60000, 3000000);
#else
void large(pbt::Case& c) {
  static Fn const t[] = {&custom_case<0, 9, double>, &custom_case<4, 9, double>, &custom_case<9, 9, double>,
                         &custom_case<12, 12, double>, &custom_case<7, 13, double>};
  t[c.draw(5)](c);
}
PBT_REGISTER(orders_9_13, &large, 30000, 1500000);
#endif

} // namespace
