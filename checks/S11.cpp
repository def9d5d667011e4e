// S11: order of the sections and pairing of poles with zeros.
//
// Judged from the reported sections alone: the last one has the pole closest
// to the unit circle and the zeros closest to it; what the other sections have
// is arranged in the same way. A first-order factor counts as one with a
// further root at 0.
#include <array>

#include "custom_proto.h"

#ifndef SHARD
#define SHARD 0
#endif

namespace {

struct Roots {
  lc r[2];
  bool real;
};

Roots roots(ld c0, ld c1, ld c2) {
  Roots q;
  ld const p = c1 / c0 / 2, s = c2 / c0, disc = p * p - s;
  // a double real root is known to half of the digits only
  if (disc < 0 && -disc > 1e-13L) {
    q.r[0] = lc(-p, std::sqrt(-disc));
    q.r[1] = std::conj(q.r[0]);
    q.real = false;
  } else {
    ld const d = disc > 0 ? std::sqrt(disc) : 0;
    ld const big = p > 0 ? -p - d : -p + d;
    q.r[0] = big;
    q.r[1] = big == 0 ? 0 : s / big;
    q.real = true;
  }
  return q;
}

ld away(lc const& p) { return std::fabs(1 - std::norm(p)); }

void arrangement(pbt::Case& c, std::vector<Section> const& v, char const* what) {
  std::vector<Roots> p, z;
  for (auto const& s : v) {
    p.push_back(roots(s.a[0], s.a[1], s.a[2]));
    z.push_back(roots(s.b[0], s.b[1], s.b[2]));
  }
  ld const slack = 1e-5L;
  for (std::size_t i = v.size(); i-- > 0;) {
    // the pole this section was made for
    lc const lead = away(p[i].r[0]) <= away(p[i].r[1]) ? p[i].r[0] : p[i].r[1];
    for (std::size_t k = 0; k < i; ++k) {
      for (auto const& q : p[k].r) {
        PBT_CHECK(c, away(lead) <= away(q) * (1 + slack) + 1e-12L,
                  "%s: a pole of section %zu (distance %.9Lg) is closer to the unit circle than those of section %zu "
                  "(distance %.9Lg)",
                  what, k, away(q), i, away(lead));
      }
    }
    if (p[i].real) { // real ones go together, by the same rule
      ld const second = std::max(away(p[i].r[0]), away(p[i].r[1]));
      for (std::size_t k = 0; k < i; ++k) {
        for (auto const& q : p[k].r) {
          PBT_CHECK(c, !p[k].real || second <= away(q) * (1 + slack) + 1e-12L,
                    "%s: a real pole of section %zu (distance %.9Lg) is closer to the unit circle than the second one of "
                    "section %zu (distance %.9Lg)",
                    what, k, away(q), i, second);
        }
      }
    }
    // of its two zeros one is the nearest of those left; real ones are taken
    // two at a time
    ld const d0 = std::abs(lead - z[i].r[0]), d1 = std::abs(lead - z[i].r[1]);
    ld const near = std::min(d0, d1), far = std::max(d0, d1);
    for (std::size_t k = 0; k < i; ++k) {
      for (auto const& q : z[k].r) {
        ld const d = std::abs(lead - q);
        PBT_CHECK(c, near <= d * (1 + slack) + 1e-7L,
                  "%s: section %zu has a zero (distance %.9Lg) closer to the leading pole of section %zu than its own "
                  "(distance %.9Lg)",
                  what, k, d, i, near);
        if (z[i].real && z[k].real) {
          PBT_CHECK(c, far <= d * (1 + slack) + 1e-7L,
                    "%s: section %zu has a real zero (distance %.9Lg) closer to the leading pole of section %zu than "
                    "its second one (distance %.9Lg)",
                    what, k, d, i, far);
        }
      }
    }
  }
}

template <int Fam, std::size_t N>
struct Arranged {
  static void run(pbt::Case& c) {
    Spec s;
    s.family = Fam;
    s.order = static_cast<int>(N);
    s.hp = c.flip();
    Limits l;
    l.lo = N > 12 ? 0.01L : 0.004L;
    l.hi = N > 12 ? 0.49L : 0.496L;
    if (N <= 12 && c.chance(1, 3)) { // narrow bands: the poles are close
      l.lo = 1e-6L;
      l.hi = 0.5L - 1e-6L;
    }
    gen_frequencies(c, s, l);
    gen_param(c, s);
    round_spec<double>(s);
    describe(c, s, "");
    Designed const d = run_design<Fam, N, double, double>(s);
    arrangement(c, d.first, "gain in the first section");
    arrangement(c, d.dist, "distributed gain");
    if (N > 2) {
      c.nontrivial();
    }
  }
};

// prototypes written by the user, with several real poles and zeros
template <std::size_t Zn, std::size_t Pn>
void custom_arranged(pbt::Case& c) {
  Spec s;
  s.order = static_cast<int>(Pn);
  s.hp = c.flip();
  Limits l;
  l.lo = 0.01L;
  l.hi = 0.49L;
  gen_frequencies(c, s, l);
  c.trace("%s of %zu zeros and %zu poles, fs=%.17Lg fc=%.17Lg\n", s.hp ? "highpass" : "lowpass", Zn, Pn, s.fs, s.fc);
  CustomRef ref;
  auto const a = gen_custom<Zn, Pn, double>(c, s, false, ref);
  auto const base = custom_design<Zn, Pn, double>(s, a);
  arrangement(c, sections(base.template sos<double>(es::sos_gain::first_section)), "gain in the first section");
  if (ref.lead > 0) {
    arrangement(c, sections(base.template sos<double>(es::sos_gain::distribute)), "distributed gain");
  }
  std::size_t reals = 0;
  for (auto const& p : a.p) {
    reals += p.is_real();
  }
  if (reals > 1 && reals < Pn) {
    PBT_LABEL("several real poles and complex ones");
  }
  if (Pn > 2) {
    c.nontrivial();
  }
}

#if SHARD == 8
void custom_prototypes(pbt::Case& c) {
  static void (*const t[])(pbt::Case&) = {
      &custom_arranged<0, 3>, &custom_arranged<2, 3>, &custom_arranged<0, 4>, &custom_arranged<3, 4>,
      &custom_arranged<4, 4>, &custom_arranged<2, 5>, &custom_arranged<5, 5>, &custom_arranged<0, 6>,
      &custom_arranged<4, 6>, &custom_arranged<6, 6>, &custom_arranged<5, 7>, &custom_arranged<8, 8>};
  t[c.draw(12)](c);
}
PBT_REGISTER(custom_prototypes, &custom_prototypes, 60000, 3000000);
#elif SHARD < 4
void arranged(pbt::Case& c) { sharded<Arranged, SHARD>(c); }
PBT_REGISTER(orders_1_12, &arranged, 30000, 1500000);
#else
void arranged(pbt::Case& c) { sharded<Arranged, SHARD>(c); }
PBT_REGISTER(high_orders, &arranged, 10000, 400000);
#endif

} // namespace
