// S07: designs depend on the frequency ratio only, lowpass and highpass are
// mirror images, designs are deterministic and independent values.
#include "signal_common.h"

#include <memory>

#ifndef SHARD
#define SHARD 0
#endif

namespace {

constexpr ld kSlack = 64;

struct Bounds {
  std::vector<ld> b, a;
  ld gain;
};

Bounds bounds(Spec const& s) {
  Bounds r;
  std::vector<ld> d;
  Zpk const ref = digital(s);
  expand(ref.z, d, r.b);
  expand(ref.p, d, r.a);
  r.gain = std::fabs(leading(ref));
  return r;
}

// d with z -> -z compared with e
void same_filter(pbt::Case& c, Designed const& d, Designed const& e, bool mirror,
                 Bounds const& bo, ld u, char const* what) {
  for (std::size_t i = 0; i < d.a.size(); ++i) {
    ld const sg = mirror && i % 2 ? -1 : 1;
    PBT_CHECK(c, std::fabs(d.a[i] - sg * e.a[i]) <= u * bo.a[i],
              "%s: a[%zu] is %.17Lg and %.17Lg (tolerance %.3Lg)", what, i,
              d.a[i], e.a[i], u * bo.a[i]);
    ld const t = u * bo.b[i] * bo.gain;
    PBT_CHECK(c, std::fabs(d.b[i] - sg * e.b[i]) <= t,
              "%s: b[%zu] is %.17Lg and %.17Lg (tolerance %.3Lg)", what, i,
              d.b[i], e.b[i], t);
  }
  // denominators of the sections, in any order
  for (int mode = 0; mode < 2; ++mode) {
    auto const& x = mode ? d.dist : d.first;
    auto y = mode ? e.dist : e.first;
    PBT_CHECK(c, x.size() == y.size(), "%s: number of sections", what);
    for (auto const& q : x) {
      std::size_t best = y.size();
      ld dist = 0;
      for (std::size_t i = 0; i < y.size(); ++i) {
        ld const sg = mirror ? -1 : 1;
        ld const di = std::fabs(q.a[1] - sg * y[i].a[1]) +
                      std::fabs(q.a[2] - y[i].a[2]);
        if (best == y.size() || di < dist) {
          best = i;
          dist = di;
        }
      }
      PBT_CHECK(c, dist <= 16 * u,
                "%s: no section with denominator 1, %.17Lg, %.17Lg (nearest off "
                "by %.3Lg)",
                what, q.a[1], q.a[2], dist);
      y.erase(y.begin() + static_cast<std::ptrdiff_t>(best));
    }
  }
}

void identical(pbt::Case& c, Designed const& d, Designed const& e,
               char const* what) {
  PBT_CHECK(c, d.a == e.a && d.b == e.b, "%s: polynomial differs", what);
  for (int mode = 0; mode < 2; ++mode) {
    auto const& x = mode ? d.dist : d.first;
    auto const& y = mode ? e.dist : e.first;
    PBT_CHECK(c, x.size() == y.size(), "%s: number of sections", what);
    for (std::size_t i = 0; i < x.size(); ++i) {
      for (int k = 0; k < 3; ++k) {
        PBT_CHECK(c, x[i].b[k] == y[i].b[k] && x[i].a[k] == y[i].a[k],
                  "%s: section %zu differs", what, i);
      }
    }
  }
}

template <int Fam, std::size_t N, typename T>
void relations(pbt::Case& c) {
  Spec s;
  s.family = Fam;
  s.order = static_cast<int>(N);
  s.hp = c.flip();
  Limits const l = draw_limits(c, Fam, N, eps_of<T>() > 1e-10L);
  gen_frequencies(c, s, l);
  gen_param(c, s);
  round_spec<T>(s);
  describe(c, s, "");
  ld const eps = eps_of<T>();
  Designed const d = run_design<Fam, N, T, T>(s);
  Bounds const bo = bounds(s);
  ld const u0 = kSlack * eps;

  // again, and from copies that outlive the original
  identical(c, d, run_design<Fam, N, T, T>(s), "designed twice");
  {
    using Base = typename es::iirfilter<T>::template design<N>;
    std::unique_ptr<Base> b(new Base(base_design<Fam, N, T>(s)));
    Base const copy(*b);
    using Sos = decltype(copy.template sos<T>());
    using Poly = decltype(copy.template poly<T>());
    std::unique_ptr<Sos> f(new Sos(b->template sos<T>()));
    std::unique_ptr<Poly> p(new Poly(b->template poly<T>()));
    b.reset();
    Sos const f2(*f);
    Poly const p2(*p);
    f.reset();
    p.reset();
    identical(c, d, collect<T>(copy), "copy of a design");
    Designed e = d;
    e.first = sections(f2);
    e.a.clear();
    e.b.clear();
    coefficients(p2, e.b, e.a);
    identical(c, d, e, "copies of the section and polynomial forms");
  }

  // the same ratio at another rate
  {
    Spec t = s;
    ld const k = c.flip() ? std::pow(2.0L, static_cast<int>(c.range(-12, 12)))
                          : static_cast<ld>(std::pow(10.0, c.real(-3, 3)));
    t.fs *= k;
    t.fc *= k;
    round_spec<T>(t);
    c.trace("scaled by %.17Lg\n", k);
    if (t.fc / t.fs < 0.4999L) {
      ld const cond = warp_condition(s);
      same_filter(c, d, run_design<Fam, N, T, T>(t), false, bo,
                  u0 * (1 + cond), "scaled frequencies");
    }
  }

  // mirrored
  {
    Spec t = s;
    t.hp = !s.hp;
    t.fc = s.fs / 2 - s.fc;
    round_spec<T>(t);
    c.trace("mirrored: fc=%.17Lg\n", t.fc);
    ld const cond = warp_condition(s) + warp_condition(t);
    same_filter(c, d, run_design<Fam, N, T, T>(t), true, bo, u0 * (1 + cond),
                "mirrored");
  }
  if (N > 1) {
    c.nontrivial();
  }
}

template <int Fam, std::size_t N>
struct InDouble {
  static void run(pbt::Case& c) { relations<Fam, N, double>(c); }
};
template <int Fam, std::size_t N>
struct InOther {
  static void run(pbt::Case& c) {
    if (c.flip()) {
      relations<Fam, N, long double>(c);
    } else {
      relations<Fam, N, float>(c);
    }
  }
};

#if SHARD < 4
PBT_REGISTER(orders_1_12, (&sharded<InDouble, SHARD>), 40000, 1200000);
void other(pbt::Case& c) {
  any_order<InOther, SHARD, 1>(c, embedded::make_index_sequence<5>{});
}
PBT_REGISTER(other_types, &other, 15000, 400000);
#else
PBT_REGISTER(orders_13_35, (&sharded<InDouble, SHARD>), 5000, 150000);
#endif

} // namespace
