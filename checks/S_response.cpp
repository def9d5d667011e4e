// S01-S03: designed filters have the response of the analog prototype under
// the prewarped bilinear transform. -DFAM selects the family, -DSHARD the
// orders.
#include "signal_common.h"

#ifndef FAM
#define FAM BUTTER
#endif
#ifndef SHARD
#define SHARD 0
#endif

namespace {

// How much of the error budget (in units of rounding errors) is granted.
constexpr ld kSlack = 64;

struct Tol {
  ld eps_t, eps_f; // computation and output type
};

lc eval(ld const* c, std::size_t n, lc const& zi) { // sum c_k z^-k
  lc r = 0;
  for (std::size_t i = n; i-- > 0;) {
    r = r * zi + c[i];
  }
  return r;
}

void check(pbt::Case& c, Spec const& s, Designed const& d, Tol const& t) {
  std::size_t const n = static_cast<std::size_t>(s.order);
  Zpk const ref = digital(s);
  ld const cond = warp_condition(s);
  ld const u = kSlack * (t.eps_t * (1 + cond / 8 + param_condition(s) / 8) + t.eps_f);
  char const* kinds[] = {"sections (first_section)", "sections (distribute)",
                         "polynomial"};

  PBT_CHECK(c, d.first.size() == (n + 1) / 2 && d.dist.size() == (n + 1) / 2,
            "number of sections");
  PBT_CHECK(c, d.a.size() == n + 1 && d.b.size() == n + 1, "polynomial size");

  // coefficients of the polynomial form
  std::vector<ld> b, a, bb, ba;
  ld sum_a = 0, sum_b = 0; // largest error at any frequency
  {
    expand(ref.z, b, bb);
    expand(ref.p, a, ba);
    ld const g = leading(ref);
    for (std::size_t i = 0; i <= n; ++i) {
      ld const ta = u * ba[i];
      PBT_CHECK(c, std::fabs(d.a[i] - a[i]) <= ta,
                "a[%zu] is %.17Lg instead of %.17Lg (tolerance %.3Lg)", i,
                d.a[i], a[i], ta);
      ld const tb = u * (1 + cond) * std::fabs(g) * bb[i];
      PBT_CHECK(c, std::fabs(d.b[i] - g * b[i]) <= tb,
                "b[%zu] is %.17Lg instead of %.17Lg (tolerance %.3Lg)", i,
                d.b[i], g * b[i], tb);
      sum_a += ba[i];
      sum_b += (1 + cond) * std::fabs(g) * bb[i];
    }
  }

  std::vector<ld> fr = {0, s.fs / 2, s.fc, s.fs / 4, s.fc / 2, s.fs / 2 - s.fc};
  for (int i = 0; i < 5; ++i) {
    fr.push_back(s.fs * c.real(0, 0.5));
  }
  for (int i = 0; i < 4; ++i) { // around the cutoff, on the warped axis
    ld const v = std::pow(10.0, c.real(-1, 1));
    fr.push_back(s.fs / pi_l() *
                 std::atan(v * std::tan(pi_l() * s.fc / s.fs)));
  }
  if (s.family == CHEBY1 || s.family == CHEBY2) { // an extremum, a zero
    int const k = static_cast<int>(c.draw(static_cast<uint64_t>(n) + 1));
    for (int h = 0; h < 2; ++h) {
      ld y = std::cos(pi_l() * (2 * k + h) / (2 * static_cast<ld>(n)));
      y = std::fabs(y);
      ld v = s.family == CHEBY1 ? y : y > 1e-9L ? 1 / y : 1e9L;
      if (s.hp) {
        v = v > 1e-9L ? 1 / v : 1e9L;
      }
      fr.push_back(s.fs / pi_l() *
                   std::atan(v * std::tan(pi_l() * s.fc / s.fs)));
    }
  }

  ld worst = 0;
  for (ld const f : fr) {
    lc const z = on_circle(f, s.fs);
    lc const zi = std::conj(z);
    lc const want = response(ref, z);
    ld const mag = closed_form(s, f);
    for (int kind = 0; kind < 3; ++kind) {
      lc got = 1;
      // tolerance relative to |got|, and absolute at zeros of the numerator
      ld rel = static_cast<ld>(n) * (1 + cond);
      ld floor_ = 1;
      if (kind < 2) {
        for (auto const& q : kind == 0 ? d.first : d.dist) {
          lc const nu = eval(q.b, 3, zi), de = eval(q.a, 3, zi);
          ld const an = std::fabs(q.b[0]) + std::fabs(q.b[1]) +
                        std::fabs(q.b[2]);
          ld const ad = std::fabs(q.a[0]) + std::fabs(q.a[1]) +
                        std::fabs(q.a[2]);
          got *= nu / de;
          rel += ad / std::abs(de);
          ld const m = std::max(std::abs(nu), u * an);
          rel += an / m;
          floor_ *= m / std::abs(de);
        }
      } else {
        lc const nu = eval(d.b.data(), n + 1, zi);
        lc const de = eval(d.a.data(), n + 1, zi);
        got = nu / de;
        rel += sum_a / std::abs(de);
        ld const m = std::max(std::abs(nu), u * sum_b);
        rel += sum_b / m;
        floor_ = m / std::abs(de);
        if (!(u * sum_a < 0.25L * std::abs(de))) {
          PBT_LABEL("polynomial form too ill-conditioned at a frequency");
          continue;
        }
      }
      ld const tol = u * rel * std::max(std::abs(want), floor_);
      ld const err = std::abs(got - want);
      if (tol > 0 && err / tol > worst) {
        worst = err / tol;
      }
      PBT_CHECK(c, err <= tol || (err == 0 && tol == 0),
                "%s at f=%.12Lg: response %.12Lg%+.12Lgj instead of "
                "%.12Lg%+.12Lgj (error %.3Lg, tolerance %.3Lg)",
                kinds[kind], f, got.real(), got.imag(), want.real(),
                want.imag(), err, tol);
      PBT_CHECK(c, std::fabs(std::abs(got) - mag) <= tol + 1e-14L * mag,
                "%s at f=%.12Lg: magnitude %.15Lg instead of %.15Lg", kinds[kind],
                f, std::abs(got), mag);
    }
  }
  c.trace("worst error: %.3Lg of the tolerance\n", worst);
  if (worst > 0.5L) {
    PBT_LABEL("worst error above half the tolerance");
  } else if (worst > 0.05L) {
    PBT_LABEL("worst error above a twentieth of the tolerance");
  }

  // landmarks
  ld du = 1e3L * u * static_cast<ld>(n) * (1 + cond) + 1e-9L;
  auto const magnitude = [&](ld f) {
    lc const zi = std::conj(on_circle(f, s.fs));
    lc h = 1;
    ld rel = 0; // poles (zeros) close to the point make it ill-conditioned
    for (auto const& q : d.first) {
      lc const nu = eval(q.b, 3, zi), de = eval(q.a, 3, zi);
      h *= nu / de;
      rel += (std::fabs(q.a[0]) + std::fabs(q.a[1]) + std::fabs(q.a[2])) / std::abs(de);
    }
    du = std::max(du, u * rel);
    return std::abs(h);
  };
  ld const edge = magnitude(s.fc), pass = magnitude(s.hp ? s.fs / 2 : 0),
           stop = magnitude(s.hp ? 0 : s.fs / 2);
  ld const r10 = std::pow(10.0L, -s.param / 20);
  switch (s.family) {
  case BUTTER:
    PBT_CHECK(c, std::fabs(edge - std::sqrt(0.5L)) < du + 1e-6L, "gain at cutoff");
    break;
  case CHEBY1:
    PBT_CHECK(c, std::fabs(edge - r10) < du + 1e-6L, "gain at cutoff");
    break;
  case CHEBY2:
    PBT_CHECK(c, std::fabs(edge - r10) < du + 1e-6L, "gain at cutoff");
    break;
  default:
    break;
  }
  if (du < 1e-2L) {
    ld const p0 = s.family == CHEBY1 && n % 2 == 0 ? r10 : 1;
    PBT_CHECK(c, std::fabs(pass - p0) < du + 1e-6L, "gain at the passing end: %.12Lg",
              pass);
    ld const s0 = s.family == CHEBY2 && n % 2 == 0 ? r10 : 0;
    PBT_CHECK(c, std::fabs(stop - s0) < du + 1e-6L, "gain at the stopping end: %.12Lg",
              stop);
  }
}

template <typename T, typename F, std::size_t N>
void design_case(pbt::Case& c) {
  Spec s;
  s.family = FAM;
  s.order = static_cast<int>(N);
  s.hp = c.flip();
  bool const single =
      std::is_same<T, float>::value || std::is_same<F, float>::value;
  Limits const l = draw_limits(c, FAM, N, single);
  gen_frequencies(c, s, l);
  gen_param(c, s);
  round_spec<T>(s);
  s.param = static_cast<double>(s.param);
  describe(c, s, single ? "(single)" : sizeof(T) > 8 ? "(long)" : "");
  Designed const d = run_design<FAM, N, T, F>(s);
  Tol t{eps_of<T>(), eps_of<F>()};
  if (FAM == BESSEL || FAM == CHEBY1 || FAM == CHEBY2) {
    // table entries and design parameters are doubles
    t.eps_t = std::max(t.eps_t, eps_of<double>());
  }
  check(c, s, d, t);
  if (s.order > 1) {
    c.nontrivial();
  }
  if (s.fc > s.fs / 4) {
    PBT_LABEL("cutoff above a quarter of the sample rate");
  }
}

using Fn = void (*)(pbt::Case&);

template <typename T, typename F, std::size_t First, std::size_t... I>
void orders(pbt::Case& c, embedded::index_sequence<I...>) {
  static Fn const t[] = {&design_case<T, F, First + I>...};
  t[c.draw(sizeof...(I))](c);
}

#if SHARD == 0
void narrow(pbt::Case& c) {
  orders<double, double, 1>(c, embedded::make_index_sequence<10>{});
}
PBT_REGISTER(orders_1_10, &narrow, 100000, 3000000);
#elif SHARD == 1
void types(pbt::Case& c) {
  auto const seq = embedded::make_index_sequence<6>{};
  switch (c.draw(4)) {
  case 0: orders<double, float, 1>(c, seq); break;
  case 1: orders<float, float, 1>(c, seq); break;
  case 2: orders<long double, double, 1>(c, seq); break;
  default: orders<long double, long double, 1>(c, seq); break;
  }
}
PBT_REGISTER(other_types, &types, 60000, 2000000);
#elif SHARD == 2
void wide(pbt::Case& c) {
  orders<double, double, 11>(c, embedded::make_index_sequence<12>{});
}
PBT_REGISTER(orders_11_22, &wide, 30000, 800000);
#elif SHARD == 3
void high(pbt::Case& c) {
  static Fn const t[] = {&design_case<double, double, 24>,
                         &design_case<double, double, 31>,
                         &design_case<double, double, 40>,
                         &design_case<double, double, 48>};
  t[c.draw(4)](c);
}
PBT_REGISTER(orders_24_48, &high, 6000, 150000);
#elif SHARD == 4 // all orders of the Bessel table
void table1(pbt::Case& c) {
  orders<double, double, 23>(c, embedded::make_index_sequence<10>{});
}
PBT_REGISTER(orders_23_32, &table1, 9000, 250000);
#elif SHARD == 5
void table2(pbt::Case& c) {
  orders<double, double, 33>(c, embedded::make_index_sequence<9>{});
}
PBT_REGISTER(orders_33_41, &table2, 7000, 160000);
#elif SHARD == 6
void table3(pbt::Case& c) {
  orders<double, double, 42>(c, embedded::make_index_sequence<8>{});
}
PBT_REGISTER(orders_42_49, &table3, 5000, 120000);
#endif

} // namespace
