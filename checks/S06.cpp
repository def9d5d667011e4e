// S06: filtering implements the difference equation of the coefficients.
//
// The value type of a filter is a template parameter. With residues modulo a
// prime every operation is exact, so that the output of any correct
// implementation of the recurrence is known exactly, whatever its structure.
// A large prime tells all values apart; with a tiny one, inputs, outputs and
// states are zero, one or equal to each other all the time.
#include "signal_common.h"

#include <cstring>
#include <deque>
#include <memory>

#ifndef SHARD
#define SHARD 0
#endif

namespace {

// --- exact value type ------------------------------------------------------------

template <uint64_t Prime>
struct Residue {
  static constexpr uint64_t P = Prime;
  uint64_t v;
  // the value of a default constructed one is of no use to anyone
  Residue()
      : v{P - 1} {}
  // any number becomes some residue; small integers stay what they are
  Residue(double x) {
    if (x == static_cast<double>(static_cast<int>(x)) && std::fabs(x) < 1e6) {
      int64_t const k = static_cast<int64_t>(x);
      v = k < 0 ? P - static_cast<uint64_t>(-k) % P : static_cast<uint64_t>(k) % P;
      v %= P;
    } else {
      uint64_t b;
      std::memcpy(&b, &x, sizeof(b));
      v = pbt::mix(b) % P;
    }
  }
  static Residue raw(uint64_t x) {
    Residue m;
    m.v = x % P;
    return m;
  }
  friend Residue operator+(Residue a, Residue b) { return raw((a.v + b.v) % P); }
  friend Residue operator-(Residue a, Residue b) { return raw((a.v + P - b.v) % P); }
  friend Residue operator-(Residue a) { return raw(P - a.v); }
  friend Residue operator*(Residue a, Residue b) {
    return raw(static_cast<uint64_t>(static_cast<unsigned __int128>(a.v) * b.v %
                                     P));
  }
  Residue& operator+=(Residue b) { return *this = *this + b; }
  Residue& operator-=(Residue b) { return *this = *this - b; }
  Residue& operator*=(Residue b) { return *this = *this * b; }
  friend bool operator==(Residue a, Residue b) { return a.v == b.v; }
  friend bool operator!=(Residue a, Residue b) { return a.v != b.v; }
};

using Mod = Residue<2305843009213693951ull>; // 2^61 - 1

// --- the recurrence ----------------------------------------------------------------

// a0 y[n] = sum b_k x[n-k] - sum a_k y[n-k], directly from the definition. W is
// the type it is computed in; the result carries an error bound for F.
template <typename W>
struct Direct {
  std::vector<W> b, a;
  std::vector<W> x, y; // most recent first
  Direct(std::vector<W> const& b_, std::vector<W> const& a_)
      : b(b_)
      , a(a_)
      , x(b_.size(), W(0.0))
      , y(a_.size(), W(0.0)) {}
  W step(W in) {
    x.insert(x.begin(), in);
    x.pop_back();
    W r(0.0);
    for (std::size_t k = 0; k < b.size(); ++k) {
      r = r + b[k] * x[k];
    }
    for (std::size_t k = 1; k < a.size(); ++k) {
      r = r - a[k] * y[k - 1];
    }
    y.insert(y.begin(), r);
    y.pop_back();
    return r;
  }
};

template <typename W>
struct Cascade {
  std::vector<Direct<W>> s;
  W step(W in) {
    for (auto& d : s) {
      in = d.step(in);
    }
    return in;
  }
};

template <typename F, typename W, typename D>
std::vector<std::pair<std::vector<W>, std::vector<W>>>
section_coefs(D const& d) {
  std::vector<std::pair<std::vector<W>, std::vector<W>>> r;
  for (std::size_t i = 0; i < d.size(); ++i) {
    std::vector<W> b, a;
    for (std::size_t k = 0; k < 3; ++k) {
      b.push_back(static_cast<W>(d.sos()[i].b()[k]));
      a.push_back(static_cast<W>(d.sos()[i].a()[k]));
    }
    r.push_back(std::make_pair(b, a));
  }
  return r;
}
template <typename F, typename W, std::size_t N>
Cascade<W> model(es::sos_design<F, N> const& d) {
  Cascade<W> m;
  for (auto const& p : section_coefs<F, W>(d)) {
    m.s.push_back(Direct<W>(p.first, p.second));
  }
  return m;
}
template <typename F, typename W, std::size_t N>
Cascade<W> model(es::poly_design<F, N> const& d) {
  std::vector<W> b, a;
  for (std::size_t k = 0; k <= N; ++k) {
    b.push_back(static_cast<W>(d.b()[k]));
    a.push_back(static_cast<W>(d.a()[k]));
  }
  Cascade<W> m;
  m.s.push_back(Direct<W>(b, a));
  return m;
}

// --- exact or within rounding ----------------------------------------------------------

template <typename F>
struct Reference {
  using W = ld;
  static constexpr bool exact = false;
};
template <uint64_t P>
struct Reference<Residue<P>> {
  using W = Residue<P>;
  static constexpr bool exact = true;
};

constexpr std::size_t kSteps = 250; // longest history of one instance

// Bound on the effect of rounding errors on an output, for inputs up to 1, in
// units of one rounding error: every section makes errors of the order of its
// largest intermediate value; they pass through 1/A of it and all of what
// follows.
ld error_gain(Cascade<ld> const& m) {
  std::size_t const n = m.s.size();
  std::vector<ld> h(n, 0), r(n, 0);
  for (std::size_t i = 0; i < n; ++i) {
    Direct<ld> full(m.s[i].b, m.s[i].a), rec(std::vector<ld>(1, 1.0L), m.s[i].a);
    for (std::size_t t = 0; t < kSteps; ++t) {
      ld const in = t == 0 ? 1 : 0;
      r[i] += std::fabs(rec.step(in));
      h[i] += std::fabs(full.step(in));
    }
  }
  ld total = 1;
  for (std::size_t i = 0; i < n; ++i) {
    ld before = 1, behind = 1, ma = 0, mb = 0;
    for (std::size_t k = 0; k < i; ++k) {
      before *= h[k];
    }
    for (std::size_t k = i + 1; k < n; ++k) {
      behind *= h[k];
    }
    for (ld x : m.s[i].a) {
      ma += std::fabs(x);
    }
    for (ld x : m.s[i].b) {
      mb += std::fabs(x);
    }
    total += before * (mb + ma * h[i]) * r[i] * behind;
  }
  return total;
}
template <uint64_t P>
ld error_gain(Cascade<Residue<P>> const&) {
  return 0;
}

template <uint64_t P>
void agree(pbt::Case& c, Residue<P> got, Residue<P> want, ld, char const* what, std::size_t i,
           std::size_t n) {
  PBT_CHECK(c, got == want,
            "%s: output %zu of instance %zu is not the response of the "
            "recurrence (%llu instead of %llu)",
            what, n, i, static_cast<unsigned long long>(got.v),
            static_cast<unsigned long long>(want.v));
}
template <typename F>
void agree(pbt::Case& c, F got, ld want, ld tol, char const* what,
           std::size_t i, std::size_t n) {
  PBT_CHECK(c, std::fabs(static_cast<ld>(got) - want) <= tol,
            "%s: output %zu of instance %zu is %.17Lg instead of %.17Lg "
            "(tolerance %.3Lg)",
            what, n, i, static_cast<ld>(got), want, tol);
}
template <uint64_t P>
bool is_zero(Residue<P> m) {
  return m.v == 0;
}
template <typename F>
bool is_zero(F x) {
  return x == F{0};
}

template <typename F>
struct Epsilon {
  static ld value() { return eps_of<F>(); }
};
template <uint64_t P>
struct Epsilon<Residue<P>> {
  static ld value() { return 0; }
};

template <typename F>
struct Input {
  static F get(pbt::Case& c, ld scale) {
    switch (c.weighted({2, 1, 1, 4})) {
    case 0:
      return F{0};
    case 1:
      return static_cast<F>(scale);
    case 2:
      return static_cast<F>(-scale);
    default:
      return static_cast<F>(c.real(-1, 1) * static_cast<double>(scale));
    }
  }
};
template <uint64_t P>
struct Input<Residue<P>> {
  static Residue<P> get(pbt::Case& c, ld) {
    switch (c.draw(4)) {
    case 0:
      return Residue<P>(0.0);
    case 1:
      return Residue<P>(1.0);
    case 2:
      return Residue<P>::raw(P - 1);
    default:
      return Residue<P>::raw(c.bits());
    }
  }
};
template <typename F>
F input(pbt::Case& c, ld scale) {
  return Input<F>::get(c, scale);
}

template <typename F, std::size_t N>
void initial_state(pbt::Case& c, es::sos_design<F, N> const& d) {
  auto const inst = d.instance();
  PBT_CHECK(c, inst.state().size() == (N + 1) / 2, "state size");
  for (auto const& s : inst.state()) {
    PBT_CHECK(c, is_zero(s.y1) && is_zero(s.y2), "initial state is not zero");
  }
}
template <typename F, std::size_t N>
void initial_state(pbt::Case&, es::poly_design<F, N> const&) {}

// the filter functions with state kept by the caller
template <typename F, std::size_t N>
void by_hand(pbt::Case& c, es::sos_design<F, N> const& d, ld scale, ld tol) {
  using W = typename Reference<F>::W;
  auto m = model<F, W>(d);
  std::vector<es::sos_state<F>> st(d.size());
  for (std::size_t t = 0; t < 12; ++t) {
    F x = input<F>(c, scale);
    W const w = m.step(static_cast<W>(x));
    for (std::size_t i = 0; i < d.size(); ++i) {
      x = d.sos()[i].filter(st[i], x);
    }
    agree(c, x, w, tol, "sections by hand", 0, t);
  }
}
template <typename F, std::size_t N>
void by_hand(pbt::Case& c, es::poly_design<F, N> const& d, ld scale, ld tol) {
  using W = typename Reference<F>::W;
  auto m = model<F, W>(d);
  std::array<F, N> st;
  st.fill(F{0});
  for (std::size_t t = 0; t < 12; ++t) {
    F const x = input<F>(c, scale);
    W const w = m.step(static_cast<W>(x));
    agree(c, d.filter(st, x), w, tol, "polynomial by hand", 0, t);
  }
}

// --- histories ----------------------------------------------------------------------------

template <typename D>
struct Track {
  using Inst = typename std::decay<
      decltype(std::declval<D const&>().instance())>::type;
  using F = typename Inst::value_type;
  using W = typename Reference<F>::W;
  std::size_t design;
  Inst inst;
  Cascade<W> model;
  std::size_t steps{0};
};

// A history of interleaved processing by several instances of several designs
// which are created, copied and assigned on the way.
template <typename D>
void history(pbt::Case& c, std::vector<std::unique_ptr<D>> const& ds,
             char const* what) {
  using T = Track<D>;
  using F = typename T::F;
  using W = typename T::W;
  // the recurrence is linear: the magnitude of the signal must not matter
  ld scale = c.pick<double>({1, 1024, 1e-6});
  if (!Reference<F>::exact && c.flip()) {
    scale = sizeof(F) > 4 ? std::pow(10.0, c.real(-250, 150))
                          : std::pow(10.0, c.real(-22, 18));
  }
  std::vector<ld> tol;
  std::vector<std::vector<std::vector<W>>> saved;
  for (auto const& d : ds) {
    auto const m = ::model<F, W>(*d);
    tol.push_back(16 * Epsilon<F>::value() * scale * error_gain(m));
    std::vector<std::vector<W>> coefs;
    for (auto const& s : m.s) {
      coefs.push_back(s.b);
      coefs.push_back(s.a);
    }
    saved.push_back(coefs);
    initial_state(c, *d);
  }
  auto const fresh = [&](std::size_t d) {
    return T{d, ds[d]->instance(), ::model<F, W>(*ds[d]), 0};
  };
  std::vector<T> v;
  v.push_back(fresh(0));
  std::size_t total = 0;
  bool several = false;
  auto const step = [&](std::size_t i, F x) {
    T& t = v[i];
    if (t.steps == kSteps) {
      return;
    }
    F const y = t.inst(x);
    W const w = t.model.step(static_cast<W>(x));
    agree(c, y, w, tol[t.design], what, i, t.steps);
    ++t.steps;
    ++total;
  };
  std::size_t const ops = 1 + c.draw(80);
  for (std::size_t k = 0; k < ops; ++k) {
    switch (c.weighted({10, 2, 1, 1, 2})) {
    case 1:
      if (v.size() < 6) {
        std::size_t const d = c.draw(ds.size());
        v.push_back(fresh(d));
        several = true;
        c.trace("instance %zu of design %zu\n", v.size() - 1, d);
      }
      break;
    case 2: // a copy continues from the same state
      if (v.size() < 6) {
        std::size_t const i = c.draw(v.size());
        T const t = v[i];
        v.push_back(t);
        several = true;
        c.trace("instance %zu is a copy of %zu\n", v.size() - 1, i);
      }
      break;
    case 3: {
      std::size_t const i = c.draw(v.size()), j = c.draw(v.size());
      T const t = v[j];
      v[i] = t;
      c.trace("instance %zu = instance %zu\n", i, j);
      break;
    }
    case 4: {
      std::size_t const i = c.draw(v.size()), n = c.draw(60);
      bool const impulse = c.flip();
      c.trace("%zu inputs into instance %zu\n", n, i);
      for (std::size_t s = 0; s < n; ++s) {
        step(i, s == 0 || !impulse ? input<F>(c, scale) : F{0});
      }
      break;
    }
    default: {
      std::size_t const i = c.draw(v.size());
      c.trace("input into instance %zu\n", i);
      step(i, input<F>(c, scale));
    }
    }
  }
  std::size_t const d = c.draw(ds.size());
  by_hand(c, *ds[d], scale, tol[d]);
  // processing leaves the designs alone
  for (std::size_t i = 0; i < ds.size(); ++i) {
    auto const m = ::model<F, W>(*ds[i]);
    std::vector<std::vector<W>> coefs;
    for (auto const& s : m.s) {
      coefs.push_back(s.b);
      coefs.push_back(s.a);
    }
    PBT_CHECK(c, coefs == saved[i], "%s: design %zu has changed", what, i);
  }
  if (total > 3 && several) {
    c.nontrivial();
  }
}

// Sections run in order, so the largest magnitude on the way of a signal is
// known. Signals up to the range of the type are fine as long as it is.
template <typename D>
void headroom(pbt::Case& c, D const& d, char const* what, std::false_type) {
  using F = typename Track<D>::F;
  auto const m = ::model<F, ld>(d);
  std::size_t const n = 20 + c.draw(60);
  std::vector<ld> x;
  bool const level = c.flip();
  for (std::size_t i = 0; i < n; ++i) {
    x.push_back(level ? 1 : c.flip() ? 1 : -1);
  }
  ld most = 1;
  std::vector<ld> in = x;
  for (auto s : m.s) {
    ld mb = 0, ma = 0, mx = 0, my = 0;
    for (ld k : s.b) {
      mb += std::fabs(k);
    }
    for (ld k : s.a) {
      ma += std::fabs(k);
    }
    for (ld& v : in) {
      mx = std::max(mx, std::fabs(v));
      v = s.step(v);
      my = std::max(my, std::fabs(v));
    }
    most = std::max(most, std::max(mx, my) + mb * mx + ma * my);
  }
  ld const limit = std::numeric_limits<F>::max();
  int e = 0;
  std::frexp(limit / most / 16, &e);
  ld const scale = std::ldexp(1.0L, e - 1);
  ld const tol = 16 * Epsilon<F>::value() * scale * error_gain(m);
  auto inst = d.instance();
  c.trace("%zu inputs of magnitude %Lg (intermediate values up to %Lg)\n", n, scale, most * scale);
  for (std::size_t i = 0; i < n; ++i) {
    F const y = inst(static_cast<F>(x[i] * scale));
    PBT_CHECK(c, std::isfinite(y), "%s: an intermediate value has overflown although none exceeds %Lg", what, most * scale);
    agree(c, y, in[i] * scale, tol, what, 0, i);
  }
  PBT_LABEL("signal at the limit of the type");
}
template <typename D>
void headroom(pbt::Case&, D const&, char const*, std::true_type) {}

template <int Fam, std::size_t N, typename F>
void processing(pbt::Case& c) {
  using Base = typename es::iirfilter<double>::template design<N>;
  using Sos = decltype(std::declval<Base const&>().template sos<F>());
  using Poly = decltype(std::declval<Base const&>().template poly<F>());
  std::vector<std::unique_ptr<Sos>> sos;
  std::vector<std::unique_ptr<Poly>> poly;
  bool const form = c.flip();
  std::size_t const n = 1 + c.draw(3);
  for (std::size_t i = 0; i < n; ++i) {
    Spec s;
    s.family = Fam;
    s.order = static_cast<int>(N);
    s.hp = c.flip();
    Limits l;
    l.lo = 0.0001L;
    l.hi = 0.499L;
    gen_frequencies(c, s, l);
    gen_param(c, s);
    round_spec<double>(s);
    describe(c, s, "");
    auto const base = base_design<Fam, N, double>(s);
    if (form) {
      poly.emplace_back(new Poly(base.template poly<F>()));
    } else {
      sos.emplace_back(new Sos(base.template sos<F>(
          c.flip() ? es::sos_gain::distribute : es::sos_gain::first_section)));
    }
  }
  if (form) {
    history(c, poly, "polynomial");
    headroom(c, *poly[0], "polynomial", std::integral_constant<bool, Reference<F>::exact>{});
  } else {
    history(c, sos, "sections");
    headroom(c, *sos[0], "sections", std::integral_constant<bool, Reference<F>::exact>{});
  }
}

// Signals of more samples than small counters can count.
template <typename D>
void long_run(pbt::Case& c, D const& d, ld scale, ld tol, char const* what) {
  using F = typename Track<D>::F;
  using W = typename Track<D>::W;
  auto m = ::model<F, W>(d);
  auto inst = d.instance();
  std::size_t const n = c.pick<std::size_t>({300, 5000, 33000, 66000, 132000});
  std::size_t t = 0;
  std::size_t phase = 0;
  while (t < n) {
    unsigned const kind = static_cast<unsigned>(c.weighted({3, 2, 2, 3, 1}));
    std::size_t const len = std::min<std::size_t>(n - t, c.pick<std::size_t>({7, 300, 5000, 40000, 140000}));
    F const level = kind == 0 ? F{0} : input<F>(c, scale);
    uint64_t noise = c.bits() | 1;
    c.trace("%zu samples of kind %u\n", len, kind);
    for (std::size_t i = 0; i < len; ++i, ++t) {
      F x = level;
      if (kind == 2) {
        x = t & 1 ? level : F{0} - level;
      } else if (kind == 3) {
        noise = noise * 6364136223846793005u + 1442695040888963407u;
        x = noise >> 63 ? level : F{0};
      } else if (kind == 4 && i > 0) {
        x = F{0};
      }
      F const y = inst(x);
      agree(c, y, m.step(static_cast<W>(x)), tol, what, phase, t);
    }
    ++phase;
  }
  if (n > 65536) {
    PBT_LABEL("more than 65536 samples");
  }
}

template <std::size_t N, typename F>
void long_runs(pbt::Case& c) {
  Spec s;
  s.family = BUTTER;
  s.order = static_cast<int>(N);
  s.hp = c.flip();
  s.fs = 1000;
  s.fc = c.real(20, 450);
  describe(c, s, "");
  auto const base = base_design<BUTTER, N, double>(s);
  ld const scale = Reference<F>::exact ? 1 : std::pow(10.0, c.real(-9, 3));
  // rounding errors do not accumulate in these designs, the poles are not near the unit circle
  ld const tol = Reference<F>::exact ? 0 : 1e-9L * scale;
  if (c.flip()) {
    long_run(c, base.template poly<F>(), scale, tol, "polynomial");
  } else {
    long_run(c, base.template sos<F>(c.flip() ? es::sos_gain::distribute : es::sos_gain::first_section), scale, tol,
             "sections");
  }
  c.nontrivial();
}

template <int Fam, std::size_t N>
struct Exact {
  static void run(pbt::Case& c) { processing<Fam, N, Mod>(c); }
};
template <int Fam, std::size_t N>
struct Tiny {
  static void run(pbt::Case& c) {
    if (c.flip()) {
      processing<Fam, N, Residue<3>>(c);
    } else {
      processing<Fam, N, Residue<7>>(c);
    }
  }
};
template <int Fam, std::size_t N>
struct InDouble {
  static void run(pbt::Case& c) { processing<Fam, N, double>(c); }
};
template <int Fam, std::size_t N>
struct InFloat {
  static void run(pbt::Case& c) { processing<Fam, N, float>(c); }
};

// SHARD 0: exact, orders 1..12 and a few higher ones of one family (the
// processing does not depend on the family); 1: floating point
#if SHARD == 0
void exact(pbt::Case& c) {
  any_order<Exact, BUTTER, 1>(c, embedded::make_index_sequence<12>{});
}
PBT_REGISTER(exact_orders_1_12, &exact, 50000, 1600000);
void tiny(pbt::Case& c) {
  any_order<Tiny, BUTTER, 1>(c, embedded::make_index_sequence<6>{});
}
PBT_REGISTER(tiny_modulus_orders_1_6, &tiny, 50000, 1600000);
void long_exact(pbt::Case& c) { c.flip() ? long_runs<3, Mod>(c) : long_runs<4, Mod>(c); }
PBT_REGISTER(long_runs_exact, &long_exact, 150, 4000);
#elif SHARD == 1
void exact_high(pbt::Case& c) {
  switch (c.draw(4)) {
  case 0: Exact<CHEBY2, 15>::run(c); break;
  case 1: Exact<BESSEL, 20>::run(c); break;
  case 2: Exact<CHEBY1, 33>::run(c); break;
  default: Exact<CHEBY2, 6>::run(c); break;
  }
}
PBT_REGISTER(exact_high_orders, &exact_high, 4000, 120000);
#elif SHARD == 2
void in_double(pbt::Case& c) {
  any_order<InDouble, CHEBY1, 1>(c, embedded::make_index_sequence<8>{});
}
PBT_REGISTER(double_orders_1_8, &in_double, 15000, 400000);
void in_float(pbt::Case& c) {
  any_order<InFloat, BUTTER, 1>(c, embedded::make_index_sequence<5>{});
}
PBT_REGISTER(float_orders_1_5, &in_float, 15000, 400000);
void long_double_precision(pbt::Case& c) { c.flip() ? long_runs<2, double>(c) : long_runs<5, double>(c); }
PBT_REGISTER(long_runs_double, &long_double_precision, 200, 5000);
#endif

} // namespace
