// S10: filters over fixed-point value types.
//
// The type below asks of the library no more than what fixed-point types such
// as fpm::fixed offer: numbers convert to it explicitly only, a default
// constructed one has an indeterminate value (here: a large one), and values
// out of its range wrap around.
#include "signal_common.h"

#include <array>
#include <cstdint>
#include <cstring>
#include <memory>

#ifndef SHARD
#define SHARD 0
#endif

namespace {

// Down: products are rounded towards minus infinity, else to the nearest
template <typename Base, typename Wide, unsigned Frac, bool Down = false>
class Fixed {
 public:
  static constexpr unsigned frac = Frac;
  static constexpr ld ulp() { return 1.0L / (static_cast<ld>(Wide{1} << Frac)); }
  static constexpr ld range() {
    return static_cast<ld>(std::numeric_limits<Base>::max()) * ulp();
  }

  Fixed() noexcept
      : v_{static_cast<Base>(std::numeric_limits<Base>::max() / 3)} {}
  template <typename T,
            typename std::enable_if<std::is_integral<T>::value>::type* = nullptr>
  constexpr explicit Fixed(T x) noexcept
      : v_{static_cast<Base>(static_cast<Wide>(x) * (Wide{1} << Frac))} {}
  template <typename T, typename std::enable_if<
                            std::is_floating_point<T>::value>::type* = nullptr>
  constexpr explicit Fixed(T x) noexcept
      : v_{static_cast<Base>(static_cast<Wide>(
            x >= T{0} ? x * static_cast<T>(Wide{1} << Frac) + T{0.5}
                      : x * static_cast<T>(Wide{1} << Frac) - T{0.5}))} {}

  static constexpr Fixed from_raw(Base b) noexcept { return Fixed(b, 0); }
  constexpr Base raw() const noexcept { return v_; }
  template <typename T, typename std::enable_if<
                            std::is_floating_point<T>::value>::type* = nullptr>
  constexpr explicit operator T() const noexcept {
    return static_cast<T>(v_) / static_cast<T>(Wide{1} << Frac);
  }

  Fixed& operator+=(Fixed const& o) noexcept { return v_ = wrap(Wide{v_} + o.v_), *this; }
  Fixed& operator-=(Fixed const& o) noexcept { return v_ = wrap(Wide{v_} - o.v_), *this; }
  Fixed& operator*=(Fixed const& o) noexcept {
    if (Down) {
      Wide const whole = Wide{v_} * o.v_, unit = Wide{1} << Frac;
      return v_ = wrap(whole / unit - (whole % unit < 0 ? 1 : 0)), *this;
    }
    Wide const p = Wide{v_} * o.v_ / (Wide{1} << (Frac - 1));
    return v_ = wrap(p / 2 + p % 2), *this;
  }
  friend Fixed operator-(Fixed a) noexcept { return from_raw(wrap(-Wide{a.v_})); }
  friend Fixed operator+(Fixed a, Fixed const& b) noexcept { return a += b; }
  friend Fixed operator-(Fixed a, Fixed const& b) noexcept { return a -= b; }
  friend Fixed operator*(Fixed a, Fixed const& b) noexcept { return a *= b; }
  friend constexpr bool operator==(Fixed const& a, Fixed const& b) noexcept { return a.v_ == b.v_; }
  friend constexpr bool operator!=(Fixed const& a, Fixed const& b) noexcept { return a.v_ != b.v_; }
  friend constexpr bool operator<(Fixed const& a, Fixed const& b) noexcept { return a.v_ < b.v_; }
  friend constexpr bool operator>(Fixed const& a, Fixed const& b) noexcept { return a.v_ > b.v_; }

 private:
  constexpr Fixed(Base b, int) noexcept
      : v_{b} {}
  static Base wrap(Wide x) {
    typename std::make_unsigned<Base>::type const u =
        static_cast<typename std::make_unsigned<Base>::type>(x);
    Base b;
    std::memcpy(&b, &u, sizeof(b));
    return b;
  }
  Base v_;
};

__extension__ typedef __int128 int128;
using Q28 = Fixed<int32_t, int64_t, 28>;
using Q16 = Fixed<int32_t, int64_t, 16>;
using D20 = Fixed<int32_t, int64_t, 20, true>;
using Q40 = Fixed<int64_t, int128, 40>;

// one section, directly from the definition
struct Recurrence {
  Section s;
  ld x1{0}, x2{0}, y1{0}, y2{0};
  ld step(ld x) {
    ld const y = s.b[0] * x + s.b[1] * x1 + s.b[2] * x2 - s.a[1] * y1 - s.a[2] * y2;
    x2 = x1;
    x1 = x;
    y2 = y1;
    y1 = y;
    return y;
  }
};

// the same in the type itself: each product is rounded once, sums are exact
template <typename Q>
struct Exact {
  Q b[3], a[3];
  Q x1{0}, x2{0}, y1{0}, y2{0};
  template <typename S>
  explicit Exact(S const& s) {
    for (std::size_t k = 0; k < 3; ++k) {
      b[k] = s.b()[k];
      a[k] = s.a()[k];
    }
  }
  Q step(Q x) {
    Q const y = b[0] * x + b[1] * x1 + b[2] * x2 - a[1] * y1 - a[2] * y2;
    x2 = x1;
    x1 = x;
    y2 = y1;
    y1 = y;
    return y;
  }
};

constexpr std::size_t kSteps = 200;

struct Gains {
  ld intermediate{1}; // of the values inside of the cascade, for inputs up to 1
  ld error{1};        // of the output, in units of one rounding error
};

// An implementation may round every product (5 per section) once.
Gains gains(std::vector<Section> const& v) {
  std::size_t const n = v.size();
  std::vector<ld> h(n, 0), r(n, 0), in(n + 1, 1);
  Gains g;
  for (std::size_t i = 0; i < n; ++i) {
    Recurrence full, rec;
    full.s = rec.s = v[i];
    rec.s.b[0] = 1;
    rec.s.b[1] = rec.s.b[2] = 0;
    for (std::size_t t = 0; t < kSteps; ++t) {
      h[i] += std::fabs(full.step(t == 0));
      r[i] += std::fabs(rec.step(t == 0));
    }
    in[i + 1] = in[i] * h[i];
    ld sb = 0, sa = 0;
    for (int k = 0; k < 3; ++k) {
      sb += std::fabs(v[i].b[k]);
      sa += std::fabs(v[i].a[k]);
    }
    g.intermediate = std::max(g.intermediate, in[i] * sb + in[i + 1] * sa);
  }
  ld behind = 1;
  for (std::size_t i = n; i-- > 0;) {
    g.error += 5 * r[i] * behind;
    behind *= h[i];
  }
  return g;
}

template <typename D, typename Q>
struct Track {
  using Inst = typename std::decay<decltype(std::declval<D const&>().instance())>::type;
  Inst inst;
  std::vector<Recurrence> model;
  std::vector<Exact<Q>> exact;
  std::size_t steps{0};
};

template <typename Q>
Q random_value(pbt::Case& c, ld scale) {
  switch (c.weighted({2, 1, 1, 5})) {
  case 0:
    return Q(0);
  case 1:
    return Q(static_cast<double>(scale));
  case 2:
    return Q(static_cast<double>(-scale));
  default:
    return Q(static_cast<double>(scale * c.real(-1, 1)));
  }
}

// memory that held something else before
struct Dirty {
  alignas(16) unsigned char mem[4096];
  explicit Dirty(unsigned char x) { std::memset(mem, x, sizeof(mem)); }
};

template <typename Q, typename D, typename DD>
void check(pbt::Case& c, D const& d, DD const& real) {
  std::vector<Section> const v = sections(d), w = sections(real);
  PBT_CHECK(c, v.size() == w.size(), "number of sections");
  for (std::size_t i = 0; i < w.size(); ++i) {
    for (int k = 0; k < 3; ++k) {
      if (std::fabs(w[i].b[k]) > Q::range() / 2 || std::fabs(w[i].a[k]) > Q::range() / 2) {
        return; // does not fit into the type
      }
    }
  }
  for (std::size_t i = 0; i < w.size(); ++i) {
    for (int k = 0; k < 3; ++k) {
      PBT_CHECK(c, std::fabs(v[i].b[k] - w[i].b[k]) <= Q::ulp(), "section %zu: b%d is %.17Lg, not %.17Lg",
                i, k, v[i].b[k], w[i].b[k]);
      PBT_CHECK(c, std::fabs(v[i].a[k] - w[i].a[k]) <= Q::ulp(), "section %zu: a%d is %.17Lg, not %.17Lg",
                i, k, v[i].a[k], w[i].a[k]);
    }
  }
  Gains const g = gains(v);
  ld const scale = Q::range() / 4 / g.intermediate * (c.flip() ? 1 : c.unit());
  ld const tol = Q::ulp() * 2 * g.error;
  if (!(scale > 16 * Q::ulp()) || !(scale < 1e15L)) {
    return;
  }
  using T = Track<D, Q>;
  std::vector<Recurrence> zero;
  for (auto const& s : v) {
    Recurrence r;
    r.s = s;
    zero.push_back(r);
  }
  std::vector<Exact<Q>> zero_exact;
  for (std::size_t i = 0; i < d.sos().size(); ++i) {
    zero_exact.emplace_back(d.sos()[i]);
  }
  // instances in memory with any contents
  std::vector<std::unique_ptr<Dirty>> mem;
  std::vector<T*> t;
  auto const fresh = [&] {
    mem.emplace_back(new Dirty(static_cast<unsigned char>(c.draw(256))));
    static_assert(sizeof(T) <= sizeof(Dirty), "");
    t.push_back(new (mem.back()->mem) T{d.instance(), zero, zero_exact, 0});
    for (auto const& s : t.back()->inst.state()) {
      PBT_CHECK(c, s.y1 == Q(0) && s.y2 == Q(0), "initial state is not zero");
    }
  };
  struct Cleanup {
    std::vector<T*>& t;
    ~Cleanup() {
      for (auto p : t) {
        p->~T();
      }
    }
  } cleanup{t};
  fresh();
  std::size_t total = 0;
  ld largest = 0;
  auto const step = [&](std::size_t i, Q x) {
    if (t[i]->steps == kSteps) {
      return;
    }
    Q const y = t[i]->inst(x);
    Q e = x;
    for (auto& r : t[i]->exact) {
      e = r.step(e);
    }
    PBT_CHECK(c, y == e, "output %zu of instance %zu is %.17Lg, the recurrence in the type itself gives %.17Lg", t[i]->steps,
              i, static_cast<ld>(y), static_cast<ld>(e));
    ld m = static_cast<ld>(x);
    for (auto& r : t[i]->model) {
      m = r.step(m);
    }
    largest = std::max(largest, std::fabs(m));
    PBT_CHECK(c, std::fabs(static_cast<ld>(y) - m) <= tol,
              "output %zu of instance %zu is %.17Lg instead of %.17Lg (tolerance %.3Lg)", t[i]->steps, i,
              static_cast<ld>(y), m, tol);
    ++t[i]->steps;
    ++total;
  };
  std::size_t const ops = 1 + c.draw(12);
  for (std::size_t k = 0; k < ops; ++k) {
    std::size_t const i = c.draw(t.size());
    switch (c.weighted({5, 1, 1})) {
    case 1:
      if (t.size() < 4) {
        fresh();
        c.trace("instance %zu\n", t.size() - 1);
      }
      break;
    case 2: {
      std::size_t const j = c.draw(t.size());
      t[i]->inst = typename T::Inst(t[j]->inst);
      t[i]->model = t[j]->model;
      t[i]->exact = t[j]->exact;
      t[i]->steps = t[j]->steps;
      c.trace("instance %zu = instance %zu\n", i, j);
      break;
    }
    default: {
      std::size_t const n = 1 + c.draw(40);
      bool const impulse = c.flip();
      c.trace("%zu inputs into instance %zu\n", n, i);
      for (std::size_t s = 0; s < n; ++s) {
        step(i, s == 0 || !impulse ? random_value<Q>(c, scale) : Q(0));
      }
    }
    }
  }
  // sections by hand, as in the example of the library
  {
    std::vector<Recurrence> m = zero;
    std::vector<Exact<Q>> e = zero_exact;
    for (std::size_t i = 0; i < d.sos().size(); ++i) {
      auto const& s = d.sos()[i];
      typename std::decay<decltype(s)>::type::state_type st;
      Gains const one = gains(std::vector<Section>(1, v[i]));
      ld const sc = Q::range() / 4 / one.intermediate;
      for (std::size_t k = 0; k < 10; ++k) {
        Q const x = random_value<Q>(c, sc);
        Q const y = s.filter(st, x);
        ld const want = m[i].step(static_cast<ld>(x));
        PBT_CHECK(c, y == e[i].step(x), "section %zu by itself: output %zu is not that of the recurrence in the type", i, k);
        PBT_CHECK(c, std::fabs(static_cast<ld>(y) - want) <= Q::ulp() * 2 * one.error,
                  "section %zu by itself: output %zu is %.17Lg instead of %.17Lg", i, k, static_cast<ld>(y), want);
      }
    }
  }
  std::vector<Section> const after = sections(d);
  PBT_CHECK(c, std::memcmp(&after[0], &v[0], sizeof(Section) * v.size()) == 0 || [&] {
    for (std::size_t i = 0; i < v.size(); ++i) {
      for (int k = 0; k < 3; ++k) {
        if (after[i].b[k] != v[i].b[k] || after[i].a[k] != v[i].a[k]) {
          return false;
        }
      }
    }
    return true;
  }(), "the design has changed");
  if (total > 3 && tol < largest / 16) {
    c.nontrivial();
  }
}

template <typename Q, int Fam, std::size_t N>
void designed(pbt::Case& c) {
  Spec s;
  s.family = Fam;
  s.order = static_cast<int>(N);
  s.hp = c.flip();
  Limits l;
  l.lo = 0.001L;
  l.hi = 0.499L;
  gen_frequencies(c, s, l);
  gen_param(c, s);
  round_spec<double>(s);
  describe(c, s, "");
  auto const base = base_design<Fam, N, double>(s);
  auto const mode = c.flip() ? es::sos_gain::distribute : es::sos_gain::first_section;
  auto const real = base.template sos<double>(mode);
  for (auto const& x : sections(real)) {
    for (int k = 0; k < 3; ++k) {
      if (std::fabs(x.b[k]) > Q::range() / 2 || std::fabs(x.a[k]) > Q::range() / 2) {
        return; // converting it would overflow
      }
    }
  }
  c.trace("%u fraction bits, %s\n", Q::frac, mode == es::sos_gain::distribute ? "distributed" : "first section");
  check<Q>(c, base.template sos<Q>(mode), real);
}

template <int Fam, std::size_t N>
struct AnyFormat {
  static void run(pbt::Case& c) {
    switch (c.draw(4)) {
    case 3:
      return designed<D20, Fam, N>(c);
    case 0:
      return designed<Q28, Fam, N>(c);
    case 1:
      return designed<Q40, Fam, N>(c);
    default:
      return designed<Q16, Fam, N>(c);
    }
  }
};

#if SHARD < 4
void orders(pbt::Case& c) {
  any_order<AnyFormat, SHARD, 1>(c, embedded::make_index_sequence<10>{});
}
PBT_REGISTER(orders_1_10, &orders, 20000, 600000);
#endif

#if SHARD == 0
void high(pbt::Case& c) {
  switch (c.draw(3)) {
  case 0: return designed<Q28, BUTTER, 20>(c);
  case 1: return designed<Q40, CHEBY2, 15>(c);
  default: return designed<Q40, BESSEL, 24>(c);
  }
}
PBT_REGISTER(high_orders, &high, 4000, 100000);

// designs evaluated by the compiler
void constants(pbt::Case& c) {
  switch (c.draw(3)) {
  case 0: {
    static constexpr auto base = es::iirfilter<double>(1000.0).highpass(es::butterworth<20>(), 40.0);
    static constexpr auto d = base.sos<Q28>(es::sos_gain::distribute);
    static constexpr auto r = base.sos<double>(es::sos_gain::distribute);
    return check<Q28>(c, d, r);
  }
  case 1: {
    static constexpr auto base = es::iirfilter<double>(8000.0).lowpass(es::chebyshev2<5>(40.0), 1500.0);
    static constexpr auto d = base.sos<Q40>();
    static constexpr auto r = base.sos<double>();
    return check<Q40>(c, d, r);
  }
  default: {
    static constexpr auto base = es::iirfilter<double>(48000.0).lowpass(es::bessel<7>(), 9000.0);
    static constexpr auto d = base.sos<Q16>(es::sos_gain::distribute);
    static constexpr auto r = base.sos<double>(es::sos_gain::distribute);
    return check<Q16>(c, d, r);
  }
  }
}
PBT_REGISTER(constants, &constants, 3000, 60000);
#endif

} // namespace
