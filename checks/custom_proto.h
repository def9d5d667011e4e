// Prototypes written by a user: a class with order() and spec<F>(), which has
// zpk(), with any zeros, poles (in the left half plane) and gain.
#pragma once

#include "signal_common.h"

template <std::size_t Zn, std::size_t Pn, typename T>
struct Analog {
  using cnum = embedded::cmath::complex<T>;
  std::array<cnum, Zn> z;
  std::array<cnum, Pn> p;
  T k{1};
};

template <std::size_t Zn, std::size_t Pn, typename T>
class custom {
 public:
  static constexpr std::size_t order() noexcept { return Pn; }
  explicit custom(Analog<Zn, Pn, T> const& a) : a_(a) {}

  template <typename F>
  class specification {
   public:
    explicit specification(Analog<Zn, Pn, T> const& a) : a_(a) {}
    template <std::size_t N>
    using carray = embedded::cmath::vector<embedded::cmath::complex<F>, N>;
    template <std::size_t N>
    static carray<N> convert(std::array<typename Analog<Zn, Pn, T>::cnum, N> const& v) {
      return convert<N>(v, embedded::make_index_sequence<N>{});
    }
    carray<Zn> zeros() const noexcept { return convert<Zn>(a_.z); }
    carray<Pn> poles() const noexcept { return convert<Pn>(a_.p); }
    F gain() const noexcept { return static_cast<F>(a_.k); }
    es::detail::zpk_value<Zn, Pn, F> zpk() const noexcept {
      return es::detail::zpk_value<Zn, Pn, F>(zeros(), poles(), gain());
    }

   private:
    template <std::size_t N, typename V, std::size_t... I>
    static carray<N> convert(V const& v, embedded::index_sequence<I...>) {
      (void)v;
      return carray<N>{embedded::cmath::complex<F>(static_cast<F>(v[I].real()), static_cast<F>(v[I].imag()))...};
    }
    Analog<Zn, Pn, T> a_;
  };

  template <typename F>
  specification<F> spec() const noexcept {
    return specification<F>(a_);
  }

 private:
  Analog<Zn, Pn, T> a_;
};

// n roots, closed under conjugation, in any order
enum class Side { left, any };
inline std::vector<lc> gen_roots(pbt::Case& c, std::size_t n, Side side, bool repeat, bool origin) {
  std::vector<lc> r;
  unsigned const reals = 1 + static_cast<unsigned>(c.draw(3)); // how often a root is real, of 4
  while (r.size() < n) {
    if (repeat && !r.empty() && c.chance(1, 4)) {
      lc const q = r[c.draw(r.size())];
      if (q.imag() == 0) {
        r.push_back(q);
        continue;
      } else if (r.size() + 2 <= n) {
        r.push_back(q);
        r.push_back(std::conj(q));
        continue;
      }
    }
    double const mag = c.chance(1, 4) ? c.pick<double>({1, 0.5, 2, 0.25}) : std::pow(10.0, c.real(-1.3, 1.3));
    ld const sign = side == Side::any && c.flip() ? 1 : -1;
    if (r.size() + 2 > n || c.chance(reals, 4)) {
      r.push_back(origin && c.chance(1, 4) ? lc(0) : lc(sign * mag));
    } else {
      double const a = side == Side::any && c.flip() ? 1.5707963267948966 : c.real(0.02, 1.55);
      ld const re = a > 1.57 ? 0 : sign * mag * std::cos(a);
      ld const im = mag * std::sin(a);
      r.push_back(lc(re, im));
      r.push_back(lc(re, -im));
    }
  }
  for (std::size_t i = r.size(); i > 1; --i) { // in any order
    std::swap(r[i - 1], r[c.draw(i)]);
  }
  return r;
}

template <typename T>
lc rounded_root(lc const& q) {
  return lc(static_cast<ld>(static_cast<T>(q.real())), static_cast<ld>(static_cast<T>(q.imag())));
}

// A prototype and, in long double, what its design is: digital zeros, poles
// and the leading coefficient of the numerator.
struct CustomRef {
  std::vector<lc> z, p; // z-plane
  ld lead{1};
  ld amp{1}; // how much errors of the warped cutoff are amplified
};

template <std::size_t Zn, std::size_t Pn, typename T>
Analog<Zn, Pn, T> gen_custom(pbt::Case& c, Spec const& s, bool repeat, CustomRef& ref) {
  ld const t = std::tan(pi_l() * s.fc / s.fs);
  Analog<Zn, Pn, T> a;
  auto const p = gen_roots(c, Pn, Side::left, repeat, false);
  auto z = gen_roots(c, Zn, Side::any, repeat, !s.hp);
  a.k = static_cast<T>(c.flip() ? c.pick<double>({1, 0.5, 3, 0.001}) : c.real(0.01, 100));
  c.trace("prototype: gain %.17Lg\n", static_cast<ld>(a.k));
  for (auto& q : z) { // a zero at the infinite point of the transform
    lc const y = s.hp ? t / q : t * q;
    if (std::abs(1.0L - y) < 0.1L) {
      q = -q;
    }
  }
  ref.lead = static_cast<ld>(a.k);
  lc num = 1, den = 1;
  auto const map = [&](lc q, std::vector<lc>& to, lc& prod) {
    q = rounded_root<T>(q);
    lc const y = s.hp ? t / q : t * q;
    to.push_back((1.0L + y) / (1.0L - y));
    prod *= s.hp ? t - q : 1.0L - y;
    ref.amp = std::max(ref.amp, 2 * std::abs(y) / std::norm(1.0L - y));
  };
  for (std::size_t i = 0; i < Zn; ++i) {
    a.z[i] = embedded::cmath::complex<T>(static_cast<T>(z[i].real()), static_cast<T>(z[i].imag()));
    c.trace("zero %.17Lg%+.17Lgj\n", static_cast<ld>(a.z[i].real()), static_cast<ld>(a.z[i].imag()));
    map(z[i], ref.z, num);
  }
  for (std::size_t i = 0; i < Pn; ++i) {
    a.p[i] = embedded::cmath::complex<T>(static_cast<T>(p[i].real()), static_cast<T>(p[i].imag()));
    c.trace("pole %.17Lg%+.17Lgj\n", static_cast<ld>(a.p[i].real()), static_cast<ld>(a.p[i].imag()));
    map(p[i], ref.p, den);
  }
  ref.lead *= (num / den).real();
  if (!s.hp) {
    ref.lead *= std::pow(t, static_cast<ld>(Pn - Zn));
  }
  while (ref.z.size() < Pn) {
    ref.z.push_back(s.hp ? 1.0L : -1.0L);
  }
  return a;
}

template <std::size_t Zn, std::size_t Pn, typename T>
typename es::iirfilter<T>::template design<Pn> custom_design(Spec const& s, Analog<Zn, Pn, T> const& a) {
  es::iirfilter<T> const f(static_cast<T>(s.fs));
  custom<Zn, Pn, T> const p(a);
  return s.hp ? f.highpass(p, static_cast<T>(s.fc)) : f.lowpass(p, static_cast<T>(s.fc));
}
