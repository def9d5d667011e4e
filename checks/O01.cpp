// O01: stream output represents the value.
//
// Every component has to appear, in order, as the stream itself would print it
// with the same settings, inside the documented brackets; the settings of the
// stream have to survive.
#include <array>
#include <cmath>
#include <cstdint>
#include <limits>
#include <locale>
#include <ostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace fpm { // stands in for the optional dependency
template <typename T1, typename T2, unsigned B>
struct fixed {
  T1 raw;
  template <typename F>
  explicit operator F() const {
    static_assert(std::is_floating_point<F>::value, "");
    return static_cast<F>(raw) / static_cast<F>(1ull << B);
  }
  T1 raw_value() const { return raw; }
};
} // namespace fpm

#include <embedded/ostream_ops.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>

#include "pbt.h"

namespace cm = embedded::cmath;
namespace es = embedded::signal;

namespace {

struct Format {
  std::ios_base::fmtflags flags;
  std::streamsize precision;
  char fill;
};

Format gen_format(pbt::Case& c) {
  Format f;
  std::ostringstream os;
  f.flags = os.flags();
  using B = std::ios_base;
  switch (c.weighted({4, 2, 2, 1})) {
  case 0:
    break;
  case 1:
    f.flags |= B::fixed;
    break;
  case 2:
    f.flags |= B::scientific;
    break;
  default:
    f.flags |= B::fixed | B::scientific;
  }
  if (c.draw(4) == 0) {
    f.flags |= B::showpos;
  }
  if (c.draw(4) == 0) {
    f.flags |= B::uppercase;
  }
  if (c.draw(4) == 0) {
    f.flags |= B::showpoint;
  }
  if (c.draw(5) == 0) {
    f.flags = (f.flags & ~B::basefield) | (c.flip() ? B::hex : B::oct);
    if (c.flip()) {
      f.flags |= B::showbase;
    }
  }
  if (c.draw(6) == 0) {
    f.flags |= c.flip() ? B::left : B::internal;
  }
  if (c.draw(6) == 0) {
    f.flags |= B::boolalpha | B::unitbuf;
  }
  f.precision = c.flip() ? 6 : static_cast<std::streamsize>(c.draw(25));
  f.fill = c.draw(4) ? ' ' : '*';
  return f;
}

template <class T>
std::string plain(Format const& f, T const& x) {
  std::ostringstream os;
  os.flags(f.flags);
  os.precision(f.precision);
  os.fill(f.fill);
  os << x;
  return os.str();
}

struct Reader {
  pbt::Case& c;
  Format const& f;
  std::string const& s;
  size_t p;

  void space() {
    while (p < s.size() && s[p] == ' ') {
      ++p;
    }
  }
  void lit(char const* t) {
    space();
    std::string const w(t);
    PBT_CHECK(c, s.compare(p, w.size(), w) == 0,
              "'%s' expected at position %zu of: %s", t, p, s.c_str());
    p += w.size();
    space();
  }
  template <class T>
  void component(T const& x) {
    std::string const w = plain(f, x);
    PBT_CHECK(c, s.compare(p, w.size(), w) == 0,
              "component '%s' expected at position %zu of: %s", w.c_str(), p,
              s.c_str());
    p += w.size();
  }
};

void read(Reader& r, double x) { r.component(x); }
void read(Reader& r, float x) { r.component(x); }
void read(Reader& r, long double x) { r.component(x); }
void read(Reader& r, int x) { r.component(x); }
void read(Reader& r, long long x) { r.component(x); }
void read(Reader& r, bool x) { r.component(x); }
void read(Reader& r, std::string const& x) { r.component(x); }

template <class A, class B, unsigned F>
void read(Reader& r, fpm::fixed<A, B, F> const& x) {
  r.component(static_cast<double>(x.raw) / static_cast<double>(1ull << F));
  r.lit("(");
  r.component(x.raw);
  r.lit(")");
}
template <class T>
void read(Reader& r, cm::complex<T> const& z) {
  read(r, z.real());
  r.space();
  std::string const im = plain(r.f, z.imag());
  // a sign has to separate the parts
  bool const has_sign = im[0] == '+' || im[0] == '-';
  if (!std::isnan(static_cast<double>(z.imag())) && !has_sign) {
    r.lit("+");
  } else if (r.s.compare(r.p, im.size(), im) != 0) {
    r.lit("+"); // allowed before a component with a sign of its own
  }
  read(r, z.imag());
  r.lit("j");
}
template <class T, size_t N>
void read(Reader& r, cm::vector<T, N> const& v);
template <class T, size_t N>
void read(Reader& r, std::array<T, N> const& v);
template <class F>
void read(Reader& r, es::sos_section<F> const& s) {
  r.lit("{");
  r.lit("b");
  r.lit("=");
  read(r, s.b());
  r.lit(",");
  r.lit("a");
  r.lit("=");
  read(r, s.a());
  r.lit("}");
}
template <size_t Z, size_t P, class F>
void read(Reader& r, es::detail::zpk_value<Z, P, F> const& s) {
  r.lit("{");
  r.lit("zeros");
  r.lit("=");
  read(r, s.zeros());
  r.lit(",");
  r.lit("poles");
  r.lit("=");
  read(r, s.poles());
  r.lit(",");
  r.lit("gain");
  r.lit("=");
  read(r, s.gain());
  r.lit("}");
}
template <class V>
void read_list(Reader& r, V const& v) {
  r.lit("[");
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) {
      r.lit(",");
    }
    read(r, v[i]);
  }
  r.lit("]");
}
template <class T, size_t N>
void read(Reader& r, cm::vector<T, N> const& v) {
  read_list(r, v);
}
template <class T, size_t N>
void read(Reader& r, std::array<T, N> const& v) {
  read_list(r, v);
}

template <class V>
void check(pbt::Case& c, V const& v) {
  Format const f = gen_format(c);
  std::ostringstream os;
  os.flags(f.flags);
  os.precision(f.precision);
  os.fill(f.fill);
  bool const ex = c.flip();
  if (ex) {
    os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
  }
  os << "<";
  std::ostream& back = (os << v);
  PBT_CHECK(c, &back == &os, "operator<< returns another stream");
  PBT_CHECK(c, os.good(), "the stream failed");
  PBT_CHECK(c, os.flags() == f.flags, "format flags changed: %#x to %#x",
            static_cast<unsigned>(f.flags), static_cast<unsigned>(os.flags()));
  PBT_CHECK(c, os.precision() == f.precision, "precision changed: %ld to %ld",
            static_cast<long>(f.precision), static_cast<long>(os.precision()));
  PBT_CHECK(c, os.fill() == f.fill && os.width() == 0,
            "fill character or width changed");
  PBT_CHECK(c,
            os.exceptions() == (ex ? std::ios_base::badbit | std::ios_base::failbit
                                   : std::ios_base::goodbit),
            "exception mask changed");
  os << ">";
  std::string const s = os.str();
  c.trace("%s\n", s.c_str());
  Reader r{c, f, s, 0};
  PBT_CHECK(c, s[0] == '<', "output before the value");
  r.p = 1;
  r.space();
  read(r, v);
  r.space();
  PBT_CHECK(c, r.p + 1 == s.size() && s[r.p] == '>',
            "superfluous output at position %zu of: %s", r.p, s.c_str());
}

template <class T>
T number(pbt::Case& c) {
  switch (c.weighted({3, 3, 2, 2, 1, 1, 1})) {
  case 0:
    return static_cast<T>(c.range(-5, 5));
  case 1:
    return static_cast<T>(c.real(-10, 10));
  case 2:
    return static_cast<T>(std::pow(10.0, c.real(-300, 300) *
                                             (sizeof(T) > 4 ? 1 : 0.1)) *
                          (c.flip() ? 1 : -1));
  case 3:
    return static_cast<T>(0);
  case 4:
    return -static_cast<T>(0);
  case 5:
    return c.flip() ? std::numeric_limits<T>::infinity()
                    : -std::numeric_limits<T>::infinity();
  default:
    return c.flip() ? std::numeric_limits<T>::quiet_NaN()
                    : static_cast<T>(1) / static_cast<T>(3);
  }
}
template <>
int number<int>(pbt::Case& c) {
  return static_cast<int>(c.uint(32));
}
template <>
long long number<long long>(pbt::Case& c) {
  return static_cast<long long>(c.uint(64));
}
template <>
bool number<bool>(pbt::Case& c) {
  return c.flip();
}
template <>
std::string number<std::string>(pbt::Case& c) {
  return std::string(c.draw(4), 's');
}

template <class T>
struct Value {
  static T gen(pbt::Case& c) { return number<T>(c); }
};
template <class T>
struct Value<cm::complex<T>> {
  static cm::complex<T> gen(pbt::Case& c) {
    T const re = number<T>(c);
    return cm::complex<T>(re, number<T>(c));
  }
};
template <class A, class B, unsigned F>
struct Value<fpm::fixed<A, B, F>> {
  static fpm::fixed<A, B, F> gen(pbt::Case& c) {
    uint64_t const r = c.flip() ? c.uint(8 * sizeof(A))
                                : static_cast<uint64_t>(c.range(-300, 300));
    return {static_cast<A>(r)};
  }
};
template <class T>
struct Holder {
  T x;
};
template <class T, size_t N>
struct Value<cm::vector<T, N>> {
  template <size_t... I>
  static cm::vector<T, N> make(std::vector<Holder<T>> const& v,
                               embedded::index_sequence<I...>) {
    return cm::vector<T, N>{T(v[I].x)...};
  }
  static cm::vector<T, N> gen(pbt::Case& c) {
    std::vector<Holder<T>> v;
    for (size_t i = 0; i < N; ++i) {
      v.push_back(Holder<T>{Value<T>::gen(c)});
    }
    return make(v, embedded::make_index_sequence<N>{});
  }
};
template <class T, size_t N>
struct Value<std::array<T, N>> {
  template <size_t... I>
  static std::array<T, N> make(std::vector<Holder<T>> const& v,
                               embedded::index_sequence<I...>) {
    return std::array<T, N>{{T(v[I].x)...}};
  }
  static std::array<T, N> gen(pbt::Case& c) {
    std::vector<Holder<T>> v;
    for (size_t i = 0; i < N; ++i) {
      v.push_back(Holder<T>{Value<T>::gen(c)});
    }
    return make(v, embedded::make_index_sequence<N>{});
  }
};
template <class F>
struct Value<es::sos_section<F>> {
  static es::sos_section<F> gen(pbt::Case& c) {
    auto const z = Value<cm::vector<cm::complex<F>, 2>>::gen(c);
    auto const p = Value<cm::vector<cm::complex<F>, 2>>::gen(c);
    return es::sos_section<F>(z, p, number<F>(c));
  }
};
template <size_t Z, size_t P, class F>
struct Value<es::detail::zpk_value<Z, P, F>> {
  static es::detail::zpk_value<Z, P, F> gen(pbt::Case& c) {
    auto const z = Value<cm::vector<cm::complex<F>, Z>>::gen(c);
    auto const p = Value<cm::vector<cm::complex<F>, P>>::gen(c);
    return es::detail::zpk_value<Z, P, F>(z, p, number<F>(c));
  }
};

template <class V>
void one(pbt::Case& c) {
  check(c, Value<V>::gen(c));
  c.nontrivial();
}
template <class V>
void trivial(pbt::Case& c) {
  check(c, Value<V>::gen(c));
}
typedef void (*Fn)(pbt::Case&);
typedef cm::complex<double> Cd;
typedef cm::complex<float> Cf;
typedef cm::complex<long double> Cl;

PBT_PROP(complex_numbers, 60000, 2000000) {
  static Fn const t[] = {&one<Cd>, &one<Cf>, &one<Cl>};
  t[c.draw(3)](c);
}

template <template <class, size_t> class V, class T, size_t... N>
void sized(pbt::Case& c, embedded::index_sequence<N...>) {
  static Fn const t[] = {(N == 0 ? &trivial<V<T, N>> : &one<V<T, N>>)...};
  t[c.draw(sizeof...(N))](c);
}
PBT_PROP(vectors, 60000, 2000000) {
  embedded::make_index_sequence<9> s;
  switch (c.draw(5)) {
  case 0:
    return sized<cm::vector, double>(c, s);
  case 1:
    return sized<cm::vector, Cd>(c, s);
  case 2:
    return sized<cm::vector, int>(c, s);
  case 3:
    return sized<cm::vector, Cf>(c, s);
  default:
    return sized<cm::vector, long long>(c, s);
  }
}
PBT_PROP(arrays, 60000, 2000000) {
  embedded::make_index_sequence<9> s;
  switch (c.draw(5)) {
  case 0:
    return sized<std::array, double>(c, s);
  case 1:
    return sized<std::array, Cd>(c, s);
  case 2:
    return sized<std::array, std::string>(c, s);
  case 3:
    return sized<std::array, bool>(c, s);
  default:
    return sized<std::array, float>(c, s);
  }
}
template <class V>
using V3 = cm::vector<V, 3>;
template <class V>
using A2 = std::array<V, 2>;
PBT_PROP(nested, 40000, 1200000) {
  static Fn const t[] = {&one<V3<V3<double>>>,
                         &one<A2<V3<Cd>>>,
                         &one<A2<A2<A2<int>>>>,
                         &one<A2<std::array<double, 0>>>,
                         &one<V3<es::sos_section<double>>>,
                         &one<A2<es::sos_section<float>>>,
                         &one<cm::vector<es::sos_section<double>, 1>>,
                         &one<A2<es::detail::zpk_value<1, 2, double>>>};
  t[c.draw(8)](c);
}
PBT_PROP(large, 6000, 200000) {
  static Fn const t[] = {&one<cm::vector<double, 12>>,
                         &one<cm::vector<Cd, 17>>,
                         &one<cm::vector<int, 33>>,
                         &one<cm::vector<int, 150>>,
                         &one<std::array<double, 40>>,
                         &one<std::array<int, 100>>,
                         &one<std::array<Cf, 11>>,
                         &one<A2<cm::vector<double, 20>>>,
                         &one<cm::vector<es::sos_section<double>, 25>>,
                         &one<es::detail::zpk_value<20, 24, double>>};
  t[c.draw(10)](c);
}
PBT_PROP(fixed_point, 40000, 1200000) {
  using F16 = fpm::fixed<int16_t, int32_t, 8>;
  using F32 = fpm::fixed<int32_t, int64_t, 16>;
  using U32 = fpm::fixed<uint32_t, uint64_t, 31>;
  using F64 = fpm::fixed<int64_t, long long, 40>;
  static Fn const t[] = {&one<F16>,
                         &one<F32>,
                         &one<U32>,
                         &one<F64>,
                         &one<A2<F32>>,
                         &one<std::array<F16, 5>>,
                         &one<std::array<A2<F64>, 2>>};
  t[c.draw(7)](c);
}
PBT_PROP(filter_parts, 60000, 2000000) {
  using es::detail::zpk_value;
  static Fn const t[] = {&one<es::sos_section<double>>,
                         &one<es::sos_section<float>>,
                         &one<es::sos_section<long double>>,
                         &one<zpk_value<0, 1, double>>,
                         &one<zpk_value<0, 4, double>>,
                         &one<zpk_value<3, 3, float>>,
                         &one<zpk_value<2, 5, double>>,
                         &one<zpk_value<8, 8, double>>,
                         &trivial<zpk_value<0, 0, double>>};
  t[c.draw(9)](c);
}
PBT_PROP(designs, 5000, 200000) {
  double const fc = c.real(0.01, 0.49);
  es::iirfilter<double> const f(1.0);
  c.nontrivial();
  switch (c.draw(4)) {
  case 0:
    return check(c, f.lowpass(es::butterworth<5>(), fc).sos<double>().sos());
  case 1:
    return check(
        c, f.highpass(es::chebyshev2<4>(40.0), fc).sos<float>().sos()[1]);
  case 2:
    return check(c, f.lowpass(es::chebyshev1<3>(1.0), fc).poly<double>().a());
  default:
    return check(c, es::chebyshev2<5>(c.real(10, 60)).spec<double>().zpk());
  }
}

} // namespace
