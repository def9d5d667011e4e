// M01: compile-time vector operations equal their element-wise definitions.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <type_traits>
#include <utility>
#include <vector>

#include <embedded/constexpr_math.h>

#include "pbt.h"

namespace cm = embedded::cmath;

namespace {

// --- element types ------------------------------------------------------------

struct Item { // sorted by key; the tag tells equal keys apart
  int key{0};
  int tag{0};
  constexpr Item() = default;
  constexpr Item(int k, int t = 0)
      : key{k}
      , tag{t} {}
  constexpr bool operator==(Item const& o) const {
    return key == o.key && tag == o.tag;
  }
};

template <typename T>
struct Gen;
template <>
struct Gen<int> {
  static int one(pbt::Case& c) {
    return static_cast<int>(c.chance(1, 2) ? c.range(0, 3) : c.range(-1000, 1000));
  }
};
template <>
struct Gen<int64_t> {
  static int64_t one(pbt::Case& c) {
    return c.chance(1, 2) ? c.range(-2, 2) : c.range(-1000000, 1000000);
  }
};
template <>
struct Gen<double> {
  static double one(pbt::Case& c) {
    switch (c.weighted({4, 4, 1})) {
    case 0:
      return static_cast<double>(c.range(-3, 3));
    case 1:
      return c.real(-100, 100);
    default:
      return c.pick<double>({0.0, -0.0, 1e300, -1e-300,
                             std::numeric_limits<double>::infinity(),
                             -std::numeric_limits<double>::infinity()});
    }
  }
};
template <>
struct Gen<float> {
  static float one(pbt::Case& c) {
    return c.flip() ? static_cast<float>(c.real(-100, 100))
                    : static_cast<float>(c.range(-3, 3));
  }
};
template <>
struct Gen<Item> {
  static Item one(pbt::Case& c) {
    return Item(static_cast<int>(c.range(0, 4)), static_cast<int>(c.draw(100)));
  }
};
template <>
struct Gen<cm::complex<double>> {
  static cm::complex<double> one(pbt::Case& c) {
    return cm::complex<double>(Gen<double>::one(c), Gen<double>::one(c));
  }
};

template <typename T>
bool same(T const& a, T const& b) {
  return a == b;
}
bool same(double a, double b) { // bit for bit, but for NaN
  return std::memcmp(&a, &b, sizeof(a)) == 0 || (a != a && b != b);
}
bool same(float a, float b) {
  return std::memcmp(&a, &b, sizeof(a)) == 0 || (a != a && b != b);
}
bool same(cm::complex<double> const& a, cm::complex<double> const& b) {
  return same(a.real(), b.real()) && same(a.imag(), b.imag());
}

template <typename T, std::size_t... I>
cm::vector<T, sizeof...(I)> build(std::vector<T> const& v,
                                  embedded::index_sequence<I...>) {
  return cm::vector<T, sizeof...(I)>{v[I]...};
}
template <std::size_t N, typename T>
cm::vector<T, N> make(std::vector<T> const& v) {
  return build(v, embedded::make_index_sequence<N>{});
}

template <typename T, std::size_t N>
void expect(pbt::Case& c, cm::vector<T, N> const& got,
            std::vector<T> const& want, char const* what) {
  static_assert(cm::vector<T, N>::size() == N, "size");
  PBT_CHECK(c, want.size() == N, "%s: size %zu instead of %zu", what, N,
            want.size());
  for (std::size_t i = 0; i < N; ++i) {
    PBT_CHECK(c, same(got[i], want[i]), "%s: element %zu of %zu", what, i, N);
  }
}

template <typename T>
std::vector<T> gen(pbt::Case& c, std::size_t n) {
  std::vector<T> v;
  for (std::size_t i = 0; i < n; ++i) {
    v.push_back(Gen<T>::one(c));
  }
  return v;
}

// --- orders ---------------------------------------------------------------------

struct Less {
  template <typename T>
  constexpr bool operator()(T const& a, T const& b) const {
    return a < b;
  }
  constexpr bool operator()(Item const& a, Item const& b) const {
    return a.key < b.key;
  }
  constexpr bool operator()(cm::complex<double> const& a,
                            cm::complex<double> const& b) const {
    return a.norm() < b.norm();
  }
};
struct Greater {
  template <typename T>
  constexpr bool operator()(T const& a, T const& b) const {
    return Less()(b, a);
  }
};
struct Mod { // a stateful predicate with many ties
  int m;
  template <typename T>
  long long k(T const& a) const {
    return static_cast<long long>(std::isfinite(static_cast<double>(a))
                                      ? static_cast<double>(a)
                                      : 0.0) % m;
  }
  long long k(Item const& a) const { return a.key % m; }
  long long k(cm::complex<double> const& a) const { return k(a.real()); }
  template <typename T>
  bool operator()(T const& a, T const& b) const {
    return k(a) < k(b);
  }
};

struct Fun { // transforms
  int k;
  template <typename T>
  T operator()(T const& v) const {
    return static_cast<T>(v + static_cast<T>(k));
  }
  Item operator()(Item const& v) const { return Item(v.key + k, v.tag); }
  cm::complex<double> operator()(cm::complex<double> const& v) const {
    return cm::complex<double>(v.imag(), v.real() + k);
  }
};
struct ToLong {
  int k;
  template <typename T>
  long operator()(T const& v) const {
    return num(v) * 3 + k;
  }
  static long num(double v) {
    return std::isfinite(v) && std::fabs(v) < 1e15 ? static_cast<long>(v) : 7;
  }
  static long num(Item const& v) { return v.tag; }
  static long num(cm::complex<double> const& v) { return num(v.imag()); }
};

// --- one size ---------------------------------------------------------------------

template <typename V, typename Pred>
void orders(pbt::Case& c, V const& v,
            std::vector<typename V::value_type> const& m, Pred const& p) {
  using T = typename V::value_type;
  constexpr std::size_t N = V::size();
  if (N > 0) {
    auto const min = std::min_element(m.begin(), m.end(), p);
    PBT_CHECK(c, v.argmin(p) == static_cast<std::size_t>(min - m.begin()),
              "argmin of %zu elements is %zu, not %td", N, v.argmin(p),
              min - m.begin());
  }
  auto const s = v.sort(p);
  static_assert(std::is_same<typename std::remove_const<decltype(s)>::type, V>::value, "sort");
  std::vector<T> left = m;
  for (std::size_t i = 0; i < N; ++i) {
    PBT_CHECK(c, i == 0 || !p(s[i], s[i - 1]), "sort: not sorted at %zu of %zu",
              i, N);
    auto f = std::find_if(left.begin(), left.end(),
                          [&](T const& x) { return same(x, s[i]); });
    PBT_CHECK(c, f != left.end(), "sort: not a permutation of %zu elements", N);
    left.erase(f);
  }
}

template <typename T, std::size_t N, std::size_t Pos, std::size_t Count>
struct Sub {
  static void go(pbt::Case& c, cm::vector<T, N> const& v,
                 std::vector<T> const& m) {
    auto const b = m.begin() + static_cast<std::ptrdiff_t>(Pos);
    auto const e = b + static_cast<std::ptrdiff_t>(Count);
    expect(c, v.template subvector<Pos, Count>(), std::vector<T>(b, e),
           "subvector");
    std::vector<T> x(m.begin(), b);
    x.insert(x.end(), e, m.end());
    expect(c, v.template erase<Pos, Count>(), x, "erase");
  }
};
template <typename T, std::size_t N, std::size_t... K>
void all_subs(pbt::Case& c, cm::vector<T, N> const& v, std::vector<T> const& m,
              std::size_t which, embedded::index_sequence<K...>) {
  // K enumerates the pairs (Pos, Count) with Pos + Count <= N
  using Fn = void (*)(pbt::Case&, cm::vector<T, N> const&,
                      std::vector<T> const&);
  static Fn const f[] = {
      &Sub<T, N, (K / (N + 1) <= N - K % (N + 1) ? K / (N + 1) : 0),
           K % (N + 1)>::go...};
  if (which == ~std::size_t{0}) {
    for (Fn g : f) {
      g(c, v, m);
    }
  } else {
    f[which % (sizeof(f) / sizeof(f[0]))](c, v, m);
  }
}

template <typename T, std::size_t N, bool = (N > 0)>
struct NonEmpty {
  static void go(pbt::Case& c, cm::vector<T, N> const& v,
                 std::vector<T> const& m) {
    std::size_t const a = static_cast<std::size_t>(c.draw(N)),
                      b = static_cast<std::size_t>(c.draw(N));
    std::vector<T> x = m;
    std::swap(x[a], x[b]);
    expect(c, v.swap(a, b), x, "swap");
    // element i goes, the first one takes its place
    x = m;
    std::swap(x[a], x[0]);
    x.erase(x.begin());
    expect(c, v.swappop(a), x, "swappop");
    std::vector<T> y = m;
    y.erase(y.begin());
    expect(c, v.template erase<0>(), y, "erase<0>");
    // equality sees every element
    std::vector<T> d = m;
    d[a] = Gen<T>::one(c);
    bool equal = true;
    for (std::size_t i = 0; i < N; ++i) {
      equal = equal && d[i] == m[i];
    }
    PBT_CHECK(c, (v == make<N>(d)) == equal,
              "operator== of vectors that differ in element %zu of %zu is %d",
              a, N, !equal);
  }
};
template <typename T, std::size_t N>
struct NonEmpty<T, N, false> {
  static void go(pbt::Case&, cm::vector<T, N> const&, std::vector<T> const&) {}
};

template <typename T>
struct Reduce {
  template <std::size_t N>
  static void go(pbt::Case&, cm::vector<T, N> const&, std::vector<T> const&) {}
};
struct Xor {
  int operator()(int a, int b) const { return a ^ b; }
  int64_t operator()(int64_t a, int64_t b) const { return a ^ b; }
};
struct Add {
  template <typename T>
  T operator()(T a, T b) const {
    return static_cast<T>(a + b);
  }
};
struct Max {
  template <typename T>
  T operator()(T a, T b) const {
    return a < b ? b : a;
  }
};
struct Tangle { // neither commutative nor associative
  template <typename T>
  T operator()(T a, T b) const {
    return static_cast<T>((a * 31 + b) % 1000003);
  }
};
template <typename T, std::size_t N>
void int_reduce(pbt::Case& c, cm::vector<T, N> const& v,
                std::vector<T> const& m) {
  T const init = Gen<T>::one(c);
  auto fold = [&](auto f, T s, bool back) {
    for (std::size_t i = 0; i < N; ++i) {
      s = f(s, m[back ? N - 1 - i : i]);
    }
    return s;
  };
  PBT_CHECK(c, v.reduce(Xor(), init) == fold(Xor(), init, false), "reduce xor");
  PBT_CHECK(c, v.reduce(Add(), init) == fold(Add(), init, false), "reduce +");
  PBT_CHECK(c, v.reduce(Max(), init) == fold(Max(), init, false), "reduce max");
  PBT_CHECK(c, v.reduce(Add()) == fold(Add(), T{1}, false),
            "reduce with the default initial value");
  T const t = v.reduce(Tangle(), init);
  PBT_CHECK(c, t == fold(Tangle(), init, false) ||
                   t == fold(Tangle(), init, true),
            "reduce is not a fold from either end");
}
template <>
struct Reduce<int> {
  template <std::size_t N>
  static void go(pbt::Case& c, cm::vector<int, N> const& v,
                 std::vector<int> const& m) {
    int_reduce(c, v, m);
  }
};
template <>
struct Reduce<int64_t> {
  template <std::size_t N>
  static void go(pbt::Case& c, cm::vector<int64_t, N> const& v,
                 std::vector<int64_t> const& m) {
    int_reduce(c, v, m);
  }
};

// scalar arithmetic
template <typename T>
struct Arith {
  template <std::size_t N>
  static void go(pbt::Case&, cm::vector<T, N> const&, std::vector<T> const&) {}
};
template <typename T, typename S, std::size_t N>
void arith(pbt::Case& c, cm::vector<T, N> const& v, std::vector<T> const& m,
           S s, bool divide) {
  auto map = [&](auto f) {
    std::vector<T> r;
    for (auto const& x : m) {
      r.push_back(static_cast<T>(f(x)));
    }
    return r;
  };
  expect(c, s * v, map([&](T const& x) { return s * x; }), "scalar * vector");
  expect(c, s + v, map([&](T const& x) { return s + x; }), "scalar + vector");
  expect(c, -v, map([](T const& x) { return -x; }), "negation");
  if (divide) {
    expect(c, v / s, map([&](T const& x) { return x / s; }), "vector / scalar");
    bool zero = false;
    for (auto const& x : m) {
      zero |= x == T{};
    }
    if (!zero) {
      expect(c, s / v, map([&](T const& x) { return s / x; }),
             "scalar / vector");
    }
  }
}
template <typename T>
void element_prod(pbt::Case& c, T got, std::vector<T> const& m) {
  T want{1};
  for (auto const& x : m) {
    want = static_cast<T>(want * x);
  }
  PBT_CHECK(c, got == want, "prod");
}
template <>
struct Arith<int> {
  template <std::size_t N>
  static void go(pbt::Case& c, cm::vector<int, N> const& v,
                 std::vector<int> const& m) {
    int s = static_cast<int>(c.range(-9, 9));
    arith(c, v, m, s, s != 0);
    if (c.flip()) { // element type wins
      double d = c.pick<double>({0.5, 1.5, -2.25, 3.0});
      arith(c, v, m, d, true);
    }
  }
};
template <>
struct Arith<int64_t> {
  template <std::size_t N>
  static void go(pbt::Case& c, cm::vector<int64_t, N> const& v,
                 std::vector<int64_t> const& m) {
    int s = static_cast<int>(c.range(-9, 9));
    arith(c, v, m, s, s != 0);
    std::vector<int64_t> small;
    for (auto x : m) {
      small.push_back(x % 4);
    }
    element_prod<int64_t>(c, cm::prod(make<N>(small)), small);
  }
};
template <>
struct Arith<double> {
  template <std::size_t N>
  static void go(pbt::Case& c, cm::vector<double, N> const& v,
                 std::vector<double> const& m) {
    arith(c, v, m, c.real(-5, 5), true);
    arith(c, v, m, static_cast<float>(c.range(1, 9)), true);
    arith(c, v, m, static_cast<int>(c.range(1, 9)), true);
    std::vector<double> e, small;
    for (auto x : m) {
      e.push_back(std::exp(x));
      small.push_back(std::isfinite(x) ? std::fmod(std::trunc(x), 8) : 2);
    }
    auto const ev = cm::exp(v);
    for (std::size_t i = 0; i < N; ++i) {
      PBT_CHECK(c, ev[i] == e[i] || std::fabs(ev[i] - e[i]) <= 1e-14 * e[i],
                "exp of element %zu", i);
    }
    element_prod<double>(c, cm::prod(make<N>(small)), small);
    // reductions in floating point: exact for small integers
    double sum = 3;
    for (auto x : small) {
      sum += x;
    }
    PBT_CHECK(c, make<N>(small).reduce(Add(), 3.0) == sum, "reduce +");
  }
};
template <>
struct Arith<cm::complex<double>> {
  template <std::size_t N>
  static void go(pbt::Case& c, cm::vector<cm::complex<double>, N> const& v,
                 std::vector<cm::complex<double>> const& m) {
    using Z = cm::complex<double>;
    auto map = [&](auto f) {
      std::vector<Z> r;
      for (auto const& x : m) {
        r.push_back(f(x));
      }
      return r;
    };
    Z const z(c.real(-2, 2), c.real(-2, 2));
    double const s = c.real(1, 2);
    expect(c, z * v, map([&](Z const& x) { return z * x; }), "z * vector");
    expect(c, s * v, map([&](Z const& x) { return s * x; }), "s * vector");
    expect(c, s + v, map([&](Z const& x) { return s + x; }), "s + vector");
    expect(c, z + v, map([&](Z const& x) { return z + x; }), "z + vector");
    expect(c, v / z, map([&](Z const& x) { return x / z; }), "vector / z");
    expect(c, z / v, map([&](Z const& x) { return z / x; }), "z / vector");
    expect(c, -v, map([&](Z const& x) { return -x; }), "negation");
  }
};

template <typename T, typename U>
struct Convert {
  template <std::size_t N>
  static void go(pbt::Case& c, std::vector<U> const& m) {
    cm::vector<U, N> const v = make<N>(m);
    cm::vector<T, N> const w(v);
    std::vector<T> want;
    for (auto const& x : m) {
      want.push_back(static_cast<T>(x));
    }
    expect(c, w, want, "conversion");
    cm::vector<T, N> const w2 = v;
    expect(c, w2, want, "implicit conversion");
  }
};

struct Index {
  int k;
  template <typename I>
  int64_t operator()(I i) const {
    return static_cast<int64_t>(i) * k - 3;
  }
};

template <typename T, std::size_t N>
void run(pbt::Case& c) {
  std::vector<T> const m = gen<T>(c, N);
  cm::vector<T, N> const v = make<N>(m);
  c.trace("%zu elements;", N);
  expect(c, v, m, "construction");
  cm::vector<T, N> const copy(v);
  expect(c, copy, m, "copy");
  bool self = true;
  for (auto const& x : m) {
    self = self && x == x;
  }
  PBT_CHECK(c, (v == copy) == self, "operator== of a copy");
  // appending
  std::vector<T> const o = gen<T>(c, 3);
  std::vector<T> both = m;
  both.insert(both.end(), o.begin(), o.end());
  expect(c, v.append(make<3>(o)), both, "append");
  both = o;
  both.insert(both.end(), m.begin(), m.end());
  expect(c, make<3>(o).append(v), both, "append");
  expect(c, v.append(cm::vector<T, 0>{}), m, "append of nothing");
  // transformations
  int const k = static_cast<int>(c.range(-5, 5));
  std::vector<T> t;
  std::vector<long> tl;
  std::size_t even = 0;
  for (auto const& x : m) {
    t.push_back(Fun{k}(x));
    tl.push_back(ToLong{k}(x));
    even += ToLong{k}(x) % 2 == 0;
  }
  expect(c, v.transform(Fun{k}), t, "transform");
  expect(c, v.template transform<long>(ToLong{k}), tl, "transform<long>");
  PBT_CHECK(c, v.count([k](T const& x) { return ToLong{k}(x) % 2 == 0; }) ==
                   even,
            "count");
  orders(c, v, m, Less());
  orders(c, v, m, Greater());
  orders(c, v, m, Mod{static_cast<int>(c.range(1, 4))});
  NonEmpty<T, N>::go(c, v, m);
  Reduce<T>::go(c, v, m);
  Arith<T>::go(c, v, m);
  std::size_t const sub = static_cast<std::size_t>(c.draw(10000));
  constexpr std::size_t S = N <= 6 ? N : 0; // all sub-ranges of small vectors
  all_subs<T, S>(c, make<S>(m), std::vector<T>(m.begin(), m.begin() + static_cast<std::ptrdiff_t>(S)),
                 sub, embedded::make_index_sequence<(S + 1) * (S + 1)>{});
  // the operand is unchanged
  expect(c, v, m, "the operand");
  if (N >= 2) {
    c.nontrivial();
  }
}

template <std::size_t N>
void misc(pbt::Case& c) {
  Convert<double, int>::go<N>(c, gen<int>(c, N));
  Convert<float, double>::go<N>(c, std::vector<double>(N, c.real(-9, 9)));
  Convert<int, double>::go<N>(c, std::vector<double>(N, c.real(-900, 900)));
  Convert<int64_t, int>::go<N>(c, gen<int>(c, N));
  Convert<double, float>::go<N>(c, gen<float>(c, N));
  int const k = static_cast<int>(c.range(-50, 50));
  std::vector<int64_t> idx, full(N, k), ones(N, 1), zeros(N, 0);
  for (std::size_t i = 0; i < N; ++i) {
    idx.push_back(Index{k}(i));
  }
  using V = cm::vector<int64_t, N>;
  expect(c, V::create(Index{k}), idx, "create");
  expect(c, V::full(k), full, "full");
  expect(c, V::ones(), ones, "ones");
  expect(c, V::zeros(), zeros, "zeros");
  expect(c, cm::make_vector<int64_t>(Index{k}, embedded::make_index_sequence<N>{}),
         idx, "make_vector");
  // NaN and signed zeros in comparisons
  if (N > 0) {
    std::vector<double> m = gen<double>(c, N), n = m;
    std::size_t const i = static_cast<std::size_t>(c.draw(N));
    m[i] = std::numeric_limits<double>::quiet_NaN();
    if (c.flip()) {
      n[i] = m[i];
    }
    PBT_CHECK(c, !(make<N>(m) == make<N>(n)) && !(make<N>(n) == make<N>(m)),
              "a vector with a NaN compares equal");
    m[i] = 0.0;
    n[i] = -0.0;
    PBT_CHECK(c, make<N>(m) == make<N>(n), "signed zeros");
  }
  if (N >= 2) {
    c.nontrivial();
  }
}

// sizes beyond narrow integer types: everything but sort, whose instantiations
// grow with the square of the size
template <typename T, std::size_t N>
void wide(pbt::Case& c) {
  std::vector<T> const m = gen<T>(c, N);
  cm::vector<T, N> const v = make<N>(m);
  c.trace("%zu elements;", N);
  expect(c, v, m, "construction");
  std::size_t const a = static_cast<std::size_t>(c.flip() ? c.draw(N) : N - 1 - c.draw(60)),
                    b = static_cast<std::size_t>(c.draw(N));
  std::vector<T> x = m;
  std::swap(x[a], x[b]);
  expect(c, v.swap(a, b), x, "swap");
  x = m;
  std::swap(x[a], x[0]);
  x.erase(x.begin());
  expect(c, v.swappop(a), x, "swappop");
  x = m;
  x[a] = T{-2000000};
  auto const least = make<N>(x);
  PBT_CHECK(c, least.argmin(Less()) == a, "argmin of %zu elements is %zu, not %zu", N, least.argmin(Less()), a);
  PBT_CHECK(c, least == make<N>(x) && !(least == v), "operator== of vectors that differ in element %zu of %zu", a, N);
  std::size_t odd = 0;
  T sum{5};
  for (auto const& e : m) {
    odd += e % 2 != 0;
    sum = static_cast<T>(sum + e);
  }
  PBT_CHECK(c, v.count([](T const& e) { return e % 2 != 0; }) == odd, "count");
  PBT_CHECK(c, v.count([](T const&) { return true; }) == N, "count of all");
  PBT_CHECK(c, v.reduce(Add(), T{5}) == sum, "reduce");
  std::vector<T> const o = gen<T>(c, 3);
  x = m;
  x.insert(x.end(), o.begin(), o.end());
  expect(c, v.append(make<3>(o)), x, "append");
  x = m;
  x.erase(x.begin() + 257, x.begin() + 260);
  expect(c, v.template erase<257, 3>(), x, "erase");
  expect(c, v.template subvector<256, N - 257>(), std::vector<T>(m.begin() + 256, m.end() - 1), "subvector");
  x = m;
  for (auto& e : x) {
    e = static_cast<T>(e * 3);
  }
  expect(c, T{3} * v, x, "scalar multiplication");
  expect(c, v, m, "the operand");
  c.nontrivial();
}

#ifndef SHARD
#define SHARD 0
#endif

using Fn = void (*)(pbt::Case&);
template <typename T, std::size_t... N>
Fn pick(std::size_t i, embedded::index_sequence<N...>) {
  static Fn const t[] = {&run<T, N>..., &run<T, 12>, &run<T, 17>};
  return t[i];
}
template <typename T>
void sized(pbt::Case& c) {
  std::size_t const i = static_cast<std::size_t>(c.draw(11));
  pick<T>(i, embedded::make_index_sequence<9>{})(c);
}

#if SHARD == 0
PBT_PROP(int_vectors, 40000, 2000000) { sized<int>(c); }
PBT_PROP(misc, 40000, 1000000) {
  static Fn const t[] = {&misc<0>, &misc<1>, &misc<2>, &misc<3>,
                         &misc<4>, &misc<5>, &misc<8>, &misc<13>};
  t[c.draw(8)](c);
}
#elif SHARD == 1
PBT_PROP(double_vectors, 40000, 2000000) { sized<double>(c); }
#elif SHARD == 2
PBT_PROP(int64_vectors, 40000, 2000000) { sized<int64_t>(c); }
#elif SHARD == 3
PBT_PROP(item_vectors, 40000, 2000000) { sized<Item>(c); }
#elif SHARD == 4
PBT_PROP(complex_vectors, 40000, 2000000) { sized<cm::complex<double>>(c); }
#elif SHARD == 5 // not optimised: the compiler would take minutes
PBT_PROP(int_vectors_40, 2000, 200000) { run<int, 40>(c); }
PBT_PROP(int_vectors_301, 500, 50000) { wide<int, 301>(c); }
#endif

} // namespace
