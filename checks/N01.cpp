// N01: no operation of the library allocates dynamic memory.
//
// malloc and friends are replaced; every library operation runs armed, on
// memory prepared before, and must not reach them.
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

static volatile bool g_armed;
static volatile unsigned g_allocs;
static volatile size_t g_bytes;

static inline void note(size_t n) {
  if (g_armed) {
    g_allocs = g_allocs + 1;
    g_bytes = g_bytes + n;
  }
}

extern "C" {
void* malloc(size_t n) {
  note(n);
  return __libc_malloc(n);
}
void* calloc(size_t n, size_t m) {
  note(n * m);
  return __libc_calloc(n, m);
}
void* realloc(void* p, size_t n) {
  note(n);
  return __libc_realloc(p, n);
}
void* memalign(size_t a, size_t n) {
  note(n);
  return __libc_memalign(a, n);
}
void* aligned_alloc(size_t a, size_t n) {
  note(n);
  return __libc_memalign(a, n);
}
int posix_memalign(void** p, size_t a, size_t n) {
  note(n);
  *p = __libc_memalign(a, n);
  return *p ? 0 : ENOMEM;
}
}

void* operator new(size_t n) {
  note(n);
  return __libc_malloc(n ? n : 1);
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept {
  return operator new(n);
}
void* operator new[](size_t n, std::nothrow_t const&) noexcept {
  return operator new(n);
}
void* operator new(size_t n, std::align_val_t a) {
  note(n);
  return __libc_memalign(static_cast<size_t>(a), n);
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }

#include <algorithm>
#include <numeric>

#include <embedded/circular_buffer_adapter.h>
#include <embedded/constexpr_math.h>
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include <embedded/mutex.h>
#include <embedded/varint.h>

#include "signal_common.h"

namespace cm = embedded::cmath;

namespace {

volatile long long g_sink;

template <class F>
void quiet(pbt::Case& c, char const* what, F const& f) {
  g_allocs = 0;
  g_bytes = 0;
  g_armed = true;
  f();
  g_armed = false;
  PBT_CHECK(c, g_allocs == 0, "%s allocated memory: %u times, %zu bytes", what,
            static_cast<unsigned>(g_allocs), static_cast<size_t>(g_bytes));
}

// --- circular buffer --------------------------------------------------------------

struct Plain {
  int k;
  double d;
};
inline bool operator==(Plain const& a, Plain const& b) { return a.k == b.k; }
inline bool operator<(Plain const& a, Plain const& b) { return a.k < b.k; }
struct Live { // not trivial
  long long v;
  Live(long long x = 0) : v{x} {}
  Live(Live const& o) : v{o.v} {}
  Live& operator=(Live const& o) {
    v = o.v;
    return *this;
  }
  ~Live() { v = -1; }
};
inline bool operator==(Live const& a, Live const& b) { return a.v == b.v; }
inline bool operator<(Live const& a, Live const& b) { return a.v < b.v; }

template <class T>
T make(long long k);
template <>
int make<int>(long long k) { return static_cast<int>(k); }
template <>
uint8_t make<uint8_t>(long long k) { return static_cast<uint8_t>(k); }
template <>
Plain make<Plain>(long long k) { return Plain{static_cast<int>(k), 0.5}; }
template <>
Live make<Live>(long long k) { return Live(k); }

constexpr size_t kMax = 300;

template <class A, class T>
void bulk(pbt::Case& c, A& b, T* out, T const* in, std::true_type) {
  size_t const k = static_cast<size_t>(c.draw(kMax + 1));
  switch (c.draw(6)) {
  case 0:
    if (k <= b.remaining()) {
      quiet(c, "copy_in_back", [&] { b.copy_in_back(in, k); });
    }
    break;
  case 1:
    if (k <= b.remaining()) {
      quiet(c, "copy_in_front", [&] { b.copy_in_front(in, k); });
    }
    break;
  case 2:
    if (k <= b.size()) {
      quiet(c, "copy_out_back", [&] { b.copy_out_back(out, k); });
    }
    break;
  case 3:
    if (k <= b.size()) {
      quiet(c, "copy_out_front", [&] { b.copy_out_front(out, k); });
    }
    break;
  case 4:
    if (!b.empty()) {
      quiet(c, "copy_in of a range", [&] { b.copy_in(b.begin(), b.end(), in); });
    }
    break;
  default:
    if (!b.empty()) {
      quiet(c, "copy_out of a range",
            [&] { b.copy_out(b.cbegin(), b.cend(), out); });
    }
  }
}
template <class A, class T>
void bulk(pbt::Case&, A&, T*, T const*, std::false_type) {}

template <class T>
void buffer(pbt::Case& c) {
  using A = embedded::circular_buffer_adapter<T>;
  size_t const cap = c.flip() ? 1 + c.draw(12) : 1 + c.draw(kMax);
  std::vector<T> store(kMax, make<T>(0)), out(kMax, make<T>(0)),
      in(kMax, make<T>(7));
  size_t const first = c.draw(cap);
  // elements of the storage exist; the adapter starts empty
  alignas(T) static unsigned char raw[sizeof(T) * kMax];
  T* const mem = reinterpret_cast<T*>(raw);
  A b;
  quiet(c, "attaching", [&] { b = A(mem, cap, first, 0); });
  bool wrapped = false;
  size_t const n = c.draw(60 + 1);
  for (size_t i = 0; i < n; ++i) {
    long long const k = static_cast<long long>(c.draw(1000));
    T const x = make<T>(k);
    switch (c.draw(14)) {
    case 0:
      if (!b.full()) {
        quiet(c, "push_back", [&] { b.push_back(x); });
      }
      break;
    case 1:
      if (!b.full()) {
        quiet(c, "push_front", [&] { b.push_front(x); });
      }
      break;
    case 2:
      if (!b.full()) {
        quiet(c, "emplace_back", [&] { b.emplace_back(x); });
      }
      break;
    case 3:
      if (!b.full()) {
        quiet(c, "emplace_front", [&] { b.emplace_front(x); });
      }
      break;
    case 4:
      if (!b.empty()) {
        quiet(c, "pop_back", [&] { b.pop_back(); });
      }
      break;
    case 5:
      if (!b.empty()) {
        quiet(c, "pop_front", [&] { b.pop_front(); });
      }
      break;
    case 6: {
      size_t const m = c.draw(b.size() + 1);
      quiet(c, "pop_back(count)", [&] { b.pop_back(m); });
      break;
    }
    case 7: {
      size_t const m = c.draw(b.size() + 1);
      quiet(c, "pop_front(count)", [&] { b.pop_front(m); });
      break;
    }
    case 8:
      quiet(c, "clear", [&] { b.clear(); });
      break;
    case 9:
      quiet(c, "iteration", [&] {
        long long s = 0;
        for (auto it = b.begin(); it != b.end(); ++it) {
          s += *it == x;
        }
        for (auto it = b.crbegin(); it != b.crend(); ++it) {
          s += *it == x;
        }
        for (size_t j = 0; j < b.size(); ++j) {
          s += b[j] == x;
          s += b.at(j) == x;
        }
        g_sink = s + static_cast<long long>(b.end() - b.begin());
      });
      break;
    case 10:
      if (!b.empty()) {
        quiet(c, "heap sort", [&] {
          std::make_heap(b.begin(), b.end());
          std::sort_heap(b.begin(), b.end());
        });
      }
      break;
    case 11: {
      size_t const r = b.empty() ? first : b.raw_index(b.begin());
      quiet(c, "re-attachment", [&] { b = A(mem, cap, r, b.size()); });
      break;
    }
    default:
      bulk(c, b, out.data(), in.data(), std::is_trivial<T>{});
    }
    wrapped = wrapped || (!b.empty() && &b.back() < &b.front());
  }
  quiet(c, "clear", [&] { b.clear(); });
  if (wrapped) {
    c.nontrivial();
  }
}

PBT_PROP(circular_buffer, 40000, 2000000) {
  switch (c.draw(4)) {
  case 0:
    buffer<int>(c);
    break;
  case 1:
    buffer<uint8_t>(c);
    break;
  case 2:
    buffer<Plain>(c);
    break;
  default:
    buffer<Live>(c);
  }
}

// --- varint --------------------------------------------------------------------------

template <class T>
void varints(pbt::Case& c) {
  T vals[40], got[40];
  uint8_t buf[40 * 11];
  size_t const n = 1 + c.draw(40);
  for (size_t i = 0; i < n; ++i) {
    vals[i] = static_cast<T>(c.uint(8 * sizeof(T)));
  }
  size_t const space = c.flip() ? sizeof buf : c.draw(40);
  bool const noise = c.draw(4) == 0;
  if (noise) {
    for (auto& x : buf) {
      x = static_cast<uint8_t>(c.draw(256) | (c.flip() ? 0x80 : 0));
    }
  }
  quiet(c, "varint", [&] {
    uint8_t* p = buf;
    if (!noise) {
      for (size_t i = 0; i < n; ++i) {
        g_sink = static_cast<long long>(embedded::varint::size(vals[i]));
        uint8_t* const q = embedded::varint::encode(vals[i], p, buf + space);
        if (q == p) {
          break;
        }
        p = q;
        uint8_t tmp[16];
        g_sink = embedded::varint::encode(vals[i], tmp) - tmp;
      }
    } else {
      p = buf + sizeof buf;
    }
    uint8_t const* r = buf;
    for (size_t i = 0; i < n; ++i) {
      uint8_t const* const q =
          embedded::varint::decode(got[i], r, static_cast<uint8_t const*>(p));
      if (q == r) {
        break;
      }
      r = q;
    }
  });
  if (n > 1) {
    c.nontrivial();
  }
}

PBT_PROP(varint, 40000, 1500000) {
  switch (c.draw(8)) {
  case 0:
    return varints<uint8_t>(c);
  case 1:
    return varints<int8_t>(c);
  case 2:
    return varints<uint16_t>(c);
  case 3:
    return varints<int16_t>(c);
  case 4:
    return varints<uint32_t>(c);
  case 5:
    return varints<int32_t>(c);
  case 6:
    return varints<uint64_t>(c);
  default:
    return varints<int64_t>(c);
  }
}

// --- function, move_wrapper, lock_guard ------------------------------------------------

struct Obj {
  int m{3};
  int g(int x) const { return m + x; }
  int h(int x) { return m = x; }
};

template <size_t N>
struct Target { // fills N bytes
  unsigned char b[N];
  explicit Target(int k) {
    for (auto& x : b) {
      x = static_cast<unsigned char>(k);
    }
  }
  Target(Target&& o) noexcept { std::memcpy(b, o.b, N); }
  Target(Target const& o) noexcept { std::memcpy(b, o.b, N); }
  int operator()(int x) const { return b[0] + b[N - 1] + x; }
};
template <size_t N, size_t A>
struct alignas(A) Aligned : Target<N> {
  using Target<N>::Target;
};

struct Small {
  signed char k;
  explicit Small(int x) : k(static_cast<signed char>(x)) {}
  int operator()(int x) const { return x + k; }
};
int plain_fn(int x) { return x + 1; }

template <class Fn>
void plain(Fn& f, std::true_type) { f = &plain_fn; }
template <class Fn>
void plain(Fn& f, std::false_type) { f = Small(1); }

template <class Fn, size_t Cap, size_t Al>
void functions(pbt::Case& c) {
  alignas(Fn) static unsigned char raw[4][sizeof(Fn)];
  Fn* f[4];
  for (int i = 0; i < 4; ++i) {
    quiet(c, "construction", [&] { f[i] = new (raw[i]) Fn; });
  }
  size_t const n = c.draw(40 + 1);
  unsigned kinds = 0;
  for (size_t i = 0; i < n; ++i) {
    size_t const a = c.draw(4), b = c.draw(4);
    int const k = static_cast<int>(c.draw(100));
    unsigned const op = static_cast<unsigned>(c.draw(16));
    kinds |= 1u << op;
    switch (op) {
    case 0:
      quiet(c, "assigning a function", [&] { plain(*f[a], std::integral_constant<bool, Al % alignof(void*) == 0>{}); });
      break;
    case 1:
      quiet(c, "assigning a small lambda",
            [&] { *f[a] = Small(k); });
      break;
    case 2:
      quiet(c, "assigning a target that fills the storage",
            [&] { *f[a] = Target<Cap>(k); });
      break;
    case 3:
      quiet(c, "assigning an aligned target", [&] {
        *f[a] = Aligned<Cap - Cap % Al, Al>(k);
      });
      break;
    case 4:
    case 5:
      quiet(c, "moving", [&] { *f[a] = std::move(*f[b]); });
      break;
    case 6:
      quiet(c, "swapping", [&] {
        using std::swap;
        swap(*f[a], *f[b]);
      });
      break;
    case 7:
      quiet(c, "resetting", [&] { *f[a] = nullptr; });
      break;
    case 8:
      quiet(c, "relocating", [&] {
        if (a != b) {
          f[b]->~Fn();
          new (raw[b]) Fn(std::move(*f[a]));
        }
      });
      break;
    case 9:
      quiet(c, "constructing from a target", [&] {
        f[a]->~Fn();
        new (raw[a]) Fn(Target<Cap - 1>(k));
      });
      break;
    case 10:
      quiet(c, "conversion to bool", [&] { g_sink = static_cast<bool>(*f[a]); });
      break;
    default:
      if (*f[a]) {
        quiet(c, "calling", [&] { g_sink = (*f[a])(k); });
      }
    }
  }
  for (int i = 0; i < 4; ++i) {
    quiet(c, "destruction", [&] { f[i]->~Fn(); });
  }
  if (kinds & (kinds - 1)) {
    c.nontrivial();
  }
}

PBT_PROP(function, 60000, 2500000) {
  using embedded::function;
  switch (c.draw(7)) {
  case 0:
    return functions<function<int(int), 16>, 16, 8>(c);
  case 1:
    return functions<function<int(int) const, 24, 8>, 24, 8>(c);
  case 2:
    return functions<function<int(int), 64, 16>, 64, 16>(c);
  case 3:
    return functions<function<int(int), 256, 8>, 256, 8>(c);
  case 4:
    return functions<function<int(int) const, 1024, 64>, 1024, 64>(c);
  case 5:
    return functions<function<int(int), 33, 1>, 33, 1>(c);
  default: {
    Obj o;
    int const k = static_cast<int>(c.draw(100));
    quiet(c, "member pointers", [&] {
      function<int(Obj&, int)> f{&Obj::h};
      function<int(Obj const*, int)> g;
      function<int(Obj const&)> h{&Obj::m};
      g = &Obj::g;
      g_sink = f(o, k) + g(&o, k) + h(o);
      auto f2 = std::move(f);
      g_sink = f2(o, k);
      h = nullptr;
    });
    c.nontrivial();
  }
  }
}

struct Mutex {
  int depth{0};
  void lock() { ++depth; }
  void unlock() { --depth; }
};

template <class T>
void wrapped(pbt::Case& c, T const& t) {
  quiet(c, "move_wrapper", [&] {
    embedded::move_wrapper<T> w{T(t)};
    embedded::move_wrapper<T> x(w);
    embedded::move_wrapper<T> y(std::move(x));
    auto const l = [y]() { return sizeof(y); };
    auto const m = l;
    g_sink = static_cast<long long>(m());
  });
}

PBT_PROP(small_ones, 40000, 1500000) {
  int const k = static_cast<int>(c.draw(1000));
  switch (c.draw(3)) {
  case 0:
    wrapped(c, k);
    break;
  case 1:
    wrapped(c, Target<200>(k));
    break;
  default:
    wrapped(c, Live(k));
  }
  Mutex a, b;
  bool const early = c.flip();
  quiet(c, "lock_guard", [&] {
    embedded::lock_guard<Mutex> g(a);
    {
      embedded::lock_guard<Mutex> h(b);
      if (early) {
        return;
      }
    }
    embedded::lock_guard<Mutex> h(b);
  });
  c.nontrivial();
}

// --- compile-time math, evaluated at run time ----------------------------------------------

template <class V>
void use(V const& v) {
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i] == v[0]) {
      g_sink = g_sink + 1;
    }
  }
}

template <class T, size_t N>
struct FromArray {
  T const* p;
  constexpr T operator()(size_t i) const { return p[i]; }
};
struct Lt {
  template <class T>
  bool operator()(T const& a, T const& b) const {
    return a < b;
  }
};
struct NormLt {
  template <class T>
  bool operator()(T const& a, T const& b) const {
    return a.norm() < b.norm();
  }
};
struct Half {
  template <class T>
  T operator()(T const& a) const {
    return a / T(2);
  }
};
struct AddUp {
  template <class T>
  T operator()(T const& a, T const& b) const {
    return a + b;
  }
};

template <class T, size_t N, class Less>
void vectors(pbt::Case& c, T const* x, Less const& less) {
  using V = cm::vector<T, N>;
  quiet(c, "vector operations", [&] {
    V const v = V::create(FromArray<T, N>{x});
    V const w = V::create(FromArray<T, N>{x + N});
    use(v.sort(less));
    use(v.append(w));
    use(v.transform(Half{}));
    use(v.template subvector<N / 2, N - N / 2>());
    use(v.template erase<N / 2>());
    use(v.swap(0, N - 1));
    use(-v);
    use(T(2) * v);
    use(T(1) + v);
    use(T(1) / v);
    g_sink = static_cast<long long>(v.argmin(less)) + (v == w);
    use(cm::vector<T, 1>{v.reduce(AddUp{})});
    use(cm::vector<T, 1>{cm::prod(v)});
    use(cm::poly(v));
    use(cm::convolve_full(v, w));
  });
}

PBT_PROP(math, 20000, 800000) {
  double d[64];
  cm::complex<double> z[64];
  for (int i = 0; i < 64; ++i) {
    d[i] = c.real(-3, 3);
  }
  for (int i = 0; i < 64; ++i) {
    z[i] = cm::complex<double>(d[i], d[63 - i]);
  }
  switch (c.draw(6)) {
  case 0:
    vectors<double, 1>(c, d, Lt{});
    break;
  case 1:
    vectors<double, 5>(c, d, Lt{});
    break;
  case 2:
    vectors<double, 16>(c, d, Lt{});
    break;
  case 3:
    vectors<cm::complex<double>, 3>(c, z, NormLt{});
    break;
  case 4:
    vectors<cm::complex<double>, 11>(c, z, NormLt{});
    break;
  default:
    vectors<double, 31>(c, d, Lt{});
  }
  quiet(c, "complex operations", [&] {
    auto const a = z[0], b = z[1];
    auto const r = (a + b) * (a - b) / (4.0 + b) + 2.0 * a.conj() + exp(a) -
                   1.0 / (5.0 + a);
    g_sink = r.norm() > 0;
    g_sink = cm::pow(d[2], 3.0) + cm::exp(d[3]) + cm::sqrt(d[4] * d[4]) +
                 cm::tan(d[5]) > 0;
  });
  c.nontrivial();
}

// --- filters -----------------------------------------------------------------------------------

template <class I>
void feed(pbt::Case& c, I const& proto, char const* what) {
  double in[64];
  for (auto& x : in) {
    x = c.real(-1, 1);
  }
  quiet(c, what, [&] {
    auto i = proto;
    auto j = i;
    typename I::value_type s{};
    for (double x : in) {
      s += i(static_cast<typename I::value_type>(x));
    }
    j = i;
    s += j(1);
    g_sink = s > 0;
  });
}

template <int Fam, std::size_t N>
struct Filters {
  template <class T, class F>
  static void as(pbt::Case& c, Spec const& s) {
    bool const dist = c.flip();
    alignas(16) static unsigned char space[sizeof(decltype(
        base_design<Fam, N, T>(s).template sos<F>()))];
    alignas(16) static unsigned char space2[sizeof(decltype(
        base_design<Fam, N, T>(s).template poly<F>()))];
    using Sos = decltype(base_design<Fam, N, T>(s).template sos<F>());
    using Poly = decltype(base_design<Fam, N, T>(s).template poly<F>());
    Sos* sos;
    Poly* poly;
    quiet(c, "designing a filter", [&] {
      auto const d = base_design<Fam, N, T>(s);
      sos = new (space) Sos(d.template sos<F>(
          dist ? es::sos_gain::distribute : es::sos_gain::first_section));
      poly = new (space2) Poly(d.template poly<F>());
    });
    feed(c, sos->instance(), "processing with sections");
    feed(c, poly->instance(), "processing with the polynomial");
    if (N > 1) {
      c.nontrivial();
    }
  }
  static void run(pbt::Case& c) {
    Spec s;
    s.family = Fam;
    s.order = static_cast<int>(N);
    s.hp = c.flip();
    gen_frequencies(c, s, Limits());
    gen_param(c, s);
    if (c.flip()) {
      as<double, double>(c, s);
    } else {
      round_spec<float>(s);
      as<float, float>(c, s);
    }
  }
};

PBT_PROP(filters, 12000, 400000) {
  switch (c.draw(5)) {
  case 0:
    return any_order<Filters, BUTTER, 1>(c, embedded::make_index_sequence<8>{});
  case 1:
    return any_order<Filters, CHEBY1, 1>(c, embedded::make_index_sequence<8>{});
  case 2:
    return any_order<Filters, CHEBY2, 1>(c, embedded::make_index_sequence<8>{});
  case 3:
    return any_order<Filters, BESSEL, 1>(c, embedded::make_index_sequence<8>{});
  default:
    return any_order<Filters, BUTTER, 20>(c, embedded::make_index_sequence<1>{});
  }
}

} // namespace
