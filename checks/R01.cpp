// R01: const objects and memory that is only read work in read-only memory and
// from several threads at once.
//
// Objects are built in pages of their own which are then write-protected; a
// write faults, and a read past the last byte hits an inaccessible page. With
// THREADS, shared const objects are used by several threads under the thread
// sanitizer, which notices writes to anything they share.
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstring>
#include <numeric>
#include <string>
#include <thread>

#include <embedded/circular_buffer_adapter.h>
#include <embedded/constexpr_math.h>
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include <embedded/varint.h>

#include "signal_common.h"

namespace cm = embedded::cmath;

namespace {

// Pages followed by an inaccessible one. Objects are placed at their end.
class Rom {
 public:
  explicit Rom(std::size_t size) {
    page_ = static_cast<std::size_t>(sysconf(_SC_PAGESIZE));
    len_ = (size + page_ - 1) / page_ * page_ + page_;
    void* p = mmap(nullptr, len_ + page_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
      _exit(79);
    }
    base_ = static_cast<unsigned char*>(p);
    mprotect(base_ + len_, page_, PROT_NONE);
  }
  ~Rom() { munmap(base_, len_ + page_); }
  Rom(Rom const&) = delete;
  Rom& operator=(Rom const&) = delete;
  template <typename T>
  void* place() {
    return base_ + len_ - (sizeof(T) + alignof(T) - 1) / alignof(T) * alignof(T);
  }
  unsigned char* bytes(std::size_t n, std::size_t align = 1) {
    return base_ + len_ - (n + align - 1) / align * align;
  }
  void burn() { mprotect(base_, len_, PROT_READ); }
  void thaw() { mprotect(base_, len_, PROT_READ | PROT_WRITE); }

 private:
  std::size_t page_, len_;
  unsigned char* base_;
};

// --- designs --------------------------------------------------------------------

template <typename F>
std::vector<F> inputs(pbt::Case& c, std::size_t n) {
  std::vector<F> v;
  for (std::size_t i = 0; i < n; ++i) {
    v.push_back(c.flip() ? static_cast<F>(c.real(-1, 1)) : F(i == 0));
  }
  return v;
}

template <typename F, std::size_t N>
bool same(es::sos_design<F, N> const& d, es::sos_design<F, N> const& e) {
  for (std::size_t i = 0; i < d.size(); ++i) {
    for (std::size_t k = 0; k < 3; ++k) {
      if (d.sos()[i].b()[k] != e.sos()[i].b()[k] || d.sos()[i].a()[k] != e.sos()[i].a()[k]) {
        return false;
      }
    }
  }
  return d.order() == e.order() && d.sos().size() == e.sos().size();
}
template <typename F, std::size_t N>
bool same(es::poly_design<F, N> const& d, es::poly_design<F, N> const& e) {
  for (std::size_t i = 0; i <= N; ++i) {
    if (d.b()[i] != e.b()[i] || d.a()[i] != e.a()[i]) {
      return false;
    }
  }
  return d.order() == e.order();
}

template <typename F, std::size_t N>
std::vector<F> by_hand(es::sos_design<F, N> const& d, std::vector<F> const& in) {
  std::array<es::sos_state<F>, (N + 1) / 2> st{};
  std::vector<F> out;
  for (F x : in) {
    for (std::size_t i = 0; i < d.size(); ++i) {
      x = d.sos()[i].filter(st[i], x);
    }
    out.push_back(x);
  }
  return out;
}
template <typename F, std::size_t N>
std::vector<F> by_hand(es::poly_design<F, N> const& d, std::vector<F> const& in) {
  std::array<F, N> st{};
  std::vector<F> out;
  for (F x : in) {
    out.push_back(d.filter(st, x));
  }
  return out;
}
template <typename F, typename D>
std::vector<F> by_instance(D const& d, std::vector<F> const& in) {
  auto f = d.instance();
  std::vector<F> out;
  for (F x : in) {
    out.push_back(f(x));
  }
  return out;
}

template <typename D, typename F>
struct Expected {
  std::vector<F> in, out;
};

template <typename F, typename D>
void design_case(pbt::Case& c, D const& d) {
  std::size_t const n = 1 + c.draw(40);
  std::vector<F> const in = inputs<F>(c, n);
  std::vector<F> const want = by_instance<F>(d, in), want2 = by_hand(d, in);
  PBT_CHECK(c, want.size() == want2.size() && !std::memcmp(&want[0], &want2[0], sizeof(F) * want.size()),
            "an instance computes something else than the filter functions");
#ifdef THREADS
  std::size_t const nt = 2 + c.draw(3);
  std::vector<std::vector<F>> got(nt), got2(nt);
  std::vector<int> eq(nt);
  std::vector<std::thread> t;
  for (std::size_t i = 0; i < nt; ++i) {
    t.emplace_back([&, i] {
      got[i] = by_instance<F>(d, in);
      got2[i] = by_hand(d, in);
      D const copy(d);
      eq[i] = same(copy, d);
    });
  }
  for (auto& x : t) {
    x.join();
  }
  for (std::size_t i = 0; i < nt; ++i) {
    PBT_CHECK(c, got[i] == want && got2[i] == want && eq[i], "thread %zu got other results", i);
  }
#else
  Rom rom(sizeof(D));
  D const* const r = new (rom.place<D>()) D(d);
  rom.burn();
  PBT_CHECK(c, same(*r, d), "a copied design has other coefficients");
  PBT_CHECK(c, by_instance<F>(*r, in) == want, "instance of a design in read-only memory");
  PBT_CHECK(c, by_hand(*r, in) == want, "filter functions of a design in read-only memory");
  D const copy(*r);
  PBT_CHECK(c, same(copy, d), "a design copied from read-only memory has other coefficients");
  // interleaved instances of one design in ROM
  auto f = r->instance();
  auto g = r->instance();
  std::size_t j = 0;
  for (std::size_t i = 0; i < n; ++i) {
    PBT_CHECK(c, f(in[i]) == want[i], "interleaved instance");
    if (c.flip()) {
      PBT_CHECK(c, g(in[j]) == want[j], "interleaved second instance");
      ++j;
    }
  }
#endif
  if (n > 3) {
    c.nontrivial();
  }
}

template <int Fam, std::size_t N>
struct AnyForm {
  static void run(pbt::Case& c) {
    Spec s;
    s.family = Fam;
    s.order = static_cast<int>(N);
    s.hp = c.flip();
    Limits l;
    l.lo = 0.01L;
    l.hi = 0.49L;
    gen_frequencies(c, s, l);
    gen_param(c, s);
    round_spec<double>(s);
    describe(c, s, "");
    // the base design lives in ROM, too
    using Base = typename es::iirfilter<double>::template design<N>;
    Base const heap = base_design<Fam, N, double>(s);
#ifdef THREADS
    Base const* const base = &heap;
#else
    Rom rom(sizeof(Base));
    Base const* const base = new (rom.place<Base>()) Base(heap);
    rom.burn();
#endif
    auto const mode = c.flip() ? es::sos_gain::distribute : es::sos_gain::first_section;
    switch (c.draw(3)) {
    case 0:
      return design_case<float>(c, base->template sos<float>(mode));
    case 1:
      return design_case<double>(c, base->template sos<double>(mode));
    default:
      return design_case<double>(c, base->template poly<double>());
    }
  }
};

void designs(pbt::Case& c) {
  switch (c.draw(4)) {
  case 0: return any_order<AnyForm, BUTTER, 1>(c, embedded::make_index_sequence<5>{});
  case 1: return any_order<AnyForm, CHEBY1, 1>(c, embedded::make_index_sequence<5>{});
  case 2: return any_order<AnyForm, CHEBY2, 1>(c, embedded::make_index_sequence<5>{});
  default: return any_order<AnyForm, BESSEL, 1>(c, embedded::make_index_sequence<5>{});
  }
}

// --- circular buffers ---------------------------------------------------------------

struct Wide {
  uint64_t a;
  uint32_t b;
};
inline bool operator==(Wide const& x, Wide const& y) { return x.a == y.a && x.b == y.b; }
inline bool operator<(Wide const& x, Wide const& y) { return x.a < y.a; }
template <typename T>
struct Make {
  static T get(pbt::Case& c) { return static_cast<T>(c.bits()); }
};
template <>
struct Make<Wide> {
  static Wide get(pbt::Case& c) { return Wide{c.bits(), 7}; }
};

template <typename T>
bool read_all(embedded::circular_buffer_adapter<T> const& cb, std::vector<T> const& m, T* tmp) {
  std::size_t const n = m.size();
  bool ok = cb.size() == n && cb.empty() == (n == 0) && cb.full() == (n == cb.capacity()) &&
            cb.remaining() == cb.capacity() - n;
  if (n) {
    ok = ok && cb.front() == m.front() && cb.back() == m.back();
  }
  for (std::size_t i = 0; i < n; ++i) {
    ok = ok && cb[i] == m[i] && cb.at(i) == m[i];
  }
  ok = ok && std::equal(m.begin(), m.end(), cb.cbegin()) && std::equal(m.begin(), m.end(), cb.begin());
  ok = ok && std::equal(m.rbegin(), m.rend(), cb.crbegin()) && std::equal(m.rbegin(), m.rend(), cb.rbegin());
  ok = ok && static_cast<std::size_t>(std::distance(cb.cbegin(), cb.cend())) == n;
  cb.copy_out(cb.cbegin(), cb.cend(), tmp);
  ok = ok && std::equal(m.begin(), m.end(), tmp);
  if (n > 2) {
    cb.copy_out(cb.cbegin() + 1, cb.cend() - 1, tmp);
    ok = ok && std::equal(m.begin() + 1, m.end() - 1, tmp);
  }
  auto const mx = std::max_element(cb.cbegin(), cb.cend());
  ok = ok && mx - cb.cbegin() == std::max_element(m.begin(), m.end()) - m.begin();
  return ok;
}

template <typename T>
void buffer_case(pbt::Case& c) {
  using CB = embedded::circular_buffer_adapter<T>;
  std::size_t const cap = c.weighted({3, 1}) ? c.draw(200) : c.draw(9);
  std::size_t const first = cap ? c.draw(cap) : 0, count = cap ? c.draw(cap + 1) : 0;
  Rom data(cap * sizeof(T) + sizeof(T)), obj(sizeof(CB));
  T* const mem = reinterpret_cast<T*>(data.bytes(cap * sizeof(T), alignof(T)));
  std::vector<T> m;
  for (std::size_t i = 0; i < cap; ++i) {
    mem[i] = Make<T>::get(c);
  }
  for (std::size_t i = 0; i < count; ++i) {
    m.push_back(mem[(first + i) % cap]);
  }
  c.trace("capacity %zu, first %zu, count %zu, %zu bytes each\n", cap, first, count, sizeof(T));
  CB* const cb = new (obj.place<CB>()) CB(mem, cap, first, count);
  data.burn();
  obj.burn();
  CB const& k = *cb;
#ifdef THREADS
  std::vector<std::thread> t;
  std::vector<int> ok(3);
  for (std::size_t i = 0; i < ok.size(); ++i) {
    t.emplace_back([&, i] {
      std::vector<T> mine(cap + 1, T());
      ok[i] = read_all(k, m, mine.data());
    });
  }
  for (auto& x : t) {
    x.join();
  }
  PBT_CHECK(c, ok[0] && ok[1] && ok[2], "reading from several threads");
#else
  std::vector<T> tmp(cap + 1, T());
  PBT_CHECK(c, read_all(k, m, tmp.data()), "reading a buffer in read-only memory");
  PBT_CHECK(c, read_all(*cb, m, tmp.data()), "reading a buffer through a non-const adapter");
  // consuming changes the adapter only
  obj.thaw();
  while (cb->size()) {
    std::size_t const n = cb->size();
    switch (c.draw(7)) {
    case 0:
      cb->pop_front();
      m.erase(m.begin());
      break;
    case 1:
      cb->pop_back();
      m.pop_back();
      break;
    case 2: {
      std::size_t const r = c.draw(n + 1);
      cb->pop_front(r);
      m.erase(m.begin(), m.begin() + static_cast<std::ptrdiff_t>(r));
      break;
    }
    case 3: {
      std::size_t const r = c.draw(n + 1);
      cb->pop_back(r);
      m.resize(n - r, T());
      break;
    }
    case 4: {
      std::size_t const r = c.draw(n + 1);
      cb->copy_out_front(tmp.data(), r);
      PBT_CHECK(c, std::equal(tmp.begin(), tmp.begin() + static_cast<std::ptrdiff_t>(r), m.begin()), "copy_out_front");
      m.erase(m.begin(), m.begin() + static_cast<std::ptrdiff_t>(r));
      break;
    }
    case 5: {
      std::size_t const r = c.draw(n + 1);
      cb->copy_out_back(tmp.data(), r);
      PBT_CHECK(c, std::equal(tmp.begin(), tmp.begin() + static_cast<std::ptrdiff_t>(r), m.end() - static_cast<std::ptrdiff_t>(r)),
                "copy_out_back");
      m.resize(n - r, T());
      break;
    }
    default:
      if (c.chance(1, 4)) {
        cb->clear();
        m.clear();
      }
    }
    PBT_CHECK(c, cb->size() == m.size() && std::equal(m.begin(), m.end(), cb->cbegin()), "contents while consuming");
  }
#endif
  if (count > 2 && first + count > cap) {
    c.nontrivial();
  }
}
void buffers(pbt::Case& c) {
  switch (c.draw(3)) {
  case 0: return buffer_case<uint8_t>(c);
  case 1: return buffer_case<int32_t>(c);
  default: return buffer_case<Wide>(c);
  }
}

// --- bulk copies and decoding from read-only memory -------------------------------

void sources(pbt::Case& c) {
  std::size_t const n = c.draw(60);
  Rom rom(n + 16);
  uint8_t* const src = rom.bytes(n);
  for (std::size_t i = 0; i < n; ++i) {
    src[i] = static_cast<uint8_t>(c.draw(256));
  }
  rom.burn();
  uint8_t mem[64];
  std::size_t const first = c.draw(64);
  embedded::circular_buffer_adapter<uint8_t> cb(mem, 64, first, 0);
  uint8_t const* const rsrc = src;
  std::size_t const k = n ? c.draw(n + 1) : 0;
  // a run that ends where the accessible memory ends
  cb.copy_in_back(rsrc + (n - k), k);
  PBT_CHECK(c, cb.size() == k && std::equal(cb.cbegin(), cb.cend(), rsrc + (n - k)), "copy_in_back");
  cb.clear();
  cb.copy_in_front(rsrc + (n - k), k);
  PBT_CHECK(c, cb.size() == k && std::equal(cb.cbegin(), cb.cend(), rsrc + (n - k)), "copy_in_front");
  cb.copy_in(cb.begin(), cb.end(), rsrc + (n - k));
  PBT_CHECK(c, std::equal(cb.cbegin(), cb.cend(), rsrc + (n - k)), "copy_in");
  if (n > 2 && k > 1) {
    c.nontrivial();
  }
}

template <typename T>
void decode_case(pbt::Case& c) {
  T const value = static_cast<T>(c.uint(8 * sizeof(T)));
  uint8_t enc[24];
  uint8_t* const e = embedded::varint::encode(value, enc);
  std::size_t const n = static_cast<std::size_t>(e - enc);
  Rom rom(n);
  uint8_t* const p = rom.bytes(n);
  std::memcpy(p, enc, n);
  rom.burn();
  uint8_t const* const q = p;
  T back = T(~value);
  uint8_t const* const end = embedded::varint::decode(back, q, q + n);
  PBT_CHECK(c, end == q + n && back == value, "decoding from read-only memory");
  if (n > 1) {
    c.nontrivial();
  }
}
void decoding(pbt::Case& c) {
  switch (c.draw(4)) {
  case 0: return decode_case<uint64_t>(c);
  case 1: return decode_case<int64_t>(c);
  case 2: return decode_case<uint32_t>(c);
  default: return decode_case<int16_t>(c);
  }
}

// --- functions -----------------------------------------------------------------------

template <std::size_t Words>
struct Target {
  uint32_t w[Words];
  long long operator()(int x, int const& y) const {
    uint64_t s = static_cast<uint64_t>(x * 3LL + y);
    for (uint32_t v : w) {
      s = s * 31 + v;
    }
    return static_cast<long long>(s);
  }
};

template <std::size_t Words, std::size_t Cap>
void function_case(pbt::Case& c) {
  using Fn = embedded::function<long long(int, int const&) const, Cap>;
  Target<Words> t;
  for (auto& v : t.w) {
    v = static_cast<uint32_t>(c.bits());
  }
  Rom rom(sizeof(Fn)), erom(sizeof(Fn));
  Fn* const f = new (rom.place<Fn>()) Fn(t);
  Fn* const e = new (erom.place<Fn>()) Fn();
  rom.burn();
  erom.burn();
  Fn const &k = *f, &ke = *e;
  auto const use = [&](int n) {
    bool ok = static_cast<bool>(k) && !static_cast<bool>(ke);
    for (int i = 0; i < n; ++i) {
      ok = ok && k(i, n) == t(i, n);
      bool thrown = false;
      try {
        ke(i, n);
      } catch (std::bad_function_call const&) {
        thrown = true;
      }
      ok = ok && thrown;
    }
    return ok;
  };
  int const n = static_cast<int>(1 + c.draw(6));
#ifdef THREADS
  int ok[3];
  std::vector<std::thread> v;
  for (int& o : ok) {
    v.emplace_back([&] { o = use(n); });
  }
  for (auto& x : v) {
    x.join();
  }
  PBT_CHECK(c, ok[0] && ok[1] && ok[2], "calls from several threads");
#else
  PBT_CHECK(c, use(n), "calls of a function in read-only memory");
#endif
  rom.thaw();
  erom.thaw();
  f->~Fn();
  e->~Fn();
  c.nontrivial();
}
void functions(pbt::Case& c) {
  switch (c.draw(3)) {
  case 0: return function_case<1, 8>(c);
  case 1: return function_case<4, 16>(c);
  default: return function_case<9, 64>(c);
  }
}

// --- values ----------------------------------------------------------------------------

struct Value {
  long long v;
  explicit Value(long long x)
      : v{x} {}
};

void values(pbt::Case& c) {
  using V = cm::vector<double, 7>;
  using C = cm::vector<cm::complex<double>, 5>;
  using W = embedded::move_wrapper<Value>;
  Rom rv(sizeof(V)), rc(sizeof(C)), rw(sizeof(W));
  double x[7], y[5][2];
  for (auto& d : x) {
    d = static_cast<double>(c.range(-9, 9));
  }
  for (auto& d : y) {
    d[0] = static_cast<double>(c.range(-9, 9));
    d[1] = static_cast<double>(c.range(-9, 9));
  }
  V const& v = *new (rv.place<V>()) V{x[0], x[1], x[2], x[3], x[4], x[5], x[6]};
  C const& z = *new (rc.place<C>())
      C{cm::complex<double>(y[0][0], y[0][1]), cm::complex<double>(y[1][0], y[1][1]),
        cm::complex<double>(y[2][0], y[2][1]), cm::complex<double>(y[3][0], y[3][1]),
        cm::complex<double>(y[4][0], y[4][1])};
  long long const secret = static_cast<long long>(c.bits());
  W const& w = *new (rw.place<W>()) W(Value(secret));
  rv.burn();
  rc.burn();
  rw.burn();
  auto const use = [&] {
    auto const less = [](double a, double b) { return a < b; };
    auto const s = v.sort(less);
    std::vector<double> m(x, x + 7);
    std::sort(m.begin(), m.end());
    bool ok = s.size() == 7;
    for (std::size_t i = 0; i < 7; ++i) {
      ok = ok && s[i] == m[i] && v[i] == x[i];
    }
    std::size_t const am = v.argmin(less);
    ok = ok && am == static_cast<std::size_t>(std::min_element(x, x + 7) - x);
    auto const e = v.erase<2, 1>();
    ok = ok && e.size() == 6;
    auto const d = 2.0 * v;
    ok = ok && d[6] == 2 * x[6];
    ok = ok && (v == v) && !(v == d && x[6] != 0 && x[0] != 0);
    auto const p = embedded::cmath::poly(v);
    ok = ok && p[0] == 1;
    double sum = 0;
    for (double t : x) {
      sum -= t;
    }
    ok = ok && p[1] == sum;
    auto const re = real(z);
    auto const nn = norm(z);
    for (std::size_t i = 0; i < 5; ++i) {
      ok = ok && re[i] == y[i][0] && nn[i] == y[i][0] * y[i][0] + y[i][1] * y[i][1] &&
           z[i].conj().imag() == -y[i][1];
    }
    ok = ok && w->v == secret && (*w).v == secret;
    return ok;
  };
#ifdef THREADS
  int ok[3];
  std::vector<std::thread> t;
  for (int& o : ok) {
    t.emplace_back([&] { o = use(); });
  }
  for (auto& q : t) {
    q.join();
  }
  PBT_CHECK(c, ok[0] && ok[1] && ok[2], "values used from several threads");
#else
  PBT_CHECK(c, use(), "values in read-only memory");
#endif
  c.nontrivial();
}

#ifdef THREADS
// --- nothing shared at all --------------------------------------------------------

struct Owner {
  embedded::function<int(int), 64>* next;
  int operator()(int x) { return *next && x > 0 ? (*next)(x - 1) + 1 : x; }
};

// A deterministic history over objects of the caller's own.
uint64_t own_work(uint64_t seed, unsigned rounds, unsigned kinds) {
  uint64_t s = seed * 2654435769u + 1, h = 14695981039346656037u;
  auto const rnd = [&](uint64_t n) {
    s = s * 6364136223846793005u + 1442695040888963407u;
    return (s >> 33) % n;
  };
  auto const mix = [&](uint64_t x) { h = (h ^ x) * 1099511628211u; };
  auto const mixd = [&](double x) {
    uint64_t b;
    std::memcpy(&b, &x, sizeof b);
    mix(b);
  };
  uint8_t raw[32];
  std::vector<uint8_t> bytes;
  embedded::circular_buffer_adapter<uint8_t> cb(raw, 32, rnd(32), 0);
  std::string smem[4];
  embedded::function<int(int), 64> f, g;
  for (unsigned r = 0; r < rounds; ++r) {
    if (kinds & 1) {
      uint64_t const v = s >> rnd(64);
      int32_t const w = static_cast<int32_t>(s >> rnd(64));
      uint8_t b[16];
      uint8_t* const e = embedded::varint::encode(v, b, b + 16);
      embedded::varint::encode(w, std::back_inserter(bytes));
      uint64_t back = 0;
      int32_t wback = 0;
      mix(static_cast<uint64_t>(embedded::varint::decode(back, b, e) - b));
      mix(back == v);
      embedded::varint::decode(wback, bytes.data() + bytes.size() - embedded::varint::size(w), bytes.data() + bytes.size());
      mix(wback == w);
    }
    if (kinds & 2) {
      for (uint64_t k = rnd(9); k-- > 0 && !cb.full();) {
        rnd(2) ? cb.push_back(static_cast<uint8_t>(s)) : cb.push_front(static_cast<uint8_t>(s));
      }
      uint8_t t[32];
      std::size_t const k = rnd(cb.remaining() + 1);
      std::fill(t, t + 32, static_cast<uint8_t>(s));
      cb.copy_in_back(t, k);
      std::sort(cb.begin(), cb.end());
      std::size_t const q = rnd(cb.size() + 1);
      cb.copy_out_front(t, q);
      for (std::size_t i = 0; i < q; ++i) {
        mix(t[i]);
      }
      std::string st;
      embedded::circular_buffer_adapter<std::string> sb(smem, 4, 0, 4);
      sb.pop_front(2);
      sb.emplace_back(20, static_cast<char>('a' + rnd(20)));
      sb.push_back(sb.front() + "x");
      mix(sb.back().size() + static_cast<uint8_t>(sb.back()[0]));
      // all four slots hold an element again, whatever the order
    }
    if (kinds & 4) {
      int n = static_cast<int>(rnd(100));
      f = [n](int x) { return x + n; };
      g = Owner{&f};
      mix(static_cast<uint64_t>(g(static_cast<int>(rnd(50)))));
      f = std::move(g);
      g = nullptr;
      mix(static_cast<bool>(f) + 2 * static_cast<bool>(g));
      f = nullptr;
      try {
        f(1);
      } catch (std::bad_function_call const&) {
        mix(77);
      }
      embedded::move_wrapper<std::string> w(std::string(40, 'z'));
      g = [w](int x) { return static_cast<int>(w->size()) + x; };
      mix(static_cast<uint64_t>(g(3)));
    }
    if (kinds & 8) {
      double const fc = 1 + static_cast<double>(rnd(480));
      embedded::signal::iirfilter<double> const filter(1000);
      auto const d1 = filter.lowpass(embedded::signal::butterworth<5>(), fc).sos<double>();
      auto const d2 = filter.highpass(embedded::signal::chebyshev1<4>(1.0), fc).poly<double>();
      auto const d3 = filter.lowpass(embedded::signal::chebyshev2<3>(40.0), fc).sos<float>();
      auto const d4 = filter.highpass(embedded::signal::bessel<4>(), fc).sos<double>(embedded::signal::sos_gain::distribute);
      auto i1 = d1.instance();
      auto i2 = d2.instance();
      auto i3 = d3.instance();
      auto i4 = d4.instance();
      for (int i = 0; i < 6; ++i) {
        mixd(i1(i));
        mixd(i2(i));
        mixd(i3(static_cast<float>(i)));
        mixd(i4(i));
      }
    }
    if (kinds & 16) {
      cm::vector<double, 6> const v{1.0 * rnd(9), 1.0 * rnd(9), 1.0 * rnd(9), 1.0 * rnd(9), 1.0 * rnd(9), 1.0 * rnd(9)};
      auto const so = v.sort([](double a, double b) { return a < b; });
      auto const q = cm::poly(so);
      for (std::size_t i = 0; i < 6; ++i) {
        mixd(so[i]);
        mixd(q[i]);
      }
      cm::complex<double> const z = exp(cm::complex<double>(0.1 * rnd(9), 0.1 * rnd(9)));
      mixd((z / cm::complex<double>(1.0 + rnd(5), 2.0)).abs());
    }
  }
  return h;
}

void separate(pbt::Case& c) {
  std::size_t const nt = 2 + static_cast<std::size_t>(c.draw(3));
  bool const alike = c.flip();
  unsigned const rounds = static_cast<unsigned>(1 + c.draw(40));
  std::vector<uint64_t> seed(nt), want(nt), got(nt);
  std::vector<unsigned> kinds(nt);
  for (std::size_t i = 0; i < nt; ++i) {
    seed[i] = c.bits();
    kinds[i] = static_cast<unsigned>(1 + c.draw(31));
    if (alike && i) {
      kinds[i] = kinds[0];
    }
    want[i] = own_work(seed[i], rounds, kinds[i]);
  }
  std::vector<std::thread> t;
  for (std::size_t i = 0; i < nt; ++i) {
    t.emplace_back([&, i] { got[i] = own_work(seed[i], rounds, kinds[i]); });
  }
  for (auto& q : t) {
    q.join();
  }
  PBT_CHECK(c, got == want, "threads with objects of their own got other results than alone");
  if (rounds > 1) {
    c.nontrivial();
  }
}

PBT_REGISTER(separate_objects, &separate, 1500, 40000);
PBT_REGISTER(shared_designs, &designs, 1500, 40000);
PBT_REGISTER(shared_buffers, &buffers, 1500, 40000);
PBT_REGISTER(shared_functions, &functions, 1500, 40000);
PBT_REGISTER(shared_values, &values, 1500, 40000);
#else
PBT_REGISTER(rom_designs, &designs, 20000, 800000);
PBT_REGISTER(rom_buffers, &buffers, 20000, 800000);
PBT_REGISTER(rom_sources, &sources, 20000, 800000);
PBT_REGISTER(rom_decoding, &decoding, 20000, 800000);
PBT_REGISTER(rom_functions, &functions, 10000, 400000);
PBT_REGISTER(rom_values, &values, 10000, 400000);
#endif

} // namespace
