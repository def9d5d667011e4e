// B03: iterators are a faithful random-access view.
#include <functional>
#include <iterator>
#include <numeric>

#include "cba_common.h"
#include "cba_large.h"

namespace {

template <typename T>
struct State {
  using A = circular_buffer_adapter<T>;
  using E = Elem<T>;
  pbt::Case& c;
  size_t cap;
  Arena<T> mem;
  std::deque<T> m;
  A a;

  explicit State(pbt::Case& cc, size_t max_cap)
      : c(cc)
      , cap(std::min(gen_capacity(cc), max_cap))
      , mem(cap)
      , a(mem.data(), cap) {
    build();
  }

  T value() {
    return E::make(c.chance(1, 4) ? c.draw(3) : c.draw(200));
  }

  // reach the state through operations or directly
  void build() {
    if (cap == 0) {
      return;
    }
    if (c.flip()) {
      size_t first = static_cast<size_t>(c.draw(cap));
      size_t count = gen_count(c, cap);
      for (size_t i = 0; i < count; ++i) {
        T v = value();
        new (mem.data() + (first + i) % cap) T(v);
        m.push_back(v);
      }
      a = A(mem.data(), cap, first, count);
      c.trace("capacity=%zu first=%zu count=%zu;", cap, first, count);
    } else {
      size_t n = static_cast<size_t>(c.draw(3 * std::min<size_t>(cap, 20)));
      Phase ph;
      for (size_t i = 0; i < n; ++i) {
        bool front = c.flip();
        bool ins = ph.insert(c);
        if ((ins && m.size() < cap) || m.empty()) {
          T v = value();
          front ? a.push_front(v) : a.push_back(v);
          front ? m.push_front(v) : m.push_back(v);
        } else {
          front ? a.pop_front() : a.pop_back();
          front ? m.pop_front() : m.pop_back();
        }
      }
      c.trace("capacity=%zu after %zu operations: count=%zu;", cap, n,
              m.size());
    }
    if (m.size() > 1 && &a.front() > &a.back()) {
      PBT_LABEL("contents wrapped around the physical end");
    }
    if (m.size() == cap) {
      PBT_LABEL("buffer full");
    }
    if (m.empty()) {
      PBT_LABEL("buffer empty");
    }
  }

  void expect(bool cond, char const* what, long i = -1, long j = -1) {
    PBT_CHECK(c, cond, "%s (capacity %zu, size %zu, positions %ld, %ld)", what,
              cap, m.size(), i, j);
  }
};

template <typename T>
bool same(T const& x, T const& y) {
  return Elem<T>::id(x) == Elem<T>::id(y);
}

// All laws for one kind of iterator; `at(i)` is the expected element.
template <typename It, typename St, typename At>
void laws(St& s, It b, It e, At const& at, char const* kind, long pi, long pj) {
  (void)kind;
  using D = typename std::iterator_traits<It>::difference_type;
  D const n = static_cast<D>(s.m.size());
  D const i = pi, j = pj;
  // reach position i by three ways
  It x = b + i;
  It y = b;
  for (D k = 0; k < i; ++k) {
    if (k % 2) {
      ++y;
    } else {
      It old = y++;
      s.expect(old == b + k, "it++ returns the old position", k);
    }
  }
  It z = e;
  for (D k = n; k > i; --k) {
    if (k % 2) {
      --z;
    } else {
      It old = z--;
      s.expect(old == b + k, "it-- returns the old position", k);
    }
  }
  s.expect(x == y && y == z && !(x != z), "paths to a position agree", i);
  s.expect(e - (n - i) == x, "end - n", i);
  s.expect((x == e) == (i == n), "comparison with end", i);
  if (i < n) {
    s.expect(same(*x, at(i)), "*it", i);
    s.expect(same(*y, at(i)) && same(*z, at(i)), "*it by stepping", i);
    s.expect(same(b[i], at(i)), "begin()[i]", i);
    s.expect(std::addressof(*x) == std::addressof(b[i]), "address", i);
    s.expect(x.operator->() == std::addressof(*x), "operator->", i);
  }
  // pair laws
  It w = b + j;
  s.expect(x - w == i - j && w - x == j - i, "difference", i, j);
  s.expect((x == w) == (i == j) && (x != w) == (i != j), "== and !=", i, j);
  s.expect((x < w) == (i < j) && (x > w) == (i > j), "< and >", i, j);
  s.expect((x <= w) == (i <= j) && (x >= w) == (i >= j), "<= and >=", i, j);
  D const d = j - i;
  s.expect(x + d == w, "it + n", i, j);
  s.expect(d + x == w, "n + it", i, j);
  s.expect(w - d == x, "it - n", i, j);
  It p = x;
  It& rp = (p += d);
  s.expect(p == w && &rp == &p, "it += n", i, j);
  It& rm = (p -= d);
  s.expect(p == x && &rm == &p, "it -= n", i, j);
  s.expect(x == b + i, "x unchanged by arithmetic on copies", i, j);
  if (j < n) {
    s.expect(same(x[d], at(j)), "it[n]", i, j);
    s.expect(std::addressof(x[d]) == std::addressof(*w), "address it[n]", i, j);
  }
  It q;
  q = x;
  It r(q);
  It t(std::move(q));
  s.expect(r == x && t == x, "copies", i);
  q = std::move(t);
  s.expect(q == x, "move assignment", i);
  if (i < n) {
    It u = x;
    s.expect(&++u != nullptr && u == b + (i + 1), "++it", i);
    s.expect(u - x == 1, "++it distance", i);
    --u;
    s.expect(u == x, "--++it", i);
  }
  if (i > 0) {
    It u = x;
    --u;
    s.expect(x - u == 1 && same(*u, at(i - 1)), "--it", i);
  }
}

template <typename T>
void laws_prop(pbt::Case& c) {
  State<T> s(c, 300);
  using A = typename State<T>::A;
  A const& ca = s.a;
  long const n = static_cast<long>(s.m.size());
  auto fwd = [&](long k) -> T const& { return s.m[static_cast<size_t>(k)]; };
  auto rev = [&](long k) -> T const& {
    return s.m[static_cast<size_t>(n - 1 - k)];
  };
  static_assert(
      std::is_same<typename std::iterator_traits<
                       typename A::iterator>::iterator_category,
                   std::random_access_iterator_tag>::value,
      "");
  static_assert(std::is_same<decltype(*std::declval<typename A::iterator>()),
                             T&>::value,
                "");
  static_assert(
      std::is_same<decltype(*std::declval<typename A::const_iterator>()),
                   T const&>::value,
      "");
  s.expect(s.a.end() - s.a.begin() == n && s.a.cend() - s.a.cbegin() == n,
           "end - begin");
  auto both = [&](long i, long j) {
    laws(s, s.a.begin(), s.a.end(), fwd, "mutable", i, j);
    laws(s, s.a.cbegin(), s.a.cend(), fwd, "const", i, j);
    laws(s, s.a.rbegin(), s.a.rend(), rev, "reverse", i, j);
    laws(s, s.a.crbegin(), s.a.crend(), rev, "const reverse", i, j);
    // mixed
    auto x = ca.begin() + i;
    auto y = ca.cbegin() + j;
    typename A::const_iterator cx = x;
    s.expect(cx == ca.cbegin() + i && cx == x && x == cx, "conversion", i);
    s.expect((x == y) == (i == j) && (x < y) == (i < j) &&
                 (x >= y) == (i >= j) && (y < x) == (j < i) &&
                 (x != y) == (i != j) && (y > x) == (j > i) &&
                 (y <= x) == (j <= i),
             "mixed comparison", i, j);
    s.expect(y - x == j - i && x - y == i - j, "mixed difference", i, j);
    s.expect((ca.crbegin() + j) - (ca.rbegin() + i) == j - i && (ca.rbegin() + i) - (ca.crbegin() + j) == i - j,
             "mixed difference of reverse iterators", i, j);
    typename A::const_iterator asg;
    asg = x;
    s.expect(asg == x, "assignment of a mutable iterator", i);
    if (i < n) {
      s.expect(std::addressof(*cx) == std::addressof(*x), "converted", i);
    }
  };
  if (n <= 6) {
    for (long i = 0; i <= n; ++i) {
      for (long j = 0; j <= n; ++j) {
        both(i, j);
      }
    }
  } else {
    for (int k = 0; k < 12; ++k) {
      long i = static_cast<long>(gen_count(c, static_cast<size_t>(n)));
      long j = static_cast<long>(gen_count(c, static_cast<size_t>(n)));
      both(i, j);
    }
  }
  // traversals
  size_t k = 0;
  for (auto it = s.a.cbegin(); it != s.a.cend(); ++it, ++k) {
    s.expect(k < s.m.size() && same(*it, s.m[k]), "traversal");
  }
  s.expect(k == s.m.size(), "traversal length");
  for (auto it = s.a.crbegin(); it != s.a.crend(); it++) {
    s.expect(k > 0 && same(*it, s.m[k - 1]), "reverse traversal");
    --k;
  }
  s.expect(k == 0, "reverse traversal length");
  for (auto& v : s.a) {
    s.expect(same(v, s.m[k++]), "range for");
  }
  // a read-only view of the same memory
  if (s.cap > 0) {
    circular_buffer_adapter<T const> view(s.mem.data(), s.cap,
                                          s.a.raw_index(s.a.begin()),
                                          s.a.size());
    size_t v = 0;
    for (auto it = view.begin(); it != view.end(); ++it, ++v) {
      s.expect(v < s.m.size() && same(*it, s.m[v]) && same(view[v], s.m[v]),
               "read-only view");
    }
    s.expect(v == s.m.size(), "read-only view length");
    s.expect(view.end() - view.begin() == n, "read-only view difference");
  }
  if (n >= 2) {
    c.nontrivial();
  }
  if (!std::is_trivial<T>::value) {
    s.a.clear();
  }
}

struct ById {
  template <typename T>
  bool operator()(T const& x, T const& y) const {
    return Elem<T>::id(x) < Elem<T>::id(y);
  }
};
struct SameId {
  template <typename T>
  bool operator()(T const& x, T const& y) const {
    return same(x, y);
  }
};

// standard algorithms over the iterators vs. over std::deque
template <typename T>
void algo_prop(pbt::Case& c) {
  State<T> s(c, 70);
  auto& a = s.a;
  auto& m = s.m;
  using D = std::ptrdiff_t;
  D const n = static_cast<D>(m.size());
  auto compare = [&](char const* what) {
    s.expect(a.size() == m.size(), what);
    for (size_t i = 0; i < m.size(); ++i) {
      s.expect(same(a[i], m[i]), what, static_cast<long>(i));
    }
  };
  size_t const steps = 1 + static_cast<size_t>(c.draw(5));
  for (size_t st = 0; st < steps; ++st) {
    D i = static_cast<D>(c.draw(static_cast<uint64_t>(n + 1)));
    D j = i + static_cast<D>(c.draw(static_cast<uint64_t>(n - i + 1)));
    D k = i + static_cast<D>(c.draw(static_cast<uint64_t>(j - i + 1)));
    T v = s.value();
    size_t op = c.draw(22);
    c.trace(" op%zu[%ld,%ld,%ld]", op, (long)i, (long)k, (long)j);
    switch (op) {
    case 0:
      std::sort(a.begin() + i, a.begin() + j, ById());
      std::sort(m.begin() + i, m.begin() + j, ById());
      break;
    case 1:
      std::stable_sort(a.begin() + i, a.begin() + j, ById());
      std::stable_sort(m.begin() + i, m.begin() + j, ById());
      break;
    case 2:
      std::reverse(a.begin() + i, a.begin() + j);
      std::reverse(m.begin() + i, m.begin() + j);
      break;
    case 3: {
      auto r = std::rotate(a.begin() + i, a.begin() + k, a.begin() + j);
      auto q = std::rotate(m.begin() + i, m.begin() + k, m.begin() + j);
      s.expect(r - a.begin() == q - m.begin(), "rotate result");
      break;
    }
    case 4:
      std::fill(a.begin() + i, a.begin() + j, v);
      std::fill(m.begin() + i, m.begin() + j, v);
      break;
    case 5: { // lower_bound etc. on a sorted range
      std::sort(a.begin(), a.end(), ById());
      std::sort(m.begin(), m.end(), ById());
      auto r = std::equal_range(a.cbegin(), a.cend(), v, ById());
      auto q = std::equal_range(m.cbegin(), m.cend(), v, ById());
      s.expect(r.first - a.cbegin() == q.first - m.cbegin() &&
                   r.second - a.cbegin() == q.second - m.cbegin(),
               "equal_range");
      break;
    }
    case 6: {
      std::vector<T> x(a.begin() + i, a.begin() + j);
      std::vector<T> y(m.begin() + i, m.begin() + j);
      s.expect(x.size() == y.size() &&
                   std::equal(x.begin(), x.end(), y.begin(), SameId()),
               "range construction");
      break;
    }
    case 7: {
      std::vector<T> x(a.rbegin(), a.rend()), y(m.rbegin(), m.rend());
      std::vector<T> z(a.crbegin(), a.crend());
      s.expect(x.size() == y.size() && z.size() == y.size() &&
                   std::equal(x.begin(), x.end(), y.begin(), SameId()) &&
                   std::equal(z.begin(), z.end(), y.begin(), SameId()),
               "reverse range construction");
      break;
    }
    case 8: {
      auto r = std::find_if(a.begin() + i, a.end(),
                            [&](T const& t) { return same(t, v); });
      auto q = std::find_if(m.begin() + i, m.end(),
                            [&](T const& t) { return same(t, v); });
      s.expect(r - a.begin() == q - m.begin(), "find");
      break;
    }
    case 9: {
      auto h = [](uint64_t acc, T const& t) { return acc * 31 + Elem<T>::id(t); };
      s.expect(std::accumulate(a.cbegin() + i, a.cbegin() + j, uint64_t{7}, h) ==
                   std::accumulate(m.cbegin() + i, m.cbegin() + j, uint64_t{7},
                                   h),
               "accumulate");
      break;
    }
    case 10: { // overlapping moves in both directions
      D len = j - k;
      std::copy(a.begin() + k, a.begin() + j, a.begin() + i);
      std::copy(m.begin() + k, m.begin() + j, m.begin() + i);
      std::copy_backward(a.begin() + i, a.begin() + (i + len), a.begin() + j);
      std::copy_backward(m.begin() + i, m.begin() + (i + len), m.begin() + j);
      break;
    }
    case 11: {
      auto pred = [&](T const& t) { return Elem<T>::id(t) % 3 == 0; };
      auto r = std::stable_partition(a.begin() + i, a.begin() + j, pred);
      auto q = std::stable_partition(m.begin() + i, m.begin() + j, pred);
      s.expect(r - a.begin() == q - m.begin(), "stable_partition");
      break;
    }
    case 12: {
      auto r = std::unique(a.begin() + i, a.begin() + j, SameId());
      auto q = std::unique(m.begin() + i, m.begin() + j, SameId());
      s.expect(r - a.begin() == q - m.begin(), "unique");
      for (auto t = i; t < j; ++t) { // tail is unspecified
        a[static_cast<size_t>(t)] = v;
        if (t < q - m.begin()) {
          a[static_cast<size_t>(t)] = m[static_cast<size_t>(t)];
        } else {
          m[static_cast<size_t>(t)] = v;
        }
      }
      break;
    }
    case 13:
      if (k < j) {
        std::nth_element(a.begin() + i, a.begin() + k, a.begin() + j, ById());
        std::sort(m.begin() + i, m.begin() + j, ById());
        s.expect(same(a[static_cast<size_t>(k)], m[static_cast<size_t>(k)]),
                 "nth_element");
        std::sort(a.begin() + i, a.begin() + j, ById());
      }
      break;
    case 14:
      if (i < j) {
        std::iter_swap(a.begin() + i, a.begin() + (j - 1));
        std::iter_swap(m.begin() + i, m.begin() + (j - 1));
      }
      break;
    case 15:
      std::make_heap(a.begin() + i, a.begin() + j, ById());
      std::sort_heap(a.begin() + i, a.begin() + j, ById());
      std::sort(m.begin() + i, m.begin() + j, ById());
      break;
    case 16: {
      auto r = std::minmax_element(a.cbegin() + i, a.cbegin() + j, ById());
      auto q = std::minmax_element(m.cbegin() + i, m.cbegin() + j, ById());
      s.expect(r.first - a.cbegin() == q.first - m.cbegin() &&
                   r.second - a.cbegin() == q.second - m.cbegin(),
               "minmax_element");
      break;
    }
    case 17:
      s.expect(std::distance(a.begin() + i, a.end()) == n - i &&
                   std::next(a.begin(), i) == a.begin() + i &&
                   std::prev(a.end(), n - i) == a.begin() + i,
               "distance/next/prev");
      break;
    case 18:
      std::sort(a.rbegin(), a.rend(), ById());
      std::sort(m.rbegin(), m.rend(), ById());
      break;
    case 19:
      std::transform(a.cbegin() + i, a.cbegin() + j, a.begin() + i,
                     [](T const& t) { return Elem<T>::make(Elem<T>::id(t) + 1); });
      std::transform(m.cbegin() + i, m.cbegin() + j, m.begin() + i,
                     [](T const& t) { return Elem<T>::make(Elem<T>::id(t) + 1); });
      break;
    case 20: {
      std::vector<T> other(m.begin() + i, m.begin() + j);
      s.expect(std::equal(other.begin(), other.end(), a.cbegin() + i, SameId()),
               "equal");
      auto r = std::search(a.cbegin(), a.cend(), other.begin(), other.end(),
                           SameId());
      auto q = std::search(m.cbegin(), m.cend(), other.begin(), other.end(),
                           SameId());
      s.expect(r - a.cbegin() == q - m.cbegin(), "search");
      break;
    }
    default: {
      D len = std::min(k - i, j - k);
      std::swap_ranges(a.begin() + i, a.begin() + (i + len), a.begin() + k);
      std::swap_ranges(m.begin() + i, m.begin() + (i + len), m.begin() + k);
      break;
    }
    }
    compare("contents after an algorithm");
  }
  s.expect(s.mem.guards_ok(), "memory around the buffer was written");
  if (n >= 3) {
    c.nontrivial();
  }
  if (!std::is_trivial<T>::value) {
    a.clear();
  }
}

} // namespace

PBT_REGISTER(laws_u8, &laws_prop<uint8_t>, 60000, 2000000);
PBT_REGISTER(laws_pod12, &laws_prop<Pod12>, 40000, 1500000);
PBT_REGISTER(laws_string, &laws_prop<std::string>, 15000, 500000);
PBT_REGISTER(laws_f64, &laws_prop<double>, 15000, 500000);
PBT_REGISTER(laws_aligned, &laws_prop<Aligned>, 15000, 500000);
PBT_REGISTER(laws_odd, &laws_prop<Odd>, 15000, 500000);
PBT_REGISTER(algorithms_u8, &algo_prop<uint8_t>, 60000, 2000000);
PBT_REGISTER(algorithms_pod12, &algo_prop<Pod12>, 60000, 2000000);
PBT_REGISTER(algorithms_string, &algo_prop<std::string>, 15000, 500000);

// Exhaustive: all states of capacity 1..7 and all pairs of positions.
PBT_ENUM(exhaustive_laws, 7 * 7 * 8, 7 * 7 * 8) {
  uint64_t code = c.draw(7 * 7 * 8);
  size_t const cap = 1 + code % 7, first = (code / 7) % 7, fill = code / 49;
  if (first >= cap || fill > cap) {
    c.discard();
    return;
  }
  c.nontrivial();
  c.trace("capacity=%zu first=%zu count=%zu", cap, first, fill);
  struct S {
    pbt::Case& c;
    size_t cap;
    std::deque<uint16_t> m;
    void expect(bool cond, char const* what, long i = -1, long j = -1) {
      PBT_CHECK(c, cond, "%s (capacity %zu, size %zu, positions %ld, %ld)",
                what, cap, m.size(), i, j);
    }
  } s{c, cap, {}};
  std::vector<uint16_t> buf(cap, 9999);
  for (size_t i = 0; i < fill; ++i) {
    buf[(first + i) % cap] = static_cast<uint16_t>(i + 1);
    s.m.push_back(static_cast<uint16_t>(i + 1));
  }
  circular_buffer_adapter<uint16_t> a(buf.data(), cap, first, fill);
  long const n = static_cast<long>(fill);
  auto fwd = [&](long k) -> uint16_t const& {
    return s.m[static_cast<size_t>(k)];
  };
  auto rev = [&](long k) -> uint16_t const& {
    return s.m[static_cast<size_t>(n - 1 - k)];
  };
  for (long i = 0; i <= n; ++i) {
    for (long j = 0; j <= n; ++j) {
      laws(s, a.begin(), a.end(), fwd, "mutable", i, j);
      laws(s, a.cbegin(), a.cend(), fwd, "const", i, j);
      laws(s, a.rbegin(), a.rend(), rev, "reverse", i, j);
      laws(s, a.crbegin(), a.crend(), rev, "const reverse", i, j);
    }
  }
}
CBA_LARGE(Large::iterators);
