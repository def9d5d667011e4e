// B02: bulk copies equal element-wise operations.
#include "cba_common.h"
#include "cba_large.h"

namespace {

// A run of elements between guard elements; data() is the run itself.
template <typename T>
class Run {
 public:
  Run(size_t n, uint64_t fill)
      : mem_(n)
      , n_(n) {
    for (size_t i = 0; i < n; ++i) {
      mem_.data()[i] = Elem<T>::make(fill);
    }
  }
  T* data() { return mem_.data(); }
  size_t size() const { return n_; }
  bool guards_ok() const { return mem_.guards_ok(); }

 private:
  Arena<T> mem_;
  size_t n_;
};

template <typename T>
struct Machine {
  using A = circular_buffer_adapter<T>;
  using E = Elem<T>;

  pbt::Case& c;
  size_t cap;
  Arena<T> mem;
  std::deque<uint64_t> m;
  uint64_t next_id{1};
  A a;
  bool split{false}, in{false}, out{false};

  explicit Machine(pbt::Case& cc)
      : c(cc)
      , cap(gen_capacity(cc))
      , mem(cap)
      , a(start()) {}

  uint64_t fresh() { return E::norm(c.chance(1, 8) ? c.draw(4) : next_id++); }

  A start() {
    size_t first = 0, count = 0;
    if (cap > 0) {
      first = static_cast<size_t>(c.draw(cap));
      count = gen_count(c, cap);
    }
    for (size_t i = 0; i < count; ++i) {
      uint64_t id = fresh();
      mem.data()[(first + i) % cap] = E::make(id);
      m.push_back(id);
    }
    c.trace("capacity=%zu first=%zu count=%zu;", cap, first, count);
    return attach<T>(c, mem.data(), cap, first, count);
  }

  void expect(bool cond, char const* what) {
    PBT_CHECK(c, cond, "%s (capacity %zu, model size %zu)", what, cap,
              m.size());
  }

  void check() {
    expect(a.size() == m.size() && a.empty() == m.empty() &&
               a.full() == (m.size() == cap),
           "size");
    for (size_t i = 0; i < m.size(); ++i) {
      expect(E::id(a[i]) == m[i], "contents");
    }
    size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i) {
      expect(i < m.size() && E::id(*it) == m[i], "iteration");
    }
    expect(i == m.size(), "iteration length");
    if (!m.empty()) {
      expect(E::id(a.front()) == m.front() && E::id(a.back()) == m.back(),
             "front()/back()");
    }
  }

  size_t first_slot() {
    return m.empty() ? 0 : mem.slot(&a.front());
  }

  void copy_in_end(bool front) {
    size_t n = gen_count(c, cap - m.size());
    Run<T> src(n, 0);
    std::vector<uint64_t> ids(n);
    for (size_t i = 0; i < n; ++i) {
      ids[i] = fresh();
      src.data()[i] = E::make(ids[i]);
    }
    T const* p = src.data();
    front ? a.copy_in_front(p, n) : a.copy_in_back(p, n);
    for (size_t i = 0; i < n; ++i) {
      expect(E::id(src.data()[i]) == ids[i], "source of a copy was modified");
    }
    expect(src.guards_ok(), "memory around the source was written");
    if (front) {
      m.insert(m.begin(), ids.begin(), ids.end());
    } else {
      m.insert(m.end(), ids.begin(), ids.end());
    }
    in = in || n > 0;
    c.trace(" copy_in_%s(%zu)", front ? "front" : "back", n);
    if (n > 1) {
      size_t s0 = mem.slot(&a[front ? 0 : m.size() - n]);
      split = split || s0 + n > cap;
    }
  }

  // copies from elements of the buffer itself
  void copy_in_own(bool front) {
    if (m.empty()) {
      return;
    }
    size_t const b = static_cast<size_t>(c.draw(m.size()));
    size_t const s0 = mem.slot(&a[b]);
    size_t const n = gen_count(
        c, std::min(cap - s0, std::min(m.size() - b, cap - m.size())));
    std::vector<uint64_t> const ids(m.begin() + static_cast<long>(b),
                                    m.begin() + static_cast<long>(b + n));
    T const* p = &a[b];
    front ? a.copy_in_front(p, n) : a.copy_in_back(p, n);
    if (front) {
      m.insert(m.begin(), ids.begin(), ids.end());
    } else {
      m.insert(m.end(), ids.begin(), ids.end());
    }
    c.trace(" copy_in_own_%s(%zu,+%zu)", front ? "front" : "back", b, n);
    if (n > 1) {
      split = split || mem.slot(&a[front ? 0 : m.size() - n]) + n > cap;
    }
  }

  void copy_out_end(bool front) {
    size_t n = gen_count(c, m.size());
    if (n > 1) {
      size_t s0 = mem.slot(&a[front ? 0 : m.size() - n]);
      split = split || s0 + n > cap;
    }
    size_t const extra = static_cast<size_t>(c.draw(3));
    Run<T> dst(n + extra, 77);
    front ? a.copy_out_front(dst.data(), n) : a.copy_out_back(dst.data(), n);
    c.trace(" copy_out_%s(%zu)", front ? "front" : "back", n);
    size_t const off = front ? 0 : m.size() - n;
    for (size_t i = 0; i < n; ++i) {
      expect(E::id(dst.data()[i]) == m[off + i],
             "copy_out delivered wrong elements");
    }
    for (size_t i = n; i < n + extra; ++i) {
      expect(E::id(dst.data()[i]) == E::norm(77),
             "copy_out wrote past its destination");
    }
    expect(dst.guards_ok(), "memory around the destination was written");
    for (size_t i = 0; i < n; ++i) {
      front ? m.pop_front() : m.pop_back();
    }
    out = out || n > 0;
  }

  void range(bool write) {
    size_t const b = static_cast<size_t>(c.draw(m.size() + 1));
    size_t const n = gen_count(c, m.size() - b);
    if (n > 1) {
      size_t s0 = mem.slot(&a[b]);
      split = split || s0 + n > cap;
    }
    auto const f = a.begin() + static_cast<std::ptrdiff_t>(b);
    // reach the end of the range in different ways
    auto const l = c.flip() || b + n != m.size()
                       ? f + static_cast<std::ptrdiff_t>(n)
                       : a.end();
    c.trace(" copy_%s[%zu,+%zu)", write ? "in" : "out", b, n);
    if (write) {
      Run<T> src(n, 0);
      std::vector<uint64_t> ids(n);
      for (size_t i = 0; i < n; ++i) {
        ids[i] = fresh();
        src.data()[i] = E::make(ids[i]);
      }
      T const* p = src.data();
      a.copy_in(f, l, p);
      for (size_t i = 0; i < n; ++i) {
        m[b + i] = ids[i];
        expect(E::id(src.data()[i]) == ids[i], "source of a copy was modified");
      }
      in = in || n > 0;
    } else {
      size_t const extra = static_cast<size_t>(c.draw(3));
      Run<T> dst(n + extra, 78);
      A const& ca = a;
      if (c.flip()) {
        typename A::const_iterator cf(f), cl(l);
        ca.copy_out(cf, cl, dst.data());
      } else {
        ca.copy_out(f, l, dst.data());
      }
      for (size_t i = 0; i < n; ++i) {
        expect(E::id(dst.data()[i]) == m[b + i],
               "copy_out of a range delivered wrong elements");
      }
      for (size_t i = n; i < n + extra; ++i) {
        expect(E::id(dst.data()[i]) == E::norm(78),
               "copy_out wrote past its destination");
      }
      expect(dst.guards_ok(), "memory around the destination was written");
      out = out || n > 0;
    }
  }

  void step() {
    switch (c.weighted({5, 5, 5, 5, 4, 4, 3, 3, 1, 2})) {
    case 0:
      copy_in_end(false);
      break;
    case 1:
      copy_out_end(true);
      break;
    case 2:
      copy_in_end(true);
      break;
    case 3:
      copy_out_end(false);
      break;
    case 4:
      range(true);
      break;
    case 5:
      range(false);
      break;
    case 6:
      if (m.size() < cap) {
        uint64_t id = fresh();
        if (c.flip()) {
          a.push_front(E::make(id));
          m.push_front(id);
          c.trace(" push_front");
        } else {
          a.push_back(E::make(id));
          m.push_back(id);
          c.trace(" push_back");
        }
      }
      break;
    case 7: {
      size_t n = gen_count(c, m.size());
      bool front = c.flip();
      front ? a.pop_front(n) : a.pop_back(n);
      for (size_t i = 0; i < n; ++i) {
        front ? m.pop_front() : m.pop_back();
      }
      c.trace(" pop_%s(%zu)", front ? "front" : "back", n);
      break;
    }
    case 8:
      a.clear();
      m.clear();
      c.trace(" clear");
      break;
    default:
      copy_in_own(c.flip());
    }
  }

  void run() {
    check();
    size_t const len = static_cast<size_t>(c.draw(c.chance(1, 6) ? 80 : 25));
    for (size_t i = 0; i < len; ++i) {
      step();
      check();
    }
    expect(mem.guards_ok(), "memory around the buffer was written");
    if (split) {
      PBT_LABEL("a copied run crossed the physical end");
    }
    if (in && out && split) {
      c.nontrivial();
    }
  }
};

template <typename T>
void prop(pbt::Case& c) {
  Machine<T> m(c);
  m.run();
}

// Exhaustive over capacity 1..10, every first, every fill and every count (or
// sub-range), each bulk operation once.
template <typename T>
void exhaustive(pbt::Case& c) {
  using A = circular_buffer_adapter<T>;
  using E = Elem<T>;
  uint64_t code = c.draw(10 * 10 * 11);
  size_t const cap = 1 + code % 10;
  size_t const first = (code / 10) % 10;
  size_t const fill = code / 100;
  if (first >= cap || fill > cap) {
    c.discard();
    return;
  }
  c.nontrivial();
  c.trace("capacity=%zu first=%zu count=%zu: every bulk operation and count",
          cap, first, fill);
  std::vector<T> buf(cap), src(cap + 1), dst(cap + 2), before;
  auto reset = [&] {
    for (size_t i = 0; i < cap; ++i) {
      buf[i] = E::make(250);
    }
    for (size_t i = 0; i < fill; ++i) {
      buf[(first + i) % cap] = E::make(i + 1);
    }
    for (size_t i = 0; i <= cap; ++i) {
      src[i] = E::make(100 + i);
    }
    for (size_t i = 0; i < cap + 2; ++i) {
      dst[i] = E::make(200);
    }
  };
  auto id = [](T const& v) { return E::id(v); };
  for (int op = 0; op < 6; ++op) {
    for (size_t from = 0; from <= (op >= 4 ? fill : 0); ++from) {
      size_t const max =
          op < 2 ? cap - fill : op < 4 ? fill : fill - from;
      for (size_t n = 0; n <= max; ++n) {
        reset();
        A a(buf.data(), cap, first, fill);
        std::deque<uint64_t> m;
        for (size_t i = 0; i < fill; ++i) {
          m.push_back(i + 1);
        }
        T const* s = src.data();
        bool ok = true;
        switch (op) {
        case 0:
          a.copy_in_back(s, n);
          for (size_t i = 0; i < n; ++i) {
            m.push_back(100 + i);
          }
          break;
        case 1:
          a.copy_in_front(s, n);
          for (size_t i = n; i-- > 0;) {
            m.push_front(100 + i);
          }
          break;
        case 2:
          a.copy_out_front(dst.data(), n);
          for (size_t i = 0; i < n; ++i) {
            ok = ok && id(dst[i]) == m.front();
            m.pop_front();
          }
          break;
        case 3:
          a.copy_out_back(dst.data(), n);
          for (size_t i = n; i-- > 0;) {
            ok = ok && id(dst[i]) == m.back();
            m.pop_back();
          }
          break;
        case 4: {
          auto f = a.begin() + static_cast<std::ptrdiff_t>(from);
          a.copy_in(f, f + static_cast<std::ptrdiff_t>(n), s);
          for (size_t i = 0; i < n; ++i) {
            m[from + i] = 100 + i;
          }
          break;
        }
        default: {
          auto f = a.begin() + static_cast<std::ptrdiff_t>(from);
          a.copy_out(f, f + static_cast<std::ptrdiff_t>(n), dst.data());
          for (size_t i = 0; i < n; ++i) {
            ok = ok && id(dst[i]) == m[from + i];
          }
          break;
        }
        }
        if (op == 2 || op == 3 || op == 5) {
          ok = ok && id(dst[n]) == 200 && id(dst[n + 1]) == 200;
        }
        ok = ok && a.size() == m.size();
        for (size_t i = 0; ok && i < m.size(); ++i) {
          ok = id(a[i]) == m[i];
        }
        // continue from the new state: the ends must be where they should be
        if (ok && !a.full()) {
          a.push_back(E::make(222));
          m.push_back(222);
          ok = id(a.back()) == 222 && id(a[m.size() - 1]) == 222;
        }
        if (ok && !a.full()) {
          a.push_front(E::make(223));
          m.push_front(223);
          ok = id(a.front()) == 223 && id(a[0]) == 223;
        }
        for (size_t i = 0; ok && i < m.size(); ++i) {
          ok = id(a[i]) == m[i];
        }
        PBT_CHECK(c, ok,
                  "operation %d differs from the model: capacity %zu first %zu "
                  "count %zu from %zu n %zu",
                  op, cap, first, fill, from, n);
      }
    }
  }
}

// runs of nothing, into and out of buffers over no memory
template <typename T>
void no_memory(pbt::Case& c) {
  using A = circular_buffer_adapter<T>;
  T* const none = nullptr;
  A a;
  T x[1] = {Elem<T>::make(77)};
  T* const run = c.flip() ? x : nullptr;
  if (c.flip()) {
    c.trace("A(null, 0);");
    a = A(none, size_t(0));
  }
  size_t const n = 1 + c.draw(10);
  for (size_t i = 0; i < n; ++i) {
    unsigned const op = static_cast<unsigned>(c.draw(6));
    c.trace(" %u", op);
    switch (op) {
    case 0: a.copy_in_back(static_cast<T const*>(run), 0); break;
    case 1: a.copy_in_front(static_cast<T const*>(run), 0); break;
    case 2: a.copy_out_back(run, 0); break;
    case 3: a.copy_out_front(run, 0); break;
    case 4: a.copy_in(a.begin(), a.end(), static_cast<T const*>(run)); break;
    default: a.copy_out(a.cbegin(), a.cend(), run); break;
    }
    PBT_CHECK(c, a.empty() && a.size() == 0 && a.begin() == a.end(), "still without elements");
    PBT_CHECK(c, Elem<T>::id(x[0]) == Elem<T>::id(Elem<T>::make(77)), "the run was written to");
  }
  c.nontrivial();
}

} // namespace

PBT_REGISTER(u8, &prop<uint8_t>, 60000, 3000000);
PBT_REGISTER(u16, &prop<uint16_t>, 30000, 2000000);
PBT_REGISTER(u64, &prop<uint64_t>, 30000, 2000000);
PBT_REGISTER(pod12, &prop<Pod12>, 40000, 2000000);
PBT_REGISTER(pod3, &prop<Pod3>, 40000, 2000000);
PBT_REGISTER(f64, &prop<double>, 20000, 1000000);
PBT_REGISTER(scoped_enum, &prop<Scoped>, 20000, 1000000);
PBT_REGISTER(pointer, &prop<char const*>, 20000, 1000000);
PBT_REGISTER(aligned, &prop<Aligned>, 20000, 1000000);
PBT_REGISTER(big, &prop<Big>, 10000, 300000);
PBT_REGISTER(no_memory_u8, &no_memory<uint8_t>, 5000, 100000);
PBT_REGISTER(no_memory_pod12, &no_memory<Pod12>, 5000, 100000);
PBT_REGISTER_ENUM(exhaustive_u8, &exhaustive<uint8_t>, 1100, 1100);
PBT_REGISTER_ENUM(exhaustive_pod12, &exhaustive<Pod12>, 1100, 1100);
CBA_LARGE(Large::bulk);
