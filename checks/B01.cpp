// B01: circular_buffer_adapter behaves as a bounded deque (model-based).
#include "cba_common.h"
#include "cba_large.h"

namespace {

template <typename T>
struct Machine {
  using A = circular_buffer_adapter<T>;
  using E = Elem<T>;

  pbt::Case& c;
  size_t cap;
  Arena<T> mem;
  std::deque<uint64_t> m;
  uint64_t next_id{1};
  A a;
  bool wrapped{false}, was_full{false}, popped{false}, pushed{false};

  explicit Machine(pbt::Case& cc)
      : c(cc)
      , cap(gen_capacity(cc))
      , mem(cap)
      , a(start()) {}

  uint64_t fresh() {
    // mostly distinct increasing ids (order errors are visible), sometimes
    // repeated values
    return E::norm(c.chance(1, 8) ? c.draw(4) : next_id++);
  }

  A start() {
    size_t first = 0, count = 0;
    if (cap > 0 && c.flip()) {
      first = static_cast<size_t>(c.draw(cap));
      count = c.flip() ? gen_count(c, cap) : 0;
    }
    for (size_t i = 0; i < count; ++i) {
      uint64_t id = fresh();
      new (mem.data() + (first + i) % cap) T(E::make(id));
      m.push_back(id);
    }
    c.trace("capacity=%zu first=%zu count=%zu;", cap, first, count);
    return attach<T>(c, mem.data(), cap, first, count);
  }

  void expect(bool cond, char const* what) {
    PBT_CHECK(c, cond, "%s (capacity %zu, model size %zu)", what, cap,
              m.size());
  }

  void check_cheap() {
    expect(a.size() == m.size(), "size()");
    expect(a.capacity() == cap, "capacity()");
    expect(a.remaining() == cap - m.size(), "remaining()");
    expect(a.empty() == m.empty(), "empty()");
    expect(a.full() == (m.size() == cap), "full()");
    if (!m.empty()) {
      expect(E::id(a.front()) == m.front(), "front()");
      expect(E::id(a.back()) == m.back(), "back()");
      A const& ca = a;
      expect(&ca.front() == &a.front() && &ca.back() == &a.back(),
             "const front()/back()");
    }
  }

  void check_at(size_t pos) {
    try {
      auto& r = a.at(pos);
      expect(pos < m.size(), "at() accepted a position >= size()");
      expect(E::id(r) == m[pos], "at() value");
    } catch (std::out_of_range const&) {
      expect(pos >= m.size(), "at() rejected a position < size()");
    }
  }

  void check_full() {
    for (size_t i = 0; i < m.size(); ++i) {
      expect(E::id(a[i]) == m[i], "operator[]");
      expect(&a.at(i) == &a[i], "at() of a valid position");
    }
    size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i) {
      expect(i < m.size() && E::id(*it) == m[i], "iteration order");
    }
    expect(i == m.size(), "iteration length");
    i = 0;
    for (auto it = a.rbegin(); it != a.rend(); ++it, ++i) {
      expect(i < m.size() && E::id(*it) == m[m.size() - 1 - i],
             "reverse iteration order");
    }
    expect(i == m.size(), "reverse iteration length");
    check_at(m.size());
    check_at(m.size() + 1);
    check_at(cap);
    check_at(cap + m.size());
    check_at(~size_t{0});
  }

  void push(bool front, size_t how) {
    uint64_t id = fresh();
    T v = E::make(id);
    switch (how) {
    case 0: {
      T const& cv = v;
      front ? a.push_front(cv) : a.push_back(cv);
      expect(E::id(v) == id, "push of an lvalue changed its argument");
      break;
    }
    case 1:
      front ? a.push_front(std::move(v)) : a.push_back(std::move(v));
      break;
    default: {
      T& r = front ? a.emplace_front(std::move(v)) : a.emplace_back(std::move(v));
      expect(&r == (front ? &a.front() : &a.back()),
             "emplace return value is not the new element");
      break;
    }
    }
    front ? m.push_front(id) : m.push_back(id);
    pushed = true;
    c.trace(" %s_%s(%llu)", how == 2 ? "emplace" : how ? "push_move" : "push",
            front ? "front" : "back", (unsigned long long)id);
  }

  // the new element is a copy of one that is in the buffer
  void push_own(bool front) {
    size_t const pos = static_cast<size_t>(c.draw(m.size()));
    size_t const how = c.draw(4);
    uint64_t const id = m[pos];
    T& r = how == 0 ? a.front() : how == 1 ? a.back() : a[pos];
    uint64_t const want = how == 0 ? m.front() : how == 1 ? m.back() : id;
    T const& cr = r;
    switch (how) {
    case 2:
      front ? a.emplace_front(cr) : a.emplace_back(r);
      break;
    case 3:
      if (std::is_trivially_copyable<T>::value) {
        front ? a.push_front(std::move(r)) : a.push_back(std::move(r));
        break;
      }
      // fall through
    default:
      front ? a.push_front(cr) : a.push_back(r);
    }
    front ? m.push_front(want) : m.push_back(want);
    pushed = true;
    c.trace(" push_own_%s(%zu)", front ? "front" : "back", pos);
  }

  void pop(bool front, size_t n, bool counted) {
    if (counted) {
      front ? a.pop_front(n) : a.pop_back(n);
    } else {
      front ? a.pop_front() : a.pop_back();
    }
    for (size_t i = 0; i < n; ++i) {
      front ? m.pop_front() : m.pop_back();
    }
    popped = popped || n;
    c.trace(" pop_%s(%zu)", front ? "front" : "back", n);
  }

  void step(Phase& ph) {
    size_t const other = c.weighted({60, 6, 6, 2, 3});
    switch (other) {
    case 0: {
      bool ins = ph.insert(c);
      if (ins && m.size() == cap) {
        ins = false;
      }
      if (!ins && m.empty()) {
        if (cap == 0) {
          pop(c.flip(), 0, true);
          return;
        }
        ins = true;
      }
      bool const front = c.flip();
      if (ins) {
        size_t k = c.chance(1, 4) ? gen_count(c, cap - m.size()) : 1;
        if (k == 0) {
          k = 1;
        }
        size_t how = c.draw(3);
        if (!m.empty() && c.chance(1, 8)) {
          push_own(front);
          break;
        }
        while (k-- > 0) {
          push(front, how);
        }
      } else if (c.chance(1, 3)) {
        pop(front, gen_count(c, m.size()), true);
      } else {
        pop(front, 1, false);
      }
      break;
    }
    case 1: // write through an access path
      if (!m.empty()) {
        size_t pos = static_cast<size_t>(c.draw(m.size()));
        uint64_t id = fresh();
        switch (c.draw(5)) {
        case 0:
          a[pos] = E::make(id);
          break;
        case 1:
          a.at(pos) = E::make(id);
          break;
        case 2:
          a.begin()[static_cast<std::ptrdiff_t>(pos)] = E::make(id);
          break;
        case 3:
          pos = 0;
          a.front() = E::make(id);
          break;
        default:
          pos = m.size() - 1;
          a.back() = E::make(id);
          break;
        }
        m[pos] = id;
        c.trace(" write[%zu]=%llu", pos, (unsigned long long)id);
      }
      break;
    case 2:
      check_at(static_cast<size_t>(c.draw(2 * cap + 3)));
      break;
    case 3:
      a.clear();
      popped = popped || !m.empty();
      m.clear();
      c.trace(" clear");
      break;
    default: { // move the adapter object around
      c.trace(" move");
      if (c.flip()) {
        A b(std::move(a));
        a = std::move(b);
      } else {
        A b;
        b = std::move(a);
        expect(b.size() == m.size(), "size after move assignment");
        A d(std::move(b));
        a = std::move(d);
      }
      break;
    }
    }
  }

  void run() {
    check_cheap();
    check_full();
    size_t const len = static_cast<size_t>(c.draw(c.chance(1, 6) ? 160 : 40));
    Phase ph;
    for (size_t i = 0; i < len; ++i) {
      step(ph);
      check_cheap();
      if (m.size() <= 20 || c.chance(1, 16)) {
        check_full();
      }
      if (m.size() > 1 && &a.front() > &a.back()) {
        wrapped = true;
      }
      was_full = was_full || (cap && m.size() == cap);
    }
    check_full();
    expect(mem.guards_ok(), "memory around the buffer was written");
    if (wrapped) {
      PBT_LABEL("contents wrapped around the physical end");
    }
    if (was_full) {
      PBT_LABEL("buffer was full");
    }
    if (cap == 0) {
      PBT_LABEL("capacity 0");
    }
    if (cap == 1) {
      PBT_LABEL("capacity 1");
    }
    if (cap > 100) {
      PBT_LABEL("capacity > 100");
    }
    if (pushed && popped && (wrapped || was_full)) {
      c.nontrivial();
    }
    a.clear();
    expect(a.empty() && a.size() == 0, "clear()");
  }
};

template <typename T>
void prop(pbt::Case& c) {
  Machine<T> m(c);
  m.run();
}

} // namespace


// buffers over no memory at all
template <typename T>
void no_memory(pbt::Case& c) {
  using A = circular_buffer_adapter<T>;
  auto const make = [&]() -> A {
    T* const none = nullptr;
    switch (c.draw(5)) {
    case 0: c.trace("A();"); return A();
    case 1: c.trace("A(null, 0);"); return A(none, size_t(0));
    case 2: c.trace("A(null, null);"); return A(none, none);
    case 3: c.trace("A(null, 0, 0, 0);"); return A(none, size_t(0), size_t(0), size_t(0));
    default: c.trace("A(null, null, null, 0);"); return A(none, none, none, size_t(0));
    }
  };
  A a = make();
  auto const check = [&]() {
    PBT_CHECK(c, a.empty() && a.full() && a.size() == 0 && a.capacity() == 0 && a.remaining() == 0,
              "a buffer over no memory is empty and full");
    PBT_CHECK(c, a.begin() == a.end() && a.cbegin() == a.cend() && a.rbegin() == a.rend() && a.crbegin() == a.crend() &&
                     a.end() - a.begin() == 0,
              "it has no elements to visit");
    try {
      (void)a.at(c.draw(3));
      PBT_CHECK(c, false, "at() does not throw");
    } catch (std::out_of_range const&) {
    }
  };
  check();
  size_t const n = c.draw(12);
  for (size_t i = 0; i < n; ++i) {
    switch (c.draw(5)) {
    case 0: c.trace(" clear"); a.clear(); break;
    case 1: c.trace(" pop_front(0)"); a.pop_front(0); break;
    case 2: c.trace(" pop_back(0)"); a.pop_back(0); break;
    case 3: {
      c.trace(" move");
      A b(std::move(a));
      a = std::move(b);
      break;
    }
    default: {
      c.trace(" new");
      a = make();
    }
    }
    check();
  }
  // the object is as good as any other once it has memory
  T mem[2] = {Elem<T>::make(1), Elem<T>::make(2)};
  a = A(mem, mem + 2, mem + 1, 2);
  PBT_CHECK(c, a.size() == 2 && Elem<T>::id(a.front()) == Elem<T>::id(Elem<T>::make(2)) &&
                   Elem<T>::id(a.back()) == Elem<T>::id(Elem<T>::make(1)),
            "contents after assignment of a buffer with memory");
  if (n > 1) {
    c.nontrivial();
  }
}

PBT_REGISTER(u8, &prop<uint8_t>, 60000, 3000000);
PBT_REGISTER(u32, &prop<uint32_t>, 60000, 3000000);
PBT_REGISTER(pod12, &prop<Pod12>, 40000, 2000000);
PBT_REGISTER(pod3, &prop<Pod3>, 20000, 1000000);
PBT_REGISTER(string, &prop<std::string>, 30000, 1000000);
PBT_REGISTER(f64, &prop<double>, 20000, 1000000);
PBT_REGISTER(scoped_enum, &prop<Scoped>, 20000, 1000000);
PBT_REGISTER(pointer, &prop<char const*>, 20000, 1000000);
PBT_REGISTER(aligned, &prop<Aligned>, 20000, 1000000);
PBT_REGISTER(big, &prop<Big>, 10000, 300000);
PBT_REGISTER(initialized, &prop<Init>, 20000, 1000000);
PBT_REGISTER(no_memory_u32, &no_memory<uint32_t>, 10000, 300000);
PBT_REGISTER(no_memory_string, &no_memory<std::string>, 10000, 300000);
PBT_REGISTER(odd, &prop<Odd>, 20000, 1000000);

// Exhaustive: every (capacity, first, count) up to capacity 6, then every
// sequence of four operations out of {push_back, push_front, pop_back,
// pop_front, pop_front(2), pop_back(2), clear} that is allowed.
PBT_ENUM(exhaustive_small, 7 * 7 * 7 * 7, 7 * 7 * 7 * 7) {
  uint64_t code = c.draw(7 * 7 * 7 * 7);
  int ops[4];
  for (int& o : ops) {
    o = static_cast<int>(code % 7);
    code /= 7;
  }
  c.nontrivial();
  c.trace("ops %d %d %d %d from every state of capacity 1..6", ops[0], ops[1],
          ops[2], ops[3]);
  using A = circular_buffer_adapter<uint32_t>;
  uint32_t buf[6];
  for (size_t cap = 1; cap <= 6; ++cap) {
    for (size_t first = 0; first < cap; ++first) {
      for (size_t count = 0; count <= cap; ++count) {
        std::deque<uint32_t> m;
        for (size_t i = 0; i < count; ++i) {
          buf[(first + i) % cap] = static_cast<uint32_t>(100 + i);
          m.push_back(static_cast<uint32_t>(100 + i));
        }
        A a(buf, cap, first, count);
        uint32_t id = 200;
        for (int o : ops) {
          bool done = true;
          switch (o) {
          case 0:
            if ((done = m.size() < cap)) {
              a.push_back(++id);
              m.push_back(id);
            }
            break;
          case 1:
            if ((done = m.size() < cap)) {
              a.push_front(++id);
              m.push_front(id);
            }
            break;
          case 2:
            if ((done = !m.empty())) {
              a.pop_back();
              m.pop_back();
            }
            break;
          case 3:
            if ((done = !m.empty())) {
              a.pop_front();
              m.pop_front();
            }
            break;
          case 4:
            if ((done = m.size() >= 2)) {
              a.pop_front(2);
              m.pop_front();
              m.pop_front();
            }
            break;
          case 5:
            if ((done = m.size() >= 2)) {
              a.pop_back(2);
              m.pop_back();
              m.pop_back();
            }
            break;
          default:
            a.clear();
            m.clear();
            break;
          }
          if (!done) {
            break;
          }
          bool same = a.size() == m.size() && a.empty() == m.empty() &&
                      a.full() == (m.size() == cap) &&
                      a.remaining() == cap - m.size();
          for (size_t i = 0; same && i < m.size(); ++i) {
            same = a[i] == m[i];
          }
          if (same && !m.empty()) {
            same = a.front() == m.front() && a.back() == m.back();
          }
          PBT_CHECK(c, same,
                    "differs from the model: capacity %zu first %zu count %zu",
                    cap, first, count);
        }
      }
    }
  }
}
CBA_LARGE(Large::queue);
