// B04: only the buffer's own slots are written, and elements never move.
#include "cba_common.h"

namespace {

template <typename T>
struct Machine {
  using A = circular_buffer_adapter<T>;
  using E = Elem<T>;

  struct Held { // a reference/pointer/iterator kept across operations
    uint64_t serial;
    T* ptr;
    typename A::iterator it;
    typename A::const_iterator cit;
  };
  struct Item {
    uint64_t serial;
    uint64_t id;
    T* addr;
  };

  pbt::Case& c;
  size_t cap;
  Arena<T> mem;
  std::deque<Item> m;
  uint64_t next_id{1}, serial{0};
  std::vector<unsigned char> before;
  std::vector<Held> held;
  A a;
  bool wrapped{false}, survived{false};

  explicit Machine(pbt::Case& cc)
      : c(cc)
      , cap(gen_capacity(cc))
      , mem(cap)
      , a(start()) {}

  A start() {
    for (size_t i = 0; i < mem.size_bytes(); ++i) {
      mem.bytes()[i] = static_cast<unsigned char>(0x5a ^ (i * 29));
    }
    size_t first = 0, count = 0;
    if (cap > 0) {
      first = static_cast<size_t>(c.draw(cap));
      count = gen_count(c, cap);
    }
    for (size_t i = 0; i < count; ++i) {
      uint64_t id = E::norm(next_id++);
      T* p = mem.data() + (first + i) % cap;
      *p = E::make(id);
      m.push_back(Item{++serial, id, p});
    }
    c.trace("capacity=%zu first=%zu count=%zu;", cap, first, count);
    return attach<T>(c, mem.data(), cap, first, count);
  }

  void expect(bool cond, char const* what) {
    PBT_CHECK(c, cond, "%s (capacity %zu, model size %zu)", what, cap,
              m.size());
  }

  void snapshot() {
    before.assign(mem.bytes(), mem.bytes() + mem.size_bytes());
  }

  // compare with the snapshot; only slots of `allowed` may differ
  void unchanged_except(std::vector<T*> const& allowed, char const* what) {
    for (T* p : allowed) {
      size_t s = mem.slot(p) * sizeof(T);
      std::memcpy(&before[s], mem.bytes() + s, sizeof(T));
    }
    if (!before.empty() &&
        std::memcmp(before.data(), mem.bytes(), before.size()) != 0) {
      size_t i = 0;
      while (before[i] == mem.bytes()[i]) {
        ++i;
      }
      c.fail("%s changed slot %zu (capacity %zu, model size %zu)", what,
             i / sizeof(T), cap, m.size());
    }
    expect(mem.guards_ok(), "memory around the buffer was written");
  }

  void check_elements() {
    expect(a.size() == m.size(), "size");
    for (size_t i = 0; i < m.size(); ++i) {
      expect(&a[i] == m[i].addr, "an element moved");
      expect(E::id(a[i]) == m[i].id, "an element changed");
    }
    for (size_t i = 0; i < held.size();) {
      Held const& h = held[i];
      size_t pos = 0;
      while (pos < m.size() && m[pos].serial != h.serial) {
        ++pos;
      }
      if (pos == m.size()) { // popped
        held.erase(held.begin() + static_cast<std::ptrdiff_t>(i));
        continue;
      }
      survived = true;
      expect(&*h.it == h.ptr && h.ptr == m[pos].addr && &*h.cit == h.ptr,
             "a held iterator refers to another element");
      expect(h.it - a.begin() == static_cast<std::ptrdiff_t>(pos) &&
                 h.cit - a.cbegin() == static_cast<std::ptrdiff_t>(pos),
             "a held iterator has a wrong position");
      expect(a.end() - h.it == static_cast<std::ptrdiff_t>(m.size() - pos),
             "a held iterator has a wrong distance to end()");
      auto nx = h.it;
      ++nx;
      expect(pos + 1 < m.size() ? nx != a.end() && &*nx == m[pos + 1].addr
                                : nx == a.end(),
             "a held iterator cannot be advanced");
      ++i;
    }
  }

  void check_new(T* p) {
    expect(mem.contains(p), "a new element lies outside the buffer");
    for (auto const& i : m) {
      expect(i.addr != p, "a new element occupies a used slot");
    }
  }

  void added(bool front, std::vector<uint64_t> const& ids) {
    std::vector<T*> slots;
    size_t const n = ids.size();
    expect(a.size() == m.size() + n, "size after insertion");
    if (front) {
      for (size_t i = n; i-- > 0;) {
        T* p = &a[i];
        check_new(p);
        m.push_front(Item{++serial, ids[i], p});
        slots.push_back(p);
      }
    } else {
      for (size_t i = 0; i < n; ++i) {
        T* p = &a[m.size()];
        check_new(p);
        m.push_back(Item{++serial, ids[i], p});
        slots.push_back(p);
      }
    }
    unchanged_except(slots, "an insertion");
  }

  void step(Phase& ph) {
    snapshot();
    switch (c.weighted({50, 8, 8, 6, 6, 8, 4, 2})) {
    case 0: {
      bool ins = ph.insert(c);
      if (ins && m.size() == cap) {
        ins = false;
      }
      if (!ins && m.empty()) {
        if (cap == 0) {
          return;
        }
        ins = true;
      }
      bool front = c.flip();
      if (ins) {
        uint64_t id = E::norm(next_id++);
        T v = E::make(id);
        T const& cv = v;
        switch (c.draw(3)) {
        case 0:
          front ? a.push_front(cv) : a.push_back(cv);
          break;
        case 1:
          front ? a.push_front(std::move(v)) : a.push_back(std::move(v));
          break;
        default: {
          T& r = front ? a.emplace_front(v) : a.emplace_back(v);
          expect(mem.contains(&r), "emplace returned a stray reference");
          break;
        }
        }
        c.trace(" push_%s", front ? "front" : "back");
        added(front, {id});
      } else {
        size_t n = c.chance(1, 3) ? gen_count(c, m.size()) : 1;
        if (n == 1 && c.flip()) {
          front ? a.pop_front() : a.pop_back();
        } else {
          front ? a.pop_front(n) : a.pop_back(n);
        }
        for (size_t i = 0; i < n; ++i) {
          front ? m.pop_front() : m.pop_back();
        }
        c.trace(" pop_%s(%zu)", front ? "front" : "back", n);
        unchanged_except({}, "a pop");
      }
      break;
    }
    case 1:
    case 2: {
      size_t n = gen_count(c, cap - m.size());
      bool front = c.flip();
      std::vector<T> src(n);
      std::vector<uint64_t> ids(n);
      for (size_t i = 0; i < n; ++i) {
        ids[i] = E::norm(next_id++);
        src[i] = E::make(ids[i]);
      }
      T const* p = src.data();
      front ? a.copy_in_front(p, n) : a.copy_in_back(p, n);
      c.trace(" copy_in_%s(%zu)", front ? "front" : "back", n);
      added(front, ids);
      break;
    }
    case 3: {
      size_t n = gen_count(c, m.size());
      bool front = c.flip();
      std::vector<T> dst(n + 1);
      front ? a.copy_out_front(dst.data(), n) : a.copy_out_back(dst.data(), n);
      for (size_t i = 0; i < n; ++i) {
        front ? m.pop_front() : m.pop_back();
      }
      c.trace(" copy_out_%s(%zu)", front ? "front" : "back", n);
      unchanged_except({}, "a copy_out");
      break;
    }
    case 4: { // overwrite a range
      size_t b = static_cast<size_t>(c.draw(m.size() + 1));
      size_t n = gen_count(c, m.size() - b);
      std::vector<T> src(n + 1);
      std::vector<T*> slots;
      for (size_t i = 0; i < n; ++i) {
        m[b + i].id = E::norm(next_id++);
        src[i] = E::make(m[b + i].id);
        slots.push_back(m[b + i].addr);
      }
      T const* p = src.data();
      auto f = a.begin() + static_cast<std::ptrdiff_t>(b);
      a.copy_in(f, f + static_cast<std::ptrdiff_t>(n), p);
      c.trace(" copy_in[%zu,+%zu)", b, n);
      unchanged_except(slots, "copy_in of a range");
      break;
    }
    case 5: { // everything that only reads
      size_t sum = a.size() + a.capacity() + a.remaining() + a.empty() +
                   a.full() + a.raw_index(a.begin()) + a.raw_index(a.end());
      for (auto it = a.cbegin(); it != a.cend(); ++it) {
        sum += E::id(*it);
      }
      for (auto it = a.rbegin(); it != a.rend(); ++it) {
        sum += E::id(*it);
      }
      for (size_t i = 0; i < m.size(); ++i) {
        sum += E::id(a[i]) + E::id(a.at(i));
      }
      if (!m.empty()) {
        sum += E::id(a.front()) + E::id(a.back());
        std::vector<T> dst(m.size());
        a.copy_out(a.begin(), a.end(), dst.data());
        sum += E::id(dst[0]);
      }
      try {
        sum += E::id(a.at(m.size()));
        c.fail("at(size()) did not throw");
      } catch (std::out_of_range const&) {
      }
      volatile size_t sink = sum;
      (void)sink;
      c.trace(" read-all");
      unchanged_except({}, "reading");
      break;
    }
    case 6: { // move the adapter: the memory stays as it is
      A b(std::move(a));
      a = std::move(b);
      held.clear(); // iterators belong to the adapter object
      c.trace(" move");
      unchanged_except({}, "moving the adapter");
      break;
    }
    default:
      a.clear();
      m.clear();
      c.trace(" clear");
      unchanged_except({}, "clear");
      break;
    }
    check_elements();
    if (!m.empty() && held.size() < 6 && c.flip()) {
      size_t pos = static_cast<size_t>(c.draw(m.size()));
      typename A::iterator it = a.begin() + static_cast<std::ptrdiff_t>(pos);
      typename A::const_iterator cit = it;
      held.push_back(Held{m[pos].serial, &a[pos], it, cit});
      c.trace(" hold[%zu]", pos);
    }
    wrapped = wrapped || (m.size() > 1 && m.front().addr > m.back().addr);
  }

  void run() {
    check_elements();
    size_t const len = static_cast<size_t>(c.draw(c.chance(1, 6) ? 120 : 40));
    Phase ph;
    for (size_t i = 0; i < len; ++i) {
      step(ph);
    }
    snapshot();
    {
      A gone(std::move(a));
    }
    unchanged_except({}, "destroying the adapter");
    if (wrapped && survived) {
      PBT_LABEL("held iterators survived operations; contents wrapped");
      c.nontrivial();
    }
  }
};

template <typename T>
void prop(pbt::Case& c) {
  Machine<T> m(c);
  m.run();
}

// Non-trivial elements also keep their addresses and neighbours' bytes.
void strings(pbt::Case& c) {
  size_t const cap = static_cast<size_t>(c.range(1, 12));
  Arena<std::string> mem(cap);
  circular_buffer_adapter<std::string> a(mem.data(), mem.end());
  std::deque<std::pair<std::string*, uint64_t>> m;
  uint64_t id = 0;
  Phase ph;
  size_t const len = static_cast<size_t>(c.draw(60));
  bool wrapped = false;
  for (size_t i = 0; i < len; ++i) {
    bool ins = ph.insert(c) ? m.size() < cap : m.empty();
    bool front = c.flip();
    if (ins) {
      auto s = Elem<std::string>::make(++id);
      front ? a.push_front(s) : a.push_back(std::move(s));
      std::string* p = front ? &a.front() : &a.back();
      PBT_CHECK(c, mem.contains(p), "a new element lies outside the buffer");
      front ? m.emplace_front(p, id) : m.emplace_back(p, id);
    } else {
      size_t n = static_cast<size_t>(c.draw(m.size() + 1));
      front ? a.pop_front(n) : a.pop_back(n);
      while (n-- > 0) {
        front ? m.pop_front() : m.pop_back();
      }
    }
    c.trace(" %s_%s", ins ? "push" : "pop", front ? "front" : "back");
    PBT_CHECK(c, a.size() == m.size(), "size");
    for (size_t k = 0; k < m.size(); ++k) {
      PBT_CHECK(c, &a[k] == m[k].first, "an element moved");
      PBT_CHECK(c, Elem<std::string>::id(a[k]) == m[k].second,
                "an element changed");
    }
    wrapped = wrapped || (m.size() > 1 && m.front().first > m.back().first);
  }
  PBT_CHECK(c, mem.guards_ok(), "memory around the buffer was written");
  a.clear();
  if (wrapped) {
    c.nontrivial();
  }
}

// Large buffers: the footprint of every operation, with counts beyond narrow
// integer types. The whole memory is compared after each operation.
template <typename T>
void large(pbt::Case& c) {
  using E = Elem<T>;
  size_t const cap = static_cast<size_t>(
      c.pick<int64_t>({200, 250, 1000, 32700, 65500}) + c.range(0, 120));
  Arena<T> mem(cap);
  for (size_t i = 0; i < mem.size_bytes(); ++i) {
    mem.bytes()[i] = static_cast<unsigned char>(0x5a ^ (i * 29));
  }
  std::vector<unsigned char> want(mem.bytes(), mem.bytes() + mem.size_bytes());
  size_t first = static_cast<size_t>(c.draw(cap)), count = static_cast<size_t>(c.draw(cap + 1));
  auto a = attach<T>(c, mem.data(), cap, first, count);
  c.trace("capacity=%zu first=%zu count=%zu;", cap, first, count);
  auto put = [&](size_t i, T const& v) {
    std::memcpy(&want[(first + i) % cap * sizeof(T)], &v, sizeof(T));
  };
  bool wide = false;
  uint64_t id = 0;
  for (int step = 0; step < 10; ++step) {
    size_t const room = cap - count;
    size_t n = static_cast<size_t>(c.flip() ? c.draw(std::min<size_t>(room, 400) + 1) : c.draw(room + 1));
    size_t k = c.chance(1, 4) ? count : static_cast<size_t>(c.draw(count + 1));
    bool const front = c.flip();
    char const* what = "";
    switch (c.draw(7)) {
    case 0:
    case 1: {
      what = "copy_in";
      c.trace(" copy_in_%s(%zu)", front ? "front" : "back", n);
      std::vector<T> src(n);
      for (auto& x : src) {
        x = E::make(E::norm(++id));
      }
      T const* p = src.data();
      front ? a.copy_in_front(p, n) : a.copy_in_back(p, n);
      if (front) {
        first = (first + cap - n) % cap;
      }
      for (size_t i = 0; i < n; ++i) {
        put((front ? 0 : count) + i, src[i]);
      }
      count += n;
      wide = wide || n > 255;
      break;
    }
    case 2:
      what = "push";
      n = std::min<size_t>(n, 300);
      c.trace(" push_%s x %zu", front ? "front" : "back", n);
      for (size_t i = 0; i < n; ++i) {
        T const v = E::make(E::norm(++id));
        front ? a.push_front(v) : a.push_back(v);
        if (front) {
          first = (first + cap - 1) % cap;
        }
        put(front ? 0 : count, v);
        ++count;
      }
      break;
    case 3:
      what = "pop";
      c.trace(" pop_%s(%zu)", front ? "front" : "back", k);
      front ? a.pop_front(k) : a.pop_back(k);
      if (front) {
        first = (first + k) % cap;
      }
      count -= k;
      wide = wide || k > 255;
      break;
    case 4: {
      what = "copy_out";
      c.trace(" copy_out_%s(%zu)", front ? "front" : "back", k);
      std::vector<T> dst(k + 1);
      front ? a.copy_out_front(dst.data(), k) : a.copy_out_back(dst.data(), k);
      if (front) {
        first = (first + k) % cap;
      }
      count -= k;
      wide = wide || k > 255;
      break;
    }
    case 5: {
      what = "copy_in of a range";
      c.trace(" copy_in of a range (%zu)", k);
      size_t const at = static_cast<size_t>(c.draw(count - k + 1));
      std::vector<T> src(k);
      for (size_t i = 0; i < k; ++i) {
        src[i] = E::make(E::norm(++id));
        put(at + i, src[i]);
      }
      T const* p = src.data();
      auto const f = a.begin() + static_cast<std::ptrdiff_t>(at);
      a.copy_in(f, f + static_cast<std::ptrdiff_t>(k), p);
      break;
    }
    default:
      if (c.chance(1, 6)) {
        what = "clear";
        c.trace(" clear");
        a.clear();
        count = 0;
        first = a.raw_index(a.begin());
      }
    }
    PBT_CHECK(c, a.size() == count, "%s: size() is %zu instead of %zu", what, a.size(), count);
    if (count > 0) {
      PBT_CHECK(c, &a.front() == mem.data() + first && &a.back() == mem.data() + (first + count - 1) % cap,
                "%s moved the elements", what);
    }
    if (std::memcmp(want.data(), mem.bytes(), want.size()) != 0) {
      size_t i = 0;
      while (want[i] == mem.bytes()[i]) {
        ++i;
      }
      c.fail("%s: slot %zu has been changed or has not been written (capacity %zu, first %zu, count %zu)", what,
             i / sizeof(T), cap, first, count);
    }
    PBT_CHECK(c, mem.guards_ok(), "memory around the buffer was written");
  }
  if (wide) {
    c.nontrivial();
  }
}

} // namespace

PBT_REGISTER(u8, &prop<uint8_t>, 60000, 3000000);
PBT_REGISTER(u32, &prop<uint32_t>, 60000, 3000000);
PBT_REGISTER(pod12, &prop<Pod12>, 40000, 2000000);
PBT_REGISTER(pod3, &prop<Pod3>, 40000, 2000000);
PBT_REGISTER(f64, &prop<double>, 20000, 1000000);
PBT_REGISTER(scoped_enum, &prop<Scoped>, 20000, 1000000);
PBT_REGISTER(aligned, &prop<Aligned>, 10000, 1000000);
PBT_REGISTER(big, &prop<Big>, 5000, 300000);
PBT_REGISTER(strings, &strings, 30000, 1000000);
PBT_REGISTER(large_u8, &large<uint8_t>, 200, 10000);
PBT_REGISTER(large_u32, &large<uint32_t>, 100, 5000);
