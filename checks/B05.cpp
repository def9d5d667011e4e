// B05: persisted buffers can be re-attached from index and count.
#include "cba_common.h"
#include "cba_large.h"

namespace {

template <typename T>
struct Machine {
  using A = circular_buffer_adapter<T>;
  using E = Elem<T>;

  pbt::Case& c;
  size_t cap;
  // a list of copies of the memory, each with its own adapter and model; all
  // of them get the same continuation
  struct Twin {
    std::unique_ptr<Arena<T>> mem;
    std::unique_ptr<A> a;
  };
  std::vector<Twin> twins;
  std::deque<uint64_t> m;
  uint64_t next_id{1};
  bool wrapped{false}, reattached{false}, continued{false}, full{false};

  explicit Machine(pbt::Case& cc)
      : c(cc)
      , cap(gen_capacity(cc)) {
    Twin t;
    t.mem.reset(new Arena<T>(cap));
    size_t first = 0, count = 0;
    if (cap > 0) {
      first = static_cast<size_t>(c.draw(cap));
      count = gen_count(c, cap);
    }
    for (size_t i = 0; i < count; ++i) {
      uint64_t id = fresh();
      t.mem->data()[(first + i) % cap] = E::make(id);
      m.push_back(id);
    }
    c.trace("capacity=%zu first=%zu count=%zu;", cap, first, count);
    t.a.reset(new A(attach<T>(c, t.mem->data(), cap, first, count)));
    twins.push_back(std::move(t));
    expect(cap == 0 || count == 0 || twins[0].a->raw_index(twins[0].a->begin()) == first,
           "raw_index(begin()) is not the index given to the constructor");
  }

  uint64_t fresh() { return E::norm(c.chance(1, 8) ? c.draw(4) : next_id++); }

  void expect(bool cond, char const* what) {
    PBT_CHECK(c, cond, "%s (capacity %zu, model size %zu)", what, cap,
              m.size());
  }

  void check(Twin& t) {
    A& a = *t.a;
    expect(a.size() == m.size() && a.capacity() == cap &&
               a.remaining() == cap - m.size() && a.empty() == m.empty() &&
               a.full() == (m.size() == cap),
           "size");
    if (cap == 0) {
      return;
    }
    size_t const first = a.raw_index(a.begin());
    expect(first < cap, "raw_index(begin()) >= capacity");
    for (size_t i = 0; i < m.size(); ++i) {
      auto it = a.begin() + static_cast<std::ptrdiff_t>(i);
      typename A::const_iterator cit = it;
      size_t const raw = a.raw_index(it);
      expect(raw == (first + i) % cap, "raw_index is not (first + i) % capacity");
      expect(a.raw_index(cit) == raw, "raw_index of a const_iterator");
      expect(&a[i] == t.mem->data() + raw, "raw_index is not the slot");
      expect(E::id(t.mem->data()[raw]) == m[i], "memory contents");
      expect(E::id(a[i]) == m[i], "contents");
    }
    if (m.size() < cap) {
      expect(a.raw_index(a.end()) == (first + m.size()) % cap &&
                 a.raw_index(a.cend()) == (first + m.size()) % cap,
             "raw_index(end())");
    }
    size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i) {
      expect(i < m.size() && E::id(*it) == m[i] &&
                 a.raw_index(it) == (first + i) % cap,
             "iteration");
    }
    expect(i == m.size(), "iteration length");
    // a read-only attachment of the same memory
    circular_buffer_adapter<T const> view(t.mem->data(), cap, first, m.size());
    expect(view.size() == m.size(), "read-only attachment");
    for (i = 0; i < m.size(); ++i) {
      expect(E::id(view[i]) == m[i], "read-only attachment");
    }
  }

  // "power loss": everything but the memory, raw_index(begin()) and size() is
  // lost
  void reattach() {
    Twin& t = twins[c.draw(twins.size())];
    size_t const first = t.a->raw_index(t.a->begin());
    size_t const count = t.a->size();
    if (c.flip() && twins.size() < 3) { // onto a copy of the memory
      Twin n;
      n.mem.reset(new Arena<T>(cap));
      if (cap) {
        std::memcpy(n.mem->bytes(), t.mem->bytes(), t.mem->size_bytes());
      }
      n.a.reset(new A(make(n, first, count)));
      c.trace(" copy+attach(%zu,%zu)", first, count);
      twins.push_back(std::move(n));
    } else { // in place
      t.a.reset();
      t.a.reset(new A(make(t, first, count)));
      c.trace(" attach(%zu,%zu)", first, count);
    }
    reattached = true;
  }

  A make(Twin& t, size_t first, size_t count) {
    if (c.flip()) {
      return A(t.mem->data(), cap, first, count);
    }
    return A(t.mem->data(), t.mem->end(), t.mem->data() + first, count);
  }

  void step(Phase& ph) {
    size_t const op = c.weighted({40, 12, 8, 8, 2});
    bool const front = c.flip();
    size_t n = 1;
    std::vector<uint64_t> ids;
    bool ins = false;
    switch (op) {
    case 0:
      ins = ph.insert(c) ? m.size() < cap : m.empty();
      if (cap == 0) {
        return;
      }
      if (ins) {
        ids.push_back(fresh());
      } else if (c.chance(1, 3)) {
        n = gen_count(c, m.size());
      }
      break;
    case 1:
      reattach();
      return;
    case 2:
      n = gen_count(c, cap - m.size());
      for (size_t i = 0; i < n; ++i) {
        ids.push_back(fresh());
      }
      break;
    case 3:
      n = gen_count(c, m.size());
      break;
    default:
      break;
    }
    for (auto& t : twins) {
      A& a = *t.a;
      switch (op) {
      case 0:
        if (ins) {
          size_t slot = a.raw_index(a.end());
          if (front) {
            a.push_front(E::make(ids[0]));
          } else {
            a.push_back(E::make(ids[0]));
            expect(t.mem->slot(&a.back()) == slot,
                   "push_back did not use the slot of raw_index(end())");
          }
        } else {
          front ? a.pop_front(n) : a.pop_back(n);
        }
        break;
      case 2: {
        std::vector<T> src;
        for (auto id : ids) {
          src.push_back(E::make(id));
        }
        T const* p = src.data();
        front ? a.copy_in_front(p, n) : a.copy_in_back(p, n);
        break;
      }
      case 3: {
        std::vector<T> dst(n + 1);
        front ? a.copy_out_front(dst.data(), n)
              : a.copy_out_back(dst.data(), n);
        for (size_t i = 0; i < n; ++i) {
          expect(E::id(dst[i]) == m[front ? i : m.size() - n + i],
                 "copy_out");
        }
        break;
      }
      default:
        a.clear();
        break;
      }
    }
    if (ins || op == 2) {
      if (front) {
        m.insert(m.begin(), ids.begin(), ids.end());
      } else {
        m.insert(m.end(), ids.begin(), ids.end());
      }
    } else if (op == 4) {
      m.clear();
    } else {
      for (size_t i = 0; i < n; ++i) {
        front ? m.pop_front() : m.pop_back();
      }
    }
    c.trace(" %s_%s(%zu)",
            op == 4 ? "clear" : op == 0 ? (ins ? "push" : "pop")
                                        : op == 2 ? "copy_in" : "copy_out",
            front ? "front" : "back", n);
    continued = continued || reattached;
  }

  void run() {
    check(twins[0]);
    size_t const len = static_cast<size_t>(c.draw(c.chance(1, 6) ? 100 : 30));
    Phase ph;
    for (size_t i = 0; i < len; ++i) {
      step(ph);
      for (auto& t : twins) {
        check(t);
      }
      A& a = *twins[0].a;
      wrapped = wrapped || (m.size() > 1 && &a.front() > &a.back());
      full = full || (cap && m.size() == cap);
    }
    for (auto& t : twins) {
      expect(t.mem->guards_ok(), "memory around the buffer was written");
    }
    if (full) {
      PBT_LABEL("buffer was full");
    }
    if (continued && (wrapped || full)) {
      c.nontrivial();
    }
  }
};

template <typename T>
void prop(pbt::Case& c) {
  Machine<T> m(c);
  m.run();
}

// Exhaustive: every (capacity, first, count) up to capacity 9: attach, verify
// the mapping, detach, re-attach.
void exhaustive(pbt::Case& c) {
  uint64_t code = c.draw(9 * 9 * 10);
  size_t const cap = 1 + code % 9, first = (code / 9) % 9, fill = code / 81;
  if (first >= cap || fill > cap) {
    c.discard();
    return;
  }
  c.nontrivial();
  c.trace("capacity=%zu first=%zu count=%zu", cap, first, fill);
  std::vector<uint16_t> buf(cap, 999);
  for (size_t i = 0; i < fill; ++i) {
    buf[(first + i) % cap] = static_cast<uint16_t>(i);
  }
  using A = circular_buffer_adapter<uint16_t>;
  A a(buf.data(), cap, first, fill);
  A b(buf.data(), buf.data() + cap, buf.data() + first, fill);
  for (size_t i = 0; i < fill; ++i) {
    auto it = a.begin() + static_cast<std::ptrdiff_t>(i);
    PBT_CHECK(c, a.raw_index(it) == (first + i) % cap && a[i] == i && b[i] == i,
              "mapping: capacity %zu first %zu count %zu i %zu", cap, first,
              fill, i);
  }
  PBT_CHECK(c, a.raw_index(a.begin()) == first && b.raw_index(b.begin()) == first,
            "first: capacity %zu first %zu count %zu", cap, first, fill);
  if (fill < cap) {
    PBT_CHECK(c, a.raw_index(a.end()) == (first + fill) % cap,
              "end: capacity %zu first %zu count %zu", cap, first, fill);
    a.push_back(500);
    PBT_CHECK(c, buf[(first + fill) % cap] == 500,
              "push_back: capacity %zu first %zu count %zu", cap, first, fill);
    b.push_front(600);
    PBT_CHECK(c, buf[(first + cap - 1) % cap] == 600 &&
                     b.raw_index(b.begin()) == (first + cap - 1) % cap,
              "push_front: capacity %zu first %zu count %zu", cap, first, fill);
  }
}

} // namespace

PBT_REGISTER(u8, &prop<uint8_t>, 60000, 2500000);
PBT_REGISTER(u32, &prop<uint32_t>, 60000, 2500000);
PBT_REGISTER(pod12, &prop<Pod12>, 30000, 1500000);
PBT_REGISTER(pod3, &prop<Pod3>, 30000, 1500000);
PBT_REGISTER(f64, &prop<double>, 20000, 1000000);
PBT_REGISTER(aligned, &prop<Aligned>, 20000, 1000000);
PBT_REGISTER(big, &prop<Big>, 10000, 300000);
PBT_REGISTER_ENUM(exhaustive, &exhaustive, 810, 810);
CBA_LARGE(Large::attach);
