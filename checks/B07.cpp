// B07: throwing element construction leaves the buffer unchanged.
#include "cba_tracked.h"

namespace {

template <typename T>
struct Machine {
  using A = circular_buffer_adapter<T>;
  struct Item {
    uint64_t id;
    T* addr;
  };
  pbt::Case& c;
  size_t cap;
  Arena<T> mem;
  std::deque<Item> m;
  A a;
  uint64_t next_id{1};
  Log& log{lg()};
  bool wrapped{false};
  size_t faults{0}, faults_wrapped{0}, after{0};

  explicit Machine(pbt::Case& cc)
      : c(cc)
      , cap(gen_capacity(cc, false))
      , mem(cap)
      , a(mem.data(), cap) {
    log.attach(c, mem.data(), cap, sizeof(T));
    log.untracked_death = std::is_trivially_destructible<T>::value;
    size_t first = static_cast<size_t>(c.draw(cap));
    size_t count = c.flip() ? gen_count(c, cap) : 0;
    for (size_t i = 0; i < count; ++i) {
      T* p = new (mem.data() + (first + i) % cap) T(next_id);
      m.push_back(Item{next_id++, p});
    }
    c.trace("capacity=%zu first=%zu count=%zu;", cap, first, count);
    a = A(mem.data(), cap, first, count);
  }

  void expect(bool cond, char const* what) {
    PBT_CHECK(c, cond, "%s (capacity %zu, model size %zu, %zu faults)", what,
              cap, m.size(), faults);
  }

  void check() {
    expect(a.size() == m.size() && a.empty() == m.empty() &&
               a.full() == (m.size() == cap) &&
               a.remaining() == cap - m.size(),
           "size");
    size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i) {
      expect(i < m.size() && &*it == m[i].addr, "iteration");
    }
    expect(i == m.size(), "iteration length");
    for (i = 0; i < m.size(); ++i) {
      expect(&a[i] == m[i].addr, "an element moved");
      expect(log.live[mem.slot(&a[i])], "an element is not alive");
      expect(ident(a[i]) == m[i].id && a[i].ok(), "an element changed");
    }
    if (!m.empty()) {
      expect(&a.front() == m.front().addr && &a.back() == m.back().addr,
             "front()/back()");
    }
    expect(log.alive() == m.size(), "number of live objects");
  }

  void copy_push(bool front, T const& v, std::true_type) {
    front ? a.push_front(v) : a.push_back(v);
  }
  void copy_push(bool front, T const& v, std::false_type) {
    T& w = const_cast<T&>(v);
    front ? a.push_front(std::move(w)) : a.push_back(std::move(w));
  }

  void insert() {
    bool const front = c.flip();
    bool const fault = c.chance(2, 5);
    size_t const how = c.draw(3);
    uint64_t const id = next_id++;
    size_t const raw_first = a.raw_index(a.begin());
    size_t const raw_end = a.raw_index(a.end());
    bool thrown = false;
    {
      T v(id);
      log.events.clear();
      log.external = 0;
      log.countdown = fault ? 0 : -1;
      try {
        switch (how) {
        case 0:
          copy_push(front, v, std::is_copy_constructible<T>());
          break;
        case 1:
          front ? a.push_front(std::move(v)) : a.push_back(std::move(v));
          break;
        default:
          front ? a.emplace_front(id) : a.emplace_back(id);
          break;
        }
      } catch (Log::Fault const&) {
        thrown = true;
      }
      log.countdown = -1;
      expect(thrown == fault, fault ? "the exception did not reach the caller"
                                    : "unexpected exception");
      expect(log.external == 0, "temporaries were created");
      expect(log.events.size() == (fault ? 0u : 1u),
             "other elements were constructed, assigned or destroyed");
      if (thrown) {
        expect(ident(v) == id && v.ok(), "the source of a failed insertion changed");
      }
    }
    static char const* const nm[] = {"push", "push_move", "emplace"};
    c.trace(" %s_%s%s", nm[how], front ? "front" : "back",
            fault ? "=THROWS" : "");
    if (fault) {
      ++faults;
      faults_wrapped += wrapped;
      expect(a.raw_index(a.begin()) == raw_first &&
                 a.raw_index(a.end()) == raw_end,
             "positions changed by a failed insertion");
    } else {
      after += faults > 0;
      T* p = front ? &a.front() : &a.back();
      expect(mem.contains(p), "a new element lies outside the buffer");
      front ? m.push_front(Item{id, p}) : m.push_back(Item{id, p});
    }
  }

  void run() {
    check();
    size_t const len = static_cast<size_t>(c.draw(c.chance(1, 6) ? 100 : 35));
    Phase ph;
    for (size_t i = 0; i < len; ++i) {
      bool ins = ph.insert(c) ? m.size() < cap : m.empty();
      if (ins) {
        insert();
      } else if (c.chance(1, 20)) {
        a.clear();
        while (!m.empty()) {
          forgotten<T>(mem.slot(m.back().addr));
          m.pop_back();
        }
        c.trace(" clear");
      } else {
        bool const front = c.flip();
        size_t const n = c.flip() ? gen_count(c, m.size()) : 1;
        front ? a.pop_front(n) : a.pop_back(n);
        for (size_t k = 0; k < n; ++k) {
          forgotten<T>(mem.slot(front ? m.front().addr : m.back().addr));
          front ? m.pop_front() : m.pop_back();
        }
        c.trace(" pop_%s(%zu)", front ? "front" : "back", n);
      }
      check();
      wrapped = m.size() > 1 && m.front().addr > m.back().addr;
    }
    a.clear();
    for (auto const& x : m) {
      forgotten<T>(mem.slot(x.addr));
    }
    expect(log.alive() == 0, "objects leaked");
    for (auto const& o : log.outside) {
      expect(o.second == 0 || log.untracked_death, "temporaries leaked");
    }
    expect(mem.guards_ok(), "memory around the buffer was written");
    if (faults_wrapped) {
      PBT_LABEL("a construction threw while the contents were wrapped");
    }
    if (faults && after) {
      c.nontrivial();
    }
  }
};

template <typename T>
void prop(pbt::Case& c) {
  Machine<T> m(c);
  m.run();
}

// Exhaustive: every state of capacity 1..8, a failing insertion of each kind,
// then every possible next operation.
void exhaustive(pbt::Case& c) {
  uint64_t code = c.draw(8 * 8 * 8);
  size_t const cap = 1 + code % 8, first = (code / 8) % 8, fill = code / 64;
  if (first >= cap || fill >= cap) {
    c.discard();
    return;
  }
  c.nontrivial();
  c.trace("capacity=%zu first=%zu count=%zu", cap, first, fill);
  Log& log = lg();
  for (int how = 0; how < 6; ++how) {
    for (int next = 0; next < 5; ++next) {
      Arena<Full> mem(cap);
      log.attach(c, mem.data(), cap, sizeof(Full));
      std::deque<uint64_t> m;
      for (size_t i = 0; i < fill; ++i) {
        new (mem.data() + (first + i) % cap) Full(i + 1);
        m.push_back(i + 1);
      }
      circular_buffer_adapter<Full> a(mem.data(), cap, first, fill);
      bool thrown = false;
      {
        Full v(77);
        log.countdown = 0;
        try {
          switch (how) {
          case 0:
            a.push_back(v);
            break;
          case 1:
            a.push_front(v);
            break;
          case 2:
            a.push_back(std::move(v));
            break;
          case 3:
            a.push_front(std::move(v));
            break;
          case 4:
            a.emplace_back(uint64_t{77});
            break;
          default:
            a.emplace_front(uint64_t{77});
            break;
          }
        } catch (Log::Fault const&) {
          thrown = true;
        }
        log.countdown = -1;
      }
      switch (next) {
      case 0:
        a.emplace_back(uint64_t{88});
        m.push_back(88);
        break;
      case 1:
        a.emplace_front(uint64_t{89});
        m.push_front(89);
        break;
      case 2:
        if (!m.empty()) {
          a.pop_back();
          m.pop_back();
        }
        break;
      case 3:
        if (!m.empty()) {
          a.pop_front();
          m.pop_front();
        }
        break;
      default:
        break;
      }
      bool ok = thrown && a.size() == m.size() && log.alive() == m.size();
      size_t i = 0;
      for (auto it = a.begin(); ok && it != a.end(); ++it, ++i) {
        ok = i < m.size() && it->id == m[i] && it->ok() && a[i].id == m[i];
      }
      ok = ok && i == m.size();
      PBT_CHECK(c, ok,
                "after a failed insertion %d and operation %d: capacity %zu "
                "first %zu count %zu",
                how, next, cap, first, fill);
      a.clear();
    }
  }
}

} // namespace

PBT_REGISTER(full, &prop<Full>, 80000, 4000000);
PBT_REGISTER(move_only, &prop<MoveOnly>, 40000, 2000000);
PBT_REGISTER(copy_only, &prop<CopyOnly>, 40000, 2000000);
PBT_REGISTER(empty, &prop<Empty>, 40000, 2000000);
PBT_REGISTER(trivial_destructor, &prop<NoDtor>, 40000, 2000000);
PBT_REGISTER(polymorphic, &prop<Poly>, 40000, 2000000);
PBT_REGISTER_ENUM(exhaustive, &exhaustive, 512, 512);
