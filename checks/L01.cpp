// L01: lock_guard holds its mutex exactly for its scope.
#include <atomic>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <thread>
#include <type_traits>
#include <vector>

#include <embedded/mutex.h>

#include "pbt.h"

namespace {

struct Event {
  size_t mutex;
  bool lock;
  bool operator==(Event const& o) const {
    return mutex == o.mutex && lock == o.lock;
  }
};
struct World {
  std::vector<Event> log;
  std::vector<int> held; // lock depth per mutex
  char const* error{nullptr};
  int fail_in{-1};
};
World* W;
struct LockFailed {
  size_t mutex;
};
struct Left {
  int code;
};

// Never blocks: misuse is recorded instead.
struct Mutex {
  size_t id;
  Mutex const* self;
  explicit Mutex(size_t i)
      : id{i}
      , self{this} {}
  Mutex(Mutex const& o)
      : id{o.id}
      , self{this} {
    W->error = "the mutex was copied";
  }
  void lock() {
    if (self != this) {
      W->error = "lock of another object";
    }
    if (W->fail_in >= 0 && W->fail_in-- == 0) {
      throw LockFailed{id};
    }
    W->log.push_back({id, true});
    ++W->held[id];
  }
  void unlock() {
    W->log.push_back({id, false});
    if (--W->held[id] < 0) {
      W->error = "unlock of a mutex that is not locked";
    }
  }
  bool try_lock() {
    W->error = "try_lock";
    return true;
  }
};
// a mutex whose lock/unlock return something and take default arguments
struct Odd : private Mutex {
  explicit Odd(size_t i)
      : Mutex(i) {}
  bool lock(int = 0) {
    Mutex::lock();
    return false;
  }
  int unlock(bool = true) {
    Mutex::unlock();
    return -1;
  }
};

// an interface with virtual functions
struct Abstract {
  virtual void lock() = 0;
  virtual void unlock() = 0;
  virtual ~Abstract() {}
};
struct Concrete final : Abstract {
  Mutex m;
  explicit Concrete(size_t i)
      : m{i} {}
  void lock() override { m.lock(); }
  void unlock() override { m.unlock(); }
};
struct Final final {
  Mutex m;
  explicit Final(size_t i)
      : m{i} {}
  void lock() { m.lock(); }
  void unlock() { m.unlock(); }
};
// no members, static functions: e.g. disabling interrupts
struct Global {
  explicit Global(size_t) {}
  static void lock() {
    if (W->fail_in >= 0 && W->fail_in-- == 0) {
      throw LockFailed{0};
    }
    W->log.push_back({0, true});
    ++W->held[0];
  }
  static void unlock() {
    W->log.push_back({0, false});
    if (--W->held[0] < 0) {
      W->error = "unlock of a mutex that is not locked";
    }
  }
};
template <typename M>
struct Make {
  using type = M;
  static constexpr bool single = false;
};
template <>
struct Make<Abstract> {
  using type = Concrete;
  static constexpr bool single = false;
};
template <>
struct Make<Global> {
  using type = Global;
  static constexpr bool single = true;
};

template <typename M>
struct Prog {
  pbt::Case& c;
  std::vector<std::unique_ptr<M>> mx;
  std::vector<Event> want;
  std::vector<int> held;
  unsigned exits{0}, depth_max{0}, guards{0};
  int budget{40};

  explicit Prog(pbt::Case& cc)
      : c(cc)
      , held(4, 0) {
    for (size_t i = 0; i < 4; ++i) {
      mx.emplace_back(new typename Make<M>::type(i));
    }
  }

  void same(char const* when) {
    PBT_CHECK(c, !W->error, "%s: %s", when, W->error);
    PBT_CHECK(c, W->log == want, "%s: events differ from lock/unlock order",
              when);
    PBT_CHECK(c, W->held == held, "%s: set of locked mutexes", when);
  }

  // returns a value on an early return, throws Left for an exception
  int block(unsigned depth) {
    depth_max = depth > depth_max ? depth : depth_max;
    size_t const n = static_cast<size_t>(c.range(1, 3));
    for (size_t k = 0; k < n && budget > 0; ++k) {
      --budget;
      size_t const i = Make<M>::single ? 0 : static_cast<size_t>(c.draw(4));
      switch (c.weighted({6, 2, 2, 1, 1})) {
      case 0: { // a nested scope
        ++guards;
        bool const fails = c.chance(1, 8);
        c.trace("lock %zu%s { ", i, fails ? " (fails)" : "");
        W->fail_in = fails ? 0 : -1;
        try {
          embedded::lock_guard<M> g(*mx[i]);
          PBT_CHECK(c, !fails, "the failure of lock() got lost");
          want.push_back({i, true});
          ++held[i];
          same("after construction");
          struct Expect { // runs right before the guard's destructor
            Prog* p;
            size_t i;
            ~Expect() {
              p->want.push_back({i, false});
              --p->held[i];
            }
          } e{this, i};
          if (depth < 6) {
            int const r = block(depth + 1);
            if (r) {
              c.trace("} ");
              ++exits;
              return r;
            }
          }
          c.trace("} ");
        } catch (LockFailed const& f) {
          PBT_CHECK(c, f.mutex == i || !fails, "another exception");
          W->fail_in = -1;
          if (!fails) {
            throw;
          }
          c.trace("failed } ");
        }
        same("after the scope");
        break;
      }
      case 1: // early return
        if (depth) {
          c.trace("return ");
          ++exits;
          return 1 + static_cast<int>(c.draw(3));
        }
        break;
      case 2: // an exception, caught here or further out
        if (depth) {
          c.trace("throw ");
          ++exits;
          throw Left{static_cast<int>(depth)};
        }
        break;
      case 3: { // break and continue
        for (int x = 0; x < 3; ++x) {
          ++guards;
          embedded::lock_guard<M> g(*mx[i]);
          want.push_back({i, true});
          want.push_back({i, false});
          if (x == 0) {
            continue;
          }
          break;
        }
        same("after a loop");
        break;
      }
      default: {
        int const r = [&] {
          try {
            return block(depth + 1) * 0;
          } catch (Left const&) {
            return 0;
          }
        }();
        same("after a try block");
        if (r) {
          return r;
        }
      }
      }
    }
    return 0;
  }

  void run() {
    try {
      block(0);
    } catch (Left const&) {
    }
    same("at the end");
    for (int h : held) {
      PBT_CHECK(c, h == 0, "a mutex stays locked");
    }
    if (guards > 1 && exits) {
      c.nontrivial();
    }
  }
};

// If guards can be moved at all, the mutex is still locked and unlocked once.
template <typename G, typename M>
void moved(pbt::Case&, std::false_type, M&) {}
template <typename G, typename M>
void moved(pbt::Case& c, std::true_type, M& m) {
  W->log.clear();
  {
    G a(m);
    G b(std::move(a));
    PBT_CHECK(c, W->log.size() == 1, "moving a guard locks or unlocks");
  }
  PBT_CHECK(c, !W->error, "%s", W->error);
  PBT_CHECK(c, W->log == (std::vector<Event>{{0, true}, {0, false}}),
            "a moved guard and its source do not unlock once");
  W->log.clear();
}

template <typename M>
void run(pbt::Case& c) {
  using G = embedded::lock_guard<M>;
  static_assert(!std::is_copy_constructible<G>::value &&
                    !std::is_copy_assignable<G>::value &&
                    !std::is_default_constructible<G>::value,
                "lock_guard is not copyable");
  World w;
  w.held.assign(4, 0);
  W = &w;
  typename Make<M>::type first(0);
  moved<G>(c, std::is_move_constructible<G>{}, static_cast<M&>(first));
  Prog<M>(c).run();
}

PBT_PROP(scopes, 300000, 15000000) { run<Mutex>(c); }
PBT_PROP(scopes_odd_mutex, 80000, 4000000) { run<Odd>(c); }

PBT_PROP(scopes_final_mutex, 60000, 3000000) { run<Final>(c); }
PBT_PROP(scopes_abstract_mutex, 60000, 3000000) { run<Abstract>(c); }
PBT_PROP(scopes_global_mutex, 60000, 3000000) { run<Global>(c); }

// Guards that are objects of their own, ending in any order.
template <typename M>
void objects(pbt::Case& c) {
  struct Holder { // a guard as a member, after and before other members
    size_t i;
    embedded::lock_guard<M> g;
    size_t check;
    Holder(size_t k, M& m)
        : i{k}
        , g(m)
        , check{~k} {}
  };
  World w;
  w.held.assign(4, 0);
  W = &w;
  std::vector<std::unique_ptr<M>> mx;
  for (size_t i = 0; i < 4; ++i) {
    mx.emplace_back(new typename Make<M>::type(i));
  }
  std::vector<std::unique_ptr<Holder>> live;
  std::vector<Event> want;
  std::vector<int> held(4, 0);
  size_t const n = static_cast<size_t>(c.range(2, 30));
  bool crossed = false;
  for (size_t k = 0; k < n; ++k) {
    if (live.empty() || c.chance(11, 20)) {
      size_t const i = Make<M>::single ? 0 : static_cast<size_t>(c.draw(4));
      bool const fails = c.chance(1, 10);
      c.trace(" lock %zu%s", i, fails ? " (fails)" : "");
      w.fail_in = fails ? 0 : -1;
      try {
        std::unique_ptr<Holder> h(new Holder(i, *mx[i]));
        PBT_CHECK(c, !fails, "the failure of lock() got lost");
        live.push_back(std::move(h));
        want.push_back({i, true});
        ++held[i];
      } catch (LockFailed const&) {
        PBT_CHECK(c, fails, "unexpected failure");
      }
      w.fail_in = -1;
    } else {
      size_t const k2 = static_cast<size_t>(c.draw(live.size()));
      size_t const i = live[k2]->i;
      PBT_CHECK(c, live[k2]->check == ~i, "memory next to a guard changed");
      crossed = crossed || k2 + 1 < live.size();
      c.trace(" end %zu", i);
      live.erase(live.begin() + static_cast<long>(k2));
      want.push_back({i, false});
      --held[i];
    }
    PBT_CHECK(c, !w.error, "%s", w.error);
    PBT_CHECK(c, w.log == want, "events differ from lock/unlock order");
    PBT_CHECK(c, w.held == held, "set of locked mutexes");
  }
  while (!live.empty()) {
    want.push_back({live.back()->i, false});
    live.pop_back();
  }
  PBT_CHECK(c, !w.error && w.log == want, "events at the end");
  if (crossed) {
    c.nontrivial();
  }
}
PBT_PROP(objects, 60000, 3000000) {
  switch (c.draw(3)) {
  case 0:
    return objects<Mutex>(c);
  case 1:
    return objects<Abstract>(c);
  default:
    return objects<Global>(c);
  }
}

// Mutual exclusion: threads increment shared counters in critical sections
// that are split by a read and a later write.
PBT_PROP(threads, 160, 6000) {
  std::mutex m[2];
  volatile uint64_t counter[2] = {0, 0};
  int inside[2] = {0, 0};
  std::atomic<int> bad{0};
  unsigned const nt = static_cast<unsigned>(c.range(2, 5));
  unsigned const rounds = static_cast<unsigned>(c.range(20, 400));
  std::vector<uint64_t> seeds;
  for (unsigned t = 0; t < nt; ++t) {
    seeds.push_back(c.bits());
  }
  std::vector<std::thread> ts;
  std::vector<std::vector<uint64_t>> adds(nt, std::vector<uint64_t>(2, 0));
  for (unsigned t = 0; t < nt; ++t) {
    ts.emplace_back([&, t] {
      pbt::Rng r(seeds[t]);
      for (unsigned i = 0; i < rounds; ++i) {
        size_t const k = r.next() % 2;
        unsigned const spin = r.next() % 40;
        try {
          embedded::lock_guard<std::mutex> g(m[k]);
          if (inside[k]++ != 0) {
            bad = 1;
          }
          uint64_t const v = counter[k];
          for (unsigned s = 0; s < spin; ++s) {
            asm volatile("");
          }
          if (spin == 7) {
            std::this_thread::yield();
          }
          counter[k] = v + spin + 1;
          adds[t][k] += spin + 1;
          if (--inside[k] != 0) {
            bad = 1;
          }
          if (spin % 8 == 3) {
            throw Left{1};
          }
          if (spin % 8 == 4) {
            continue;
          }
        } catch (Left const&) {
        }
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  uint64_t sum[2] = {0, 0};
  for (auto& a : adds) {
    sum[0] += a[0];
    sum[1] += a[1];
  }
  PBT_CHECK(c, !bad && sum[0] == counter[0] && sum[1] == counter[1],
            "critical sections of one mutex overlapped");
  for (auto& x : m) {
    PBT_CHECK(c, x.try_lock(), "the mutex stays locked");
    x.unlock();
  }
  c.nontrivial();
}

} // namespace
