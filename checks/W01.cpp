// W01: move_wrapper transfers its value exactly once per copy or move.
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <embedded/move_wrapper.h>

#include "pbt.h"

using embedded::move_wrapper;

namespace {

struct World {
  std::map<void const*, int> live;
  uint64_t moves{0}, copies{0}, assigns{0}, made{0}, destroyed{0};
  char const* error{nullptr};
  int fail_in{-1}; // the n-th move from now fails
};
World* W;

struct Fail {
  uint64_t id;
};

// Converts from everything.
struct Anything {
  template <typename T>
  Anything(T const&) {}
};

// NoThrow: the move is noexcept and never fails. Copyable types must still be
// moved, never copied.
template <bool NoThrow, bool Copyable>
class Val;

class Core {
 public:
  explicit Core(uint64_t i)
      : id{i} {
    born();
    ++W->made;
  }
  Core(Core&& o, bool may_fail)
      : id{o.id}
      , gone{o.gone} {
    alive(o);
    if (may_fail && W->fail_in >= 0 && W->fail_in-- == 0) {
      throw Fail{id};
    }
    o.gone = true;
    ++W->moves;
    born();
  }
  Core(Core const& o)
      : id{o.id} {
    ++W->copies;
    born();
  }
  ~Core() {
    ++W->destroyed;
    if (W->live.erase(this) != 1) {
      W->error = "a value was destroyed twice";
    }
  }
  uint64_t id;
  bool gone{false};

 private:
  void born() {
    if (!W->live.emplace(this, 1).second) {
      W->error = "a value was constructed over a live one";
    }
  }
  void alive(Core const& o) {
    if (!W->live.count(&o)) {
      W->error = "moved from a destroyed value";
    }
  }
};

template <bool NoThrow>
class Val<NoThrow, false> : public Core {
 public:
  explicit Val(uint64_t i)
      : Core(i) {}
  // what a careless list initialisation ends up with
  Val(std::initializer_list<Anything>)
      : Core(0) {
    W->error = "the value was wrapped in a list";
  }
  Val(Val&& o) noexcept(NoThrow)
      : Core(std::move(o), !NoThrow) {}
  Val(Val const&) = delete;
  Val& operator=(Val&&) {
    ++W->assigns;
    return *this;
  }
};
template <bool NoThrow>
class Val<NoThrow, true> : public Core {
 public:
  explicit Val(uint64_t i)
      : Core(i) {}
  // what a careless list initialisation ends up with
  Val(std::initializer_list<Anything>)
      : Core(0) {
    W->error = "the value was wrapped in a list";
  }
  Val(Val&& o) noexcept(NoThrow)
      : Core(std::move(o), !NoThrow) {}
  // never run, so its exception specification must not matter
  Val(Val const& o) noexcept(!NoThrow)
      : Core(static_cast<Core const&>(o)) {}
  Val& operator=(Val const&) {
    ++W->assigns;
    return *this;
  }
  Val& operator=(Val&&) {
    ++W->assigns;
    return *this;
  }
};

template <typename V>
struct Machine {
  using M = move_wrapper<V>;
  static constexpr bool nothrow = std::is_nothrow_move_constructible<V>::value;
  pbt::Case& c;
  struct Slot {
    std::unique_ptr<M> m;
    uint64_t id{0};
    bool gone{false};
  };
  std::vector<Slot> s;
  uint64_t next_id{1};
  unsigned transfers{0}, fails{0};

  explicit Machine(pbt::Case& cc)
      : c(cc) {}

  void expect_moves(uint64_t before, uint64_t n, char const* what) {
    PBT_CHECK(c, W->moves - before == n, "%s: %d moves of the value instead of %d",
              what, static_cast<int>(W->moves - before), static_cast<int>(n));
    PBT_CHECK(c, W->copies == 0, "%s: the value was copied", what);
    PBT_CHECK(c, W->assigns == 0, "%s: the value was assigned", what);
    PBT_CHECK(c, !W->error, "%s: %s", what, W->error);
  }

  // Slots i (source) and a new wrapper made by `f` from it.
  template <typename F>
  void transfer(size_t i, char const* what, F f) {
    uint64_t const before = W->moves;
    size_t const live = W->live.size();
    int const plan = !nothrow && c.chance(1, 4) ? 0 : -1;
    W->fail_in = plan;
    Slot n;
    bool failed = false;
    c.trace("%s %zu%s; ", what, i, plan == 0 ? " (fails)" : "");
    try {
      n.m.reset(f(*s[i].m));
    } catch (Fail const& e) {
      failed = true;
      PBT_CHECK(c, e.id == s[i].id, "another exception");
    }
    W->fail_in = -1;
    PBT_CHECK(c, failed == (plan == 0), "%s: the exception of the move %s",
              what, failed ? "appeared" : "got lost");
    if (failed) {
      ++fails;
      PBT_CHECK(c, W->live.size() == live, "%s: leak after an exception", what);
      expect_moves(before, 0, what);
      return;
    }
    expect_moves(before, 1, what);
    n.id = s[i].id;
    n.gone = s[i].gone;
    s[i].gone = true;
    s.push_back(std::move(n));
    ++transfers;
  }

  void run() {
    // copies and moves of the wrapper throw if and only if the move can
    PBT_CHECK(c, std::is_nothrow_copy_constructible<M>::value == nothrow,
              "the copy constructor is %snoexcept", nothrow ? "not " : "");
    PBT_CHECK(c, std::is_nothrow_move_constructible<M>::value == nothrow,
              "the move constructor is %snoexcept", nothrow ? "not " : "");
    size_t const steps = static_cast<size_t>(c.range(1, 30));
    for (size_t k = 0; k < steps; ++k) {
      if (s.empty() || c.chance(1, 6)) {
        uint64_t const id = next_id++;
        V v(id);
        uint64_t const before = W->moves;
        Slot n;
        n.m.reset(new M(std::move(v)));
        expect_moves(before, 1, "construction");
        PBT_CHECK(c, v.gone, "construction did not move from its argument");
        n.id = id;
        s.push_back(std::move(n));
        c.trace("new %d; ", static_cast<int>(id));
      } else {
        size_t const i = static_cast<size_t>(c.draw(s.size()));
        switch (c.weighted({4, 3, 3, 2, 3, 2, 2})) {
        case 0:
          transfer(i, "copy", [](M& m) { return new M(m); });
          break;
        case 1:
          transfer(i, "copy of const",
                   [](M& m) { return new M(static_cast<M const&>(m)); });
          break;
        case 2:
          transfer(i, "move", [](M& m) { return new M(std::move(m)); });
          break;
        case 3: // the value stays where it is
          c.trace("destroy %zu; ", i);
          s.erase(s.begin() + static_cast<std::ptrdiff_t>(i));
          break;
        case 4: { // through a lambda capture, which is then copied
          uint64_t const before = W->moves;
          c.trace("capture %zu; ", i);
          {
            auto l1 = [m = *s[i].m]() { return (*m).id; };
            auto l2 = l1;
            auto l3 = std::move(l2);
            uint64_t const id = l3();
            PBT_CHECK(c, id == s[i].id, "captured value");
            uint64_t const b2 = W->moves;
            std::function<uint64_t()> f(std::move(l3));
            PBT_CHECK(c, W->moves > b2 && f() == s[i].id, "std::function");
            (void)b2;
          }
          PBT_CHECK(c, W->moves >= before + 3, "captures");
          PBT_CHECK(c, W->copies == 0, "the value was copied");
          s[i].gone = true;
          break;
        }
        case 5: { // through a growing container
          std::vector<M> v;
          c.trace("vector of copies of %zu; ", i);
          for (int x = 0; x < 5; ++x) {
            v.push_back(v.empty() ? static_cast<M const&>(*s[i].m) : v.back());
          }
          for (size_t x = 0; x < v.size(); ++x) {
            PBT_CHECK(c, (*v[x]).id == s[i].id &&
                             (*v[x]).gone == (x + 1 < v.size() || s[i].gone),
                      "a container of wrappers lost the value");
          }
          PBT_CHECK(c, W->copies == 0 && W->assigns == 0,
                    "the value was copied or assigned");
          s[i].gone = true;
          break;
        }
        default: { // through by-value parameters and results
          auto pass = [](M m) -> M { return m; };
          uint64_t const before = W->moves;
          c.trace("function %zu; ", i);
          std::unique_ptr<M> r(new M(pass(*s[i].m)));
          PBT_CHECK(c, W->moves - before == 2,
                    "by-value parameter and result: %d moves",
                    static_cast<int>(W->moves - before));
          Slot n;
          n.m = std::move(r);
          n.id = s[i].id;
          n.gone = s[i].gone;
          s[i].gone = true;
          s.push_back(std::move(n));
        }
        }
      }
      for (size_t i = 0; i < s.size(); ++i) {
        M& m = *s[i].m;
        M const& cm = m;
        PBT_CHECK(c, (*m).id == s[i].id && m->id == s[i].id &&
                         (*cm).id == s[i].id && cm->id == s[i].id,
                  "wrapper %zu holds another value", i);
        PBT_CHECK(c, (*m).gone == s[i].gone, "wrapper %zu is %smoved-from", i,
                  (*m).gone ? "" : "not ");
        PBT_CHECK(c, &*m == &*cm && m.operator->() == &*m &&
                         cm.operator->() == &*m,
                  "access to the value");
      }
      PBT_CHECK(c, W->live.size() == s.size(), "%zu values for %zu wrappers",
                W->live.size(), s.size());
      PBT_CHECK(c, !W->error, "%s", W->error);
    }
    if (transfers > 1) {
      c.nontrivial();
    }
    if (fails) {
      PBT_LABEL("the move of the value failed");
    }
  }
};

template <bool N, bool C>
void run(pbt::Case& c) {
  using V = Val<N, C>;
  using M = move_wrapper<V>;
  static_assert(std::is_same<decltype(*std::declval<M&>()), V&>::value &&
                    std::is_same<decltype(*std::declval<M const&>()),
                                 V const&>::value &&
                    std::is_same<decltype(std::declval<M&>().operator->()),
                                 V*>::value &&
                    std::is_same<decltype(std::declval<M const&>().operator->()),
                                 V const*>::value,
                "constness of the access");
  static_assert(std::is_copy_constructible<M>::value &&
                    !std::is_copy_assignable<M>::value,
                "copyable");
  World w;
  W = &w;
  w.fail_in = -1;
  Machine<V>(c).run();
  PBT_CHECK(c, !w.error && w.live.empty(), "a value was not destroyed once");
}

PBT_PROP(move_only_nothrow, 120000, 6000000) { run<true, false>(c); }
PBT_PROP(move_only_throwing, 120000, 6000000) { run<false, false>(c); }
PBT_PROP(copyable_nothrow, 80000, 4000000) { run<true, true>(c); }
PBT_PROP(copyable_throwing, 80000, 4000000) { run<false, true>(c); }

// A final class without members: its identity is its address.
struct Blank final {
  static std::map<void const*, uint64_t>& ids() {
    static std::map<void const*, uint64_t> m;
    return m;
  }
  explicit Blank(uint64_t i) { ids()[this] = i; }
  Blank(Blank&& o) noexcept {
    ids()[this] = ids()[&o];
    ids()[&o] = 0;
  }
  Blank(Blank const&) = delete;
  ~Blank() { ids().erase(this); }
};
// a move-only polymorphic type with stricter alignment
struct Shape {
  virtual ~Shape() {}
  virtual uint64_t value() const = 0;
};
struct alignas(64) Disc final : Shape {
  std::unique_ptr<uint64_t> p;
  Disc const* self{this};
  explicit Disc(uint64_t s)
      : p(new uint64_t(s)) {}
  Disc(Disc&& o) noexcept
      : p(std::move(o.p)) {}
  uint64_t value() const override { return self == this && p ? *p : ~0ull; }
};

// a handle whose address operator gives access to what it holds, from a pool
struct Handle {
  uint64_t* p;
  explicit Handle(uint64_t s)
      : p(new uint64_t(s)) {}
  Handle(Handle&& o) noexcept
      : p(o.p) {
    o.p = nullptr;
  }
  Handle(Handle const&) = delete;
  ~Handle() { delete p; }
  uint64_t** operator&() { return &p; }
  uint64_t const* const* operator&() const { return &p; }
  static void* operator new(std::size_t) { std::abort(); }
};

// Ordinary value types through random chains.
template <typename T, typename Make, typename Eq>
void chain(pbt::Case& c, Make make, Eq eq) {
  using M = move_wrapper<T>;
  uint64_t const seed = c.draw(1000);
  std::vector<std::unique_ptr<M>> v;
  v.emplace_back(new M(make(seed)));
  size_t const n = static_cast<size_t>(c.range(1, 12));
  for (size_t i = 0; i < n; ++i) {
    if (c.flip()) {
      v.emplace_back(new M(*v.back()));
    } else {
      v.emplace_back(new M(std::move(*v.back())));
    }
    if (c.flip()) {
      v.erase(v.begin());
    }
  }
  M& w = *v.back();
  M const& k = w;
  PBT_CHECK(c, eq(*w, make(seed)) && eq(*k, make(seed)), "the value did not travel intact");
  T* const p = w.operator->();
  T const* const q = k.operator->();
  PBT_CHECK(c, p == std::addressof(*w) && q == p && std::addressof(*k) == p, "-> and * give access to different objects");
  c.nontrivial();
}

PBT_PROP(ordinary_types, 60000, 3000000) {
  switch (c.draw(8)) {
  case 7:
    chain<Handle>(
        c, [](uint64_t s) { return Handle(s); },
        [](Handle const& a, Handle const& b) { return a.p && b.p && *a.p == *b.p; });
    break;
  case 4:
    chain<Blank>(
        c, [](uint64_t s) { return Blank(s + 1); },
        [](Blank const& a, Blank const& b) {
          return Blank::ids()[&a] == Blank::ids()[&b] && Blank::ids()[&a];
        });
    PBT_CHECK(c, Blank::ids().empty(), "a value was not destroyed once");
    break;
  case 5:
    chain<Disc>(
        c, [](uint64_t s) { return Disc(s); },
        [](Shape const& a, Shape const& b) {
          return a.value() == b.value() && a.value() != ~0ull;
        });
    break;
  case 6:
    chain<std::function<uint64_t()>>(
        c,
        [](uint64_t s) {
          std::string big(60, 'x');
          return std::function<uint64_t()>([s, big] { return s + big.size(); });
        },
        [](std::function<uint64_t()> const& a,
           std::function<uint64_t()> const& b) { return a && a() == b(); });
    break;
  case 0:
    chain<std::unique_ptr<uint64_t>>(
        c, [](uint64_t s) { return std::unique_ptr<uint64_t>(new uint64_t(s)); },
        [](std::unique_ptr<uint64_t> const& a,
           std::unique_ptr<uint64_t> const& b) { return a && *a == *b; });
    break;
  case 1:
    chain<std::string>(
        c,
        [](uint64_t s) {
          return std::string(static_cast<size_t>(s % 90), 'q') +
                 std::to_string(s);
        },
        [](std::string const& a, std::string const& b) { return a == b; });
    break;
  case 2:
    chain<std::vector<uint64_t>>(
        c, [](uint64_t s) { return std::vector<uint64_t>(s % 7, s); },
        [](std::vector<uint64_t> const& a, std::vector<uint64_t> const& b) {
          return a == b;
        });
    break;
  default:
    chain<int>(
        c, [](uint64_t s) { return static_cast<int>(s); },
        [](int a, int b) { return a == b; });
  }
}

} // namespace
