// F02: a function wrapper owns exactly one target through any history of moves.
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <type_traits>
#include <utility>
#include <vector>

#include <embedded/function.h>

#include "pbt.h"

using embedded::function;

namespace {

// Every target object that exists, by address.
struct World {
  std::map<void const*, uint64_t> live;
  std::map<uint64_t, uint64_t> state; // of targets without members
  char const* error{nullptr};
};
World* W;

class Tr {
 public:
  explicit Tr(uint64_t i)
      : id{i} {
    born();
  }
  Tr(Tr const& o)
      : id{o.id}
      , state{o.state} {
    used(o);
    born();
  }
  Tr(Tr&& o) noexcept
      : id{o.id}
      , state{o.state} {
    used(o);
    o.gone = true;
    W->live[&o] = 0; // an empty shell
    born();
  }
  Tr& operator=(Tr const&) = delete;
  ~Tr() {
    if (W->live.erase(this) != 1) {
      W->error = "a target was destroyed twice";
    }
  }
  uint64_t next() {
    check();
    return id * 1000 + state++;
  }
  uint64_t peek() const {
    check();
    return id * 1000 + state;
  }

 private:
  void check() const {
    auto it = W->live.find(this);
    if (it == W->live.end() || gone || it->second != id) {
      W->error = "called a target that does not live here";
    }
  }
  void used(Tr const& o) {
    if (!W->live.count(&o)) {
      W->error = "moved from a target that was destroyed before";
    } else if (o.gone) {
      W->error = "moved from a moved-from target";
    }
  }
  void born() {
    if (!W->live.emplace(this, id).second) {
      W->error = "a target was constructed over a live one";
    }
  }
  uint64_t id, state{0};
  bool gone{false};
};

template <typename F>
struct Sig;
template <size_t C, size_t A>
struct Sig<function<uint64_t(), C, A>> {
  static constexpr bool is_const = false;
};
template <size_t C, size_t A>
struct Sig<function<uint64_t() const, C, A>> {
  static constexpr bool is_const = true;
};

struct Small {
  Tr t;
  explicit Small(uint64_t id)
      : t(id) {}
  uint64_t operator()() { return t.next(); }
  uint64_t operator()() const { return t.peek(); }
};
struct Large {
  char pad[13];
  Tr t;
  char pad2[9];
  explicit Large(uint64_t id)
      : t(id) {
    std::memset(pad, static_cast<int>(id), sizeof(pad));
    std::memset(pad2, static_cast<int>(id), sizeof(pad2));
  }
  uint64_t operator()() { return verify() ? t.next() : 0; }
  uint64_t operator()() const { return verify() ? t.peek() : 0; }
  bool verify() const {
    for (char x : pad) {
      if (x != pad2[3] || x != pad[0]) {
        return false;
      }
    }
    return true;
  }
};
struct alignas(16) Aligned {
  Tr t;
  explicit Aligned(uint64_t id)
      : t(id) {}
  uint64_t operator()() { return t.next(); }
  uint64_t operator()() const { return t.peek(); }
};
// list initialisation prefers another constructor than the one to be used
struct Anything {
  template <typename T>
  Anything(T const&) {}
};
struct Greedy {
  Tr t;
  explicit Greedy(uint64_t id)
      : t(id) {}
  Greedy(std::initializer_list<Anything>) noexcept
      : t(0) {}
  Greedy(Greedy const&) = default;
  Greedy(Greedy&&) noexcept = default;
  uint64_t operator()() { return t.next(); }
  uint64_t operator()() const { return t.peek(); }
};
// does something to wrappers while it is called; what becomes of itself does
// not matter to the rest of the call
std::function<void()>* during;
struct Actor {
  Tr t;
  explicit Actor(uint64_t id)
      : t(id) {}
  uint64_t operator()() { return act(t.next()); }
  uint64_t operator()() const { return act(t.peek()); }
  static uint64_t act(uint64_t r) {
    if (during) {
      std::function<void()> f;
      f.swap(*during);
      during = nullptr;
      f();
    }
    return r;
  }
};
// without any member: what it is depends on where it lives
class Empty {
 public:
  explicit Empty(uint64_t id) { born(id); }
  Empty(Empty&& o) noexcept {
    auto it = W->live.find(&o);
    if (it == W->live.end() || it->second == 0) {
      W->error = "moved from a target that does not live there";
      born(0);
    } else {
      uint64_t const id = it->second;
      it->second = 0;
      born(id);
    }
  }
  ~Empty() {
    if (W->live.erase(this) != 1) {
      W->error = "a target was destroyed twice";
    }
  }
  uint64_t operator()() {
    uint64_t const i = id();
    return i * 1000 + W->state[i]++;
  }
  uint64_t operator()() const { return id() * 1000 + W->state[id()]; }

 private:
  uint64_t id() const {
    auto it = W->live.find(this);
    if (it == W->live.end()) {
      W->error = "called a target that does not live here";
      return 0;
    }
    return it->second;
  }
  void born(uint64_t id) {
    if (!W->live.emplace(this, id).second) {
      W->error = "a target was constructed over a live one";
    }
  }
};
static_assert(std::is_empty<Empty>::value, "");
// trivially copyable
struct Trivial {
  uint64_t id, state;
  unsigned char tail[7];
  explicit Trivial(uint64_t i)
      : id{i}
      , state{0} {
    std::memset(tail, static_cast<int>(i), sizeof(tail));
  }
  bool good() const {
    for (auto x : tail) {
      if (x != static_cast<unsigned char>(id)) {
        return false;
      }
    }
    return true;
  }
  uint64_t operator()() { return good() ? id * 1000 + state++ : 0; }
  uint64_t operator()() const { return good() ? id * 1000 + state : 0; }
};
static_assert(std::is_trivially_copyable<Trivial>::value, "");
// nothing to destroy, but knows its own address
struct Pinned {
  Pinned const* self;
  uint64_t id, state{0};
  explicit Pinned(uint64_t i)
      : self{this}
      , id{i} {}
  Pinned(Pinned const& o) noexcept
      : self{this}
      , id{o.self == &o ? o.id : 0}
      , state{o.state} {}
  uint64_t operator()() { return self == this ? id * 1000 + state++ : 0; }
  uint64_t operator()() const { return self == this ? id * 1000 + state : 0; }
};
static_assert(std::is_trivially_destructible<Pinned>::value, "");
struct MoveOnly {
  std::unique_ptr<Tr> t;
  explicit MoveOnly(uint64_t id)
      : t(new Tr(id)) {}
  uint64_t operator()() { return t ? t->next() : 0; }
  uint64_t operator()() const { return t ? t->peek() : 0; }
};
// a target that owns another wrapper
template <typename F>
struct Chain {
  Tr t;
  std::unique_ptr<F> inner;
  Chain(uint64_t id, F* f)
      : t(id)
      , inner(f) {}
  uint64_t operator()() { return t.next() + (*inner ? (*inner)() : 0); }
  uint64_t operator()() const {
    F const& f = *inner;
    return t.peek() + (f ? call(f) : 0);
  }
  static uint64_t call(F& f) { return f(); }
  template <typename G>
  static typename std::enable_if<Sig<G>::is_const, uint64_t>::type
  call(G const& f) {
    return f();
  }
  template <typename G>
  static typename std::enable_if<!Sig<G>::is_const, uint64_t>::type
  call(G const&) {
    return 0;
  }
};

struct Node; // model of a target
using NodeP = std::unique_ptr<Node>;
struct Node {
  uint64_t id, state{0};
  bool tracked{true};        // lifetime events are recorded
  bool actor{false};
  void* inner_addr{nullptr}; // the owned wrapper, if it owns one
  NodeP inner;
  explicit Node(uint64_t i)
      : id{i} {}
};

uint64_t model_call(Node* n, bool is_const) {
  uint64_t r = n->id * 1000 + n->state;
  if (!is_const) {
    ++n->state;
  }
  if (n->inner_addr && n->inner) {
    r += model_call(n->inner.get(), is_const);
  }
  return r;
}

template <typename F>
struct Machine {
  static constexpr size_t kSlots = 4;
  static constexpr bool is_const = Sig<F>::is_const;
  pbt::Case& c;
  typename std::aligned_storage<sizeof(F), alignof(F)>::type mem[kSlots];
  NodeP model[kSlots];
  uint64_t next_id{1};
  unsigned moved{0}, replaced{0}, owned{0};

  F& slot(size_t i) { return *reinterpret_cast<F*>(&mem[i]); }

  explicit Machine(pbt::Case& cc)
      : c(cc) {
    for (size_t i = 0; i < kSlots; ++i) {
      new (&mem[i]) F();
    }
  }
  ~Machine() {
    for (size_t i = 0; i < kSlots; ++i) {
      slot(i).~F();
      model[i].reset();
    }
  }

  void count(Node const* n, std::multiset<uint64_t>& s) {
    for (; n; n = n->inner.get()) {
      if (n->tracked) {
        s.insert(n->id);
      }
    }
  }

  void verify(char const* what) {
    PBT_CHECK(c, !W->error, "%s: %s", what, W->error);
    std::multiset<uint64_t> want, have;
    for (size_t i = 0; i < kSlots; ++i) {
      count(model[i].get(), want);
      PBT_CHECK(c, static_cast<bool>(slot(i)) == !!model[i],
                "%s: wrapper %zu is %s", what, i,
                model[i] ? "empty" : "not empty");
      Node* n = model[i].get();
      while (n && n->inner_addr) {
        PBT_CHECK(c, static_cast<bool>(*static_cast<F*>(n->inner_addr)) ==
                         !!n->inner,
                  "%s: owned wrapper is %s", what,
                  n->inner ? "empty" : "not empty");
        n = n->inner.get();
      }
    }
    for (auto const& p : W->live) {
      have.insert(p.second);
    }
    if (want != have) {
      for (uint64_t id : have) {
        PBT_CHECK(c, have.count(id) <= want.count(id),
                  "%s: target %d was not destroyed", what,
                  static_cast<int>(id));
      }
      for (uint64_t id : want) {
        PBT_CHECK(c, have.count(id) >= want.count(id),
                  "%s: target %d was destroyed", what, static_cast<int>(id));
      }
    }
  }

  template <typename T>
  void put(size_t i, T&& t, unsigned how) {
    if (how == 0) {
      slot(i) = std::forward<T>(t);
      replaced += !!model[i];
    } else if (how == 1) {
      slot(i).~F();
      new (&mem[i]) F(std::forward<T>(t));
    } else {
      F tmp(std::forward<T>(t));
      slot(i) = std::move(tmp);
      replaced += !!model[i];
    }
  }

  void fresh(size_t i) {
    uint64_t id = next_id++;
    unsigned const how = static_cast<unsigned>(c.draw(3));
    unsigned const kind = static_cast<unsigned>(c.draw(12));
    switch (kind) {
    case 10:
    case 11: put(i, Actor(id), how); break;
    case 7: put(i, Empty(id), how); break;
    case 8: put(i, Trivial(id), how); break;
    case 9: put(i, Pinned(id), how); break;
    case 0: put(i, Small(id), how); break;
    case 5: put(i, Greedy(id), how); break;
    case 1: put(i, Large(id), how); break;
    case 2: put(i, Aligned(id), how); break;
    case 3: put(i, MoveOnly(id), how); break;
    case 4: { // copied from an lvalue
      Large l(id);
      put(i, l, how);
      break;
    }
    default: {
      Small const s(id);
      put(i, s, how);
    }
    }
    model[i].reset(new Node(id));
    model[i]->tracked = kind != 8 && kind != 9;
    model[i]->actor = kind > 9;
    c.trace("new target %d in %zu (%u); ", static_cast<int>(id), i, how);
  }

  // the owned wrapper at some depth below slot i, with its model slot
  std::pair<F*, NodeP*> inner(size_t i) {
    std::vector<std::pair<F*, NodeP*>> l;
    for (Node* n = model[i].get(); n && n->inner_addr; n = n->inner.get()) {
      l.emplace_back(static_cast<F*>(n->inner_addr), &n->inner);
    }
    if (l.empty()) {
      return {nullptr, nullptr};
    }
    return l[static_cast<size_t>(c.draw(l.size()))];
  }

  // to happen while the target of i is called
  std::function<void()> action(size_t i, size_t j) {
    switch (c.draw(6)) {
    case 0:
      c.trace("(meanwhile %zu = move(%zu)) ", j, i);
      return [=] {
        if (i != j) {
          slot(j) = std::move(slot(i));
          replaced += !!model[j];
          model[j] = std::move(model[i]);
          ++moved;
        }
      };
    case 1:
      c.trace("(meanwhile %zu = move(%zu)) ", i, j);
      return [=] {
        if (i != j) {
          slot(i) = std::move(slot(j));
          ++replaced;
          moved += !!model[j];
          model[i] = std::move(model[j]);
        }
      };
    case 2:
      c.trace("(meanwhile %zu = nullptr) ", i);
      return [=] {
        slot(i) = nullptr;
        model[i].reset();
      };
    case 3:
      c.trace("(meanwhile swap(%zu, %zu)) ", i, j);
      return [=] {
        std::swap(slot(i), slot(j));
        std::swap(model[i], model[j]);
        ++moved;
      };
    case 4:
      c.trace("(meanwhile ");
      return [=] { fresh(i); };
    default:
      c.trace("(meanwhile tmp = move(%zu), %zu = move(tmp)) ", i, i);
      return [=] {
        F tmp(std::move(slot(i)));
        PBT_CHECK(c, !slot(i) && tmp, "moved while called");
        slot(i) = std::move(tmp);
        ++moved;
      };
    }
  }

  void step() {
    size_t const i = static_cast<size_t>(c.draw(kSlots));
    size_t const j = static_cast<size_t>(c.draw(kSlots));
    char const* what = "";
    switch (c.weighted({6, 8, 4, 2, 3, 2, 4, 5, 5, 4, 3, 2})) {
    case 0:
      what = "assigning a callable";
      fresh(i);
      break;
    case 1:
      what = "move assignment";
      c.trace("%zu = move(%zu); ", i, j);
      slot(i) = std::move(slot(j));
      replaced += !!model[i] && i != j;
      moved += !!model[j];
      if (i != j) {
        model[i] = std::move(model[j]);
      } else {
        PBT_LABEL("self-assignment");
      }
      break;
    case 2: {
      what = "move construction";
      c.trace("tmp(move(%zu)) to %zu; ", j, i);
      F tmp(std::move(slot(j)));
      NodeP m(std::move(model[j]));
      PBT_CHECK(c, !slot(j), "moved-from wrapper is not empty");
      PBT_CHECK(c, static_cast<bool>(tmp) == !!m, "move construction");
      slot(i).~F();
      model[i].reset();
      new (&mem[i]) F(std::move(tmp));
      model[i] = std::move(m);
      ++moved;
      break;
    }
    case 3:
      what = "nullptr assignment";
      c.trace("%zu = nullptr; ", i);
      slot(i) = nullptr;
      model[i].reset();
      break;
    case 4:
      what = "swap";
      c.trace("swap(%zu, %zu); ", i, j);
      std::swap(slot(i), slot(j));
      std::swap(model[i], model[j]);
      ++moved;
      break;
    case 5:
      what = "destruction";
      c.trace("destroy %zu; ", i);
      slot(i).~F();
      model[i].reset();
      if (c.flip()) {
        new (&mem[i]) F(nullptr);
      } else {
        new (&mem[i]) F();
      }
      break;
    case 6:
    default:
      what = "call";
      if (model[i]) {
        c.trace("call %zu; ", i);
        uint64_t want = model_call(model[i].get(), is_const);
        std::function<void()> f;
        during = nullptr;
        if (model[i]->actor && c.flip()) {
          what = "call of a target that changes wrappers";
          f = action(i, j);
          during = &f;
          PBT_LABEL("wrappers changed by the target that is called");
        }
        uint64_t got = slot(i)();
        PBT_CHECK(c, !during, "call: not made");
        PBT_CHECK(c, !W->error, "call: %s", W->error);
        PBT_CHECK(c, got == want, "call returned %d, not %d",
                  static_cast<int>(got), static_cast<int>(want));
      }
      break;
    case 7: {
      what = "wrapping";
      uint64_t id = next_id++;
      c.trace("%zu = Chain %d(move(%zu)); ", i, static_cast<int>(id), j);
      F* in = new F(std::move(slot(j)));
      NodeP n(new Node(id));
      n->inner_addr = in;
      n->inner = std::move(model[j]);
      put(i, Chain<F>(id, in), static_cast<unsigned>(c.draw(3)));
      model[i] = std::move(n);
      ++moved;
      break;
    }
    case 8: {
      what = "assignment from an owned wrapper";
      auto in = inner(i);
      if (in.first) {
        c.trace("%zu = move(owned by its target); ", i);
        slot(i) = std::move(*in.first);
        NodeP keep = std::move(*in.second);
        model[i] = std::move(keep);
        PBT_LABEL("assignment from a wrapper owned by the target");
        ++owned;
      }
      break;
    }
    case 9: {
      what = "assignment from a wrapper inside another target";
      auto in = inner(j);
      if (in.first && i != j) {
        c.trace("%zu = move(owned in %zu); ", i, j);
        slot(i) = std::move(*in.first);
        model[i] = std::move(*in.second);
        ++moved;
      }
      break;
    }
    case 10: {
      what = "assignment to an owned wrapper";
      auto in = inner(i);
      if (in.first && i != j) {
        c.trace("owned in %zu = move(%zu); ", i, j);
        *in.first = std::move(slot(j));
        *in.second = std::move(model[j]);
        ++moved;
      }
      break;
    }
    case 11: { // relocation of all wrappers, as by a growing vector
      what = "relocation";
      c.trace("relocate all; ");
      std::vector<F> v;
      for (size_t k = 0; k < kSlots; ++k) {
        v.push_back(std::move(slot(k)));
      }
      for (size_t k = 0; k < kSlots; ++k) {
        slot(k) = std::move(v[k]);
      }
      ++moved;
      break;
    }
    }
    verify(what);
  }
};

template <typename F>
void run(pbt::Case& c) {
  World w;
  W = &w;
  {
    Machine<F> m(c);
    size_t const n = static_cast<size_t>(c.weighted({3, 1}) ? c.range(1, 60)
                                                            : c.range(1, 14));
    for (size_t k = 0; k < n; ++k) {
      m.step();
    }
    if (m.moved && (m.replaced || m.owned)) {
      c.nontrivial();
    }
  }
  PBT_CHECK(c, !w.error, "final destruction: %s", w.error);
  PBT_CHECK(c, w.live.empty(), "%zu targets were never destroyed",
            w.live.size());
}

PBT_PROP(mutable_targets, 400000, 8000000) {
  run<function<uint64_t(), 64, 16>>(c);
}
PBT_PROP(const_targets, 250000, 5000000) {
  run<function<uint64_t() const, 80, 32>>(c);
}

} // namespace
