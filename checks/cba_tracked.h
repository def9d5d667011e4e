// Element types that record every lifetime event.
#pragma once
#include <map>

#include "cba_common.h"

enum class Ev : uint8_t { value, copy, move, dtor, copy_assign, move_assign };
inline char const* ev_name(Ev e) {
  static char const* const n[] = {"value-construct", "copy-construct",
                                  "move-construct",  "destroy",
                                  "copy-assign",     "move-assign"};
  return n[static_cast<int>(e)];
}

struct Log {
  pbt::Case* c{nullptr};
  unsigned char* lo{nullptr};
  unsigned char* hi{nullptr};
  size_t stride{1};
  std::vector<char> live;                     // per slot
  std::vector<std::pair<Ev, size_t>> events;  // slot events since the last clear
  size_t external{0};                         // events on objects elsewhere
  std::map<void const*, int> outside;         // live objects elsewhere
  std::map<void const*, uint64_t> ids;        // identities of empty objects
  long countdown{-1};                         // construction fault
  bool untracked_death{false};                // trivially destructible
  bool fault_copy{true}, fault_move{true}, fault_value{true};

  void attach(pbt::Case& cc, void* data, size_t cap, size_t elem) {
    c = &cc;
    lo = static_cast<unsigned char*>(data);
    hi = lo + cap * elem;
    stride = elem;
    live.assign(cap, 0);
    events.clear();
    external = 0;
    outside.clear();
    ids.clear();
    countdown = -1;
    untracked_death = false;
    fault_copy = fault_move = fault_value = true;
  }
  bool in(void const* p) const {
    return p >= static_cast<void*>(lo) && p < static_cast<void*>(hi);
  }
  size_t slot(void const* p) const {
    size_t d = static_cast<size_t>(static_cast<unsigned char const*>(p) - lo);
    if (d % stride) {
      c->fail("object constructed or destroyed between slots");
    }
    return d / stride;
  }
  struct Fault {};
  void born(Ev e, void const* p) {
    if (countdown >= 0 && (e == Ev::copy ? fault_copy
                                         : e == Ev::move ? fault_move
                                                         : fault_value)) {
      if (countdown-- == 0) {
        throw Fault{};
      }
    }
    if (in(p)) {
      size_t s = slot(p);
      if (live[s]) {
        c->fail("%s over a live element in slot %zu", ev_name(e), s);
      }
      live[s] = 1;
      events.emplace_back(e, s);
    } else {
      ++external;
      if (outside[p]++ && !untracked_death) {
        c->fail("%s over a live object", ev_name(e));
      }
    }
  }
  void dead(void const* p) {
    if (in(p)) {
      size_t s = slot(p);
      if (!live[s]) {
        c->fail("destroyed an object that is not alive in slot %zu", s);
      }
      live[s] = 0;
      events.emplace_back(Ev::dtor, s);
    } else {
      ++external;
      if (outside[p]-- != 1) {
        c->fail("destroyed an object that is not alive outside the buffer");
      }
    }
  }
  void assigned(Ev e, void const* p) {
    if (in(p)) {
      events.emplace_back(e, slot(p));
      if (!live[slot(p)]) {
        c->fail("%s to a dead slot", ev_name(e));
      }
    } else {
      ++external;
    }
  }
  // an element placed by the test itself
  void placed(size_t s) { live[s] = 1; }
  size_t alive() const {
    size_t n = 0;
    for (char x : live) {
      n += static_cast<size_t>(x);
    }
    return n;
  }
};

inline Log& lg() {
  static Log l;
  return l;
}

struct Tag {};

// Copyable and movable, all events tracked.
struct Full {
  uint64_t id;
  uint64_t check;
  explicit Full(uint64_t i)
      : id(i)
      , check(~i) {
    lg().born(Ev::value, this);
  }
  Full(uint64_t i, Tag const&, std::unique_ptr<int>&& u)
      : id(i)
      , check(~i) {
    lg().born(Ev::value, this);
    std::unique_ptr<int> taken(std::move(u));
  }
  Full(Full const& o)
      : id(o.id)
      , check(o.check) {
    lg().born(Ev::copy, this);
  }
  Full(Full&& o)
      : id(o.id)
      , check(o.check) {
    lg().born(Ev::move, this);
    o.id = 0xdead;
    o.check = ~0xdeadull;
  }
  Full& operator=(Full const& o) {
    lg().assigned(Ev::copy_assign, this);
    id = o.id;
    check = o.check;
    return *this;
  }
  Full& operator=(Full&& o) {
    lg().assigned(Ev::move_assign, this);
    id = o.id;
    check = o.check;
    return *this;
  }
  ~Full() {
    lg().dead(this);
    id = 0xbad;
    check = 0;
  }
  bool ok() const { return check == ~id; }
};

struct MoveOnly {
  uint64_t id;
  std::unique_ptr<uint64_t> heap;
  explicit MoveOnly(uint64_t i)
      : id(i)
      , heap(new uint64_t(i)) {
    lg().born(Ev::value, this);
  }
  MoveOnly(uint64_t i, Tag const&, std::unique_ptr<int>&& u)
      : id(i)
      , heap(new uint64_t(i)) {
    lg().born(Ev::value, this);
    std::unique_ptr<int> taken(std::move(u));
  }
  MoveOnly(MoveOnly&& o)
      : id(o.id) {
    lg().born(Ev::move, this); // may throw: the source must still be intact
    heap = std::move(o.heap);
    o.id = 0xdead;
  }
  MoveOnly& operator=(MoveOnly&& o) {
    lg().assigned(Ev::move_assign, this);
    id = o.id;
    heap = std::move(o.heap);
    return *this;
  }
  ~MoveOnly() { lg().dead(this); }
  bool ok() const { return heap && *heap == id; }
};

// Copy constructor only (an rvalue is copied, too).
struct CopyOnly {
  uint64_t id;
  explicit CopyOnly(uint64_t i)
      : id(i) {
    lg().born(Ev::value, this);
  }
  CopyOnly(uint64_t i, Tag const&, std::unique_ptr<int>&& u)
      : id(i) {
    lg().born(Ev::value, this);
    std::unique_ptr<int> taken(std::move(u));
  }
  CopyOnly(CopyOnly const& o)
      : id(o.id) {
    lg().born(Ev::copy, this);
  }
  CopyOnly& operator=(CopyOnly const& o) {
    lg().assigned(Ev::copy_assign, this);
    id = o.id;
    return *this;
  }
  ~CopyOnly() { lg().dead(this); }
  bool ok() const { return true; }
};

// Neither copyable nor movable: emplace only.
struct InPlace {
  uint64_t id;
  InPlace const* self;
  explicit InPlace(uint64_t i)
      : id(i)
      , self(this) {
    lg().born(Ev::value, this);
  }
  InPlace(uint64_t i, Tag const&, std::unique_ptr<int>&& u)
      : id(i)
      , self(this) {
    lg().born(Ev::value, this);
    std::unique_ptr<int> taken(std::move(u));
  }
  InPlace(InPlace const&) = delete;
  InPlace& operator=(InPlace const&) = delete;
  ~InPlace() { lg().dead(this); }
  bool ok() const { return self == this; }
};

// No members at all: the identity is kept in a table by address.
struct Empty {
  explicit Empty(uint64_t i) {
    lg().born(Ev::value, this);
    lg().ids[this] = i;
  }
  Empty(uint64_t i, Tag const&, std::unique_ptr<int>&& u) {
    lg().born(Ev::value, this);
    lg().ids[this] = i;
    std::unique_ptr<int> taken(std::move(u));
  }
  Empty(Empty const& o) {
    lg().born(Ev::copy, this);
    lg().ids[this] = lg().ids[&o];
  }
  Empty(Empty&& o) {
    lg().born(Ev::move, this);
    lg().ids[this] = lg().ids[&o];
    lg().ids[&o] = 0xdead;
  }
  Empty& operator=(Empty const& o) {
    lg().assigned(Ev::copy_assign, this);
    lg().ids[this] = lg().ids[&o];
    return *this;
  }
  Empty& operator=(Empty&& o) {
    lg().assigned(Ev::move_assign, this);
    lg().ids[this] = lg().ids[&o];
    return *this;
  }
  ~Empty() {
    lg().dead(this);
    lg().ids.erase(this);
  }
  bool ok() const { return lg().ids.count(this) == 1; }
};
static_assert(std::is_empty<Empty>::value, "");

// Tracked constructors, but a trivial destructor.
struct NoDtor {
  uint64_t id;
  explicit NoDtor(uint64_t i)
      : id(i) {
    lg().born(Ev::value, this);
  }
  NoDtor(uint64_t i, Tag const&, std::unique_ptr<int>&& u)
      : id(i) {
    lg().born(Ev::value, this);
    std::unique_ptr<int> taken(std::move(u));
  }
  NoDtor(NoDtor const& o)
      : id(o.id) {
    lg().born(Ev::copy, this);
  }
  NoDtor(NoDtor&& o)
      : id(o.id) {
    lg().born(Ev::move, this);
    o.id = 0xdead;
  }
  NoDtor& operator=(NoDtor const& o) {
    lg().assigned(Ev::copy_assign, this);
    id = o.id;
    return *this;
  }
  NoDtor& operator=(NoDtor&& o) {
    lg().assigned(Ev::move_assign, this);
    id = o.id;
    return *this;
  }
  bool ok() const { return true; }
};
static_assert(std::is_trivially_destructible<NoDtor>::value, "");

// Virtual functions, a virtual destructor, and an overaligned member.
struct Base {
  virtual ~Base() {}
  virtual uint64_t value() const = 0;
};
struct Poly : Base {
  alignas(32) uint64_t id;
  explicit Poly(uint64_t i)
      : id(i) {
    lg().born(Ev::value, this);
  }
  Poly(uint64_t i, Tag const&, std::unique_ptr<int>&& u)
      : id(i) {
    lg().born(Ev::value, this);
    std::unique_ptr<int> taken(std::move(u));
  }
  Poly(Poly const& o)
      : Base()
      , id(o.id) {
    lg().born(Ev::copy, this);
  }
  Poly(Poly&& o)
      : id(o.id) {
    lg().born(Ev::move, this);
    o.id = 0xdead;
  }
  Poly& operator=(Poly const& o) {
    lg().assigned(Ev::copy_assign, this);
    id = o.id;
    return *this;
  }
  Poly& operator=(Poly&& o) {
    lg().assigned(Ev::move_assign, this);
    id = o.id;
    return *this;
  }
  ~Poly() override { lg().dead(this); }
  uint64_t value() const override { return id; }
  bool ok() const {
    Base const* b = this;
    return b->value() == id;
  }
};

template <typename T>
uint64_t ident(T const& v) {
  return v.id;
}
template <>
inline uint64_t ident(Empty const& v) {
  auto it = lg().ids.find(&v);
  return it == lg().ids.end() ? ~0ull : it->second;
}

// The element in slot s was removed; no destructor tells the log so.
template <typename T>
void forgotten(size_t s) {
  if (std::is_trivially_destructible<T>::value) {
    lg().live[s] = 0;
  }
}

// Only the destructor is non-trivial; construction and copies are implicit.
struct DtorOnly {
  uint64_t id;
  ~DtorOnly() {
    Log& l = lg();
    if (l.in(this)) {
      l.events.emplace_back(Ev::dtor, l.slot(this));
    }
  }
  bool ok() const { return true; }
};
