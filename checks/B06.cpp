// B06: object lifetimes are exact for non-trivial element types.
#include <algorithm>
#include <cstdlib>
#include <initializer_list>
#include <memory>
#include <string>
#include <vector>

#include "cba_tracked.h"

namespace {

template <typename T>
struct Caps {
  static constexpr bool copy = std::is_copy_constructible<T>::value;
  static constexpr bool move = std::is_move_constructible<T>::value;
  static constexpr bool move_is_copy = std::is_same<T, CopyOnly>::value;
};

template <typename T, bool = Caps<T>::copy>
struct CopyOps {
  template <typename A>
  static void push(A& a, bool front, T const& v) {
    front ? a.push_front(v) : a.push_back(v);
  }
  template <typename A>
  static void emplace(A& a, bool front, T const& v) {
    front ? a.emplace_front(v) : a.emplace_back(v);
  }
};
template <typename T>
struct CopyOps<T, false> {
  template <typename A>
  static void push(A&, bool, T const&) {}
  template <typename A>
  static void emplace(A&, bool, T const&) {}
};
template <typename T, bool = Caps<T>::move>
struct MoveOps {
  template <typename A>
  static void push(A& a, bool front, T& v) {
    front ? a.push_front(std::move(v)) : a.push_back(std::move(v));
  }
  template <typename A>
  static void emplace(A& a, bool front, T& v) {
    front ? a.emplace_front(std::move(v)) : a.emplace_back(std::move(v));
  }
};
template <typename T>
struct MoveOps<T, false> {
  template <typename A>
  static void push(A&, bool, T&) {}
  template <typename A>
  static void emplace(A&, bool, T&) {}
};

template <typename T>
struct Machine {
  using A = circular_buffer_adapter<T>;
  pbt::Case& c;
  size_t cap;
  Arena<T> mem;
  std::deque<uint64_t> m;
  std::unique_ptr<A> a;
  uint64_t next_id{1};
  Log& log{lg()};
  bool wrapped{false}, counted{false};
  static constexpr bool trivial_death = std::is_trivially_destructible<T>::value;

  explicit Machine(pbt::Case& cc)
      : c(cc)
      , cap(gen_capacity(cc))
      , mem(cap) {
    log.attach(c, mem.data(), cap, sizeof(T));
    log.untracked_death = trivial_death;
    size_t first = 0, count = 0;
    if (cap) {
      first = static_cast<size_t>(c.draw(cap));
      count = c.flip() ? gen_count(c, cap) : 0;
    }
    for (size_t i = 0; i < count; ++i) { // "contains valid instances"
      new (mem.data() + (first + i) % cap) T(next_id);
      m.push_back(next_id++);
    }
    c.trace("capacity=%zu first=%zu count=%zu;", cap, first, count);
    a.reset(new A(attach<T>(c, mem.data(), cap, first, count)));
    log.events.clear();
    log.external = 0;
  }

  void expect(bool cond, char const* what) {
    PBT_CHECK(c, cond, "%s (capacity %zu, model size %zu)", what, cap,
              m.size());
  }

  std::string shown() {
    std::string s;
    for (auto const& e : log.events) {
      s += std::string(" ") + ev_name(e.first) + "@" + std::to_string(e.second);
    }
    return s;
  }

  // exactly these slot events (in any order), and `ext` on other objects
  void events(std::vector<std::pair<Ev, size_t>> want, size_t ext,
              char const* what) {
    auto got = log.events;
    if (trivial_death) {
      auto dead = std::stable_partition(
          want.begin(), want.end(),
          [](std::pair<Ev, size_t> const& e) { return e.first != Ev::dtor; });
      for (auto i = dead; i != want.end(); ++i) {
        forgotten<T>(i->second);
      }
      want.erase(dead, want.end());
    }
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    PBT_CHECK(c, got == want,
              "%s: wrong lifetime events:%s (capacity %zu, model size %zu)",
              what, shown().c_str(), cap, m.size());
    PBT_CHECK(c, log.external == ext,
              "%s: %zu events on objects outside the buffer, expected %zu",
              what, log.external, ext);
    log.events.clear();
    log.external = 0;
  }

  std::vector<size_t> slots(size_t from, size_t n) {
    std::vector<size_t> r;
    for (size_t i = 0; i < n; ++i) {
      r.push_back(mem.slot(&(*a)[from + i]));
    }
    return r;
  }

  void check() {
    expect(a->size() == m.size(), "size");
    for (size_t i = 0; i < m.size(); ++i) {
      T const& e = (*a)[i];
      expect(log.live[mem.slot(&e)], "an element is not a live object");
      expect(ident(e) == m[i] && e.ok(), "contents");
    }
    expect(log.alive() == m.size(), "number of live objects in the buffer");
  }

  void insert() {
    bool front = c.flip();
    uint64_t id = next_id++;
    size_t how = c.draw(6);
    if ((how == 0 || how == 2) && !Caps<T>::copy) {
      how = 1;
    }
    if ((how == 1 || how == 3) && !Caps<T>::move) {
      how = 4;
    }
    Ev want = Ev::value;
    size_t ext = 0;
    std::unique_ptr<int> u(new int(1));
    Tag const tag{};
    if (how < 4) {
      T v(id);
      log.external = 0;
      switch (how) {
      case 0:
        CopyOps<T>::push(*a, front, v);
        want = Ev::copy;
        break;
      case 1:
        MoveOps<T>::push(*a, front, v);
        want = Caps<T>::move_is_copy ? Ev::copy : Ev::move;
        break;
      case 2:
        CopyOps<T>::emplace(*a, front, v);
        want = Ev::copy;
        break;
      default:
        MoveOps<T>::emplace(*a, front, v);
        want = Caps<T>::move_is_copy ? Ev::copy : Ev::move;
        break;
      }
      events({{want, mem.slot(front ? &a->front() : &a->back())}}, 0,
             "insertion");
      if (how == 0 || how == 2) {
        expect(ident(v) == id && v.ok(), "source of a copy was changed");
      }
    } else if (how == 4) {
      T& r = front ? a->emplace_front(id) : a->emplace_back(id);
      expect(&r == (front ? &a->front() : &a->back()), "emplace result");
      events({{want, mem.slot(&r)}}, ext, "emplace");
    } else {
      T& r = front ? a->emplace_front(id, tag, std::move(u))
                   : a->emplace_back(id, tag, std::move(u));
      expect(&r == (front ? &a->front() : &a->back()), "emplace result");
      expect(!u, "emplace did not forward an rvalue argument");
      events({{want, mem.slot(&r)}}, ext, "emplace");
    }
    log.external = 0; // the local object's destructor
    front ? m.push_front(id) : m.push_back(id);
    static char const* const nm[] = {"push",         "push_move", "emplace_copy",
                                     "emplace_move", "emplace",   "emplace3"};
    c.trace(" %s_%s", nm[how], front ? "front" : "back");
  }

  void remove() {
    bool front = c.flip();
    size_t n = c.flip() ? gen_count(c, m.size()) : 1;
    std::vector<std::pair<Ev, size_t>> want;
    for (size_t s : slots(front ? 0 : m.size() - n, n)) {
      want.emplace_back(Ev::dtor, s);
    }
    if (n == 1 && c.flip()) {
      front ? a->pop_front() : a->pop_back();
    } else {
      front ? a->pop_front(n) : a->pop_back(n);
      counted = counted || n > 1;
    }
    for (size_t i = 0; i < n; ++i) {
      front ? m.pop_front() : m.pop_back();
    }
    c.trace(" pop_%s(%zu)", front ? "front" : "back", n);
    events(want, 0, "pop");
  }

  void run() {
    check();
    size_t const len = static_cast<size_t>(c.draw(c.chance(1, 6) ? 100 : 30));
    Phase ph;
    for (size_t i = 0; i < len; ++i) {
      switch (c.weighted({20, 2, 1, 2})) {
      case 0: {
        bool ins = ph.insert(c) ? m.size() < cap : m.empty();
        if (cap == 0) {
          break;
        }
        ins ? insert() : remove();
        break;
      }
      case 1: {
        std::vector<std::pair<Ev, size_t>> want;
        for (size_t s : slots(0, m.size())) {
          want.emplace_back(Ev::dtor, s);
        }
        a->clear();
        m.clear();
        c.trace(" clear");
        events(want, 0, "clear");
        break;
      }
      case 2: { // the adapter object itself
        std::unique_ptr<A> b(new A(std::move(*a)));
        if (c.flip()) {
          A d;
          d = std::move(*b);
          *b = std::move(d);
        }
        a = std::move(b);
        c.trace(" move");
        events({}, 0, "moving or destroying the adapter");
        break;
      }
      default: { // reading
        uint64_t sum = 0;
        for (auto it = a->begin(); it != a->end(); ++it) {
          sum += ident(*it);
        }
        for (auto it = a->rbegin(); it != a->rend(); ++it) {
          sum += ident(*it);
        }
        if (!m.empty()) {
          sum += ident(a->front()) + ident(a->back()) +
                 ident(a->at(m.size() - 1));
        }
        volatile uint64_t sink = sum;
        (void)sink;
        events({}, 0, "reading");
        break;
      }
      }
      check();
      wrapped = wrapped || (m.size() > 1 && &a->front() > &a->back());
    }
    if (c.flip()) {
      std::vector<std::pair<Ev, size_t>> want;
      for (size_t s : slots(0, m.size())) {
        want.emplace_back(Ev::dtor, s);
      }
      a->clear();
      m.clear();
      events(want, 0, "clear");
      check();
    }
    std::vector<size_t> left = slots(0, m.size());
    a.reset();
    events({}, 0, "destroying the adapter");
    for (size_t s : left) {
      mem.data()[s].~T();
      forgotten<T>(s);
    }
    expect(log.alive() == 0, "objects leaked");
    for (auto const& o : log.outside) {
      expect(o.second == 0 || trivial_death, "temporaries leaked");
    }
    expect(mem.guards_ok(), "memory around the buffer was written");
    if (wrapped) {
      PBT_LABEL("contents wrapped around the physical end");
    }
    if (counted && wrapped) {
      c.nontrivial();
    }
  }
};

template <typename T>
void prop(pbt::Case& c) {
  Machine<T> m(c);
  m.run();
}

// The destructor is the only non-trivial member.
void dtor_only(pbt::Case& c) {
  size_t const cap = static_cast<size_t>(c.range(1, 9));
  Arena<DtorOnly> mem(cap);
  Log& log = lg();
  log.attach(c, mem.data(), cap, sizeof(DtorOnly));
  circular_buffer_adapter<DtorOnly> a(mem.data(), cap);
  std::deque<uint64_t> m;
  Phase ph;
  uint64_t id = 0;
  size_t const len = static_cast<size_t>(c.draw(40));
  bool wrapped = false;
  for (size_t i = 0; i < len; ++i) {
    log.events.clear();
    bool front = c.flip();
    bool ins = ph.insert(c) ? m.size() < cap : m.empty();
    if (ins) {
      DtorOnly v{++id};
      front ? a.push_front(v) : a.push_back(v);
      front ? m.push_front(id) : m.push_back(id);
      PBT_CHECK(c, log.events.empty(), "an insertion destroyed an element");
    } else {
      size_t n = static_cast<size_t>(c.draw(m.size() + 1));
      std::vector<std::pair<Ev, size_t>> want;
      for (size_t k = 0; k < n; ++k) {
        want.emplace_back(Ev::dtor,
                          mem.slot(&a[front ? k : m.size() - n + k]));
      }
      if (n == m.size() && c.flip()) {
        a.clear();
      } else {
        front ? a.pop_front(n) : a.pop_back(n);
      }
      for (size_t k = 0; k < n; ++k) {
        front ? m.pop_front() : m.pop_back();
      }
      auto got = log.events;
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      PBT_CHECK(c, got == want, "destructors of popped elements: %zu of %zu",
                got.size(), want.size());
    }
    c.trace(" %s_%s", ins ? "push" : "pop", front ? "front" : "back");
    PBT_CHECK(c, a.size() == m.size(), "size");
    for (size_t k = 0; k < m.size(); ++k) {
      PBT_CHECK(c, a[k].id == m[k], "contents");
    }
    wrapped = wrapped || (m.size() > 1 && &a.front() > &a.back());
  }
  if (wrapped) {
    c.nontrivial();
  }
}

// --- which constructor is used -------------------------------------------------
//
// Elements are made by direct initialisation from the forwarded arguments, as
// those of std::deque are.

struct Picky {
  int how = 0, value = 0, more = 0;
  Picky() noexcept
      : how{1} {}
  explicit Picky(int& x)
      : how{2}
      , value{x++} {}
  Picky(int const& x)
      : how{3}
      , value{x} {}
  Picky(int&& x)
      : how{4}
      , value{x} {
    x = -1;
  }
  explicit Picky(int const&& x)
      : how{5}
      , value{x} {}
  Picky(std::initializer_list<int> l)
      : how{6}
      , value{static_cast<int>(l.size())} {}
  Picky(int x, int y)
      : how{7}
      , value{x}
      , more{y} {}
  explicit Picky(double x)
      : how{8}
      , value{static_cast<int>(x)} {}
  Picky(Picky const& o)
      : how{9}
      , value{o.value}
      , more{o.more} {}
  Picky(Picky& o)
      : how{10}
      , value{o.value}
      , more{o.more} {}
  Picky(Picky&& o) noexcept
      : how{11}
      , value{o.value}
      , more{o.more} {
    o.value = -7;
  }
  Picky(Picky const&& o) noexcept
      : how{12}
      , value{o.value}
      , more{o.more} {}
  template <typename U>
  Picky(U&&, char const*)
      : how{std::is_lvalue_reference<U>::value ? 13 : 14}
      , value{std::is_const<typename std::remove_reference<U>::type>::value} {}
  ~Picky() { how = -1; }
  friend bool operator==(Picky const& a, Picky const& b) {
    return a.how == b.how && a.value == b.value && a.more == b.more;
  }
};

struct Pod {
  int a;
  char b;
  double d;
  int* p;
  friend bool operator==(Pod const& x, Pod const& y) {
    return x.a == y.a && x.b == y.b && x.d == y.d && x.p == y.p;
  }
};

// objects of this class must come from a pool - when they are allocated
struct Pooled {
  std::string s;
  explicit Pooled(std::string t = "none")
      : s(std::move(t)) {}
  static void* operator new(std::size_t) { std::abort(); }
  static void operator delete(void*) { std::abort(); }
  Pooled const* operator&() const { return nullptr; }
  friend bool operator==(Pooled const& a, Pooled const& b) { return a.s == b.s; }
};

template <typename Q, typename... A>
void make(Q& q, bool front, A&&... args) {
  auto& r = front ? q.emplace_front(std::forward<A>(args)...)
                  : q.emplace_back(std::forward<A>(args)...);
  if (std::addressof(r) != std::addressof(front ? q.front() : q.back())) {
    std::abort();
  }
}
template <typename Q, typename A>
void push(Q& q, bool front, A&& arg) {
  front ? q.push_front(std::forward<A>(arg)) : q.push_back(std::forward<A>(arg));
}

// `value` of the arguments afterwards is returned
struct Vectors {
  using type = std::vector<int>;
  static constexpr size_t forms = 9;
  template <typename Q>
  static long long add(Q& q, bool front, size_t form, int n) {
    std::vector<int> v{n, 2, 3};
    std::size_t const k = static_cast<std::size_t>(n);
    switch (form) {
    case 0: make(q, front); break;
    case 1: make(q, front, k); break;
    case 2: make(q, front, n, 7); break;
    case 3: make(q, front, std::initializer_list<int>{n, 9}); break;
    case 4: make(q, front, v.begin() + 1, v.end()); break;
    case 5: make(q, front, v); break;
    case 6: make(q, front, std::move(v)); break;
    case 7: push(q, front, v); break;
    default: front ? q.push_front({n, 4}) : q.push_back({n, 4}); break;
    }
    return static_cast<long long>(v.size());
  }
};

struct Strings {
  using type = std::string;
  static constexpr size_t forms = 8;
  template <typename Q>
  static long long add(Q& q, bool front, size_t form, int n) {
    std::string s(40, static_cast<char>('a' + n));
    char text[] = "some text that is longer than a small string";
    std::size_t const k = static_cast<std::size_t>(n);
    switch (form) {
    case 0: make(q, front); break;
    case 1: make(q, front, k, 'x'); break;
    case 2: make(q, front, text); break;
    case 3: make(q, front, text, k); break;
    case 4: make(q, front, s, k, 5u); break;
    case 5: make(q, front, s + text); break;
    case 6: push(q, front, std::move(s)); break;
    default: push(q, front, text); break;
    }
    return static_cast<long long>(s.size());
  }
};

template <typename T>
struct Numbers {
  using type = T;
  static constexpr size_t forms = 6;
  template <typename Q>
  static long long add(Q& q, bool front, size_t form, int n) {
    T v = static_cast<T>(n);
    switch (form) {
    case 0: make(q, front); break;
    case 1: make(q, front, 100000L + n); break;
    case 2: make(q, front, 2.75); break;
    case 3: make(q, front, v); break;
    case 4: push(q, front, 'c'); break;
    default: push(q, front, v); break;
    }
    return static_cast<long long>(v);
  }
};

struct Pods {
  using type = Pod;
  static constexpr size_t forms = 3;
  template <typename Q>
  static long long add(Q& q, bool front, size_t form, int n) {
    Pod v = {n, 'x', 2.5, nullptr};
    switch (form) {
    case 0: make(q, front); break;
    case 1: make(q, front, v); break;
    default: front ? q.push_front({n, 'q', 0.5, nullptr}) : q.push_back({n, 'q', 0.5, nullptr}); break;
    }
    return v.a;
  }
};

struct Pickies {
  using type = Picky;
  static constexpr size_t forms = 20;
  template <typename Q>
  static long long add(Q& q, bool front, size_t form, int n) {
    int x = n;
    int const y = n;
    Picky p(n, 3);
    Picky const r(n, 4);
    switch (form) {
    case 0: make(q, front); break;
    case 1: make(q, front, x); break;
    case 2: make(q, front, y); break;
    case 3: make(q, front, std::move(x)); break;
    case 4: make(q, front, std::move(y)); break;
    case 5: make(q, front, std::initializer_list<int>{1, n, 3}); break;
    case 6: make(q, front, x, 5); break;
    case 7: make(q, front, 3.5); break;
    case 8: make(q, front, p); break;
    case 9: make(q, front, r); break;
    case 10: make(q, front, std::move(p)); break;
    case 11: make(q, front, std::move(r)); break;
    case 12: push(q, front, p); break;
    case 13: push(q, front, r); break;
    case 14: push(q, front, std::move(p)); break;
    case 15: push(q, front, std::move(r)); break;
    case 16: push(q, front, y); break;
    case 17: make(q, front, x, "text"); break;
    case 18: make(q, front, r, "text"); break;
    default: make(q, front, Picky(3, 4), "text"); break;
    }
    return x * 1000 + p.value;
  }
};

struct Pointers {
  using type = std::unique_ptr<std::string>;
  static constexpr size_t forms = 4;
  template <typename Q>
  static long long add(Q& q, bool front, size_t form, int n) {
    type p(new std::string(5, static_cast<char>('a' + n)));
    switch (form) {
    case 0: make(q, front); break;
    case 1: make(q, front, new std::string("fresh")); break;
    case 2: make(q, front, std::move(p)); break;
    default: push(q, front, std::move(p)); break;
    }
    return p != nullptr;
  }
};
bool same(std::unique_ptr<std::string> const& a, std::unique_ptr<std::string> const& b) {
  return a && b ? *a == *b : !a && !b;
}
template <typename T>
bool same(T const& a, T const& b) {
  return a == b;
}

struct Pools {
  using type = Pooled;
  static constexpr size_t forms = 4;
  template <typename Q>
  static long long add(Q& q, bool front, size_t form, int n) {
    Pooled p(std::string(static_cast<std::size_t>(30 + n), 'p'));
    switch (form) {
    case 0: make(q, front); break;
    case 1: make(q, front, "text"); break;
    case 2: push(q, front, p); break;
    default: push(q, front, std::move(p)); break;
    }
    return static_cast<long long>(p.s.size());
  }
};

template <typename E>
void constructions(pbt::Case& c) {
  using T = typename E::type;
  size_t const cap = static_cast<size_t>(c.range(1, 8));
  Arena<T> mem(cap);
  size_t const first = static_cast<size_t>(c.draw(cap));
  circular_buffer_adapter<T> a(mem.data(), cap, first, 0);
  std::deque<T> m;
  size_t const len = static_cast<size_t>(1 + c.draw(30));
  bool several = false;
  for (size_t i = 0; i < len; ++i) {
    bool const front = c.flip();
    if (m.size() < cap && (m.empty() || c.chance(2, 3))) {
      size_t const form = static_cast<size_t>(c.draw(E::forms));
      int const n = static_cast<int>(c.range(0, 9));
      c.trace(" form%zu_%s(%d)", form, front ? "front" : "back", n);
      long long const x = E::add(a, front, form, n), y = E::add(m, front, form, n);
      PBT_CHECK(c, x == y, "the arguments are left behind differently");
    } else {
      front ? a.pop_front() : a.pop_back();
      front ? m.pop_front() : m.pop_back();
      c.trace(" pop_%s", front ? "front" : "back");
    }
    PBT_CHECK(c, a.size() == m.size(), "size");
    for (size_t k = 0; k < m.size(); ++k) {
      PBT_CHECK(c, same(a[k], m[k]), "element %zu has been made in another way than by direct initialisation", k);
    }
    several = several || m.size() > 2;
  }
  a.clear();
  PBT_CHECK(c, mem.guards_ok(), "memory around the buffer was written");
  if (several) {
    c.nontrivial();
  }
}

void library_types(pbt::Case& c) {
  switch (c.draw(8)) {
  case 0: return constructions<Vectors>(c);
  case 1: return constructions<Strings>(c);
  case 2: return constructions<Numbers<int>>(c);
  case 3: return constructions<Numbers<unsigned char>>(c);
  case 4: return constructions<Numbers<double>>(c);
  case 5: return constructions<Pods>(c);
  case 6: return constructions<Pools>(c);
  default: return constructions<Pointers>(c);
  }
}

// --- large buffers: counts beyond narrow integer types ----------------------------

std::vector<char> alive;      // per slot of the buffer at hand
unsigned char const* slots{nullptr};
size_t deaths{0};
char const* mishap{nullptr};

template <size_t Pad>
struct Counted {
  unsigned char pad[Pad];
  explicit Counted(uint64_t id) {
    for (size_t i = 0; i < Pad; ++i) {
      pad[i] = static_cast<unsigned char>(id >> (i % 8 * 8));
    }
    mark(true);
  }
  ~Counted() {
    mark(false);
    ++deaths;
  }
  Counted(Counted const&) = delete;
  Counted& operator=(Counted const&) = delete;

 private:
  void mark(bool to) {
    size_t const d = static_cast<size_t>(reinterpret_cast<unsigned char*>(this) - slots);
    if (d % sizeof(Counted) != 0 || d / sizeof(Counted) >= alive.size()) {
      mishap = "an object outside the slots";
    } else if (alive[d / sizeof(Counted)] == static_cast<char>(to)) {
      mishap = to ? "constructed over a live element" : "destroyed a slot without an element";
    } else {
      alive[d / sizeof(Counted)] = to;
    }
  }
};

template <size_t Pad>
void large_lifetimes(pbt::Case& c) {
  using T = Counted<Pad>;
  size_t const cap = static_cast<size_t>(
      c.pick<int64_t>({200, 250, 32700, 65500, 65530}) + c.range(0, 120));
  Arena<T> mem(cap);
  alive.assign(cap, 0);
  slots = mem.bytes();
  mishap = nullptr;
  size_t first = static_cast<size_t>(c.flip() ? c.draw(cap) : cap - 1 - c.draw(20)), count = 0;
  circular_buffer_adapter<T> a(mem.data(), cap, first, 0);
  c.trace("capacity=%zu first=%zu;", cap, first);
  auto check = [&](char const* what) {
    PBT_CHECK(c, !mishap, "%s: %s (capacity %zu, first %zu, count %zu)", what, mishap, cap, first, count);
    PBT_CHECK(c, a.size() == count, "%s: size() is %zu instead of %zu", what, a.size(), count);
    for (size_t i = 0; i < cap; ++i) {
      bool const in = (i + cap - first) % cap < count;
      PBT_CHECK(c, alive[i] == static_cast<char>(in), "%s: slot %zu %s (capacity %zu, first %zu, count %zu)", what, i,
                in ? "has lost its element" : "still has an element", cap, first, count);
    }
  };
  size_t most = 0;
  for (int step = 0; step < 5; ++step) {
    size_t const room = cap - count;
    size_t const n = c.chance(1, 3) ? room : room - static_cast<size_t>(c.draw(std::min<size_t>(room, 300) + 1));
    bool front = c.flip();
    c.trace(" add_%s(%zu)", front ? "front" : "back", n);
    for (size_t i = 0; i < n; ++i) {
      front ? a.emplace_front(i) : a.emplace_back(i);
    }
    count += n;
    if (front) {
      first = (first + cap - n) % cap;
    }
    check("adding");
    deaths = 0;
    size_t k = count;
    switch (c.draw(5)) {
    case 0:
      c.trace(" clear");
      a.clear();
      count = 0;
      first = 0;
      break;
    case 1:
      k -= static_cast<size_t>(c.draw(std::min<size_t>(count, 300) + 1));
      // fallthrough
    case 2:
      c.trace(" pop_front(%zu)", k);
      a.pop_front(k);
      first = (first + k) % cap;
      count -= k;
      break;
    case 3:
      k -= static_cast<size_t>(c.draw(std::min<size_t>(count, 300) + 1));
      // fallthrough
    default:
      c.trace(" pop_back(%zu)", k);
      a.pop_back(k);
      count -= k;
    }
    PBT_CHECK(c, deaths == k, "%zu destructors ran for %zu elements", deaths, k);
    check("removing");
    most = std::max(most, k);
    if (count == 0) { // the next element goes to wherever an empty buffer starts
      first = a.raw_index(a.begin());
    }
  }
  a.clear();
  if (most > 255) {
    c.nontrivial();
  }
}

} // namespace

PBT_REGISTER(constructors, &constructions<Pickies>, 30000, 1000000);
PBT_REGISTER(library_types, &library_types, 40000, 1500000);
PBT_REGISTER(full, &prop<Full>, 60000, 3000000);
PBT_REGISTER(move_only, &prop<MoveOnly>, 30000, 1500000);
PBT_REGISTER(copy_only, &prop<CopyOnly>, 30000, 1500000);
PBT_REGISTER(in_place, &prop<InPlace>, 30000, 1500000);
PBT_REGISTER(empty, &prop<Empty>, 30000, 1500000);
PBT_REGISTER(trivial_destructor, &prop<NoDtor>, 30000, 1500000);
PBT_REGISTER(polymorphic, &prop<Poly>, 30000, 1500000);
PBT_REGISTER(destructor_only, &dtor_only, 30000, 1000000);
PBT_REGISTER(large_lifetimes, &large_lifetimes<1>, 60, 2000);
PBT_REGISTER(large_lifetimes_12, &large_lifetimes<12>, 40, 2000);
