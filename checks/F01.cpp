// F01: calling a function wrapper is calling its target.
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <typeinfo>
#include <utility>
#include <vector>

#include <embedded/function.h>

#include "pbt.h"

using embedded::function;

namespace {

// --- supervised argument objects -------------------------------------------

struct World {
  std::set<void const*> live;
  char const* error{nullptr};
  unsigned copies{0};
};
World* W;

class Obj {
 public:
  explicit Obj(uint64_t i)
      : id{i} {
    born();
  }
  Obj(Obj const& o)
      : id{o.id} {
    use(o);
    ++W->copies;
    born();
  }
  Obj(Obj&& o) noexcept
      : id{o.id} {
    use(o);
    o.gone = true;
    born();
  }
  Obj& operator=(Obj const&) = delete;
  ~Obj() {
    if (W->live.erase(this) != 1) {
      W->error = "object destroyed twice";
    }
  }
  uint64_t id;
  bool gone{false};

 private:
  void born() {
    if (!W->live.insert(this).second) {
      W->error = "object constructed over a live one";
    }
  }
  void use(Obj const& o) {
    if (!W->live.count(&o)) {
      W->error = "argument read after its destruction";
    } else if (o.gone) {
      W->error = "argument moved from twice";
    }
  }
};

struct MoveOnly {
  explicit MoveOnly(uint64_t i)
      : o{i} {}
  MoveOnly(MoveOnly&&) = default;
  MoveOnly(MoveOnly const&) = delete;
  Obj o;
};
struct Base {
  virtual ~Base() = default;
  uint64_t id{0};
};
struct Derived : Base {
  uint64_t pad[2]{};
};
struct Big {
  uint64_t v[12];
};
enum class Color : unsigned char { red, green, blue };

// gen<D>, value(D)
template <typename D>
struct Kind;
template <>
struct Kind<int> {
  static int gen(pbt::Case& c) { return static_cast<int>(c.uint(32)); }
  static uint64_t value(int v) { return static_cast<uint32_t>(v); }
};
template <>
struct Kind<bool> {
  static bool gen(pbt::Case& c) { return c.flip(); }
  static uint64_t value(bool v) { return v; }
};
template <>
struct Kind<uint64_t> {
  static uint64_t gen(pbt::Case& c) { return c.uint(64); }
  static uint64_t value(uint64_t v) { return v; }
};
template <>
struct Kind<double> {
  static double gen(pbt::Case& c) { return c.real(-1e9, 1e9); }
  static uint64_t value(double v) {
    uint64_t r;
    std::memcpy(&r, &v, 8);
    return r;
  }
};
template <>
struct Kind<float> {
  static float gen(pbt::Case& c) { return static_cast<float>(c.real(-9, 9)); }
  static uint64_t value(float v) { return Kind<double>::value(v); }
};
template <>
struct Kind<Color> {
  static Color gen(pbt::Case& c) { return static_cast<Color>(c.draw(3)); }
  static uint64_t value(Color v) { return static_cast<uint64_t>(v); }
};
template <>
struct Kind<Obj> {
  static Obj gen(pbt::Case& c) { return Obj(c.uint(64)); }
  static uint64_t value(Obj const& v) { return v.id + (v.gone ? 1ull << 63 : 0); }
};
template <>
struct Kind<MoveOnly> {
  static MoveOnly gen(pbt::Case& c) { return MoveOnly(c.uint(64)); }
  static uint64_t value(MoveOnly const& v) { return Kind<Obj>::value(v.o); }
};
template <>
struct Kind<std::unique_ptr<Obj>> {
  using P = std::unique_ptr<Obj>;
  static P gen(pbt::Case& c) { return P(new Obj(c.uint(64))); }
  static uint64_t value(P const& v) { return v ? v->id : ~0ull; }
};
template <>
struct Kind<std::string> {
  static std::string gen(pbt::Case& c) {
    return std::string(static_cast<size_t>(c.draw(40)),
                       static_cast<char>('a' + c.draw(26)));
  }
  static uint64_t value(std::string const& s) {
    return pbt::hash_str(s.c_str());
  }
};
template <>
struct Kind<Big> {
  static Big gen(pbt::Case& c) {
    Big b;
    uint64_t s = c.bits();
    for (auto& x : b.v) {
      x = s = pbt::mix(s);
    }
    return b;
  }
  static uint64_t value(Big const& b) {
    uint64_t h = 0;
    for (auto x : b.v) {
      h = pbt::mix(h ^ x);
    }
    return h;
  }
};
template <>
struct Kind<Base> {
  static uint64_t value(Base const& b) { return b.id; }
};
template <>
struct Kind<Derived> {
  static Derived gen(pbt::Case& c) {
    Derived d;
    d.id = c.uint(64);
    return d;
  }
  static uint64_t value(Base const& b) { return b.id; }
};
template <>
struct Kind<char const*> {
  static char const* gen(pbt::Case& c) {
    return "some text to point into" + c.draw(20);
  }
  static uint64_t value(char const* p) {
    return reinterpret_cast<uintptr_t>(p);
  }
};

// --- caller side of one parameter -------------------------------------------

template <typename P>
using bare = typename std::remove_cv<typename std::remove_reference<P>::type>::type;

template <typename P>
struct Source {
  using D = typename std::conditional<std::is_same<bare<P>, Base>::value,
                                      Derived, bare<P>>::type;
  D obj;
  uint64_t val;
  explicit Source(pbt::Case& c)
      : obj(Kind<D>::gen(c))
      , val{Kind<D>::value(obj)} {}
  P pass() { return static_cast<typename std::add_rvalue_reference<P>::type>(obj); }
  void const* address() { return static_cast<bare<P> const volatile*>(&obj) == nullptr ? nullptr : const_cast<bare<P> const*>(static_cast<bare<P> const volatile*>(&obj)); }
};

template <typename X> // X is a reference type
constexpr unsigned category() {
  using R = typename std::remove_reference<X>::type;
  return (std::is_lvalue_reference<X>::value ? 1u : 0u) |
         (std::is_const<R>::value ? 2u : 0u) |
         (std::is_volatile<R>::value ? 4u : 0u);
}

struct Seen {
  unsigned cat;
  void const* addr;
  uint64_t val;
  std::type_info const* type;
};

struct Log {
  std::vector<Seen> args;
  unsigned calls{0};
  bool as_const{false};
  uint64_t target_id{0};
  unsigned target_count{0};
  uint64_t ret{0}; // what to return
  bool consume{false};
  uint64_t consumed{0};
};
Log* L;

// --- what the target returns ------------------------------------------------

Obj* ref_obj;
Derived* ref_derived;

template <typename R>
struct Ret { // by value
  using Q = R;
  static Q make(uint64_t v) { return Q(static_cast<R>(v)); }
  static bool ok(R const& r, uint64_t v) { return r == static_cast<R>(v); }
};
template <>
struct Ret<Obj> {
  using Q = Obj;
  static Obj make(uint64_t v) { return Obj(v); }
  static bool ok(Obj const& r, uint64_t v) { return r.id == v && !r.gone; }
};
template <>
struct Ret<MoveOnly> {
  using Q = MoveOnly;
  static MoveOnly make(uint64_t v) { return MoveOnly(v); }
  static bool ok(MoveOnly const& r, uint64_t v) { return r.o.id == v; }
};
template <>
struct Ret<std::string> { // conversion from char const*
  using Q = char const*;
  static Q make(uint64_t v) { return "returned text" + v % 13; }
  static bool ok(std::string const& s, uint64_t v) {
    return s == "returned text" + v % 13;
  }
};
template <>
struct Ret<double> { // conversion from int
  using Q = int;
  static Q make(uint64_t v) { return static_cast<int>(v); }
  static bool ok(double d, uint64_t v) { return d == static_cast<int>(v); }
};
template <>
struct Ret<Obj&> {
  using Q = Obj&;
  static Q make(uint64_t) { return *ref_obj; }
  static bool ok(Obj& r, uint64_t) { return &r == ref_obj; }
};
template <>
struct Ret<Obj const&> {
  using Q = Obj&;
  static Q make(uint64_t) { return *ref_obj; }
  static bool ok(Obj const& r, uint64_t) { return &r == ref_obj; }
};
template <>
struct Ret<Obj&&> {
  using Q = Obj&&;
  static Q make(uint64_t) { return std::move(*ref_obj); }
  static bool ok(Obj&& r, uint64_t) { return &r == ref_obj && !r.gone; }
};
template <>
struct Ret<Base&> {
  using Q = Derived&;
  static Q make(uint64_t) { return *ref_derived; }
  static bool ok(Base& r, uint64_t) { return &r == ref_derived; }
};
template <>
struct Ret<Base*> {
  using Q = Derived*;
  static Q make(uint64_t) { return ref_derived; }
  static bool ok(Base* r, uint64_t) { return r == ref_derived; }
};
struct Discarded {
  Obj o;
  explicit Discarded(uint64_t v)
      : o(v) {}
};
template <>
struct Ret<void> {
  using Q = Obj; // something to discard
  static Q make(uint64_t v) { return Obj(v); }
};

// --- targets ----------------------------------------------------------------

template <typename A>
void observe(A&& a, unsigned cat) {
  L->args.push_back(
      {cat, static_cast<void const*>(std::addressof(a)),
       Kind<bare<A>>::value(a), &typeid(bare<A>)});
}

template <typename A,
          bool Movable = !std::is_lvalue_reference<A>::value &&
                         !std::is_const<typename std::remove_reference<A>::type>::value &&
                         std::is_move_constructible<bare<A>>::value>
struct Consume {
  static void go(typename std::remove_reference<A>::type& a) {
    if (L->consume) {
      bare<A> taken(std::move(a));
      L->consumed += Kind<bare<A>>::value(taken);
    }
  }
};
template <typename A>
struct Consume<A, false> {
  static void go(typename std::remove_reference<A>::type&) {}
};

template <typename R, size_t Pad>
struct Probe {
  Obj self;
  unsigned count{0};
  char pad[Pad];

  explicit Probe(uint64_t id)
      : self(id) {
    std::memset(pad, 0x3c, Pad);
  }

  bool intact() const {
    for (char x : pad) {
      if (x != 0x3c) {
        return false;
      }
    }
    return true;
  }

  template <typename... A>
  typename Ret<R>::Q operator()(A&&... a) {
    ++count;
    return work(false, std::forward<A>(a)...);
  }
  template <typename... A>
  typename Ret<R>::Q operator()(A&&... a) const {
    return work(true, std::forward<A>(a)...);
  }

  template <typename... A>
  typename Ret<R>::Q work(bool is_const, A&&... a) const {
    ++L->calls;
    L->as_const = is_const;
    L->target_id = self.gone || !W->live.count(&self) || !intact()
                       ? ~0ull
                       : self.id;
    L->target_count = count;
    int dummy[] = {0, (observe(std::forward<A>(a), category<A&&>()), 0)...};
    (void)dummy;
    int dummy2[] = {0, (Consume<A&&>::go(a), 0)...};
    (void)dummy2;
    return Ret<R>::make(L->ret);
  }
};

template <typename R>
struct Call {
  template <typename F, typename... P>
  static bool go(F& f, Source<P>&... s) {
    static_assert(std::is_same<decltype(f(s.pass()...)), R>::value,
                  "result type");
    return Ret<R>::ok(f(s.pass()...), L->ret);
  }
};
template <>
struct Call<void> {
  template <typename F, typename... P>
  static bool go(F& f, Source<P>&... s) {
    static_assert(std::is_same<decltype(f(s.pass()...)), void>::value,
                  "result type");
    f(s.pass()...);
    return true;
  }
};

void before(pbt::Case& c, Log& log) {
  W->error = nullptr;
  L = &log;
  log.ret = c.uint(32);
  log.consume = c.flip();
}

void after(pbt::Case& c, Log const& log, bool ok, uint64_t id, unsigned& count,
           bool is_const, size_t nargs, unsigned copies, size_t live) {
  PBT_CHECK(c, ok, "the result is not what the target returned");
  PBT_CHECK(c, log.calls == 1, "the target was called %u times", log.calls);
  PBT_CHECK(c, log.target_id == id, "not the stored target was called");
  if (!is_const) {
    ++count;
  }
  PBT_CHECK(c, log.target_count == count,
            "target state did not persist: %u calls, not %u", log.target_count,
            count);
  PBT_CHECK(c, log.as_const == is_const, "wrong call operator");
  PBT_CHECK(c, log.args.size() == nargs, "number of arguments");
  PBT_CHECK(c, !W->error, "%s", W->error);
  PBT_CHECK(c, W->copies == copies, "an argument or the result was copied");
  PBT_CHECK(c, W->live.size() <= live,
            "%zu objects are alive after the call, %zu before", W->live.size(),
            live);
}

void check_arg(pbt::Case& c, size_t i, Seen const& s, unsigned cat,
               std::type_info const& type, uint64_t val, void const* addr) {
  PBT_CHECK(c, s.cat == cat,
            "argument %zu arrived with value category/qualifiers %u instead of "
            "%u",
            i, s.cat, cat);
  PBT_CHECK(c, *s.type == type, "argument %zu has another type", i);
  PBT_CHECK(c, s.val == val, "argument %zu has another value", i);
  PBT_CHECK(c, !addr || s.addr == addr, "argument %zu is another object", i);
}

template <typename Fn, typename R, bool Const, typename... P>
struct Scenario {
  template <typename F>
  static void call(pbt::Case& c, F& f, uint64_t id, unsigned& count) {
    with(c, f, id, count, Source<P>(c)...);
  }
  template <typename F>
  static void with(pbt::Case& c, F& f, uint64_t id, unsigned& count,
                   Source<P>&&... src) {
    Log log;
    before(c, log);
    unsigned const copies = W->copies;
    size_t const live = W->live.size();
    bool ok = Call<R>::template go<F, P...>(f, src...);
    after(c, log, ok, id, count, Const, sizeof...(P), copies, live);
    size_t i = 0;
    int dummy[] = {0, (arg(c, i, log.args[i], src), ++i, 0)...};
    (void)dummy;
  }

  template <typename Q>
  static void arg(pbt::Case& c, size_t i, Seen const& s, Source<Q>& src) {
    check_arg(c, i, s, category<Q&&>(), typeid(bare<Q>), src.val,
              std::is_reference<Q>::value ? src.address() : nullptr);
  }

  static void run(pbt::Case& c) {
    World world;
    W = &world;
    {
      Obj ro(1);
      Derived rd;
      ref_obj = &ro;
      ref_derived = &rd;
      Fn fs[3];
      uint64_t ids[3];
      unsigned counts[3];
      size_t const n = static_cast<size_t>(c.range(1, 3));
      using Target = Probe<R, sizeof...(P) % 2 ? 3 : 40>;
      for (size_t i = 0; i < n; ++i) {
        fs[i] = Target(100 + i);
        ids[i] = 100 + i;
        counts[i] = 0;
      }
      size_t const steps = static_cast<size_t>(c.range(1, 8));
      for (size_t k = 0; k < steps; ++k) {
        size_t const i = static_cast<size_t>(c.draw(n));
        switch (c.weighted({6, 1, 1})) {
        case 0:
          // through const access where the signature allows it
          call(c,
               const_cast<typename std::conditional<Const, Fn const, Fn>::type&>(
                   fs[i]),
               ids[i], counts[i]);
          break;
        case 1: { // move the wrapper somewhere else and back
          Fn g(std::move(fs[i]));
          fs[i] = std::move(g);
          break;
        }
        default: {
          size_t const j = static_cast<size_t>(c.draw(n));
          if (i != j) {
            Fn g(std::move(fs[i]));
            fs[i] = std::move(fs[j]);
            fs[j] = std::move(g);
            std::swap(ids[i], ids[j]);
            std::swap(counts[i], counts[j]);
          }
        }
        }
      }
      if (steps > 2 && sizeof...(P) > 0) {
        c.nontrivial();
      }
    }
    PBT_CHECK(c, W->live.empty() && !W->error, "leak or double destruction");
  }
};

// --- the matrix of signatures -------------------------------------------------

using Entry = void (*)(pbt::Case&);
std::vector<Entry>& table() {
  static std::vector<Entry> t;
  return t;
}
std::vector<std::string>& names() {
  static std::vector<std::string> t;
  return t;
}
constexpr size_t Cap = 96;

template <typename R, typename... P>
void add() {
  table().push_back(&Scenario<function<R(P...), Cap>, R, false, P...>::run);
  names().push_back(typeid(R(P...)).name());
}
template <typename R, typename... P>
void addc() {
  table().push_back(&Scenario<function<R(P...) const, Cap>, R, true, P...>::run);
  names().push_back(std::string(typeid(R(P...)).name()) + " const");
}

template <typename...>
struct Types {};
using Params =
    Types<int, int&, int const&, int&&, Obj, Obj&, Obj const&, Obj&&,
          Obj const&&, MoveOnly, MoveOnly&, MoveOnly&&, std::unique_ptr<Obj>,
          std::string, std::string const&, Big, Base&, char const*, double,
          Color, std::string&&>;

template <typename... P>
void one_arg(Types<P...>) {
  int d[] = {0, (add<int, P>(), add<void, P>(), addc<Obj&, P>(), 0)...};
  (void)d;
}
template <typename R, typename First, typename... P>
void two_args(Types<P...>) {
  int d[] = {0, (add<R, First, P>(), 0)...};
  (void)d;
}

void build() {
  if (!table().empty()) {
    return;
  }
  Params p;
  one_arg(p);
  two_args<Obj, int>(p);
  two_args<MoveOnly, Obj>(p);
  two_args<double, Obj&&>(p);
  two_args<std::string, MoveOnly>(p);
  two_args<Base*, double>(p);
  two_args<Obj&&, std::string>(p);
  two_args<Obj const&, Obj const&>(p);
  add<int>();
  add<void>();
  add<Obj>();
  add<Obj&>();
  add<Obj const&>();
  add<Obj&&>();
  add<MoveOnly>();
  add<std::string>();
  add<double>();
  add<Base&>();
  add<Base*>();
  addc<int>();
  addc<void>();
  addc<Obj>();
  addc<Obj const&>();
  addc<MoveOnly>();
  addc<std::string>();
  addc<Base&>();
  add<Obj, Obj, Obj, Obj>();
  add<MoveOnly, MoveOnly, MoveOnly&&, MoveOnly&>();
  addc<Obj, Obj, Obj&&, Obj const&>();
  addc<MoveOnly, MoveOnly, std::unique_ptr<Obj>, int&&>();
  add<int, int, double, char const*, Color, float, bool, uint64_t>();
  add<Obj, Obj&, Obj&&, Obj, Obj const&, Obj const&&, MoveOnly, Big, int&>();
  addc<Obj const&, int, Obj, double, MoveOnly, Big, std::string, Base&>();
  add<void, Big, Big, Big>();
  add<uint64_t, double, double, double, double, double, double, double, double,
      double, int, int, int, int, int, int, int, int>();
}

PBT_PROP(signatures, 1000000, 30000000) {
  build();
  size_t const e = static_cast<size_t>(c.draw(table().size()));
  c.trace("signature %s;", names()[e].c_str());
  table()[e](c);
}

// --- every kind of callable, against a direct call ------------------------------

int free_fn(int a, int b) { return a * 31 + b; }
int free_noexcept(int a, int b) noexcept { return a * 37 - b; }
struct Funct {
  int k;
  int operator()(int a, int b) const { return a * k ^ b; }
};
struct Stateful {
  int k;
  int operator()(int a, int b) { return k = k * 3 + a - b; }
};
struct BothOps {
  int k;
  int operator()(int a, int b) { return k += a ^ b; }
  int operator()(int a, int b) const { return k - a - b; }
};
struct OnlyMove {
  std::unique_ptr<int> p;
  int operator()(int a, int b) { return (*p += a) + b; }
};
struct Defaulted {
  int operator()(int a, int b, int d = 5) const { return a + 7 * b + d; }
};
struct Widens {
  short operator()(long a, long b) const { return static_cast<short>(a - b); }
};
struct Templ {
  template <typename X, typename Y>
  long operator()(X x, Y y) const {
    return static_cast<long>(x) + 3 * static_cast<long>(y);
  }
};
struct Aggregate { // an aggregate: brace initialisation has to copy it
  Stateful inner;
  int operator()(int a, int b) { return inner(b, a); }
};
struct LvalueQual {
  int k;
  int operator()(int a, int b) & { return k++ + a + b; }
  int operator()(int, int) && { return -99; }
};

PBT_PROP(callables, 300000, 6000000) {
  // arithmetic wraps: parameters are kept small
  using F = function<int(int, int), 64>;
  using D = std::function<int(int, int)>; // the direct call
  int const k = static_cast<int>(c.range(-50, 50));
  F f;
  D d;
  int shared_f = k, shared_d = k;
  size_t const kind = static_cast<size_t>(c.draw(17));
  switch (kind) {
  case 0: f = free_fn; d = free_fn; break;
  case 1: f = &free_noexcept; d = &free_noexcept; break;
  case 2: f = Funct{k}; d = Funct{k}; break;
  case 3: f = Stateful{k}; d = Stateful{k}; break;
  case 4: f = BothOps{k}; d = BothOps{k}; break;
  case 5: {
    f = OnlyMove{std::unique_ptr<int>(new int(k))};
    auto p = std::make_shared<int>(k);
    d = [p](int a, int b) { return (*p += a) + b; };
    break;
  }
  case 6: f = Defaulted{}; d = Defaulted{}; break;
  case 7: f = Widens{}; d = Widens{}; break;
  case 8: f = Templ{}; d = Templ{}; break;
  case 9: f = Aggregate{{k}}; d = Aggregate{{k}}; break;
  case 10: f = LvalueQual{k}; d = LvalueQual{k}; break;
  case 11:
    f = [&](int a, int b) { return shared_f += a - b; };
    d = [&](int a, int b) { return shared_d += a - b; };
    break;
  case 12:
    f = [n = k](int a, int b) mutable { return n += a * b; };
    d = [n = k](int a, int b) mutable { return n += a * b; };
    break;
  case 13: {
    auto bound = std::bind(free_fn, std::placeholders::_2, k);
    f = bound;
    d = bound;
    break;
  }
  case 14: {
    Stateful const s{k}; // const lvalue: copied, called through mutable copy
    f = s;
    d = s;
    break;
  }
  case 15: {
    static Stateful sf, sd;
    sf.k = sd.k = k;
    f = std::ref(sf);
    d = std::ref(sd);
    break;
  }
  default: {
    D inner = Stateful{k};
    f = inner; // a std::function as target
    d = inner;
  }
  }
  size_t const n = static_cast<size_t>(c.range(1, 6));
  for (size_t i = 0; i < n; ++i) {
    int a = static_cast<int>(c.range(-9, 9)), b = static_cast<int>(c.range(-9, 9));
    if (c.chance(1, 4)) {
      F g(std::move(f));
      f = std::move(g);
    }
    int x = f(a, b), y = d(a, b);
    PBT_CHECK(c, x == y, "callable kind %zu, call %zu: %d instead of %d", kind,
              i, x, y);
  }
  PBT_CHECK(c, shared_f == shared_d, "captured reference");
  if (n > 1) {
    c.nontrivial();
  }
}

// --- call graphs: re-entrant and nested calls -------------------------------------

struct Graph {
  struct Op {
    size_t callee;
    int add;
    bool by_arg; // the callee is passed as argument
  };
  std::vector<std::vector<Op>> ops;
};
using Node = function<int(int, int&), 48>;
struct Net {
  Graph const* g;
  std::vector<Node> f;
  std::vector<int> state; // model: state of each target
};
Net* N;

struct Target {
  size_t i;
  int state;
  int operator()(int depth, int& budget) {
    state += depth;
    int r = state;
    if (depth > 0) {
      for (auto const& op : N->g->ops[i]) {
        if (budget <= 0) {
          break;
        }
        --budget;
        r = r * 3 + N->f[op.callee](depth - 1, budget) + op.add;
        state ^= op.add;
      }
    }
    return r + state;
  }
};

int model_call(size_t i, int depth, int& budget) {
  int& state = N->state[i];
  state += depth;
  int r = state;
  if (depth > 0) {
    for (auto const& op : N->g->ops[i]) {
      if (budget <= 0) {
        break;
      }
      --budget;
      int const sub = model_call(op.callee, depth - 1, budget);
      r = static_cast<int>(static_cast<unsigned>(r) * 3u +
                           static_cast<unsigned>(sub) +
                           static_cast<unsigned>(op.add));
      state ^= op.add;
    }
  }
  return static_cast<int>(static_cast<unsigned>(r) +
                          static_cast<unsigned>(state));
}

struct TargetU : Target { // without signed overflow
  int operator()(int depth, int& budget) {
    state += depth;
    int r = state;
    if (depth > 0) {
      for (auto const& op : N->g->ops[i]) {
        if (budget <= 0) {
          break;
        }
        --budget;
        int const sub = N->f[op.callee](depth - 1, budget);
        r = static_cast<int>(static_cast<unsigned>(r) * 3u +
                             static_cast<unsigned>(sub) +
                             static_cast<unsigned>(op.add));
        state ^= op.add;
      }
    }
    return static_cast<int>(static_cast<unsigned>(r) +
                            static_cast<unsigned>(state));
  }
};

PBT_PROP(call_graphs, 150000, 4000000) {
  Graph g;
  Net net;
  net.g = &g;
  N = &net;
  size_t const n = static_cast<size_t>(c.range(1, 4));
  bool selfcall = false;
  for (size_t i = 0; i < n; ++i) {
    g.ops.emplace_back();
    size_t const m = static_cast<size_t>(c.draw(4));
    for (size_t k = 0; k < m; ++k) {
      g.ops[i].push_back({static_cast<size_t>(c.draw(n)),
                          static_cast<int>(c.range(-3, 3)), false});
      selfcall |= g.ops[i].back().callee == i;
    }
    TargetU t;
    t.i = i;
    t.state = static_cast<int>(c.range(-5, 5));
    net.state.push_back(t.state);
    net.f.push_back(Node(t));
  }
  for (size_t k = 0, e = static_cast<size_t>(c.range(1, 4)); k < e; ++k) {
    size_t const i = static_cast<size_t>(c.draw(n));
    int const depth = static_cast<int>(c.draw(5));
    int b1 = 60, b2 = 60;
    int x = net.f[i](depth, b1);
    int y = model_call(i, depth, b2);
    PBT_CHECK(c, x == y && b1 == b2, "call graph: %d instead of %d", x, y);
  }
  if (selfcall) {
    PBT_LABEL("recursive");
    c.nontrivial();
  }
}

} // namespace
