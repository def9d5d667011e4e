// F03: empty wrappers, failing targets and member pointers.
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>

#include <embedded/function.h>

#include "pbt.h"

using embedded::function;

namespace {

struct Err {
  int code;
  void const* origin; // where it was thrown
};
struct MoreErr : Err {
  std::string text;
  MoreErr(int c, void const* o, std::string t)
      : Err{c, o}
      , text(std::move(t)) {}
};

// A target that counts its calls and fails when told to.
struct Plan {
  int kind{0}; // 0: return
  unsigned calls{0};
};
struct Failing {
  Plan* plan;
  int state;
  std::shared_ptr<int> token;
  int operator()(int a) {
    ++plan->calls;
    ++state;
    switch (plan->kind) {
    case 1: throw Err{a, plan};
    case 2: throw MoreErr(a, plan, std::string(30, 'x'));
    case 3: throw std::runtime_error("told to");
    case 4: throw a;
    case 5: throw std::bad_function_call();
    case 6: throw std::unique_ptr<int>(new int(a));
    }
    return state * 100 + a;
  }
};

enum class Out { value, err, more, runtime, integer, bad_call, ptr, other };

template <typename F>
Out observe(F& f, int a, int& result) {
  try {
    result = f(a);
    return Out::value;
  } catch (MoreErr const& e) {
    result = e.text == std::string(30, 'x') ? e.code : ~a;
    return Out::more;
  } catch (Err const& e) {
    result = e.code;
    return Out::err;
  } catch (std::runtime_error const& e) {
    result = e.what() == std::string("told to") ? a : ~a;
    return Out::runtime;
  } catch (std::bad_function_call const&) {
    result = a;
    return Out::bad_call;
  } catch (int e) {
    result = e;
    return Out::integer;
  } catch (std::unique_ptr<int> const& e) {
    result = *e;
    return Out::ptr;
  } catch (...) {
    return Out::other;
  }
}

// Runs something in a destructor while another exception is on its way.
template <typename Fn>
void while_unwinding(Fn const& fn) {
  struct Unwound {};
  struct D {
    Fn const& fn;
    ~D() { fn(); }
  };
  try {
    D d{fn};
    throw Unwound{};
  } catch (Unwound const&) {
  }
}

struct S {
  int x{0};
  int m(int a) { return x += a; }
};

PBT_PROP(emptiness, 200000, 10000000) {
  using F = function<int(int), 64>;
  constexpr size_t n = 3;
  F f[n];
  bool full[n] = {};
  int state[n] = {}, calls = 0;
  Plan plan;
  auto token = std::make_shared<int>(0);
  bool failed = false, reused = false, empty_called = false;
  auto make = [&](int s) { return Failing{&plan, s, token}; };
  size_t const steps = static_cast<size_t>(c.range(1, 24));
  for (size_t k = 0; k < steps; ++k) {
    size_t const i = static_cast<size_t>(c.draw(n)), j = static_cast<size_t>(c.draw(n));
    switch (c.weighted({8, 4, 4, 2, 2, 2, 2, 2})) {
    case 0: { // call
      int const a = static_cast<int>(c.range(-50, 50));
      plan.kind = c.chance(1, 2) ? static_cast<int>(c.range(1, 6)) : 0;
      bool const unwinding = c.chance(1, 8);
      c.trace("call %zu (outcome %d)%s; ", i, plan.kind,
              unwinding ? " during unwinding" : "");
      int r = 0;
      Out o = Out::other;
      if (unwinding) {
        while_unwinding([&] { o = observe(f[i], a, r); });
      } else {
        o = observe(f[i], a, r);
      }
      if (!full[i]) {
        empty_called = true;
        PBT_LABEL("call of an empty wrapper");
        PBT_CHECK(c, o == Out::bad_call,
                  "calling an empty wrapper does not throw bad_function_call");
        break;
      }
      ++calls;
      ++state[i];
      Out const want[] = {Out::value,   Out::err,      Out::more, Out::runtime,
                          Out::integer, Out::bad_call, Out::ptr};
      PBT_CHECK(c, o == want[plan.kind],
                "outcome %d of the target reached the caller as %d", plan.kind,
                static_cast<int>(o));
      PBT_CHECK(c, r == (plan.kind ? a : state[i] * 100 + a),
                "result or exception contents: %d", r);
      if (plan.kind) {
        failed = true;
        PBT_LABEL("failing target");
      } else if (failed) {
        reused = true;
      }
      break;
    }
    case 1:
      state[i] = static_cast<int>(c.range(0, 9));
      c.trace("%zu = target; ", i);
      f[i] = make(state[i]);
      full[i] = true;
      break;
    case 2:
      c.trace("%zu = move(%zu); ", i, j);
      f[i] = std::move(f[j]);
      if (i != j) {
        full[i] = full[j];
        state[i] = state[j];
        full[j] = false;
      }
      break;
    case 3:
      c.trace("%zu = nullptr; ", i);
      f[i] = nullptr;
      full[i] = false;
      break;
    case 4:
      c.trace("%zu = F(); ", i);
      f[i] = F();
      full[i] = false;
      break;
    case 5:
      c.trace("%zu = F(nullptr); ", i);
      f[i] = F(nullptr);
      full[i] = false;
      break;
    case 6: {
      F g(std::move(f[i]));
      PBT_CHECK(c, !f[i] && static_cast<bool>(g) == full[i],
                "move construction");
      f[j] = std::move(g);
      PBT_CHECK(c, !g, "moved-from wrapper converts to true");
      bool const t = full[i];
      int const s = state[i];
      full[i] = false;
      full[j] = t;
      state[j] = s;
      break;
    }
    default:
      std::swap(f[i], f[j]);
      std::swap(full[i], full[j]);
      std::swap(state[i], state[j]);
    }
    long held = 1;
    for (size_t x = 0; x < n; ++x) {
      F const& cf = f[x];
      PBT_CHECK(c, static_cast<bool>(cf) == full[x],
                "wrapper %zu converts to %d", x, static_cast<bool>(cf));
      PBT_CHECK(c, !cf == !full[x] && (cf ? full[x] : !full[x]),
                "wrapper %zu in a condition", x);
      held += full[x];
    }
    PBT_CHECK(c, token.use_count() == held, "%ld targets alive instead of %ld",
              token.use_count() - 1, held - 1);
    PBT_CHECK(c, plan.calls == static_cast<unsigned>(calls),
              "number of target calls");
  }
  if ((failed && reused) || empty_called) {
    c.nontrivial();
  }
}

// Empty wrappers of other signatures.
template <typename F, typename... A>
void empty_one(pbt::Case& c, A&&... a) {
  F d, n(nullptr), m(std::move(d)), x;
  x = nullptr;
  for (F* f : {&d, &n, &m, &x}) {
    PBT_CHECK(c, !*f, "an empty wrapper converts to true");
    bool thrown = false;
    auto call = [&] {
      thrown = false;
      try {
        (void)(*f)(std::forward<A>(a)...);
      } catch (std::bad_function_call const&) {
        thrown = true;
      } catch (...) {
      }
    };
    call();
    PBT_CHECK(c, thrown, "no bad_function_call");
    while_unwinding(call);
    PBT_CHECK(c, thrown, "no bad_function_call during unwinding");
    PBT_CHECK(c, !*f, "an empty wrapper converts to true after a call");
  }
}

PBT_ENUM(empty_signatures, 1, 1) {
  c.draw(1);
  int i = 7;
  std::unique_ptr<int> p(new int(5));
  std::string s("abc");
  empty_one<function<void()>>(c);
  empty_one<function<void() const>>(c);
  empty_one<function<int&(int&)>>(c, i);
  empty_one<function<std::string(std::string const&)>>(c, s);
  empty_one<function<std::string(std::string&&) const>>(c, std::move(s));
  PBT_CHECK(c, s == "abc", "an empty wrapper consumed its argument");
  empty_one<function<void(std::unique_ptr<int>&&)>>(c, std::move(p));
  PBT_CHECK(c, p && *p == 5, "an empty wrapper consumed its argument");
  empty_one<function<double(double, int), 1, 1>>(c, 1.0, 2);
  empty_one<function<int&&(int), 200, 64>>(c, 2);
  c.nontrivial();
}

// --- member pointers -------------------------------------------------------------

struct VBase {
  int tag{3};
  virtual ~VBase() = default;
  virtual int virt(int a) const { return a + 1000 + tag; }
};
struct Left : virtual VBase {
  int left{1};
  int lm(int a) { return left += a; }
};
struct Right : virtual VBase {
  int right{2};
  int virt(int a) const override { return a + 2000 + right; }
};
struct Both : Left, Right {
  int own{4};
  std::string text{"text"};
  int (*fp)(int){nullptr};
  int cm(int a) const { return own * a; }
  int nx(int a) noexcept { return own - a; }
  int over(int a) { return a + 1; }
  int over(std::string const& s) { return static_cast<int>(s.size()); }
  int lref(int a) & { return own += a; }
  int virt(int a) const override { return a + 4000 + own; }
  Both& self() { return *this; }
  std::unique_ptr<int> take(std::unique_ptr<int> p) {
    *p += own;
    return p;
  }
  void set(int v) { own = v; }
};

PBT_PROP(member_functions, 100000, 5000000) {
  Both o, twin;
  int last = 0;
  size_t const steps = static_cast<size_t>(c.range(1, 10));
  for (size_t k = 0; k < steps; ++k) {
    int const a = static_cast<int>(c.range(-20, 20));
    size_t const kind = static_cast<size_t>(c.draw(15));
    unsigned const null = static_cast<unsigned>(c.draw(4)); // 0, 1, 2: not null
    bool const assign = c.flip();
    c.trace("kind %zu null %u assign %d arg %d; ", kind, null, assign, a);
#define WITH(Sig, PM, CALL, DIRECT)                                            \
  {                                                                            \
    using F = function<Sig, 32>;                                               \
    auto pm = PM;                                                              \
    decltype(pm) np = nullptr;                                                 \
    F f;                                                                       \
    if (assign) {                                                              \
      if (null == 1) {                                                         \
        f = np;                                                                \
        PBT_CHECK(c, !f, "a null member pointer is a target");                 \
      }                                                                        \
      f = pm;                                                                  \
      if (null == 3) {                                                         \
        f = np;                                                                \
      }                                                                        \
    } else {                                                                   \
      F g(null == 3 ? np : pm);                                                \
      f = std::move(g);                                                        \
    }                                                                          \
    PBT_CHECK(c, static_cast<bool>(f) == (null != 3),                          \
              "wrapper of a %s member pointer converts to %d",                 \
              null == 3 ? "null" : "non-null", static_cast<bool>(f));          \
    if (null == 3) {                                                           \
      bool thrown = false;                                                     \
      try {                                                                    \
        (void)(CALL);                                                          \
      } catch (std::bad_function_call const&) {                                \
        thrown = true;                                                         \
      }                                                                        \
      PBT_CHECK(c, thrown, "null member pointer: no bad_function_call");       \
    } else {                                                                   \
      auto&& x = CALL;                                                         \
      auto&& y = DIRECT;                                                       \
      PBT_CHECK(c, x == y, "member pointer kind %zu: wrong result", kind);     \
      last += 1;                                                               \
    }                                                                          \
    break;                                                                     \
  }
    switch (kind) {
    case 0: WITH(int(Both&, int), &Both::cm, f(o, a), twin.cm(a))
    case 1: WITH(int(Both const&, int) const, &Both::cm, f(o, a), twin.cm(a))
    case 2: WITH(int(Both*, int), &Both::nx, f(&o, a), twin.nx(a))
    case 3:
      WITH(int(Both&, int), static_cast<int (Both::*)(int)>(&Both::over),
           f(o, a), twin.over(a))
    case 4: WITH(int(Both&, int), &Both::lref, f(o, a), twin.lref(a))
    case 5: WITH(int(Both&, int), &Left::lm, f(o, a), twin.lm(a))
    case 6: WITH(int(VBase const&, int), &VBase::virt, f(o, a), twin.virt(a))
    case 7: WITH(int(Right const&, int), &VBase::virt, f(o, a), twin.virt(a))
    case 8: WITH(int&(Both&), &Both::own, f(o), twin.own)
    case 9: WITH(int(Both const*), &Both::own, f(&o), twin.own)
    case 10: WITH(std::string const&(Both const&) const, &Both::text, f(o), twin.text)
    case 11: WITH(int&(Both*), &Left::left, f(&o) += a, twin.left += a)
    case 12: {
      std::reference_wrapper<Both> ref(o);
      WITH(int(std::reference_wrapper<Both>, int), &Both::cm, f(ref, a), twin.cm(a))
    }
    case 13: {
      std::shared_ptr<Both> sp(&o, [](Both*) {});
      WITH(int(std::shared_ptr<Both> const&, int), &Both::lref, f(sp, a), twin.lref(a))
    }
    default: {
      function<Both&(Both&)> f(&Both::self);
      PBT_CHECK(c, &f(o) == &o, "reference to the object");
      function<int&(Both&)> g(&Both::own);
      PBT_CHECK(c, &g(o) == &o.own, "reference to the member");
      g(o) = a;
      twin.own = a;
      function<void(Both&, int)> h(&Both::set);
      h(o, a + 1);
      twin.set(a + 1);
      function<std::unique_ptr<int>(Both&, std::unique_ptr<int>)> t(&Both::take);
      auto p = t(o, std::unique_ptr<int>(new int(a)));
      PBT_CHECK(c, p && *p == a + o.own, "move-only argument and result");
      function<void(Both&)> d(&Both::own); // the value is discarded
      d(o);
    }
    }
    PBT_CHECK(c, o.own == twin.own && o.left == twin.left &&
                     o.right == twin.right && o.text == twin.text,
              "the object's state differs after kind %zu", kind);
  }
  if (last > 1) {
    c.nontrivial();
  }
}

// A target that throws in the middle of nested calls leaves all usable.
PBT_PROP(nested_failures, 60000, 3000000) {
  using F = function<int(int), 48>;
  size_t const depth = static_cast<size_t>(c.range(1, 6));
  std::vector<F> fs(depth);
  std::vector<int> count(depth, 0), want(depth, 0);
  size_t fail_at = depth, catch_at = depth;
  for (size_t i = 0; i < depth; ++i) {
    fs[i] = [&, i](int a) -> int {
      ++count[i];
      if (i == fail_at) {
        throw Err{a, &fail_at};
      }
      int r = static_cast<int>(i);
      if (i + 1 < fs.size()) {
        if (i == catch_at) {
          try {
            r += fs[i + 1](a + 1);
          } catch (Err const& e) {
            r += 1000 + e.code;
          }
        } else {
          r += fs[i + 1](a + 1);
        }
      }
      return r;
    };
  }
  auto model = [&](int a, int& r) { // true: returned
    r = 0;
    size_t last = depth;
    bool const fails = fail_at < depth;
    for (size_t i = 0; i < depth; ++i) {
      ++want[i];
      if (i == fail_at) {
        last = i;
        break;
      }
    }
    if (!fails) {
      for (size_t i = 0; i < depth; ++i) {
        r += static_cast<int>(i);
      }
      return true;
    }
    if (catch_at < last) {
      for (size_t i = 0; i <= catch_at; ++i) {
        r += static_cast<int>(i);
      }
      r += 1000 + a + static_cast<int>(last);
      return true;
    }
    r = a + static_cast<int>(last);
    return false;
  };
  bool some = false;
  for (size_t k = 0, e = static_cast<size_t>(c.range(1, 5)); k < e; ++k) {
    fail_at = static_cast<size_t>(c.draw(depth + 1));
    catch_at = static_cast<size_t>(c.draw(depth + 1));
    int const a = static_cast<int>(c.range(0, 9));
    int x = 0, y = 0;
    bool rx = true;
    try {
      x = fs[0](a);
    } catch (Err const& err) {
      rx = false;
      x = err.code;
      PBT_CHECK(c, err.origin == &fail_at, "another exception");
    }
    bool const ry = model(a, y);
    PBT_CHECK(c, rx == ry && x == y, "nested failure: %d/%d instead of %d/%d",
              rx, x, ry, y);
    PBT_CHECK(c, count == want, "number of calls");
    for (auto& f : fs) {
      PBT_CHECK(c, static_cast<bool>(f), "a wrapper became empty");
    }
    some |= fail_at < depth;
  }
  if (some) {
    c.nontrivial();
  }
}

// A callable whose copy fails: the exception is the caller's, the assigned
// wrapper keeps its target and nothing is left behind.
struct Brittle {
  Plan* plan;
  int state;
  std::shared_ptr<int> token;
  Brittle(Plan* p, int s, std::shared_ptr<int> t)
      : plan{p}
      , state{s}
      , token(std::move(t)) {}
  Brittle(Brittle const& o)
      : plan{o.plan}
      , state{o.state}
      , token(o.token) {
    switch (plan->kind) {
    case 1: throw Err{state, plan};
    case 2: throw MoreErr(state, plan, std::string(30, 'x'));
    case 3: throw std::runtime_error("told to");
    case 4: throw state;
    case 5: throw std::bad_function_call();
    case 6: throw std::unique_ptr<int>(new int(state));
    }
  }
  Brittle(Brittle&&) noexcept = default;
  int operator()(int a) const { return state * 100 + a; }
};

template <typename F>
void failing_copy(pbt::Case& c) {
  auto token = std::make_shared<int>(0);
  Plan plan;
  {
    static Out const want[] = {Out::value,   Out::err,      Out::more, Out::runtime,
                               Out::integer, Out::bad_call, Out::ptr};
    F f;
    int held = -1; // the state of its target
    bool failed = false, kept = false;
    for (int n = static_cast<int>(c.range(1, 10)); n > 0; --n) {
      int const s = static_cast<int>(c.range(0, 99));
      Brittle b(&plan, s, token);
      Brittle const cb(&plan, s, token);
      plan.kind = c.flip() ? 0 : static_cast<int>(c.range(1, 6));
      int const how = static_cast<int>(c.draw(6));
      bool const copies = how < 4; // the others move
      c.trace(" %s%d", plan.kind ? "failing" : "good", how);
      int r = s;
      auto make = [&](int x) {
        switch (how) {
        case 0: f = b; return x;
        case 1: f = cb; return x;
        case 2: { F g(b); f = std::move(g); return x; }
        case 3: { F g{cb}; f = std::move(g); return x; }
        case 4: f = std::move(b); return x;
        default: f = Brittle(&plan, x, token); return x;
        }
      };
      Out const o = observe(make, s, r);
      bool const fails = copies && plan.kind;
      PBT_CHECK(c, o == want[fails ? plan.kind : 0] && r == s,
                "copying a callable %s, but the result is %d instead of %d", fails ? "fails" : "succeeds",
                static_cast<int>(o), static_cast<int>(want[fails ? plan.kind : 0]));
      if (fails) {
        failed = true;
        kept = kept || held >= 0;
      } else {
        held = s;
      }
      plan.kind = 0;
      PBT_CHECK(c, static_cast<bool>(f) == (held >= 0), "a failed copy changed whether there is a target");
      if (held >= 0) {
        PBT_CHECK(c, f(7) == held * 100 + 7, "a failed copy changed the target");
      }
    }
    if (failed && kept) {
      c.nontrivial();
    }
  }
  PBT_CHECK(c, token.use_count() == 1, "a failed copy left something behind or destroyed too much");
}

PBT_PROP(failing_copies, 60000, 3000000) {
  c.flip() ? failing_copy<function<int(int), 48>>(c) : failing_copy<function<int(int) const, 32, 16>>(c);
}

} // namespace
