"""F05: which callables a wrapper accepts, and which call operator runs.

An item is a signature (or a pair of them) and a generated callable type. The
expectation comes from the standard traits and from calling the target
directly; all of it is computed inside the generated program.
"""
from gen import Program

PRELUDE = r'''
#include <cstdio>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <embedded/function.h>
using embedded::function;
int g_op = -1;
template <class R> R result(int op);
struct S;
struct B { int b = 1; virtual ~B() = default;
  int f0() { return result<int>(70); } virtual long f1(int) const { return result<long>(71); } void f2(S const&) & { g_op = 72; } };
struct D : B { int d = 2; long f1(int) const override { return result<long>(73); } bool f3(int&, long) const noexcept { return result<bool>(74); } };
struct S { int v = 5; B* p = nullptr; int const k = 3; S() = default; S(int x) : v(x) {}
  S(S const& o) : v(o.v), p(o.p) {} S& operator=(S const& o) { v = o.v; p = o.p; return *this; }
  int f0() { return result<int>(75); } int f1() const { return result<int>(76); } int f2(int) & { return result<int>(77); }
  int f3(int) && { return result<int>(78); } void f4(long) const& noexcept { g_op = 79; } S& f5(S&) { g_op = 80; return *this; } bool f6(double) const&& { return result<bool>(81); } };
struct E { int v = 6; E() = default; explicit E(int x) : v(x) {} double f0(int = 1) const { return result<double>(82); } };
template <class R> R result(int op) { g_op = op; return R{}; }
struct V { operator int() const { return 3; } operator S() const { return S(4); } };
struct NoDefault { int x; };
enum En { e0, e1 };
enum class Ec { c0, c1 };
using UP = std::unique_ptr<int>;
using Str = std::string;
using FP = int (*)(int);
template <class R> struct Store { static typename std::decay<R>::type& get() { static typename std::decay<R>::type v{}; return v; } };
template <class R, bool Ref = std::is_reference<R>::value> struct Make {
  static R make() { return typename std::decay<R>::type{}; } };
template <class R> struct Make<R, true> { static R make() { return static_cast<R>(Store<R>::get()); } };
template <bool Ref> struct Make<void, Ref> { static void make() {} };
template <> struct Make<char const*, false> { static char const* make() { return ""; } };
template <> struct Make<B*, false> { static B* make() { static D d; return &d; } };
template <> struct Make<D*, false> { static D* make() { static D d; return &d; } };
template <class P> P make() { return Make<P>::make(); }

template <class Sig> struct Info;
template <class R_, class... P> struct Info<R_(P...)> {
  using R = R_;
  static constexpr bool is_const = false;
  template <class C> using Ref = C&;
  template <class C> static constexpr bool invocable = std::is_invocable_r<R, C&, P...>::value;
  template <class F> static constexpr bool callable = std::is_invocable<F, P...>::value;
  template <class F> static constexpr bool result_ok = std::is_same<std::invoke_result_t<F, P...>, R>::value;
  template <class F> static void call(F& f) { f(make<P>()...); }
};
template <class R_, class... P> struct Info<R_(P...) const> {
  using R = R_;
  static constexpr bool is_const = true;
  template <class C> using Ref = C const&;
  template <class C> static constexpr bool invocable = std::is_invocable_r<R, C const&, P...>::value;
  template <class F> static constexpr bool callable = std::is_invocable<F, P...>::value;
  template <class F> static constexpr bool result_ok = std::is_same<std::invoke_result_t<F, P...>, R>::value;
  template <class F> static void call(F& f) { f(make<P>()...); }
};

int failures = 0;
void expect(bool ok, int item, char const* what) {
  if (!ok) { ++failures; std::printf("FAIL item %d: %s\n", item, what); }
}

template <class C>
auto callee(C&& c) {
  if constexpr (std::is_member_pointer<C>::value) {
    return std::mem_fn(c);
  } else {
    return std::move(c);
  }
}

template <class Sig, class C>
void check(int item, C (*factory)()) {
  using I = Info<Sig>;
  using F = function<Sig, 64, 16>;
  using DF = function<Sig>;
  constexpr bool ok = I::template invocable<C>;
  constexpr bool copy = std::is_copy_constructible<C>::value;
  expect(std::is_constructible<F, C>::value == ok, item, "is_constructible from an rvalue");
  expect(std::is_constructible<DF, C>::value == ok, item, "is_constructible (default capacity)");
  expect(std::is_convertible<C, F>::value == ok, item, "is_convertible from an rvalue");
  expect(std::is_assignable<F&, C>::value == ok, item, "is_assignable from an rvalue");
  if (copy) {
    expect(std::is_constructible<F, C&>::value == ok, item, "is_constructible from an lvalue");
    expect(std::is_constructible<F, C const&>::value == ok, item, "is_constructible from a const lvalue");
    expect(std::is_assignable<F&, C const&>::value == ok, item, "is_assignable from a const lvalue");
  }
  expect(!std::is_copy_constructible<F>::value && !std::is_copy_assignable<F>::value, item, "copyable");
  expect(!std::is_constructible<F, F&>::value && !std::is_constructible<F, F const&&>::value, item, "copyable from a non-const or const rvalue wrapper");
  expect(!std::is_assignable<F&, F&>::value && !std::is_assignable<F&, F const&&>::value, item, "copy-assignable from a non-const or const rvalue wrapper");
  expect(std::is_nothrow_move_constructible<F>::value && std::is_nothrow_move_assignable<F>::value, item, "not movable");
  expect(std::is_nothrow_default_constructible<F>::value && std::is_constructible<F, std::nullptr_t>::value, item, "not default constructible");
  expect(I::template callable<F&>, item, "not callable");
  expect(I::template callable<F const&> == I::is_const, item, "callable through const access");
  expect(I::template callable<F>, item, "an rvalue is not callable");
  if constexpr (I::template callable<F&>) {
    expect(I::template result_ok<F&>, item, "result type");
  }
  if constexpr (I::is_const && I::template callable<F const&>) {
    expect(I::template result_ok<F const&>, item, "result type through const access");
  }
  if constexpr (ok && std::is_constructible<F, C>::value) {
    auto direct = callee(factory());
    g_op = -1;
    typename I::template Ref<decltype(direct)> ref = direct;
    I::call(ref);
    int const want = g_op;
    F f(factory());
    g_op = -1;
    I::call(f);
    expect(g_op == want, item, "another call operator runs");
    if constexpr (I::is_const) {
      F const& cf = f;
      g_op = -1;
      I::call(cf);
      expect(g_op == want, item, "another call operator runs through const access");
    }
    F g;
    g = factory();
    F h(std::move(g));
    g_op = -1;
    I::call(h);
    expect(g_op == want, item, "another call operator runs after moves");
  }
}

template <class S1, class S2> struct Over {
  int operator()(function<S1, 64, 16>) const { return 1; }
  int operator()(function<S2, 64, 16>) const { return 2; }
};
template <class S1, class S2, class C>
void overload(int item, C (*factory)()) {
  constexpr bool a = Info<S1>::template invocable<C>, b = Info<S2>::template invocable<C>;
  constexpr bool resolves = std::is_invocable<Over<S1, S2> const&, C>::value;
  expect(resolves == (a != b), item, "overload resolution");
  if constexpr (resolves && a != b) {
    expect(Over<S1, S2>{}(factory()) == (a ? 1 : 2), item, "overload resolution chose the wrong signature");
  }
}
'''

VALUES = ['int', 'long', 'double', 'bool', 'S', 'E', 'V', 'Str', 'UP', 'B', 'D', 'En', 'Ec', 'char const*', 'D*', 'B*', 'unsigned char']
PARAMS = VALUES + ['int&', 'int const&', 'int&&', 'S&', 'S const&', 'S&&', 'Str const&', 'Str&&', 'UP&&', 'UP&', 'B&', 'B const&',
                   'D&', 'D const&', 'long const&', 'V const&', 'E&&', 'FP']
RESULTS = ['void', 'void'] + VALUES + ['int&', 'int const&', 'S&', 'S const&', 'S&&', 'B&', 'D&', 'B const&']
# a const static cannot be bound mutable etc.; related types so that conversions matter
GROUPS = [['int', 'int&', 'int const&', 'int&&', 'long', 'bool', 'S', 'E', 'V', 'double', 'S const&', 'long const&', 'En', 'unsigned char'],
          ['B', 'D', 'B&', 'D&', 'B const&', 'D const&'], ['UP', 'UP&&', 'UP&'], ['Str', 'Str const&', 'Str&&', 'char const*'],
          ['S', 'S&', 'S const&', 'S&&', 'int', 'V', 'V const&'], ['D*', 'B*'], ['E', 'E&&', 'int'], ['Ec', 'int', 'En'], ['FP', 'int']]


def related(rng, t, pool):
    g = [x for grp in GROUPS if t in grp for x in grp if x in pool]
    return rng.choice(g) if g and rng.random() < 0.85 else (t if t in pool and rng.random() < 0.6 else rng.choice(pool))


def signature(rng):
    n = rng.choice([0, 1, 1, 1, 2, 2, 3])
    return (rng.choice(RESULTS), tuple(rng.choice(PARAMS) for _ in range(n)), rng.random() < 0.5)


def sig(s):
    return '%s(%s)%s' % (s[0], ', '.join(s[1]), ' const' if s[2] else '')


# pointers to members, with the objects they apply to and a signature they have
MEMBERS = [('B::b', 'B', 'int', ()), ('B::f0', 'B', 'int', ()), ('B::f1', 'B', 'long', ('int',)), ('B::f2', 'B', 'void', ('S const&',)),
           ('D::d', 'D', 'int', ()), ('D::f1', 'D', 'long', ('int',)), ('D::f3', 'D', 'bool', ('int&', 'long')),
           ('S::v', 'S', 'int', ()), ('S::p', 'S', 'B*', ()), ('S::k', 'S', 'int', ()), ('S::f0', 'S', 'int', ()), ('S::f1', 'S', 'int', ()),
           ('S::f2', 'S', 'int', ('int',)), ('S::f3', 'S', 'int', ('int',)), ('S::f4', 'S', 'void', ('long',)), ('S::f5', 'S', 'S&', ('S&',)),
           ('S::f6', 'S', 'bool', ('double',)), ('E::v', 'E', 'int', ()), ('E::f0', 'E', 'double', ('int',))]
OBJECTS = {'B': ['B&', 'B const&', 'B*', 'D&', 'D*', 'B', 'D const&'], 'D': ['D&', 'D const&', 'D*', 'B&', 'B*', 'D'],
           'S': ['S&', 'S const&', 'S&&', 'S', 'V', 'int'], 'E': ['E&&', 'E', 'int']}


def member(rng, idx):
    """A pointer to a member, and a signature close to what it can be called as."""
    m, cls, res, par = rng.choice(MEMBERS)
    p = [rng.choice(OBJECTS[cls]) if rng.random() < 0.9 else rng.choice(PARAMS)] + [x if rng.random() < 0.7 else related(rng, x, PARAMS) for x in par]
    if rng.random() < 0.1:
        p = p[:-1] if rng.random() < 0.5 else p + [rng.choice(PARAMS)]
    r = 'void' if rng.random() < 0.2 else related(rng, res, RESULTS) if rng.random() < 0.5 else res
    return (r, tuple(p), rng.random() < 0.5), 'using C%d = decltype(&%s);' % (idx, m), 'C%d' % idx, '&' + m


def callable_for(rng, s, idx):
    """Source of a callable type somewhat close to the signature."""
    def params():
        p = [a if rng.random() < 0.7 else related(rng, a, PARAMS) for a in s[1]]
        if rng.random() < 0.08:
            if p and rng.random() < 0.5:
                p.pop()
            else:
                p.append(rng.choice(PARAMS))
        return p

    def result():
        if s[0] == 'void':
            return rng.choice(RESULTS)
        r = s[0] if rng.random() < 0.75 else related(rng, s[0], RESULTS)
        return 'void' if rng.random() < 0.05 else r
    kind = rng.choice(['functor'] * 8 + ['pointer', 'lambda', 'lambda', 'mutable_lambda', 'template', 'noncallable', 'moveonly', 'base'])
    name = 'C%d' % idx
    if kind == 'noncallable':
        return 'struct %s { int x = 0; int call(int) { return 1; } };' % name, name, '%s{}' % name
    if kind == 'pointer':
        p, r = params(), result()
        nx = rng.choice(['', ' noexcept'])
        ptypes = ', '.join(p)
        return ('%s fn%d(%s)%s { g_op = 1; return make<%s>(); }\nusing %s = %s (*)(%s)%s;' % (r, idx, ptypes, nx, r, name, r, ptypes, nx),
                name, '&fn%d' % idx)
    if kind in ('lambda', 'mutable_lambda'):
        p, r = params(), result()
        return ('auto lam%d() { return [k = %d](%s) %s-> %s { g_op = 10 + k; return make<%s>(); }; }\nusing %s = decltype(lam%d());' % (
            idx, idx % 7, ', '.join(p), 'mutable ' if kind == 'mutable_lambda' else '', r, r, name, idx), name, 'lam%d()' % idx)
    if kind == 'template':
        cq = rng.choice(['', ' const', ' const', ' &', ' const&', ' &&'])
        r = result()
        n = len(s[1]) if rng.random() < 0.85 else rng.randrange(4)
        tps = ['class T%d' % i for i in range(n)]
        ps = ['T%d%s' % (i, rng.choice(['&&', '&&', '', ' const&', '&'])) for i in range(n)]
        body = '%s operator()(%s)%s { g_op = 30; return make<%s>(); }' % (r, ', '.join(ps), cq, r)
        if tps:
            body = 'template <%s> %s' % (', '.join(tps), body)
        return 'struct %s { %s };' % (name, body), name, '%s{}' % name
    quals = ['', ' const', ' &', ' const&', ' &&', ' const&&', ' noexcept', ' const noexcept', ' volatile']
    ops, seen = [], set()
    k = rng.choice([1, 1, 2, 2, 3])
    refq = rng.random() < 0.25  # ref-qualified and unqualified overloads must not be mixed
    base_params = params()
    for i in range(k):
        p = base_params if rng.random() < 0.7 else params()
        q = rng.choice([' &', ' const&', ' &&', ' const&&'] if refq else ['', '', ' const', ' const', ' noexcept', ' const noexcept', ' volatile'])
        if s[2] and not refq and rng.random() < 0.5:
            q = ' const'
        key = (tuple(x for x in p), q.replace(' noexcept', ''))
        if key in seen:
            continue
        seen.add(key)
        r = result()
        ops.append('  %s operator()(%s)%s { g_op = %d; return make<%s>(); }' % (r, ', '.join(p), q, 50 + i, r))
    if rng.random() < 0.08 and len(ops) > 1:
        ops[-1] = ops[-1].split(' { ')[0] + ' = delete;'
    extra = ''
    if kind == 'moveonly':
        extra = '  %s() = default; %s(%s&&) noexcept = default; UP p;\n' % (name, name, name)
    if kind == 'base':
        return ('struct %sBase {\n%s\n};\nstruct %s : %s %sBase { %s };' % (
            name, '\n'.join(ops), name, rng.choice(['public', 'public', 'private']), name,
            'int k = 0;'), name, '%s()' % name)
    return 'struct %s {\n%s%s\n};' % (name, extra, '\n'.join(ops)), name, '%s{}' % name


def build(items):
    out = [PRELUDE]
    main = []
    for it in items:
        idx, decl, name, make, sigs = it
        out.append('namespace i%d {\n%s\n%s factory() { return %s; }\n}' % (idx, decl, name, make))
        if len(sigs) == 1:
            main.append('  check<%s, i%d::%s>(%d, &i%d::factory);' % (sigs[0], idx, name, idx, idx))
        else:
            main.append('  overload<%s, %s, i%d::%s>(%d, &i%d::factory);' % (sigs[0], sigs[1], idx, name, idx, idx))
    return '\n'.join(out) + '\nint main() {\n%s\n  return failures != 0;\n}\n' % '\n'.join(main)


def generate(rng, ctx):
    progs = []
    for k in range(96 if ctx.thorough else 28):
        items = []
        for i in range(60):
            s = signature(rng)
            if rng.random() < 0.15:
                s, decl, name, make = member(rng, i)
            else:
                decl, name, make = callable_for(rng, s, i)
            if rng.random() < 0.2:
                o = signature(rng)
                if rng.random() < 0.6:
                    o = (o[0] if rng.random() < 0.3 else s[0], tuple(related(rng, p, PARAMS) for p in s[1][:rng.choice([3, 3, 1, 0])]), rng.random() < 0.5)
                if o == s:
                    o = (s[0], s[1], not s[2])
                sigs = (sig(s), sig(o))
            else:
                sigs = (sig(s),)
            items.append((i, decl, name, make, sigs))
        progs.append(Program('signatures and callables #%d' % k, items, build,
                             ['-w', '-O0', '-std=gnu++%d' % rng.choice([17, 20])], cc=rng.choice([['g++'], ['g++'], ['clang++']])))
    return progs
