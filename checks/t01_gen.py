"""T01: type-level utilities against their definitions.

An item is one instantiation. Sequences, ranges, packs and lists are computed
here in Python and compared as types; conjunction is also compared with an
independent recursion and, from C++17, with std; is_invocable_r is compared
with the standard library's INVOKE machinery, in every language mode.
"""
import re

from gen import Program

PRELUDE = r'''
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <embedded/type_traits.h>
#include <embedded/typelist.h>
#include <embedded/utility/integer_sequence.h>
namespace e = embedded;
template <class A, class B> struct same { static_assert(std::is_same<A, B>::value, "types differ"); };

// the sequence a type derives from (or is)
template <class T, T... I> e::integer_sequence<T, I...> as_sequence(e::integer_sequence<T, I...> const&);
template <class S> using seq = decltype(as_sequence(std::declval<S>()));

// what a pack expansion over the sequence yields
template <class T, T... I> struct list {};
template <class T, T... I> list<T, I...> expand(e::integer_sequence<T, I...>);

template <class S, class T, std::size_t N> struct check_seq {
  static_assert(std::is_same<typename S::value_type, T>::value, "value_type");
  static_assert(S::size() == N, "size");
  static_assert(std::is_same<decltype(S::size()), std::size_t>::value, "type of size");
};

// index_sequence used the way the library and its users do
template <std::size_t... I, class Tup>
constexpr auto pick(Tup const& t, e::index_sequence<I...>) -> decltype(std::make_tuple(std::get<I>(t)...)) {
  return std::make_tuple(std::get<I>(t)...);
}

template <int K> struct T0 : std::true_type {};
template <int K> struct F0 : std::false_type {};
template <int K, int V> struct IntVal { static constexpr int value = V; };
template <int K, int V> struct IntVal2 : IntVal<K, V> { using tag = int; };
template <int K> struct PtrVal { static constexpr char const* value = nullptr; };
enum Plain { zero, one, two };
template <int K, Plain V> struct EnumVal { static constexpr Plain value = V; };
struct Explicit { constexpr explicit operator bool() const { return v; } bool v; };
template <int K, bool V> struct ExplicitVal { static constexpr Explicit value{V}; };
template <int K> struct NoValue {};
template <int K> struct Incomplete;
template <int K> struct Explodes { static_assert(K < 0, "must not be instantiated"); static constexpr bool value = true; };
template <int K> struct Recurse : Recurse<K + 1> {};

// conjunction according to [meta.logical]: the first type with a false value, or the last one
template <class... B> struct ref_conj { using base = std::true_type; };
template <class B> struct ref_conj<B> { using base = B; };
template <class B, class... R> struct ref_conj<B, R...> {
  template <bool C, class D> struct pick { using base = typename ref_conj<R...>::base; };
  template <class D> struct pick<false, D> { using base = B; };
  using base = typename pick<bool(B::value), void>::base;
};
template <class Expect, class... B> struct check_conj {
  using C = e::conjunction<B...>;
  using R = typename ref_conj<B...>::base;
  static_assert(std::is_same<Expect, R>::value, "model");
  static_assert(std::is_base_of<Expect, C>::value && std::is_convertible<C*, Expect*>::value, "base of conjunction");
  static_assert(bool(C::value) == bool(Expect::value), "value of conjunction");
  static_assert(std::is_same<decltype(C::value), decltype(Expect::value)>::value, "type of value");
#if __cplusplus >= 201703L
  using S = std::conjunction<B...>;
  static_assert(std::is_base_of<Expect, S>::value && bool(S::value) == bool(C::value), "std::conjunction");
#endif
};

struct S { int m; int g(int) const; void q() &&; S& r() &; long v(double, S*); static int st(int); S(int = 0); };
struct D : S {};
struct P : private S {};
struct A { virtual void f() = 0; virtual int operator()(int) = 0; };
struct Conv { operator int() const; operator S() const; };
struct Expl { explicit Expl(int); explicit operator int() const; };
struct FromInt { FromInt(int); };
struct NonConst { NonConst(S&); };
struct Deleted { Deleted(int) = delete; Deleted(double); };
struct Ex2 { template <class T> Ex2(T&&); };
struct Inc;
struct PrivDtor { PrivDtor(int); private: ~PrivDtor(); };
enum class Ec { a };
enum En { en };
using UP = std::unique_ptr<S>;
using Str = std::string;
using CStr = char const*;
using RW = std::reference_wrapper<S>;
using NP = std::nullptr_t;
using FnR = int (&)(int);
using FnP = int (*)(int);
using ArrR = int (&)[3];
using ArrRR = int (&&)[3];

// Whether a result that binds to a temporary counts as convertible differs between standards and is not compared.
#if defined __GNUC__ && !defined __clang__
template <class R, class I, class = void> struct dangles { static constexpr bool value = false; };
template <class T> struct make_void { using type = void; };
template <class R, class I> struct dangles<R, I, typename make_void<typename I::type>::type> {
  static constexpr bool value = __reference_converts_from_temporary(R, typename I::type);
};
#else
template <class R, class I> struct dangles { static constexpr bool value = false; };
#endif
template <class R, class F, class... Args> struct check_inv {
  using I = std::__invoke_result<F, Args...>;
  static constexpr bool actual = e::is_invocable_r<R, F, Args...>::value;
  static constexpr bool expect = dangles<R, I>::value ? actual : std::__is_invocable_impl<I, R>::type::value;
  static_assert(actual == expect, "is_invocable_r");
  static_assert(std::is_convertible<e::is_invocable_r<R, F, Args...>*, std::integral_constant<bool, expect>*>::value,
                "is_invocable_r is an integral constant type");
};
'''

INTS = ['int', 'unsigned', 'short', 'unsigned short', 'signed char', 'unsigned char', 'long', 'unsigned long',
        'long long', 'unsigned long long', 'std::size_t', 'std::uint8_t', 'std::int16_t', 'std::ptrdiff_t', 'char']
BITS = {'int': (32, 1), 'unsigned': (32, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'signed char': (8, 1),
        'unsigned char': (8, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1),
        'unsigned long long': (64, 0), 'std::size_t': (64, 0), 'std::uint8_t': (8, 0), 'std::int16_t': (16, 1),
        'std::ptrdiff_t': (64, 1), 'char': (8, 1)}


def bounds(t):
    b, s = BITS[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def lit(t, v):
    if v == -(1 << 63):
        return '(-9223372036854775807LL - 1)'
    return '%d%s' % (v, 'ULL' if v >= (1 << 63) else 'LL' if abs(v) >= (1 << 31) else '')


def listing(t, vals):
    return ', '.join(['', *[lit(t, v) for v in vals]]) if vals else ''


def sequence(rng):
    """integer_sequence and its makers."""
    t = rng.choice(INTS)
    lo, hi = bounds(t)
    kind = rng.choice(['make', 'make', 'range', 'range', 'range', 'literal', 'index', 'irange', 'for', 'pick', 'nested'])
    size = rng.choice([0, 1, 2, 3, rng.randint(0, 12), rng.randint(0, 60), rng.randint(0, 120), rng.randint(100, 200)])
    if kind == 'literal':
        n = min(size, 40)
        vals = [rng.choice([lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(max(lo, -3), 3)]) for _ in range(n)]
        return ('template struct check_seq<e::integer_sequence<%s%s>, %s, %d>; '
                'template struct same<decltype(expand(e::integer_sequence<%s%s>{})), list<%s%s>>;' % (
                    t, listing(t, vals), t, n, t, listing(t, vals), t, listing(t, vals)))
    if kind in ('make', 'range', 'irange', 'index', 'nested'):
        if kind in ('index', 'irange'):
            t = 'std::size_t'
            lo, hi = bounds(t)
        if kind in ('make', 'index', 'nested'):
            size = min(size, hi + 1)
            b, vals = 0, list(range(size))
        else:
            size = min(size, hi - lo)
            b = rng.choice([lo, 0, hi - size, rng.randint(lo, hi - size), max(lo, -(size // 2)), max(lo, -size)])
            b = max(lo, min(b, hi - size))
            vals = list(range(b, b + size))
        name = {'make': 'e::make_integer_sequence<%s, %d>' % (t, size),
                'nested': 'e::make_integer_sequence<%s, e::make_integer_sequence<%s, %d>::size()>' % (t, t, size),
                'range': 'e::make_integer_range<%s, %s, %s>' % (t, lit(t, b), lit(t, b + size)),
                'index': 'e::make_index_sequence<%d>' % size,
                'irange': 'e::make_index_range<%s, %s>' % (lit(t, b), lit(t, b + size))}[kind]
        return ('template struct check_seq<%s, %s, %d>; template struct same<seq<%s>, e::integer_sequence<%s%s>>; '
                'template struct same<decltype(expand(%s{})), list<%s%s>>;' % (
                    name, t, size, name, t, listing(t, vals), name, t, listing(t, vals)))
    if kind == 'for':
        n = min(size, 60)
        ts = [rng.choice(['int', 'void', 'S', 'A', 'Inc', 'int[]', 'int(int)', 'int&', 'S const']) for _ in range(n)]
        return 'template struct same<seq<e::index_sequence_for<%s>>, e::index_sequence<%s>>;' % (
            ', '.join(ts), ', '.join(str(i) for i in range(n)))
    n = rng.randint(1, 8)
    k = rng.randint(0, n)
    b = rng.randint(0, k)
    vals = [rng.choice([('%d' % rng.randint(-9, 9), 'int'), ('%d.5' % rng.randint(0, 9), 'double'), ("'x'", 'char'), ('nullptr', 'NP')]) for _ in range(n)]
    r = vals[b:k]
    return ('template struct same<decltype(pick(std::make_tuple(%s), e::make_index_range<%d, %d>{})), std::tuple<%s>>;' % (
        ', '.join(v for v, _ in vals), b, k, ', '.join(t for _, t in r)))


def conj(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, rng.randint(0, 10), rng.randint(0, 40), rng.randint(50, 150)])
    ts, stop = [], None
    p = rng.choice([0, 0, 1.0 / (n + 1), 0.3, 0.6])
    for i in range(n):
        if stop is not None and rng.random() < 0.6:
            ts.append(rng.choice(['NoValue<%d>', 'Incomplete<%d>', 'Explodes<%d>', 'Recurse<%d>', 'F0<%d>', 'T0<%d>', 'int', 'void']).replace('%d', str(i)))
            continue
        f = rng.random() < p
        if f:
            ts.append(rng.choice(['F0<%d>', 'IntVal<%d, 0>', 'PtrVal<%d>', 'EnumVal<%d, zero>', 'ExplicitVal<%d, false>', 'IntVal2<%d, 0>', 'F0<%d>']) % i)
            if stop is None:
                stop = i
        else:
            ts.append(rng.choice(['T0<%d>', 'T0<%d>', 'IntVal<%d, 7>', 'IntVal<%d, 2>', 'IntVal<%d, -1>', 'EnumVal<%d, two>', 'ExplicitVal<%d, true>', 'IntVal2<%d, 256>']) % i)
    # repeated types
    if n > 1 and stop is None and rng.random() < 0.2:
        ts = [ts[0]] * n
        stop = 0 if ts[0].startswith(('F0', 'PtrVal')) or ', 0>' in ts[0] or 'zero' in ts[0] or 'false' in ts[0] else None
    expect = 'std::true_type' if not ts else ts[-1 if stop is None else stop]
    return 'template struct check_conj<%s>;' % ', '.join([expect] + ts)


def tlist(rng):
    TS = ['int', 'void', 'S', 'A', 'Inc', 'int[]', 'int[3]', 'int(int)', 'int&', 'S const', 'S&&', 'typename e::typelist<int>', 'e::typelist<>', 'std::tuple<int, S>']

    def some(k):
        return [rng.choice(TS) for _ in range(rng.choice([0, 1, 2, 3, rng.randint(0, k)]))]
    cur = some(20)
    text = 'e::typelist<%s>' % ', '.join(cur)
    for _ in range(rng.randint(0, 4)):
        more = some(10)
        text += '::append<%s>' % ', '.join(more)
        cur = cur + more
    out = 'template struct same<%s, e::typelist<%s>>; ' % (text, ', '.join(cur))
    out += 'template struct same<%s::to<std::tuple>, std::tuple<%s>>; ' % (text, ', '.join(cur))
    out += 'template struct same<%s::to<e::typelist>, e::typelist<%s>>;' % (text, ', '.join(cur))
    if rng.random() < 0.3:
        out += ' template struct same<%s::to<std::tuple>, %s::to<e::typelist>::to<std::tuple>>;' % (text, text)
    return out


ARGS = ['int', 'int&', 'int const&', 'int&&', 'int const', 'S', 'S&', 'S const&', 'S&&', 'S*', 'S const*', 'D', 'D&', 'D*', 'D const&', 'P&',
        'UP', 'UP&', 'RW', 'Conv', 'Conv&', 'double', 'char', 'CStr', 'Str', 'Str&', 'NP', 'Ec', 'En', 'void*', 'FromInt', 'Expl', 'FnR',
        'FnP', 'ArrR', 'ArrRR', 'volatile int&', 'S volatile&', 'A&', 'bool', 'Inc&', 'Inc*', 'long', 'void', 'std::shared_ptr<S>']
PARAMS = [a for a in ARGS if a != 'void']
RESULTS = ['void', 'void', 'void', 'void const', 'void volatile', 'void const volatile', 'int', 'int const', 'int&', 'int const&', 'int&&', 'double', 'bool',
           'S', 'S&', 'S const&', 'S*', 'S const*', 'D', 'D&', 'D*', 'P*', 'Str', 'CStr', 'FromInt', 'Expl', 'Conv', 'NonConst', 'Deleted', 'Ex2', 'UP', 'RW',
           'std::shared_ptr<S>', 'void*', 'FnR', 'FnP', 'A&', 'A*', 'Ec', 'En', 'long', 'char', 'Inc&', 'NP', 'S&&', 'volatile int&', 'int&']
RETURNS = [r for r in RESULTS if r not in ('void const', 'void volatile', 'void const volatile', 'int const')]
MEMBERS = [('int S::*', 0), ('int const S::*', 0), ('int (S::*)(int) const', 1), ('void (S::*)() &&', 0), ('S& (S::*)() &', 0), ('long (S::*)(double, S*)', 2),
           ('int (D::*)(int)', 1), ('void (S::*)() const&', 0), ('S S::*', 0), ('int (*S::*)(int)', 0), ('int (S::*)(int) volatile', 1), ('void (A::*)()', 0)]
OBJECTS = ['S', 'S&', 'S const&', 'S&&', 'S*', 'S const*', 'D', 'D&', 'D*', 'P', 'P*', 'UP', 'UP&', 'UP const&', 'RW', 'RW&', 'std::shared_ptr<S>', 'int', 'int*', 'void*', 'NP',
           'S volatile&', 'S const', 'A&', 'A*', 'Inc*', 'std::reference_wrapper<S const>', 'std::reference_wrapper<D>', 'void', 'S**']


PRELUDE += '\n'.join('using Mem%d = %s;' % (i, t) for i, (t, _) in enumerate(MEMBERS)) + '\n'


def near(rng, p):
    """An argument related to parameter p."""
    if rng.random() < 0.35:
        return rng.choice(ARGS)
    base = p.replace('const', '').replace('&', '').strip()
    if base == 'Inc':  # complete argument types are a precondition
        return p
    if p in ('FnR', 'FnP', 'ArrR', 'ArrRR'):
        return p
    c = [p, p, base] + ([base + '&', base + ' const&', base + '&&', base + ' const'] if '(' not in p else [])
    if base == 'S':
        c += ['D', 'D&', 'Conv', 'int']
    if base in ('int', 'double', 'long', 'bool', 'char'):
        c += ['int', 'Conv', 'double', 'En', 'Ec']
    return rng.choice(c)


def invocable(rng, i):
    k = rng.random()
    decl = ''
    if k < 0.3:  # members
        m = rng.randrange(len(MEMBERS))
        n = MEMBERS[m][1]
        f = rng.choice(['Mem%d', 'Mem%d', 'Mem%d', 'Mem%d&', 'Mem%d const&', 'Mem%d const']) % m
        args = [rng.choice(OBJECTS)]
        want = {1: ['int'], 2: ['double', 'S*'], 0: []}[n]
        args += [near(rng, w) for w in want]
        if rng.random() < 0.1:
            args = args[:-1] if rng.random() < 0.5 else args + ['int']
        res = rng.choice(['int', 'int&', 'void', 'long', 'int const&', 'S', 'S&', 'void const', 'int&&', rng.choice(RESULTS)])
    else:
        n = rng.choice([0, 1, 1, 2, 3])
        params = [rng.choice(PARAMS) for _ in range(n)]
        ret = rng.choice(RETURNS)
        args = [near(rng, p) for p in params]
        if rng.random() < 0.1:
            args = args[:-1] if args and rng.random() < 0.5 else args + [rng.choice(ARGS)]
        res = rng.choice([ret, 'void', rng.choice(RESULTS), rng.choice(RESULTS)])
        if k < 0.45:
            f = rng.choice(['%s(*)(%s)', '%s(&)(%s)', '%s(%s)', '%s(*&)(%s)', '%s(*const)(%s)', 'std::function<%s(%s)>', 'std::function<%s(%s)> const&']) % (
                ret, ', '.join(params))
        elif k < 0.5:
            f = rng.choice(['int', 'void', 'S', 'A', 'int*', 'NP', 'Inc*', 'Inc&', 'S&', 'int[3]', 'A&'])
        else:
            ops = []
            seen = set()
            refq = rng.random() < 0.4
            for j in range(rng.choice([1, 1, 2, 2, 3])):
                q = rng.choice(['&', 'const&', '&&', 'const&&'] if refq else ['', '', 'const', 'volatile', 'const volatile'])
                ps = tuple(params) if j == 0 or rng.random() < 0.5 else tuple(rng.choice(PARAMS) for _ in range(n))
                kinds = rng.random()
                if kinds < 0.1:
                    if ('T', q) in seen:
                        continue
                    seen.add(('T', q))
                    ops.append('template <class... T> %s operator()(T&&...) %s;' % (ret if j == 0 else rng.choice(RETURNS), q))
                    continue
                if kinds < 0.15:
                    if ('X', q) in seen:
                        continue
                    seen.add(('X', q))
                    ops.append('template <class T> auto operator()(T t) %s -> decltype(t + 1);' % q)
                    continue
                key = tuple(p[:-6] if p.endswith(' const') else p for p in ps)
                key = (tuple('int' if p == 'int const' else p for p in key), q)
                if key in seen or 'ArrRR' in ps:
                    continue
                seen.add(key)
                acc = rng.choice(['', '', '', '', '', 'private: ', ''])
                ops.append('%s%s operator()(%s) %s%s; public:' % (acc, ret if j == 0 else rng.choice(RETURNS), ', '.join(ps), q,
                                                                 ' = delete' if rng.random() < 0.06 else ''))
            decl = 'struct Fn%d { %s };' % (i, ' '.join(ops))
            f = rng.choice(['Fn%d', 'Fn%d&', 'Fn%d const&', 'Fn%d&&', 'Fn%d const', 'Fn%d volatile&', 'Fn%d const&&', 'Fn%d&']) % i
    return '%s template struct check_inv<%s>;' % (decl, ', '.join([res, f] + args))


def build(items):
    items = [(n, re.sub(r'template struct ((?:same|check_\w+)<.*?>);(?=\s|$)', r'static_assert(sizeof(\1) > 0, "");', t)) for n, t in items]
    return PRELUDE + '\n'.join('// %d\n%s' % (n, t) for n, t in items) + '\nint main() {}\n'


def generate(rng, ctx):
    progs = []
    per = 60
    for k in range(3000 if ctx.thorough else 160):
        kind = rng.choice(['seq', 'conj', 'list', 'inv', 'inv', 'inv'])
        items = []
        for i in range(per if kind != 'inv' else 150):
            t = {'seq': sequence, 'conj': conj, 'list': tlist}.get(kind, lambda r: invocable(r, i))(rng)
            items.append((i, t))
        cc = rng.choice([['g++'], ['clang++']])
        std = rng.choice(['-std=c++11', '-std=c++11', '-std=c++14', '-std=c++14', '-std=c++17', '-std=c++20', '-std=gnu++17'])
        progs.append(Program('%s %s %s #%d' % (kind, cc[0], std, k), items, build, ['-w', std], mode='accept', cc=cc))
    return progs
