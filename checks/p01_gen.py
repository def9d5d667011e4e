"""P01: the same program in every build configuration.

An item is a small workload on one component. Programs of random workloads are
built in several configurations (language mode, exceptions, RTTI, optimisation,
assertions, compiler, two translation units); each must build without
diagnostics and print what the baseline configuration prints. Every public
header is also compiled on its own.
"""
import os, threading
import cm_gen
import s08_gen
from gen import Program, execute, GCEM

OTHER = ['-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR'] + GCEM

CORE = ['circular_buffer_adapter.h', 'config.h', 'function.h', 'move_wrapper.h', 'mutex.h', 'preprocessor.h', 'type_traits.h',
        'typelist.h', 'varint.h', 'type_traits/conjunction.h', 'type_traits/is_invocable.h', 'utility/integer_sequence.h']
MATH = ['constexpr_math.h', 'constexpr_math/complex.h', 'constexpr_math/constants.h', 'constexpr_math/convolve.h',
        'constexpr_math/functions.h', 'constexpr_math/poly.h', 'constexpr_math/vector.h', 'signal/bessel.h', 'signal/butterworth.h',
        'signal/chebyshev.h', 'signal/debug_filter_coefs.h', 'signal/filter.h', 'signal/poly.h', 'signal/sos.h', 'ostream_ops.h']
# the optional fixed point library the stream operators mention
STUB = 'namespace fpm { template <typename T1, typename T2, unsigned B> struct fixed; }\n'

PRELUDE = r'''
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <functional>
#include <iterator>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
namespace {
template <class T> T v(T x) { volatile T y = x; return y; }
int current = 0;
inline void line(char const* what, long long x) { std::printf("%d %s %lld\n", current, what, x); }
inline void text(char const* what, char const* s) { std::printf("%d %s %s\n", current, what, s); }
inline void real(char const* what, long double x, long double tol) { std::printf("%d %s ~%.20Lg %.3Lg\n", current, what, x, tol); }
struct Tracked {
  static int& alive() { static int n = 0; return n; }
  long long k;
  Tracked(long long x = 0) noexcept : k(x) { ++alive(); }
  Tracked(Tracked const& o) noexcept : k(o.k) { ++alive(); }
  Tracked(Tracked&& o) noexcept : k(o.k) { o.k = -1; ++alive(); }
  Tracked& operator=(Tracked const&) = default;
  Tracked& operator=(Tracked&&) = default;
  ~Tracked() { --alive(); }
};
inline long long key(Tracked const& t) { return t.k; }
inline long long key(long long t) { return t; }
struct Obj {
  int m;
  int get(int x) const { return m * x; }
  int set(int x) { return m = x; }
  virtual int virt(int x) { return m - x; }
  virtual ~Obj() {}
};
struct Sub : Obj { int virt(int x) override { return m + 2 * x; } };
struct Both {
  int operator()(int x) { return x + 1; }
  int operator()(int x) const { return x + 1000; }
  long long operator()(long long x) const { return -x; }
};
struct Mutex {
  std::string log;
  void lock() { log += 'L'; }
  void unlock() { log += 'U'; }
};
inline int twice(int x) { return 2 * x; }
template <class B> void dump(char const* what, B const& b) {
  std::string s;
  for (auto it = b.cbegin(); it != b.cend(); ++it) { s += std::to_string(key(*it)) + ","; }
  s += "/";
  for (auto it = b.rbegin(); it != b.rend(); ++it) { s += std::to_string(key(*it)) + ","; }
  text(what, s.c_str());
  line("size", static_cast<long long>(b.size() + 1000 * b.remaining()));
}
} // namespace
'''

MATHPRE = r'''
namespace es = embedded::signal;
namespace cm = embedded::cmath;
typedef long long I;
typedef cm::complex<double> C;
struct Less { template <class T> constexpr bool operator()(T const& a, T const& b) const noexcept { return a < b; } };
struct More { template <class T> constexpr bool operator()(T const& a, T const& b) const noexcept { return b < a; } };
struct Mod3 { constexpr bool operator()(I a, I b) const noexcept { return (a % 3 + 3) % 3 < (b % 3 + 3) % 3; } };
struct NormLess { constexpr bool operator()(C const& a, C const& b) const noexcept { return a.norm() < b.norm(); } };
struct Odd { constexpr bool operator()(I a) const noexcept { return a % 2 != 0; } };
struct Pos { template <class T> constexpr bool operator()(T const& a) const noexcept { return a > T(0); } };
struct Sq { template <class T> constexpr T operator()(T const& a) const noexcept { return a * a; } };
struct Lin { template <class T> constexpr T operator()(T const& a) const noexcept { return T(2) * a + T(1); } };
struct Conj { constexpr C operator()(C const& a) const noexcept { return a.conj(); } };
struct ToD { template <class T> constexpr double operator()(T const& a) const noexcept { return static_cast<double>(a) + 1; } };
struct Idx { I k; constexpr explicit Idx(I x) : k{x} {} constexpr I operator()(I i) const noexcept { return k * i + 1; } };
struct Plus { template <class T> constexpr T operator()(T const& a, T const& b) const noexcept { return a + b; } };
struct Max { template <class T> constexpr T operator()(T const& a, T const& b) const noexcept { return a < b ? b : a; } };
struct Opq { template <class T> static T get(T x) { return v(x); } };
inline void show(I x, double) { line("integer", x); }
inline void show(bool x, double) { line("bool", x); }
inline void show(std::size_t x, double) { line("index", static_cast<long long>(x)); }
inline void show(double x, double tol) { real("double", x, (tol + 1e-12) * std::fabs(x)); }
inline void show(C const& x, double tol) {
  real("re", x.real(), (tol + 1e-12) * std::hypot(x.real(), x.imag()));
  real("im", x.imag(), (tol + 1e-12) * std::hypot(x.real(), x.imag()));
}
template <class T, std::size_t N> void show(cm::vector<T, N> const& x, double tol) {
  line("length", static_cast<long long>(x.size()));
  for (std::size_t i = 0; i < x.size(); ++i) { show(x[i], tol); }
}
template <class D> void process(D const& d, double tol) {
  auto f = d.instance();
  auto g = f;
  typedef decltype(f(0)) F;
  for (int i = 0; i < 12; ++i) { real("out", f(static_cast<F>(i % 5 - 1)), tol); }
  real("other", g(F(1)), tol);
}
template <class F, std::size_t N> void coefs(es::poly_design<F, N> const& d, double tol) {
  long double mb = 0, ma = 0;
  for (std::size_t k = 0; k <= N; ++k) { mb = std::fmax(mb, std::fabs(static_cast<long double>(d.b()[k]))); ma = std::fmax(ma, std::fabs(static_cast<long double>(d.a()[k]))); }
  for (std::size_t k = 0; k <= N; ++k) { real("b", d.b()[k], tol * mb); real("a", d.a()[k], tol * ma); }
  process(d, tol * 100);
}
template <class F, std::size_t N> void coefs(es::sos_design<F, N> const& d, double tol) {
  for (std::size_t i = 0; i < d.size(); ++i) {
    long double mb = 0;
    for (std::size_t k = 0; k < 3; ++k) { mb = std::fmax(mb, std::fabs(static_cast<long double>(d.sos()[i].b()[k]))); }
    for (std::size_t k = 0; k < 3; ++k) { real("b", d.sos()[i].b()[k], tol * mb); real("a", d.sos()[i].a()[k], tol); }
  }
  process(d, tol * 100);
}
'''

SECOND = r'''
int second(int x) {
  int store[5];
  embedded::circular_buffer_adapter<int> b(store, 5);
  b.push_back(x);
  b.push_front(2 * x);
  embedded::function<int(int)> f = [x](int y) { return x * y; };
  auto g = std::move(f);
  std::uint8_t buf[10];
  std::uint8_t* e = embedded::varint::encode(static_cast<std::uint32_t>(x), buf, buf + 10);
  std::uint32_t d = 0;
  embedded::varint::decode(d, buf, e);
  return b.front() + b.back() + g(3) + static_cast<int>(d);
}
'''
SECONDM = r'''
double third(double x) {
  auto const d = embedded::signal::iirfilter<double>(1000.0).lowpass(embedded::signal::bessel<3>(), x).sos<double>();
  auto const e = embedded::signal::iirfilter<double>(1000.0).highpass(embedded::signal::chebyshev2<4>(40.0), x).poly<double>();
  auto f = d.instance();
  std::ostringstream os;
  os << d.sos()[0] << e.b();
  return f(1.0) + e.a()[1] + static_cast<double>(os.str().size()) * 0;
}
'''


class Item:
    def __init__(self, kind, body, decl=''):
        self.kind, self.body, self.decl = kind, body, decl

    def __str__(self):
        return '%s: %s %s' % (self.kind, self.decl, self.body)


def buffer(rng, i):
    cap = rng.choice([1, 2, 3, 4, 5, 7, 8, 16])
    T = rng.choice(['long long', 'Tracked'])
    out = ['alignas(%s) unsigned char raw[sizeof(%s) * %d];' % (T, T, cap),
           'typedef embedded::circular_buffer_adapter<%s> A;' % T,
           '%s* const m = reinterpret_cast<%s*>(raw);' % (T, T),
           'A b(m, %d, %d, 0);' % (cap, rng.randrange(cap))]
    n = 0
    for _ in range(rng.randint(3, 25)):
        k = rng.randint(-99, 999)
        op = rng.choice(['push_back', 'push_front', 'emplace_back', 'emplace_front', 'pop_back', 'pop_front', 'popn', 'popn', 'bulkin', 'bulkout', 'attach', 'dump', 'iter'])
        if op in ('push_back', 'push_front', 'emplace_back', 'emplace_front'):
            if n < cap:
                out.append('b.%s(v<long long>(%d));' % (op, k))
                n += 1
        elif op in ('pop_back', 'pop_front'):
            if n:
                out.append('b.%s();' % op)
                n -= 1
        elif op == 'popn':
            c = rng.randint(0, n)
            out.append('b.%s(%d);' % (rng.choice(['pop_back', 'pop_front']), c))
            n -= c
        elif op == 'bulkin' and T == 'long long':
            c = rng.randint(0, cap - n)
            vals = [rng.randint(-99, 99) for _ in range(max(c, 1))]
            out.append('{ long long const a[] = {%s}; b.%s(a, %d); }' % (', '.join(map(str, vals)), rng.choice(['copy_in_back', 'copy_in_front']), c))
            n += c
        elif op == 'bulkout' and T == 'long long':
            c = rng.randint(0, n)
            out.append('{ long long a[%d] = {}; b.%s(a, %d); for (long long x : a) { line("copied", x); } }' % (
                max(c, 1), rng.choice(['copy_out_back', 'copy_out_front']), c))
            n -= c
        elif op == 'attach' and n:
            out.append('{ auto const r = b.raw_index(b.begin()); b = A(m, %d, r, b.size()); }' % cap)
        elif op == 'dump':
            out.append('dump("buffer", b);')
        elif op == 'iter' and n:
            j = rng.randrange(n)
            out.append('line("at", key(b[%d]) + 2 * key(*(b.begin() + %d)) + 4 * (b.end() - b.begin()) + 8 * key(b.front()) + 16 * key(b.back()));' % (j, j))
    out += ['dump("end", b);', 'b.clear();', 'line("alive", Tracked::alive());']
    return Item('buffer', '\n  '.join(out))


def varint(rng, i):
    T = rng.choice(['std::uint8_t', 'std::int8_t', 'std::uint16_t', 'std::int16_t', 'std::uint32_t', 'std::int32_t', 'std::uint64_t', 'std::int64_t'])
    bits = int(''.join(c for c in T if c.isdigit()))
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if 'uint' not in T else (0, (1 << bits) - 1)
    vals = [rng.choice([lo, hi, 0, rng.randint(lo, hi), max(lo, min(hi, rng.randint(-300, 300)))]) for _ in range(rng.randint(1, 6))]
    lits = ['static_cast<%s>(%s)' % (T, '(-9223372036854775807LL - 1)' if x == -(1 << 63) else '%d%s' % (x, 'ULL' if x > 0 else 'LL')) for x in vals]
    noise = [rng.choice([0x80 | rng.randrange(128), rng.randrange(256)]) for _ in range(rng.randint(1, 14))]
    return Item('varint', '''%s const vals[] = {%s};
  std::uint8_t buf[100];
  std::uint8_t* p = buf;
  std::vector<std::uint8_t> out;
  for (%s x : vals) {
    line("needs", static_cast<long long>(embedded::varint::size(v(x))));
    p = embedded::varint::encode(v(x), p, buf + %d);
    embedded::varint::encode(x, std::back_inserter(out));
  }
  for (std::uint8_t* q = buf; q != p; ++q) { line("byte", *q); }
  line("bytes", static_cast<long long>(out.size()));
  std::uint8_t const* r = buf;
  while (r != p) {
    %s x = 0;
    auto const q = embedded::varint::decode(x, r, static_cast<std::uint8_t const*>(p));
    line("decoded", static_cast<long long>(x));
    if (q == r) { break; }
    r = q;
  }
  std::uint8_t const noise[] = {%s};
  %s y = 0;
  line("noise", embedded::varint::decode(y, noise, noise + %d) - noise);
  constexpr auto size = embedded::varint::size(%s);
  line("constant", static_cast<long long>(size));''' % (
        T, ', '.join(lits), T, rng.randint(0, 30), T, ', '.join(map(str, noise)), T, len(noise), lits[0]))


def function(rng, i):
    const = rng.random() < 0.4
    cap = rng.choice([24, 32, 64])
    out = ['typedef embedded::function<int(int)%s, %d> F;' % (' const' if const else '', cap), 'Sub o; o.m = 7;', 'Obj& base = o;', 'static_cast<void>(base);', 'F f, g; F h = nullptr;']
    for _ in range(rng.randint(2, 14)):
        x, y = rng.choice('fgh'), rng.choice('fgh')
        k = rng.randint(-50, 50)
        out.append(rng.choice([
            '%s = [](int a) { return a + %d; };' % (x, k),
            '{ int const c = v(%d); long long const d = c + 1; %s = [c, d](int a) { return a * c + static_cast<int>(d); }; }' % (k, x),
            '%s = &twice;' % x,
            '%s = Both();' % x,
            '%s = std::move(%s);' % (x, y) if x != y else '{ F& q = %s; %s = std::move(q); }' % (x, x),
            '%s = F(std::move(%s));' % (x, y),
            '{ using std::swap; swap(%s, %s); }' % (x, y) if x != y else '%s = nullptr;' % x,
            '%s = nullptr;' % x,
            '%s = std::bind(&Obj::get, &base, std::placeholders::_1);' % x if cap >= 32 else ';',
            'line("set", static_cast<bool>(%s));' % x,
            'if (%s) { line("call", %s(%d)); }' % (x, x, k),
            'if (%s) { line("call", %s(%d)); }' % (x, x, k),
            'if (%s) { F const& q = %s; line("const call", %s(%d)); }' % (x, x, 'q' if const else x, k) if const else 'if (%s) { line("call", %s(1)); }' % (x, x),
        ]))
    out.append('for (F* p : {&f, &g, &h}) { line("end", *p ? (*p)(3) : -1); }')
    out.append('''{
    embedded::function<int(Obj&, int)> s = &Obj::set, t = &Obj::virt;
    embedded::function<int(Obj const*, int)> u(&Obj::get);
    embedded::function<int&(Obj&)> w = &Obj::m;
    line("members", s(o, %d) + 3 * t(o, 2) + 5 * u(&o, 4) + 7 * w(o));
    s = nullptr;
    embedded::function<void(std::string&)> x = [](std::string& q) { q += "x"; return 1; };
    std::string q("q");
    x(q);
    text("string", q.c_str());
    embedded::function<std::string(std::string&&), 8> y = [](std::string&& z) { return std::move(z) + "!"; };
    text("moved", y(std::string("long enough for the heap, certainly")).c_str());
  }''' % rng.randint(1, 9))
    return Item('function', '\n  '.join(out))


def small(rng, i):
    k = rng.randint(0, 100)
    return Item('small', '''{
    embedded::move_wrapper<Tracked> w{Tracked(v(%d))};
    auto const l = [w]() { return sizeof(w); };
    line("lambda", static_cast<long long>(l()));
    embedded::move_wrapper<std::string> s{std::string("text %d")};
    auto t = std::move(s);
    std::string const& r = *t;
    text("string", r.c_str());
  }
  line("alive", Tracked::alive());
  Mutex m;
  for (int n = 0; n < v(%d); ++n) {
    embedded::lock_guard<Mutex> g(m);
    if (n == 2) { break; }
  }
  text("lock", m.log.c_str());
  line("traits", embedded::is_invocable_r<int, int (*)(long), int>::value + 2 * embedded::is_invocable_r<int*, int (*)(long), int>::value +
    4 * embedded::is_invocable_r<int, int (Obj::*)(int) const, Obj&, int>::value + 8 * embedded::is_invocable_r<void, Both, Obj>::value +
    16 * embedded::conjunction<std::true_type, std::integral_constant<int, 3>>::value);
  line("size", static_cast<long long>(embedded::make_integer_range<int, -%d, 4>::size()));
  line("counter", LIBEMB_HAS_EXCEPTIONS * 0 + LIBEMB_HAS_RTTI * 0);''' % (k, k, rng.randint(0, 5), rng.randint(0, 30)))


def expression(rng, i):
    kind = rng.choice(['M01', 'M02', 'M03'])
    g = cm_gen.G(rng, {kind})
    while True:
        if kind == 'M02':
            e = g.complex_item()
        elif kind == 'M01' and rng.random() < 0.4:
            e = g.scalar(rng.randint(1, 3))
        else:
            e = g.vector(rng.choice('IDC'), rng.randint(1, 4))
        break
    return Item('expression', 'show(%s, %r);' % (cm_gen.marks(e.text, True), e.tol))


UNARY = {'abs': (-9, 9), 'acos': (-1, 1), 'acosh': (1, 9), 'asin': (-1, 1), 'asinh': (-9, 9), 'atan': (-9, 9), 'atanh': (-0.9, 0.9),
         'ceil': (-9, 9), 'cos': (-9, 9), 'cosh': (-5, 5), 'erf': (-3, 3), 'exp': (-9, 9), 'expm1': (-3, 3), 'floor': (-9, 9),
         'lgamma': (0.1, 9), 'log': (0.01, 99), 'log10': (0.01, 99), 'log1p': (-0.9, 9), 'log2': (0.01, 99), 'round': (-9, 9),
         'sin': (-9, 9), 'sinh': (-5, 5), 'sqrt': (0, 99), 'tan': (-1.5, 1.5), 'tanh': (-5, 5), 'tgamma': (0.1, 9), 'trunc': (-9, 9)}
BINARY = {'atan2': (-9, 9), 'copysign': (-9, 9), 'fmod': (0.5, 9), 'max': (-9, 9), 'min': (-9, 9), 'pow': (0.1, 9)}


def elementary(rng, i):
    """The functions and constants the library makes available as cmath::x."""
    out = []
    for name in rng.sample(sorted(UNARY), 6) + rng.sample(sorted(BINARY), 3):
        lo, hi = UNARY.get(name) or BINARY[name]
        x, y = (round(rng.uniform(lo, hi), rng.randint(1, 6)) for _ in range(2))
        t = rng.choice(['double', 'double', 'float', 'long double'])
        args = ['v<%s>(%r)' % (t, x)] + (['v<%s>(%r)' % (t, y)] if name in BINARY else [])
        r = 'cm::%s(%s)' % (name, ', '.join(args))
        out.append('real("%s", %s, %g);' % (name, r, 1e-5 if t == 'float' else 1e-9))
    a, b = rng.randint(-9, 9), rng.randint(-9, 9)
    out.append('line("max", cm::max(v(%d), v(%d)) + 100 * cm::min(v(%d), v(%d)) + 10000 * cm::signbit(v(%d.5)));' % (a, b, a, b, a))
    out.append('{ constexpr int k = cm::max(%d, %d); line("constant", k); }' % (a, b))
    out.append('real("pi", cm::pi<%s>(), 1e-6);' % rng.choice(['float', 'double', 'long double']))
    return Item('elementary', '\n  '.join(out))


def design(rng, i):
    while True:
        it = s08_gen.Item(rng, i, 6)
        if 0.03 < float(it.fc) / float(it.fs) < 0.47 and (it.T != 'float' or (it.order <= 4 and 0.08 < float(it.fc) / float(it.fs) < 0.42)):
            break
    const = rng.random() < 0.3
    _, base, form = it.call(not const)
    tol = {'float': 1e-3}.get(it.T, 1e-8)
    if it.F == 'float':
        tol = max(tol, 1e-5)
    return Item('design', '// %s\n  %s d = %s.%s;\n  coefs(d, %g);' % (it.text, 'constexpr auto' if const else 'auto const', base, form, tol))


def stream(rng, i):
    e = cm_gen.G(rng, {'M01'}).vector('I', 2)
    return Item('stream', '''std::ostringstream os;
  os << %s << C(v(%d.5), v(-%d.25)) << cm::vector<C, 2>{C(1, 2), C(-3, 0)};
  text("stream", os.str().c_str());''' % (cm_gen.marks(e.text, True), rng.randint(-9, 9), rng.randint(0, 9)))


def terminate(rng, i):
    return Item('empty call', '''std::set_terminate([]() { std::printf("no exceptions: terminated\\n"); std::fflush(stdout); std::_Exit(0); });
  embedded::function<int(int)> f;
#if defined(__cpp_exceptions)
  try { f(1); } catch (std::bad_function_call const&) { std::terminate(); }
#else
  f(1);
#endif
  line("not reached", 1);''')


def build_with(order1, order2, math):
    def includes(order):
        return ''.join('%s#include <embedded/%s>\n' % (STUB if h == 'ostream_ops.h' else '', h) for h in order)

    def build(items):
        items = sorted(items, key=lambda it: it.kind == 'empty call')
        out = [includes(order1), PRELUDE]
        if math:
            out.append('namespace {' + MATHPRE + '}')
        out.append('int second(int);\ndouble third(double);')
        for n, it in enumerate(items):
            out.append('%s\nstatic void item%d() {\n  %s\n}' % (it.decl, n, it.body))
        out.append('int main() {\n  line("second", second(v(6)));')
        if math:
            out.append('  real("third", third(v(100.0)), 1e-9);')
        out += ['  current = %d;\n  item%d();' % (n, n) for n in range(len(items))]
        out.append('}')
        return {'main.cpp': '\n'.join(out) + '\n',
                'second.cpp': includes(order2) + PRELUDE + SECOND + (SECONDM if math else '')}
    return build


def same(a, b):
    """Compares two outputs; tokens ~x t are numbers with a tolerance."""
    x, y = a.splitlines(), b.splitlines()
    for p, q in zip(x, y):
        if p == q:
            continue
        if '~' in p and '~' in q:
            h, t = p.split('~', 1)
            k, u = q.split('~', 1)
            if h == k:
                (f, tf), (g, tg) = (map(float, s.split()) for s in (t, u))
                if f == f and g == g and abs(f - g) <= tf + tg + 1e-300:
                    continue
        return 'prints "%s", the baseline configuration "%s"' % (p, q)
    if len(x) != len(y):
        return 'prints %d lines, the baseline configuration %d' % (len(x), len(y))
    return None


WARN = ['-Wall', '-Wextra', '-pedantic', '-Werror', '-Wno-unused-function', '-Wno-unused-local-typedefs']


def warnings(flags):
    # the diagnostics of the optimiser depend on what it happens to inline
    return WARN if '-O0' in flags else ['-w', '-pedantic-errors']


def configuration(rng, cc):
    std = rng.choice(['-std=c++11', '-std=c++11', '-std=c++14', '-std=c++14', '-std=c++17', '-std=c++20', '-std=gnu++11', '-std=gnu++20'])
    f = [std, rng.choice(['-O0', '-O0', '-O1', '-O2', '-O3', '-Os'])]
    f += rng.choice([[], [], ['-fno-exceptions'], ['-fno-rtti'], ['-fno-exceptions', '-fno-rtti'], ['-fno-exceptions', '-fno-rtti']])
    f += rng.choice([[], ['-DNDEBUG'], ['-D_GLIBCXX_ASSERTIONS']])
    f += rng.choice([[], [], [], ['-fPIC'], ['-fstack-protector-all'], ['-fno-inline'], ['-ffunction-sections', '-fdata-sections', '-Wl,--gc-sections'],
                     ['-fshort-enums'], ['-funsigned-char'], ['-ftrapv'], ['-fwrapv'], ['-fno-threadsafe-statics']])
    return f


def tables(t):
    def build(orders):
        return TABLES % {'t': t, 'checks': '\n  '.join('bad += check<%d>();' % n for n in orders)}
    return build


TABLES = r'''
#include <cstdio>
#include <embedded/signal/bessel.h>
using F = %(t)s;
template <std::size_t N>
int check() {
  auto const p = embedded::signal::bessel<N>().template spec<F>().poles();
  F sum(0);
  for (std::size_t i = 0; i < N; ++i) {
    sum += p[i].real() * static_cast<F>(i + 1);
  }
  bool const good = sum < F(0) && sum > F(-3) * static_cast<F>(N * N);
  if (!good) {
    std::printf("order %%u\n", static_cast<unsigned>(N));
  }
  return good ? 0 : 1;
}
int main() {
  int bad = 0;
  %(checks)s
  return bad;
}
'''


def generate(rng, ctx):
    progs = []
    nwork, nconf = (60, 24) if ctx.thorough else (7, 8)
    lock = threading.Lock()
    for k in range(nwork):
        math = k % 3 != 2
        makers = [buffer, varint, function, small]
        if math:
            makers += [expression, expression, elementary, design, design, stream]
        items = [rng.choice(makers)(rng, i) for i in range(14)]
        if rng.random() < 0.5:
            items.append(terminate(rng, 99))
        heads = CORE + (MATH if math else [])
        one, two = list(heads), list(heads)
        rng.shuffle(one)
        rng.shuffle(two)
        build = build_with(one, two, math)
        cache = {}

        def baseline(its, build=build, cache=cache, ctx=ctx):
            key = tuple(map(id, its))
            with lock:
                if key not in cache:
                    res = []
                    p = Program('baseline', its, build, ['-std=gnu++17', '-O2', '-DNDEBUG', '-w'], warn=True,
                                judge=lambda i, e, rc, o: res.append((rc, o)) or [])
                    r = execute(ctx, p, its)
                    cache[key] = (r, res)
                return cache[key]

        def judge(its, exe, rc, out, baseline=baseline):
            if rc != 0:
                return ['exit code %d: %s' % (rc, out[-300:])]
            r, res = baseline(its)
            if not res:
                return ['baseline configuration: ' + r.why]
            if res[0][0] != 0:
                return ['baseline configuration: exit code %d' % res[0][0]]
            d = same(out, res[0][1])
            return [d] if d else []
        for j in range(nconf):
            cc = rng.choice([['g++'], ['g++'], ['clang++']]) if math else rng.choice([['g++'], ['clang++'], ['clang++']])
            flags = configuration(rng, cc[0])
            name = cc[0]
            if math and (cc[0] == 'clang++' or rng.random() < 0.3):
                flags += GCEM if cc[0] == 'clang++' else OTHER
                name += ' gcem'
            progs.append(Program('workload %s #%d.%d' % (name, k, j), items, build, flags + warnings(flags), cc=cc, judge=judge, warn=True, strict11=True))
    # without optimisation the tables of poles are objects that have to exist (before C++17: in a definition of their own)
    orders = list(range(1, 50))
    rng.shuffle(orders)
    for k in range(0, 49, 17):
        for cc, lib in [('g++', []), ('clang++', GCEM)]:
            flags = [rng.choice(['-std=c++11', '-std=c++14']), '-O0'] + lib + (['-fbracket-depth=1024', '-fconstexpr-depth=1024'] if lib else [])
            progs.append(Program('tables %s' % cc, orders[k:k + 17], tables(rng.choice(['float', 'double', 'long double'])), flags + WARN[:4],
                                 cc=[cc], judge=lambda i, e, rc, o: [] if rc == 0 else ['exit code %d: %s' % (rc, o[-300:])], warn=True, strict11=True))
    for h in CORE + MATH:
        for std in (['-std=c++11', '-std=c++14', '-std=c++17', '-std=c++20'] if ctx.thorough else
                    [rng.choice(['-std=c++11', '-std=c++14']), rng.choice(['-std=c++17', '-std=c++20'])]):
            for extra in ([[], ['-fno-exceptions', '-fno-rtti']] if ctx.thorough else [rng.choice([[], ['-fno-exceptions', '-fno-rtti']])]):
                for cc, lib in [('g++', []), ('clang++', [])] if h in CORE else [('g++', []), ('clang++', GCEM), ('g++', OTHER)]:
                    src = (STUB if h == 'ostream_ops.h' else '') + '#include <embedded/%s>\n#include <embedded/%s>\nint main() {}\n' % (h, h)
                    progs.append(Program('header %s%s %s' % (cc, ' gcem' if lib else '', h), ['%s %s' % (h, std)], lambda i, s=src: s, [std] + extra + lib + WARN[:4],
                                         mode='accept', cc=[cc], warn=True, strict11=True))
    return progs
