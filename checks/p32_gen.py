"""P01: the same program as a 32-bit process.

The target of the library are small machines, and its soak script builds it for
32 bits. There is no 32-bit C or C++ library here, so that the programs bring
the little they need along (lib/rt32); workloads on the buffer, varint, function,
the vector algebra and filters designed at compile time have to print the same
as the 64-bit program, to the last bit.
"""
import os, re, subprocess, threading
import cm_gen
import p01_gen
import s08_gen
from gen import Program, execute, ROOT
from p01_gen import Item, MATHPRE, PRELUDE

HEAD = r'''
#include "rt32.h"
#include <functional>
#include <iterator>
#include <string>
#include <utility>
#include <vector>
'''

TOOLS = r'''
namespace {
inline void line(char const* what, long long x) { rt_int(current); rt_put(' '); rt_text(what); rt_put(' '); rt_int(x); rt_put('\n'); }
inline void text(char const* what, char const* s) { rt_int(current); rt_put(' '); rt_text(what); rt_put(' '); rt_text(s); rt_put('\n'); }
inline void real(char const* what, double x) {
  std::uint64_t u;
  std::memcpy(&u, &x, sizeof u);
  rt_int(current); rt_put(' '); rt_text(what); rt_put(' '); rt_hex(u); rt_put('\n');
}
template <class B> void dump(char const* what, B const& b) {
  for (auto it = b.cbegin(); it != b.cend(); ++it) { line(what, key(*it)); }
  for (auto it = b.rbegin(); it != b.rend(); ++it) { line(what, key(*it)); }
  line("size", static_cast<long long>(b.size() + 1000 * b.remaining()));
}
}
'''


def cut(s, start, end):
    i = s.index(start)
    j = s.index(end, i)
    return s[i:j]


TYPES = 'namespace {\ntemplate <class T> T v(T x) { volatile T y = x; return y; }\nint current = 0;\n' + \
    cut(PRELUDE, 'struct Tracked', 'struct Mutex') + cut(PRELUDE, 'inline int twice', 'template <class B> void dump') + \
    'struct Mutex { int locks, unlocks; void lock() { ++locks; } void unlock() { ++unlocks; } };\n}\n'

MATHS = 'namespace {' + cut(MATHPRE, 'namespace es', 'inline void show(I x') + r'''
inline void show(I x) { line("integer", x); }
inline void show(bool x) { line("bool", x); }
inline void show(std::size_t x) { line("index", static_cast<long long>(x)); }
inline void show(double x) { real("double", x); }
inline void show(C const& x) { real("re", x.real()); real("im", x.imag()); }
template <class T, std::size_t N> void show(cm::vector<T, N> const& x) {
  line("length", static_cast<long long>(x.size()));
  for (std::size_t i = 0; i < x.size(); ++i) { show(x[i]); }
}
template <class D> void process(D const& d) {
  auto f = d.instance();
  auto g = f;
  typedef decltype(f(0)) F;
  for (int i = 0; i < 12; ++i) { real("out", static_cast<double>(f(static_cast<F>(i % 5 - 1)))); }
  real("other", static_cast<double>(g(F(1))));
}
template <class F, std::size_t N> void coefs(es::poly_design<F, N> const& d) {
  for (std::size_t k = 0; k <= N; ++k) { real("b", static_cast<double>(d.b()[k])); real("a", static_cast<double>(d.a()[k])); }
  process(d);
}
template <class F, std::size_t N> void coefs(es::sos_design<F, N> const& d) {
  for (std::size_t i = 0; i < d.size(); ++i) {
    for (std::size_t k = 0; k < 3; ++k) { real("b", static_cast<double>(d.sos()[i].b()[k])); real("a", static_cast<double>(d.sos()[i].a()[k])); }
  }
  process(d);
}
}
'''


def function(rng, i):
    it = p01_gen.function(rng, i)
    # the placeholders of std::bind are objects of the library that is not there
    body = it.body.replace('std::bind(&Obj::get, &base, std::placeholders::_1)', '[&base](int a) { return base.get(a); }')
    body = body[:body.index('{\n    embedded::function<int(Obj&, int)>')]
    return Item('function', body + '''{
    embedded::function<int(Obj&, int)> s = &Obj::set, t = &Obj::virt;
    embedded::function<int(Obj const*, int)> u(&Obj::get);
    embedded::function<int&(Obj&)> w = &Obj::m;
    line("members", s(o, %d) + 3 * t(o, 2) + 5 * u(&o, 4) + 7 * w(o));
    s = nullptr;
    line("set", static_cast<bool>(s));
    struct alignas(8) Wide { long long a, b; long long operator()(int x) { return a += b * x; } };
    embedded::function<long long(int), 16, 8> x = Wide{%d, 3};
    x(2);
    auto y = std::move(x);
    line("wide", y(v(7)));
    embedded::function<double(float, long long)> z = [](float p, long long q) { return static_cast<double>(p) * static_cast<double>(q); };
    real("result", z(v(1.5f), v(-%dLL)));
  }''' % (rng.randint(1, 9), rng.randint(-9, 9), rng.randint(1, 10 ** 12)))


def small(rng, i):
    k = rng.randint(0, 100)
    return Item('small', '''{
    embedded::move_wrapper<Tracked> w{Tracked(v(%d))};
    auto const l = [w]() { return key(*w); };
    line("lambda", l());
    line("left", key(*w));
  }
  line("alive", Tracked::alive());
  Mutex m = {0, 0};
  for (int n = 0; n < v(%d); ++n) {
    embedded::lock_guard<Mutex> g(m);
    line("locked", m.locks - m.unlocks);
    if (n == 2) { break; }
  }
  line("locks", 10 * m.locks + m.unlocks);
  line("size", static_cast<long long>(embedded::make_integer_range<int, -%d, 4>::size()));''' % (k, rng.randint(0, 5), rng.randint(0, 30)))


def large(rng, i):
    """More slots than bits of an index of an element have in smaller types."""
    cap = rng.choice([255, 256, 257, 1000, 32768, 65535, 65536, 65537, 70000])
    pos = rng.choice([0, 1, cap // 2, cap - 1])
    out = ['static unsigned char raw[%d];' % cap, 'typedef embedded::circular_buffer_adapter<unsigned char> A;',
           'A b(raw, %d, %d, 0);' % (cap, pos), 'static unsigned char run[%d];' % cap,
           'for (std::size_t k = 0; k < %d; ++k) { run[k] = static_cast<unsigned char>(k * 7 + k / 256); }' % cap]
    n = 0
    for _ in range(rng.randint(2, 8)):
        if rng.random() < 0.6:
            c = rng.choice([cap - n, (cap - n) // 2, min(3, cap - n)])
            out.append('b.%s(run, %d);' % (rng.choice(['copy_in_back', 'copy_in_front']), c))
            n += c
        else:
            c = rng.choice([n, n // 2, n // 3])
            out.append('b.%s(%d);' % (rng.choice(['pop_back', 'pop_front']), c))
            n -= c
        if n:
            j = rng.randrange(n)
            out.append('line("element", b[%d] + 256 * (b.end() - (b.begin() + %d)) + 100000000LL * static_cast<long long>(b.raw_index(b.begin() + %d)));' % (j, j, j))
        out.append('{ unsigned long sum = 0; long n = 0; for (unsigned char x : b) { sum = (sum * 31 + x) % 65521; ++n; } line("sum", static_cast<long long>(sum)); line("length", n); }')
    return Item('large', '\n  '.join(out))


def expression(rng, i):
    kind = rng.choice(['M01', 'M02', 'M03'])
    g = cm_gen.G(rng, {kind})
    for _ in range(50):
        if kind == 'M02':
            e = g.complex_item()
        elif kind == 'M01' and rng.random() < 0.4:
            e = g.scalar(rng.randint(1, 3))
        else:
            e = g.vector(rng.choice('IDC'), rng.randint(1, 4))
        if not re.search(r'\b(exp|abs|sqrt|distance)\(', e.text):
            return Item('expression', 'show(%s);' % cm_gen.marks(e.text, True))
    return small(rng, i)


def design(rng, i):
    while True:
        it = s08_gen.Item(rng, i, 6)
        if 0.03 < float(it.fc) / float(it.fs) < 0.47 and (it.T != 'float' or (it.order <= 4 and 0.08 < float(it.fc) / float(it.fs) < 0.42)) \
                and it.T != 'long double' and it.F != 'long double':
            break
    _, base, form = it.call(False)
    return Item('design', '// %s\n  constexpr auto d = %s.%s;\n  coefs(d);' % (it.text, base, form))


def terminate(rng, i):
    return Item('empty call', '''embedded::function<int(int)> f;
  line("empty", static_cast<bool>(f));
  f(1);
  line("not reached", 1);''')


def build(items):
    items = sorted(items, key=lambda it: it.kind == 'empty call')
    out = [HEAD, ''.join('#include <embedded/%s>\n' % h for h in p01_gen.CORE + [x for x in p01_gen.MATH if x not in ('ostream_ops.h', 'signal/debug_filter_coefs.h')]),
           TYPES, TOOLS, MATHS]
    for n, it in enumerate(items):
        out.append('%s\nstatic void item%d() {\n  %s\n}' % (it.decl, n, it.body))
    out.append('int main() {')
    out += ['  current = %d;\n  item%d();' % (n, n) for n in range(len(items))]
    out.append('  return 0;\n}')
    return '\n'.join(out) + '\n'


BASE = ['-fno-exceptions', '-fno-rtti', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fconstexpr-ops-limit=200000000', '-isystem', os.path.join(ROOT, 'lib', 'rt32')]


def narrow():
    def ask(*a):
        return subprocess.check_output(['g++'] + list(a), text=True).strip()
    triple = ask('-print-multiarch')
    return ['-m32', '-msse2', '-mfpmath=sse', '-nostdlib', '-static', '-fno-pic', '-no-pie', '-fno-stack-protector', '-fno-asynchronous-unwind-tables',
            '-idirafter', '/usr/include/%s/c++/%s' % (triple, ask('-dumpversion')), '-idirafter', '/usr/include/' + triple,
            '-idirafter', os.path.join(ROOT, 'lib', 'rt32')]


PROBE = Item('probe', 'std::vector<long long> x; x.push_back(v(7LL)); line("probe", x[0] / v(2LL)); real("half", v(0.5) * v(3.0));')


def generate(rng, ctx):
    flags32 = narrow()
    probe = Program('32 bit probe', [PROBE], lambda i: HEAD + TYPES + TOOLS + 'int main() { %s\n return 0; }\n' % PROBE.body, ['-std=c++11', '-O1', '-w'] + BASE + flags32, cc=['g++'], warn=True,
                    judge=lambda i, e, rc, o: [] if rc == 0 and o == '0 probe 3\n0 half 3ff8000000000000\n' else ['rc %d %s' % (rc, o)])
    r = execute(ctx, probe)
    if not r.ok:  # 32-bit processes are not possible here: nothing is claimed about them
        print('  no 32-bit programs: %s %s' % (r.why, r.log[-300:].replace('\n', ' ')))
        return []
    progs = []
    nwork, nconf = (80, 8) if ctx.thorough else (8, 3)
    lock = threading.Lock()
    for k in range(nwork):
        makers = [p01_gen.buffer, p01_gen.varint, p01_gen.varint, function, function, small, large, large, expression, expression, design, design]
        items = [rng.choice(makers)(rng, i) for i in range(14)]
        if rng.random() < 0.5:
            items.append(terminate(rng, 99))
        cache = {}

        def baseline(its, cache=cache):
            key = tuple(map(id, its))
            with lock:
                if key not in cache:
                    res = []
                    p = Program('64 bit', its, build, ['-std=gnu++17', '-O2', '-DNDEBUG', '-w'] + BASE, warn=True, judge=lambda i, e, rc, o: res.append((rc, o)) or [])
                    cache[key] = (execute(ctx, p, its), res)
                return cache[key]

        def judge(its, exe, rc, out, baseline=baseline):
            r, res = baseline(its)
            if not res:
                return ['64-bit program: ' + r.why]
            if rc != res[0][0]:
                return ['exit code %d, as a 64-bit program %d: %s' % (rc, res[0][0], out[-300:])]
            x, y = out.splitlines(), res[0][1].splitlines()
            for p, q in zip(x, y):
                if p != q:
                    return ['prints "%s", the 64-bit program "%s"' % (p, q)]
            return [] if len(x) == len(y) else ['prints %d lines, the 64-bit program %d' % (len(x), len(y))]
        for j in range(nconf):
            std = rng.choice(['-std=c++11', '-std=c++14', '-std=c++17', '-std=gnu++20'])
            opt = [rng.choice(['-O0', '-O1', '-O2', '-Os']), rng.choice(['-DNDEBUG', '-UNDEBUG'])]
            progs.append(Program('32 bit #%d.%d' % (k, j), items, build, [std] + opt + p01_gen.warnings(opt) + ['-Wno-unused'] + BASE + flags32, cc=['g++'], judge=judge,
                                 warn=True, strict11=True))
    return progs
