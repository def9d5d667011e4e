"""S08: designs computed by the compiler equal those computed at run time.

An item is one design. It is a constant expression (namespace scope, local or
static member) from literal operands; the same calls run again on operands the
compiler cannot see, and both results are compared with each other.
"""
from gen import Program, math_compiler

PRELUDE = r'''
#include <cmath>
#include <cstdio>
#include <limits>
#include <type_traits>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
namespace es = embedded::signal;
typedef long double ld;
template <class T> T v(T x) { volatile T y = x; return y; }
int failures = 0;
void expect(bool ok, int item, char const* what, int k, ld x, ld y, ld tol) {
  if (!ok) {
    ++failures;
    std::printf("FAIL item %d: %s %d is %.17Lg at compile time, %.17Lg at run time (tolerance %.3Lg)\n", item, what, k, x, y, tol);
  }
}
void compare(int item, char const* what, int k, ld x, ld y, ld tol) {
  expect(std::isfinite(x) && std::fabs(x - y) <= tol, item, what, k, x, y, tol);
}
ld binom(int n, int k) {
  ld r = 1;
  for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
  return r;
}
template <class F, std::size_t N>
void check(int item, es::poly_design<F, N> const& x, es::poly_design<F, N> const& y, ld u) {
  int const n = static_cast<int>(N);
  ld const uf = std::numeric_limits<F>::epsilon();
  for (std::size_t k = 0; k <= N; ++k) {
    ld const t = u * n * binom(n, static_cast<int>(k));
    compare(item, "a", static_cast<int>(k), x.a()[k], y.a()[k], t + uf * std::fabs(static_cast<ld>(y.a()[k])));
    compare(item, "b", static_cast<int>(k), x.b()[k], y.b()[k], t * std::fabs(static_cast<ld>(y.b()[0])) + uf * std::fabs(static_cast<ld>(y.b()[k])));
  }
}
template <class F, std::size_t N>
void check(int item, es::sos_design<F, N> const& x, es::sos_design<F, N> const& y, ld u) {
  std::size_t const n = x.size();
  ld const uf = std::numeric_limits<F>::epsilon();
  bool used[64] = {};
  for (std::size_t i = 0; i < n; ++i) {
    // sections that are as far from the unit circle as another may change places
    std::size_t best = n;
    ld dist = 0;
    for (std::size_t j = 0; j < n; ++j) {
      ld const d = std::fabs(static_cast<ld>(x.sos()[i].a()[1]) - y.sos()[j].a()[1]) +
                   std::fabs(static_cast<ld>(x.sos()[i].a()[2]) - y.sos()[j].a()[2]);
      if (!used[j] && (best == n || d < dist || (d == dist && j == i))) { best = j; dist = d; }
    }
    used[best] = true;
    ld const t = 16 * u + 2 * uf;
    for (std::size_t k = 0; k < 3; ++k) {
      int const kk = static_cast<int>(3 * i + k);
      compare(item, "section denominator", kk, x.sos()[i].a()[k], y.sos()[best].a()[k], t);
      if (best == i) {
        compare(item, "section numerator", kk, x.sos()[i].b()[k], y.sos()[i].b()[k],
                (16 * n * u + 2 * uf) * 2 * std::fabs(static_cast<ld>(y.sos()[i].b()[0])));
      }
    }
  }
}
// rounding errors of a design
template <class T>
ld unit(ld fs, ld fc, ld param) {
  ld const x = 3.14159265358979323846L * fc / fs;
  ld const e2 = param > 0 ? std::expm1(std::log(10.0L) * param / 10) : 0;
  return std::numeric_limits<T>::epsilon() * 64 * (1 + 2 * x / std::sin(2 * x) + (e2 > 0 ? (1 + e2) / (2 * e2) : 0));
}
template <class D> void sound(D const&, int) {}
'''


class Item:
    """One design; `text` is what it looks like in reports."""

    def __init__(self, rng, i, max_order):
        self.i = i
        self.family = rng.choice(['butterworth', 'chebyshev1', 'chebyshev2', 'bessel'])
        self.order = rng.choice([1, 2, 3, 4, 5, rng.randint(1, 8), rng.randint(1, max_order), rng.randint(1, max_order)])
        self.hp = rng.random() < 0.5
        self.T = rng.choice(['double', 'double', 'double', 'float', 'long double'])
        self.F = rng.choice({'double': ['double', 'double', 'float'], 'float': ['float'], 'long double': ['long double', 'double']}[self.T])
        # closer to the limits the poles of high orders coincide within rounding
        lo, hi = (0.02, 0.48) if self.T == 'float' else (1e-5, 0.49999) if self.order <= 5 else (0.003, 0.497)
        if self.T == 'float':
            self.order = min(self.order, 6)
        fs = rng.choice([1.0, 2.0, 1000.0, 44100.0, 48000.0, float(rng.randint(1, 100000)), 10 ** rng.uniform(-2, 6)])
        r = rng.choice([0.04, 0.25, 0.125, rng.uniform(lo, hi), rng.uniform(lo, hi), lo * (0.25 / lo) ** rng.random(), 0.5 - (0.5 - hi) * (0.25 / (0.5 - hi)) ** rng.random()])
        self.fs, self.fc = '%.9g' % fs, '%.9g' % (float('%.9g' % fs) * r)
        self.param = None
        if self.family == 'chebyshev1':
            self.param = '%.6g' % rng.choice([1.0, 0.5, 3.0, rng.uniform(0.05, 10), 10 ** rng.uniform(-4, 1.5)])
        if self.family == 'chebyshev2':
            self.param = '%.6g' % rng.choice([20.0, 40.0, 80.0, rng.uniform(5, 90), 10 ** rng.uniform(-1, 2)])
        self.form = rng.choice(['poly', 'first', 'distribute', 'default'])
        self.place = rng.choice(['namespace', 'local', 'member', 'steps'])
        self.text = '%s<%d>(%s) %s T=%s F=%s fs=%s fc=%s %s %s' % (
            self.family, self.order, self.param or '', 'highpass' if self.hp else 'lowpass', self.T, self.F, self.fs, self.fc, self.form, self.place)

    def __str__(self):
        return self.text

    def lit(self, x):
        x = x if any(c in x for c in '.e') else x + '.0'
        return x + {'double': '', 'float': 'f', 'long double': 'L'}[self.T]

    def plit(self):
        x = self.param if '.' in self.param or 'e' in self.param else self.param + '.0'
        return x + ('f' if self.T == 'float' else '')

    def call(self, wrap):
        w = (lambda x: 'v(%s)' % x) if wrap else (lambda x: x)
        proto = 'es::%s<%d%s>(%s)' % (
            self.family, self.order, ', float' if self.param and self.T == 'float' else '', w(self.plit()) if self.param else '')
        base = 'es::iirfilter<%s>(%s).%s(%s, %s)' % (self.T, w(self.lit(self.fs)), 'highpass' if self.hp else 'lowpass', proto, w(self.lit(self.fc)))
        out = {'poly': 'poly<%s>()', 'first': 'sos<%s>(es::sos_gain::first_section)', 'distribute': 'sos<%s>(es::sos_gain::distribute)',
               'default': 'sos<%s>()'}[self.form] % self.F
        return proto, base, out


def build(items):
    out, main = [PRELUDE], []
    for n, it in enumerate(items):
        proto, base, form = it.call(False)
        _, rbase, _ = it.call(True)
        one = 'x%d.a()[0] == 1' % n if it.form == 'poly' else 'x%d.sos()[0].a()[0] == 1' % n
        decl = 'constexpr auto x%d = %s.%s;\nstatic_assert(%s, "leading coefficient");' % (n, base, form, one)
        use = 'x%d' % n
        if it.place == 'namespace':
            out.append(decl)
        elif it.place == 'steps':
            out.append('constexpr auto p%d = %s;\nconstexpr es::iirfilter<%s> f%d(%s);\nconstexpr auto b%d = f%d.%s(p%d, %s);\n'
                       'constexpr auto x%d = b%d.%s;\nstatic_assert(%s, "leading coefficient");' % (
                           n, proto, it.T, n, it.lit(it.fs), n, n, 'highpass' if it.hp else 'lowpass', n, it.lit(it.fc), n, n, form, one))
        elif it.place == 'member':
            t = 'es::%s_design<%s, %d>' % ('poly' if it.form == 'poly' else 'sos', it.F, it.order)
            out.append('struct m%d { static constexpr %s x = %s.%s; };\nconstexpr %s m%d::x;' % (n, t, base, form, t, n))
            use = 'm%d::x' % n
        body = ''
        if it.place == 'local':
            body = '  ' + decl.replace('\n', '\n  ') + '\n'
        out.append('void item%d() {\n%s  auto const y = %s.%s;\n  check(%d, %s, y, unit<%s>(%s, %s, %s));\n}' % (
            n, body, rbase, form, n, use, it.T, it.fs, it.fc, it.param or '0'))
        main.append('item%d();' % n)
    return '\n'.join(out) + '\nint main() {\n  %s\n  return failures != 0;\n}\n' % '\n  '.join(main)


def generate(rng, ctx):
    progs = []
    for k in range(700 if ctx.thorough else 64):
        big = k % 8 == 7
        items = [Item(rng, i, 16 if big else 10) for i in range(4 if big else 10)]
        if ctx.thorough and k % 16 == 15:
            items = items[:1]
            items[0].order = rng.choice([20, 24, 31, 40, 48])
            if items[0].T == 'float':
                items[0].order = 8
            items[0].text += ' order=%d' % items[0].order
        std = rng.choice(['-std=c++11', '-std=c++14', '-std=c++17', '-std=c++20', '-std=gnu++17'])
        cc, extra = math_compiler(rng)
        progs.append(Program('designs %s %s%s #%d' % (cc, std, ' gcem' if '-isystem' in extra else '', k), items, build,
                             [std, rng.choice(['-O0', '-O1', '-O2'])] + extra, cc=[cc]))
    return progs
