"""M01-M03: generated constant expressions.

An item is a random expression over the compile-time math library. Its value is
computed by the compiler (constexpr), again at run time from operands the
compiler cannot see, and - where the arithmetic is exact - by an independent
model here. All three have to agree.
"""
from gen import Program, math_compiler

PRELUDE = r'''
#include <cmath>
#include <cstdio>
#include <embedded/constexpr_math.h>
namespace cm = embedded::cmath;
typedef long long I;
typedef cm::complex<double> C;
template <class T> T v(T x) { volatile T y = x; return y; }
struct Less { template <class T> constexpr bool operator()(T const& a, T const& b) const noexcept { return a < b; } };
struct More { template <class T> constexpr bool operator()(T const& a, T const& b) const noexcept { return b < a; } };
struct Mod3 { constexpr bool operator()(I a, I b) const noexcept { return (a % 3 + 3) % 3 < (b % 3 + 3) % 3; } };
struct NormLess { constexpr bool operator()(C const& a, C const& b) const noexcept { return a.norm() < b.norm(); } };
struct Odd { constexpr bool operator()(I a) const noexcept { return a % 2 != 0; } };
struct Pos { template <class T> constexpr bool operator()(T const& a) const noexcept { return a > T(0); } };
struct Sq { template <class T> constexpr T operator()(T const& a) const noexcept { return a * a; } };
struct Lin { template <class T> constexpr T operator()(T const& a) const noexcept { return T(2) * a + T(1); } };
struct Conj { constexpr C operator()(C const& a) const noexcept { return a.conj(); } };
struct ToD { template <class T> constexpr double operator()(T const& a) const noexcept { return static_cast<double>(a) + 1; } };
struct Idx { I k; constexpr explicit Idx(I x) : k{x} {} constexpr I operator()(I i) const noexcept { return k * i + 1; } };
struct Plus { template <class T> constexpr T operator()(T const& a, T const& b) const noexcept { return a + b; } };
struct Max { template <class T> constexpr T operator()(T const& a, T const& b) const noexcept { return a < b ? b : a; } };
int bad = 0;
void fail(int item, char const* what) { ++bad; std::printf("FAIL item %d: %s\n", item, what); }
bool eq(I a, I b, double) { return a == b; }
bool eq(double a, double b, double tol) {
  return std::fabs(a - b) <= tol * (std::fabs(a) + std::fabs(b)); }
bool eq(C a, C b, double tol) {
  return std::hypot(a.real() - b.real(), a.imag() - b.imag()) <=
         tol * (std::hypot(a.real(), a.imag()) + std::hypot(b.real(), b.imag())); }
template <class T, std::size_t N>
bool eq(cm::vector<T, N> const& a, cm::vector<T, N> const& b, double tol) {
  for (std::size_t i = 0; i < N; ++i) { if (!eq(a[i], b[i], tol)) return false; }
  return true; }
template <class T> struct Opaque { T value; };
template <class A, class B>
void check(int item, A const& constant, B const& run, double tol) {
  static_assert(std::is_same<A, B>::value, "same type");
  if (!eq(constant, run, tol)) fail(item, "constant evaluation and run time differ"); }
template <class A>
void expect(int item, A const& constant, A const& want) {
  if (!eq(constant, want, 0)) fail(item, "the value differs from the definition"); }
'''


class Expr:
    """text with literals marked as @value@, type ('I','D','C') and size (None: scalar), model value, tolerance."""
    def __init__(self, text, elem, size, val, tol=0.0, depth=0):
        self.text, self.elem, self.size, self.val, self.tol, self.depth = text, elem, size, val, tol, depth


class Bad(Exception):
    pass


def cxx(elem):
    return {'I': 'I', 'D': 'double', 'C': 'C'}[elem]


def vec(elem, n):
    return 'cm::vector<%s, %d>' % (cxx(elem), n)


class G:
    def __init__(self, rng, kinds):
        self.r, self.kinds = rng, kinds

    def lit(self, elem, general=False, nonzero=False):
        r = self.r
        while True:
            if elem == 'I':
                k = r.choice([r.randint(-3, 3), r.randint(-20, 20)])
                if nonzero and k == 0:
                    continue
                return '@%dLL@' % k, k
            if elem == 'D':
                k = r.choice([float(r.randint(-8, 8)), r.randint(-64, 64) / 8.0])
                if nonzero and k == 0:
                    continue
                return '@double(%r)@' % k, k
            a, b = r.randint(-6, 6), r.randint(-6, 6)
            if r.random() < 0.2:
                b = 0
            if nonzero and a == 0 and b == 0:
                continue
            return 'C{@%d.0@, @%d.0@}' % (a, b), complex(a, b)

    def leaf(self, elem, n):
        r = self.r
        w = r.random()
        if w < 0.08:
            return Expr('%s::ones()' % vec(elem, n), elem, n, [self.num(elem, 1)] * n)
        if w < 0.16:
            return Expr('%s::zeros()' % vec(elem, n), elem, n, [self.num(elem, 0)] * n)
        if w < 0.25:
            t, k = self.lit(elem)
            return Expr('%s::full(%s)' % (vec(elem, n), t), elem, n, [k] * n)
        if w < 0.35 and elem == 'I':
            t, k = self.lit('I')
            return Expr('%s::create(Idx{%s})' % (vec(elem, n), t), elem, n, [k * i + 1 for i in range(n)])
        ls = [self.lit(elem) for _ in range(n)]
        return Expr('%s{%s}' % (vec(elem, n), ', '.join(l[0] for l in ls)), elem, n, [l[1] for l in ls])

    def num(self, elem, k):
        return {'I': k, 'D': float(k), 'C': complex(k)}[elem]

    def check(self, vals):
        for x in vals:
            if abs(x) > 2 ** 40:
                raise Bad()

    def vector(self, elem, depth):
        r = self.r
        if depth == 0:
            return self.leaf(elem, r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7]))
        while True:
            try:
                e = self.vop(elem, depth)
                self.check(e.val)
                e.depth = depth
                return e
            except Bad:
                pass

    def vop(self, elem, depth):
        r = self.r
        ops = ['neg', 'mul', 'add', 'append', 'sub', 'erase', 'swap', 'swappop', 'sort', 'transform', 'divby', 'copy']
        if elem == 'C':
            ops += ['conjt', 'full']
        if elem == 'D':
            ops += ['real', 'imag', 'norm', 'convert', 'tod']
        if 'M03' in self.kinds:
            ops += ['conv', 'poly'] * 4
        op = r.choice(ops)
        if op in ('real', 'imag', 'norm'):
            a = self.vector('C', depth - 1)
            f = {'real': lambda z: z.real, 'imag': lambda z: z.imag,
                 'norm': lambda z: z.real * z.real + z.imag * z.imag}[op]
            return Expr('%s(%s)' % (op, a.text), 'D', a.size, [f(z) for z in a.val])
        if op == 'convert':
            a = self.vector('I', depth - 1)
            return Expr('%s(%s)' % (vec('D', a.size), a.text), 'D', a.size, [float(x) for x in a.val])
        if op == 'tod':
            a = self.vector('I', depth - 1)
            return Expr('%s.transform<double>(ToD{})' % a.text, 'D', a.size, [float(x) + 1 for x in a.val])
        a = self.vector(elem, depth - 1)
        n, val, t = a.size, a.val, a.text
        if op == 'full':
            k, kv = self.lit(elem)
            return Expr('%s.append(%s::full(%s))' % (t, vec(elem, 2), k), elem, n + 2, val + [kv, kv])
        if op == 'neg':
            return Expr('(-%s)' % t, elem, n, [-x for x in val])
        if op == 'mul':
            k, kv = self.lit(elem)
            return Expr('(%s * %s)' % (k, t), elem, n, [kv * x for x in val])
        if op == 'add':
            k, kv = self.lit(elem)
            return Expr('(%s + %s)' % (k, t), elem, n, [kv + x for x in val])
        if op == 'divby':
            if elem == 'I':
                k, kv = self.lit('I', nonzero=True)
                return Expr('(%s / %s)' % (t, k), elem, n, [abs(x) // abs(kv) * (1 if (x < 0) == (kv < 0) else -1) for x in val])
            k = r.choice([1, 2, 4, -2, 8, -1])
            if elem == 'C':
                return Expr('(%s / C{@%d.0@, @0.0@})' % (t, k), elem, n, [complex(x.real / k, x.imag / k) for x in val])
            return Expr('(%s / @%d.0@)' % (t, k), elem, n, [x / k for x in val])
        if op == 'append':
            b = self.vector(elem, r.randint(0, depth - 1))
            if n + b.size > 24:
                raise Bad()
            return Expr('%s.append(%s)' % (t, b.text), elem, n + b.size, val + b.val)
        if op == 'sub':
            p = r.randint(0, n)
            c = r.randint(0, n - p)
            return Expr('%s.subvector<%d, %d>()' % (t, p, c), elem, c, val[p:p + c])
        if op == 'erase':
            p = r.randint(0, n)
            c = r.randint(0, n - p)
            return Expr('%s.erase<%d, %d>()' % (t, p, c), elem, n - c, val[:p] + val[p + c:])
        if op in ('swap', 'swappop'):
            if n == 0:
                raise Bad()
            i, j = r.randrange(n), r.randrange(n)
            if op == 'swap':
                w = list(val)
                w[i], w[j] = w[j], w[i]
                return Expr('%s.swap(@std::size_t(%d)@, @std::size_t(%d)@)' % (t, i, j), elem, n, w)
            w = list(val)
            w[i], w[0] = w[0], w[i]
            return Expr('%s.swappop(@std::size_t(%d)@)' % (t, i), elem, n - 1, w[1:])
        if op == 'sort':
            if elem == 'C':
                # exact only if no two different elements have the same norm
                key = lambda z: z.real * z.real + z.imag * z.imag
                if len({key(z) for z in val}) != len(set(val)):
                    raise Bad()
                return Expr('%s.sort(NormLess{})' % t, elem, n, sorted(val, key=key))
            if r.random() < 0.5:
                return Expr('%s.sort(Less{})' % t, elem, n, sorted(val))
            return Expr('%s.sort(More{})' % t, elem, n, sorted(val, reverse=True))
        if op == 'transform':
            if r.random() < 0.5:
                return Expr('%s.transform(Sq{})' % t, elem, n, [x * x for x in val])
            return Expr('%s.transform(Lin{})' % t, elem, n, [2 * x + 1 for x in val])
        if op == 'conjt':
            return Expr('%s.transform(Conj{})' % t, elem, n, [x.conjugate() for x in val])
        if op == 'copy':
            return Expr('%s(%s)' % (vec(elem, n), t), elem, n, list(val))
        if op == 'conv':
            b = self.vector(elem, r.randint(0, depth - 1))
            if n == 0 or b.size == 0 or n + b.size > 14:
                raise Bad()
            w = [self.num(elem, 0)] * (n + b.size - 1)
            for i, x in enumerate(val):
                for j, y in enumerate(b.val):
                    w[i + j] += x * y
            return Expr('cm::convolve_full(%s, %s)' % (t, b.text), elem, len(w), w)
        if op == 'poly':
            if n > 10:
                raise Bad()
            w = [self.num(elem, 1)]
            for z in val:
                w = [(w[i] if i < len(w) else 0) - (w[i - 1] * z if i else 0) for i in range(len(w) + 1)]
            return Expr('cm::poly(%s)' % t, elem, n + 1, [self.num(elem, x) if elem != 'C' else complex(x) for x in w])
        raise AssertionError(op)

    def scalar(self, depth):
        while True:
            try:
                e = self.sop(depth)
                self.check([e.val])
                return e
            except Bad:
                pass

    def sop(self, depth):
        r = self.r
        op = r.choice(['sum', 'prod', 'max', 'argmin', 'count', 'eq', 'elem', 'size'])
        elem = r.choice('IID' + ('CC' if 'M02' in self.kinds else 'C'))
        a = self.vector(elem, depth)
        t, n, val = a.text, a.size, a.val
        if op == 'sum':
            k, kv = self.lit(elem)
            return Expr('%s.reduce(Plus{}, %s)' % (t, k), elem, None, sum(val, kv))
        if op == 'prod':
            p = self.num(elem, 1)
            for x in val:
                p *= x
            return Expr('prod(%s)' % t, elem, None, p)
        if op == 'max':
            if elem == 'C':
                raise Bad()
            k, kv = self.lit(elem)
            return Expr('%s.reduce(Max{}, %s)' % (t, k), elem, None, max(val + [kv]))
        if op == 'argmin':
            if n == 0 or elem == 'C':
                raise Bad()
            f = r.choice(['Less', 'More'])
            m = min(val) if f == 'Less' else max(val)
            return Expr('static_cast<I>(%s.argmin(%s{}))' % (t, f), 'I', None, val.index(m))
        if op == 'count':
            if elem == 'C':
                raise Bad()
            return Expr('static_cast<I>(%s.count(Pos{}))' % t, 'I', None, sum(1 for x in val if x > 0))
        if op == 'eq':
            if r.random() < 0.5:
                b = Expr(t, elem, n, val)
            else:
                b = self.leaf(elem, n)
                if n and r.random() < 0.7:  # one element changed
                    i = r.randrange(n)
                    w = list(val)
                    if elem != 'C':
                        w[i] = w[i] + 1
                        b = Expr('%s{%s}' % (vec(elem, n), ', '.join('@%s(%r)@' % (cxx(elem), x) for x in w)), elem, n, w)
                    else:
                        w[i] = complex(w[i].real, w[i].imag + 1)
                        b = Expr('%s{%s}' % (vec(elem, n), ', '.join('C{@%r@, @%r@}' % (x.real, x.imag) for x in w)), elem, n, w)
            return Expr('static_cast<I>(%s == %s)' % (t, b.text), 'I', None, int(val == b.val))
        if op == 'elem':
            if n == 0:
                raise Bad()
            i = r.randrange(n)
            return Expr('%s[@std::size_t(%d)@]' % (t, i), elem, None, val[i])
        return Expr('static_cast<I>(%s.size())' % t, 'I', None, n)

    # complex scalars, with any operands; the model is exact only without division, roots, exp
    def cpx(self, depth, general):
        r = self.r
        if depth == 0:
            if general:
                a, b = r.uniform(-4, 4), r.uniform(-4, 4)
                if r.random() < 0.15:
                    b = 0.0
                return Expr('C{@%r@, @%r@}' % (a, b), 'C', None, complex(a, b))
            t, z = self.lit('C')
            return Expr(t, 'C', None, z)
        op = r.choice(['+', '-', '*', '*', 'neg', 'conj', 'k*', 'k+', 'k-'] + (['/', '/', 'k/', '/k'] if general else []))
        a = self.cpx(depth - 1, general)
        if op in '+-*/' and len(op) == 1:
            b = self.cpx(r.randint(0, depth - 1), general)
            if op == '/' and abs(b.val) < 1e-3:
                raise Bad()
            z = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y,
                 '/': lambda x, y: x / y}[op](a.val, b.val)
            e = Expr('(%s %s %s)' % (a.text, op, b.text), 'C', None, z)
        elif op == 'neg':
            e = Expr('(-%s)' % a.text, 'C', None, -a.val)
        elif op == 'conj':
            e = Expr('%s.conj()' % a.text, 'C', None, a.val.conjugate())
        elif op == '/k':
            k = r.choice([2.0, -3.5, 0.7])
            e = Expr('(%s / @%r@)' % (a.text, k), 'C', None, a.val / k)
        else:
            t, k = ('@%r@' % (lambda x: x)(float(r.randint(-5, 5))), None)
            k = float(t.strip('@'))
            if op == 'k/' and abs(a.val) < 1e-3:
                raise Bad()
            z = {'k*': lambda: k * a.val, 'k+': lambda: k + a.val, 'k-': lambda: k - a.val, 'k/': lambda: k / a.val}[op]()
            e = Expr('(%s %s %s)' % (t, op[1], a.text), 'C', None, z)
        if abs(e.val) > 1e9 or (general and 0 < abs(e.val) < 1e-6):
            raise Bad()
        return e

    def complex_item(self):
        r = self.r
        general = r.random() < 0.5
        while True:
            try:
                e = self.cpx(r.randint(1, 5), general)
                break
            except (Bad, OverflowError, ZeroDivisionError):
                pass
        t, z = e.text, e.val
        op = r.choice(['id', 'id', 'norm', 'abs', 'real', 'imag', 'exp', 'is_real', 'eq', 'distance'])
        if op == 'exp':
            if abs(z) > 20:
                op = 'id'
            else:
                return Expr('exp(%s)' % t, 'C', None, None, 1e-11)
        if op == 'id':
            e.val = None if general else z
            e.tol = 1e-13 if general else 0
            return e
        if op == 'norm':
            return Expr('%s.norm()' % t, 'D', None, None if general else z.real * z.real + z.imag * z.imag, 1e-13 if general else 0)
        if op == 'abs':
            return Expr('%s.abs()' % t, 'D', None, None, 1e-13)
        if op in ('real', 'imag'):
            return Expr('%s.%s()' % (t, op), 'D', None, None if general else getattr(z, op), 1e-11 if general else 0)
        if op == 'is_real':
            return Expr('static_cast<I>(%s.is_real())' % t, 'I', None, None if general else int(z.imag == 0))
        if op == 'eq':
            o, w = (t, z) if r.random() < 0.4 else self.lit('C')
            return Expr('static_cast<I>(%s == %s)' % (t, o), 'I', None, None if general else int(z == w))
        o, w = self.lit('C')
        return Expr('%s.distance(%s)' % (t, o), 'D', None, None, 1e-11)


def literal(elem, x):
    if elem == 'I':
        return '%dLL' % x
    if elem == 'D':
        return 'double(%r)' % float(x)
    return 'C{%r, %r}' % (x.real, x.imag)


def marks(text, run):
    parts = text.split('@')
    return ''.join(p if i % 2 == 0 else ('v(%s)' % p if run else p) for i, p in enumerate(parts))


class Item:
    def __init__(self, e):
        self.e = e

    def __str__(self):
        return marks(self.e.text, False)


def build(items):
    out = [PRELUDE]
    for i, it in enumerate(items):
        e = it.e
        out.append('void item%d() {\n  constexpr auto c = %s;\n  auto const r = %s;\n  check(%d, c, r, %r);' %
                   (i, marks(e.text, False), marks(e.text, True), i, e.tol))
        out.append('  static_assert(std::is_same<decltype(c), %s const>::value, "type");' %
                   (cxx(e.elem) if e.size is None else vec(e.elem, e.size)))
        if e.val is not None:
            if e.size is None:
                out.append('  expect<%s>(%d, c, %s);' % (cxx(e.elem), i, literal(e.elem, e.val)))
            else:
                out.append('  expect<%s>(%d, c, %s{%s});' % (vec(e.elem, e.size), i, vec(e.elem, e.size),
                                                           ', '.join(literal(e.elem, x) for x in e.val)))
        out.append('}')
    out.append('int main() {')
    out += ['  item%d();' % i for i in range(len(items))]
    out.append('  return bad != 0;\n}')
    return '\n'.join(out)


def generator(kind):
    def generate(rng, ctx):
        nprog, nitems = (120, 40) if ctx.thorough else (16, 25)
        progs = []
        for p in range(nprog):
            g = G(rng, {kind})
            items = []
            while len(items) < nitems:
                if kind == 'M02' and rng.random() < 0.75:
                    e = g.complex_item()
                elif kind == 'M02':
                    e = g.vector(rng.choice('CCD'), rng.randint(1, 3))
                elif kind == 'M01' and rng.random() < 0.4:
                    e = g.scalar(rng.randint(1, 3))
                else:
                    e = g.vector(rng.choice('IDC' if kind == 'M03' else 'IID'), rng.randint(1, 4))
                    if kind == 'M03' and 'cm::' + 'poly' not in e.text and 'convolve' not in e.text:
                        continue
                items.append(Item(e))
            std = rng.choice(['-std=c++11', '-std=c++14', '-std=c++17', '-std=c++20', '-std=gnu++17'])
            opt = rng.choice(['-O0', '-O1', '-O2'])
            cc, extra = math_compiler(rng)
            progs.append(Program('constant expressions %s %s%s #%d' % (cc, std, ' gcem' if '-isystem' in extra else '', p), items, build,
                                 [std, opt] + extra, cc=[cc]))
        return progs
    return generate
