"""S09: the debug records in the object file describe the designs.

An item is one record: a design (also several records of one design), a name
and a translation unit. The program prints the coefficients as the design
reports them; the section is extracted from the executable, parsed from the
documented layout and compared with that, bit by bit.
"""
import os, re, struct, subprocess
from gen import Program, math_compiler

HEADER = r'''
#include <cstdio>
#include <cstring>
#include <embedded/signal/debug_filter_coefs.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
namespace es = embedded::signal;
#define TEXT2(x) #x
#define TEXT(x) TEXT2(x)
#define MY_LIBEMB_DEBUG_FILTER_COEFS(d) LIBEMB_DEBUG_FILTER_COEFS(d)
#define MY_LIBEMB_DEBUG_FILTER_COEFS_NAME(d, n) LIBEMB_DEBUG_FILTER_COEFS_NAME(d, n)
'''
PRINT = r'''
namespace {
void hex(void const* p, std::size_t n) {
  unsigned char const* b = static_cast<unsigned char const*>(p);
  for (std::size_t i = 0; i < n; ++i) std::printf("%02x", b[i]);
}
template <class F> void value(F x) { std::printf(" "); hex(&x, sizeof(F) == 16 ? 10 : sizeof(F)); }
template <class F> int kind() { return sizeof(F) == 4 ? 0 : sizeof(F) == 8 ? 1 : 2; }
inline void begin(int s, int t, char const* name, std::size_t n) {
  std::printf("REC %d %d x", s, t);
  std::size_t k = 0;
  while (k < n && name[k]) ++k;
  hex(name, k);
}
template <class F, std::size_t N> void record(es::sos_design<F, N> const& d, char const* name, std::size_t n) {
  begin(0, kind<F>(), name, n);
  for (std::size_t i = 0; i < d.size(); ++i) {
    for (std::size_t k = 0; k < 3; ++k) value(d.sos()[i].b()[k]);
    for (std::size_t k = 1; k < 3; ++k) value(d.sos()[i].a()[k]);
  }
  std::printf("\n");
}
template <class F, std::size_t N> void record(es::poly_design<F, N> const& d, char const* name, std::size_t n) {
  begin(1, kind<F>(), name, n);
  for (std::size_t k = 0; k <= N; ++k) value(d.b()[k]);
  for (std::size_t k = 0; k <= N; ++k) value(d.a()[k]);
  std::printf("\n");
}
} // namespace
'''
SIZES = {'float': 4, 'double': 8, 'long double': 16}


class Item:
    def __init__(self, rng, unit, ident, reuse=None):
        self.unit, self.ident = unit, ident
        self.reuse = reuse  # another record of that design
        if reuse is not None:
            self.ident, self.unit, self.design = reuse.ident, reuse.unit, None
            self.what = 'again ' + reuse.ident
        else:
            T = rng.choice(['double', 'double', 'float', 'long double'])
            F = rng.choice({'double': ['double', 'float', 'float', 'long double'], 'float': ['float', 'double'], 'long double': ['long double', 'double', 'float']}[T])
            fam = rng.choice(['butterworth<%d>()', 'bessel<%d>()', 'chebyshev1<%d%s>(1.0%s)', 'chebyshev2<%d%s>(40.0%s)'])
            n = rng.choice([1, 2, 3, 4, rng.randint(1, 6), rng.randint(1, 12)])
            if T == 'float':  # products of a design in single precision overflow
                n = min(n, 5)
            proto = fam % ((n,) if '%s' not in fam else (n, ', float' if T == 'float' else '', 'f' if T == 'float' else ''))
            suf = {'double': '', 'float': 'f', 'long double': 'L'}[T]
            form = rng.choice(['sos<%s>()', 'sos<%s>(es::sos_gain::distribute)', 'poly<%s>()'])
            kind = rng.choice(['constexpr', 'constexpr', 'constexpr', 'static constexpr'])
            self.design = '%s auto %s = es::iirfilter<%s>(1000.0%s).%s(es::%s, %s%s).%s;' % (
                kind, self.ident, T, suf, rng.choice(['lowpass', 'highpass']), proto, '%.4f' % (rng.uniform(5, 490) if T != 'float' else rng.uniform(20, 450)), suf, form % F)
            self.what = self.design
        k = rng.random()
        if k < 0.3:
            self.name = None
        elif k < 0.4:
            self.name = ('array', rng.choice([1, 2, 3, 10, 117, 118, 119, 120, 121, 200]), rng.random() < 0.5)
        else:
            n = rng.choice([0, 1, 2, 20, 60, 116, 117, 118, 119, 120, 121, 127, 128, 200, rng.randint(0, 130), rng.randint(0, 130), rng.randint(100, 300)])
            alphabet = rng.choice(['abc XYZ_0123', 'FILT', 'aé€', '%\\"\'?\t', '\x01\x7f'])
            self.name = ('text', ''.join(rng.choice(alphabet) for _ in range(n)))
        self.sep = rng.random() < 0.15
        self.joined = rng.random() < 0.2  # on the line of the record before
        self.wrap = rng.choice(['', '', '', 'MY_'])  # by a macro of the user

    def __str__(self):
        return 'unit %d: %s; name %r' % (self.unit, self.what, self.name)


def cstr(s):
    return '"' + ''.join('\\%03o' % b if b < 32 or b > 126 or chr(b) in '"\\?' else chr(b) for b in s.encode()) + '"'


def build(items):
    units = sorted(set(it.unit for it in items))
    src = {}
    for u in units:
        out, body, done = [HEADER, PRINT], [], set()
        for n, it in enumerate(items):
            if it.unit != u:
                continue
            design = it.design or it.reuse.design
            start = len(out)
            if it.ident not in done:
                out.append(design)
                done.add(it.ident)
            if it.sep:
                out.append('int const filler%d = __COUNTER__;' % n)
            if it.name is None:
                out.append('%sLIBEMB_DEBUG_FILTER_COEFS(%s); static char const name%d[] = "%s (" __FILE__ ":" TEXT(__LINE__) ")";' % (it.wrap, it.ident, n, it.ident))
            elif it.name[0] == 'text':
                out.append('static char const name%d[] = %s;' % (n, cstr(it.name[1])))
                out.append('%sLIBEMB_DEBUG_FILTER_COEFS_NAME(%s, %s);' % (it.wrap, it.ident, cstr(it.name[1])))
            else:  # an array, not terminated or terminated early
                k = it.name[1]
                vals = ["'%s'" % chr(97 + i % 26) for i in range(k)]
                if it.name[2] and k > 2:
                    vals[k // 2] = "'\\0'"
                out.append('constexpr char name%d[] = {%s};' % (n, ', '.join(vals)))
                out.append('%sLIBEMB_DEBUG_FILTER_COEFS_NAME(%s, name%d);' % (it.wrap, it.ident, n))
            if it.joined and start > 2:
                out[start - 1:] = [' '.join(out[start - 1:])]
            body.append('  record(%s, name%d, sizeof(name%d) > 118 ? 118 : sizeof(name%d));' % (it.ident, n, n, n))
        out.append('void unit%d() {\n%s\n}' % (u, '\n'.join(body)))
        src['u%d.cpp' % u] = '\n'.join(out) + '\n'
    src['main.cpp'] = '%s\nint main() { %s }\n' % (
        '\n'.join('void unit%d();' % u for u in units), ' '.join('unit%d();' % u for u in units))
    return src


def parse(data):
    """Records of a section; raises ValueError when it is not a sequence of them."""
    recs, pos = [], 0
    while True:
        while pos < len(data) and data[pos] == 0:
            pos += 1
        if pos == len(data):
            return recs
        if pos % 4 or len(data) - pos < 128:
            raise ValueError('no header at offset %d of %d' % (pos, len(data)))
        magic, length, version, structure, valtype = struct.unpack_from('<IHBBB', data, pos)
        name = data[pos + 9:pos + 128]
        if magic != 0x544C4946:
            raise ValueError('wrong magic %08x at offset %d' % (magic, pos))
        if version != 0 or structure > 1 or valtype > 2:
            raise ValueError('version %d, structure %d, value type %d' % (version, structure, valtype))
        if b'\0' not in name:
            raise ValueError('the name is not terminated')
        if length < 128 or pos + length > len(data):
            raise ValueError('length %d at offset %d of %d' % (length, pos, len(data)))
        size = [4, 8, 16][valtype]
        body = data[pos + 128:pos + length]
        if len(body) % size:
            raise ValueError('length %d is not a multiple of the value size %d' % (len(body), size))
        vals = [body[i:i + min(size, 10)].hex() for i in range(0, len(body), size)]
        recs.append((structure, valtype, name.split(b'\0')[0].hex(), tuple(vals)))
        pos += length


def judge_section(section):
    def judge(items, exe, rc, out):
        if rc != 0:
            return ['exit code %d' % rc]
        want = []
        for l in out.splitlines():
            m = l.split()
            if m and m[0] == 'REC':
                want.append((int(m[1]), int(m[2]), m[3][1:], tuple(m[4:])))
        if len(want) != len(items):
            return ['%d of %d designs printed' % (len(want), len(items))]
        f = exe + '.section'
        p = subprocess.run(['objcopy', '-O', 'binary', '--only-section=' + section, '--set-section-flags', section + '=alloc', exe, f],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode or not os.path.exists(f):
            return ['no section %s: %s' % (section, p.stdout.decode()[:200])]
        try:
            got = parse(open(f, 'rb').read())
        except ValueError as e:
            return ['section: %s' % e]
        msgs = []
        for r in want:
            if r in got:
                got.remove(r)
            else:
                near = [g for g in got if g[2] == r[2]] or got
                msgs.append('no record for structure %d, type %d, name %s, values %s; found %s' % (
                    r[0], r[1], bytes.fromhex(r[2]), ' '.join(r[3][:6]), [(g[0], g[1], bytes.fromhex(g[2]), ' '.join(g[3][:6])) for g in near[:2]]))
        if got and not msgs:
            msgs.append('superfluous records: %s' % str(got)[:300])
        return msgs
    return judge


def generate(rng, ctx):
    progs = []
    for k in range(500 if ctx.thorough else 160):
        units = rng.choice([1, 1, 1, 2, 3])
        items, counts = [], {}
        style = rng.choice(['d%d', 'lp%d', 'filter_%d', 'd'])
        for i in range(rng.randint(1, 14)):
            u = rng.randrange(units)
            mine = [it for it in items if it.unit == u]
            if mine and rng.random() < 0.25:
                src = rng.choice(mine)
                items.append(Item(rng, u, None, src.reuse or src))
            else:
                ident = style % len(items) if '%' in style else 'd' + '0123456789'[i % 10] * (1 + i // 10)
                if units > 1:
                    ident = 'u%d_' % u + ident
                items.append(Item(rng, u, ident))
        std = rng.choice(['-std=c++11', '-std=c++14', '-std=c++17', '-std=c++20', '-std=gnu++17'])
        section = rng.choice(['.libemb_filter_coefs'] * 3 + ['.my_filters'])
        flags = [std, rng.choice(['-O0', '-O1', '-O2', '-Os']), '-w', '-pedantic-errors']
        flags += rng.choice([[], [], ['-fdata-sections', '-ffunction-sections'], ['-fno-exceptions', '-fno-rtti'], ['-fPIC'], ['-g']])
        if section != '.libemb_filter_coefs':
            flags.append('-DLIBEMB_DEBUG_FILTER_COEFS_SECTION="%s"' % section)
        cc, extra = math_compiler(rng)
        progs.append(Program('records %s %s #%d' % (cc, std, k), items, build, flags + extra, cc=[cc], judge=judge_section(section), warn=True))
    return progs
