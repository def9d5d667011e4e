"""F04, compile-time part: what fits is accepted, what does not is rejected."""
from gen import Program

TEMPLATE = '''#include <embedded/function.h>
struct alignas(%(align)d) T {
  unsigned char b[%(size)d];
  T() = default;
  T(T const&) %(copy)s;
  T(T&&) %(move)s;
  void operator()() %(cq)s {}
};
static_assert(sizeof(T) == %(sizeof)d, "");
using F = embedded::function<void()%(cq)s%(args)s>;
void use() {
%(body)s
}
'''
BODIES = [
    '  F f{T()}; f();', '  F f; f = T(); f();', '  T t; F f(static_cast<T&&>(t)); f();',
    '  F f(nullptr); T t; f = static_cast<T&&>(t);',
]


def generate(rng, ctx):
    progs = []
    n = 400 if ctx.thorough else 40
    for k in range(n):
        default = rng.random() < 0.15
        cap, al = (24, 8) if default else (rng.choice([1, 2, 3, 7, 8, 12, 16, 24, 31, 32, 40, 64, 100, 200]),
                                           rng.choice([1, 2, 4, 8, 16, 32, 64]))
        align = rng.choice([a for a in (1, 2, 4, 8, 16, 32, 64) if a <= al and a <= cap])
        fit = [s for s in range(1, cap + 1) if s % align == 0]
        size = rng.choice([fit[-1], fit[-1], rng.choice(fit)])
        d = dict(align=align, size=size, sizeof=size, copy=rng.choice(['= default', '= delete', 'noexcept(false)', 'noexcept']),
                 move='noexcept', cq=rng.choice(['', ' const']), args='' if default else ', %d, %d' % (cap, al),
                 body=rng.choice(BODIES))
        if d['copy'] in ('noexcept(false)', 'noexcept'):
            pass
        good = dict(d)
        bad = dict(d)
        why = rng.choice(['size', 'size', 'align', 'throw', 'throw'])
        if why == 'size':
            bad['size'] = bad['sizeof'] = rng.choice([fit[-1] + align, fit[-1] + align, 2 * cap // align * align + align])
        elif why == 'align':
            bad['align'] = al * 2 if rng.random() < 0.7 else 128
            bad['size'] = bad['sizeof'] = bad['align']
            # large enough: only the alignment is wrong
            bad['args'] = ', %d, %d' % (max(cap, bad['align']), al)
        else:
            bad['move'] = rng.choice(['noexcept(false)', '', 'noexcept(sizeof(T*) == 3)'])
        if bad['move'] != 'noexcept' and 'sizeof' in bad['move']:
            bad['move'] = 'noexcept(sizeof(int) == 3)'
        for mode, x in (('accept', good), ('reject', bad)):
            flags = ['-std=c++%d' % rng.choice([11, 14, 17, 20])]
            progs.append(Program('%s #%d' % (why if mode == 'reject' else 'fits', k), [tuple(sorted(x.items()))],
                                 lambda items: TEMPLATE % dict(items[0]) if items else '', flags, mode,
                                 cc=rng.choice([['g++'], ['g++'], ['clang++']])))
    return progs
