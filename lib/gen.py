"""Property checks whose inputs are programs: types, signatures, designs.

A generator draws `Program`s from a seeded random source. Each is built from
independent items, so that a failure can be shrunk to the fewest items that
still fail. A program is compiled against the tested tree and then

  mode 'run'     must compile, run and exit 0 (output is judged by `judge`)
  mode 'accept'  must compile
  mode 'reject'  must be refused by the compiler with an error
"""
import os, random, re, shutil, threading
from concurrent.futures import ThreadPoolExecutor

from vrun import (ToolError, Violation, compile_one, compiler_works, sh, GXX, NPROC, ROOT)


# the mathematical parts without constexpr <cmath> functions (clang++, or g++ told so) use gcem, here a stand-in
GCEM = ['-isystem', os.path.join(ROOT, 'lib', 'gcemstub')]


def math_compiler(rng):
    """A compiler for the mathematical parts and the flags that go with it."""
    return rng.choice([('g++', ['-fconstexpr-ops-limit=200000000'])] * 4 +
                      [('g++', ['-fconstexpr-ops-limit=200000000', '-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR'] + GCEM),
                       ('clang++', ['-fconstexpr-steps=200000000', '-fconstexpr-depth=1024', '-fbracket-depth=1024'] + GCEM)])


class Program:
    def __init__(self, name, items, build, flags, mode='run', cc=None, judge=None, link=(), nontrivial=None, warn=False, strict11=False):
        self.name = name          # label for reports
        self.items = list(items)  # what was generated
        self.build = build        # items -> source text (or dict name -> text)
        self.flags = list(flags)
        self.mode, self.cc, self.link = mode, cc, list(link)
        self.warn = warn          # compile without -w
        self.judge = judge        # (items, exe, rc, output) -> list of failure messages
        self.nontrivial = nontrivial
        self.strict11 = strict11  # what C++11 lacks besides the bodies of constexpr functions is a failure


class Result:
    def __init__(self, ok, why='', log='', command=None):
        self.ok, self.why, self.log, self.command = ok, why, log, command


_counter = [0]
_lock = threading.Lock()


def _fresh(ctx):
    with _lock:
        _counter[0] += 1
        n = _counter[0]
    d = ctx.path('gen-%d' % n)
    os.makedirs(d)
    return d


LATER = re.compile(r"only available with|trailing return type|C\+\+1[47] (feature|extension)|not allowed in lambda|missing terminating")
BODY = re.compile(r"constexpr|constant[- ]expression|non-constant")


def only_constexpr_bodies(log):
    errors = [l for l in log.splitlines() if 'error:' in l]
    later = [l for l in errors if LATER.search(l) and not re.search(r'(constexpr|this) (function|constructor)', l)]
    return not later and any(BODY.search(l) and 'constexpr if' not in l for l in errors)


def compile_tolerant(ctx, src, exe, flags, prog, rest):
    """Compiles; a C++11 build that fails is repeated in a dialect which differs
    from C++11 only in that the bodies of constexpr functions may hold more than
    a return statement (the library part keeps to C++11: __cplusplus still says
    so). Whether such a body is written as one expression or as several
    statements is not what any property states. A check that judges the language
    standard (strict11) does so only if the diagnostics are about that; others
    try C++14 itself last."""
    res = compile_one(ctx, src, exe, flags + rest, prog.cc, retries=1, warn=prog.warn)
    if res[0] or prog.mode == 'reject' or not {'-std=c++11', '-std=gnu++11'} & set(flags):
        return res
    if prog.strict11 and not only_constexpr_bodies(res[2]):
        return res
    quiet = [f for f in flags if not f.startswith(('-std=', '-W', '-pedantic'))] + \
            [f for f in flags if f.startswith('-Wl,')] + ['-w', '-std=' + ('gnu' if '-std=gnu++11' in flags else 'c') + '++14']
    for extra in [['-U__cplusplus', '-D__cplusplus=201103L']] + ([] if prog.strict11 else [[]]):
        again = compile_one(ctx, src, exe, quiet + extra + rest, prog.cc, retries=1)
        if again[0]:
            return again
    return res


def execute(ctx, prog, items=None, keep=False):
    items = prog.items if items is None else items
    d = _fresh(ctx)
    try:
        src = prog.build(items)
        if not isinstance(src, dict):
            src = {'main.cpp': src}
        for n, t in src.items():
            open(os.path.join(d, n), 'w').write(t)
        exe = os.path.join(d, 'prog')
        cpps = [os.path.join(d, n) for n in sorted(src) if n.endswith('.cpp')]
        flags = list(prog.flags) + ['-I' + d]
        if prog.mode != 'run':
            flags += ['-fsyntax-only']
        ok, cmd, log = compile_tolerant(ctx, cpps[0], exe, flags, prog, cpps[1:] + prog.link)
        if not ok and 'error:' not in log and 'undefined reference' not in log:
            raise ToolError('compiler failed: ' + log[-2000:])
        if prog.mode == 'reject':
            return Result(not ok, 'the compiler accepts what has to be rejected', log, cmd)
        if not ok:
            return Result(False, 'does not compile', log, cmd)
        if prog.mode == 'accept':
            return Result(True)
        try:
            rc, out = sh([exe], timeout=300, cwd=d)
        except Exception as e:  # timeout
            return Result(False, 'did not terminate', str(e), cmd)
        msgs = []
        if prog.judge:
            msgs = prog.judge(items, exe, rc, out)
        elif rc != 0:
            msgs = [next((l for l in out.splitlines() if 'FAIL' in l or 'ERROR' in l or 'error' in l), 'exit code %d' % rc)]
        return Result(not msgs, '; '.join(msgs[:3]), out, cmd)
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


def shrink(ctx, prog, first):
    """Fewest items that fail in the same way (compile or run)."""
    items, best = list(prog.items), first
    kind = first.why == 'does not compile'
    n, budget = 2, 60
    while len(items) > 1 and budget > 0:
        size = max(1, (len(items) + n - 1) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        cands = chunks + [sum(chunks[:i] + chunks[i + 1:], []) for i in range(len(chunks)) if len(chunks) > 2]
        cands = cands[:budget]
        budget -= len(cands)
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda c: execute(ctx, prog, c), cands))
        hit = [(c, r) for c, r in zip(cands, res) if not r.ok and (r.why == 'does not compile') == kind]
        if hit:
            items, best = min(hit, key=lambda x: len(x[0]))
            n = 2
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)
    return items, best


class GenCheck:
    def __init__(self, generate, rule, assumptions=(), part='programs', workers=None):
        self.generate, self.rule, self.assumptions, self.part = generate, rule, list(assumptions), part
        self.workers = workers

    def run(self, ctx):
        rng = random.Random('%s/%s/%d' % (ctx.pid, self.part, ctx.seed))
        progs = self.generate(rng, ctx)
        labels, samples = {}, []
        evals = 0
        seen = set()
        failures = []

        def one(p):
            if failures:
                return None
            r = execute(ctx, p)
            if not r.ok:
                failures.append((p, r))
            return r
        with ThreadPoolExecutor(self.workers or NPROC) as ex:
            list(ex.map(one, progs))
        if failures:
            p, r = min(failures, key=lambda x: len(x[0].items))
            if not execute(ctx, p).ok:  # reproduced
                if not compiler_works(ctx):
                    raise ToolError('the compiler does not work: ' + r.log[-1000:])
                items, best = shrink(ctx, p, r)
                src = p.build(items)
                raise Violation(dict(kind='program', part=self.part, program=p.name, mode=p.mode, sources=src,
                                     items=[str(i)[:2000] for i in items][:20], command=best.command,
                                     log=best.log[:20000], seed_items=len(p.items), why=best.why,
                                     index=progs.index(p), kept=[p.items.index(i) for i in items]),
                                '%s: %s' % (p.name, best.why[:500]))
            raise ToolError('a failure was not reproduced: ' + r.why)
        for p in progs:
            labels['%s (%s)' % (p.name.split(' #')[0], p.mode)] = labels.get('%s (%s)' % (p.name.split(' #')[0], p.mode), 0) + len(p.items)
            for i in p.items:
                evals += 1
                if p.nontrivial is None or p.nontrivial(i):
                    seen.add((p.mode, ' '.join(p.flags), str(i)))
            if len(samples) < 10 and p.items:
                samples.append(dict(generator=p.name, mode=p.mode, item=str(p.items[len(p.items) // 2])[:1500]))
        return dict(evaluations=evals, distinct_nontrivial=len(seen), rule=self.rule, samples=samples, labels=labels,
                    programs=len(progs))

    def replay(self, ctx, data):
        """Regenerates the program (its oracle included) and runs the kept items."""
        rng = random.Random('%s/%s/%d' % (ctx.pid, self.part, data['seed']))
        ctx.tier, ctx.thorough = data['tier'], data['tier'] == 'thorough'
        ctx.seed = data['seed']
        p = self.generate(rng, ctx)[data['index']]
        items = [p.items[k] for k in data['kept']]
        r = execute(ctx, p, items)
        print(r.why + '\n' + r.log[:3000] if not r.ok else 'ok')
        return r.ok


class Composite:
    """Several checks that together decide one property."""

    def __init__(self, *parts):
        self.parts = parts  # (name, check)
        self.rule = ' || '.join(c.rule for _, c in parts)
        self.assumptions = sum((list(c.assumptions) for _, c in parts), [])

    def run(self, ctx):
        total = None
        for name, c in self.parts:
            try:
                cov = c.run(ctx)
            except Violation as v:
                v.data['composite_part'] = name
                raise
            if total is None:
                total = dict(cov)
                total['parts'] = {name: dict(evaluations=cov['evaluations'],
                                             distinct_nontrivial=cov['distinct_nontrivial'])}
            else:
                for k in ('evaluations', 'distinct_nontrivial'):
                    total[k] += cov[k]
                total['samples'] = total['samples'][:6] + cov['samples'][:6]
                labels = dict(total.get('labels', {}))
                labels.update(cov.get('labels', {}))
                total['labels'] = labels
                total['parts'][name] = dict(evaluations=cov['evaluations'],
                                            distinct_nontrivial=cov['distinct_nontrivial'])
        total['rule'] = self.rule
        return total

    def replay(self, ctx, data):
        return dict(self.parts)[data['composite_part']].replay(ctx, data)
