#!/usr/bin/env python3
"""Runs one property check.

  python3 run.py ID [--tier quick|thorough] [--seed N]   decide property ID
  python3 run.py ID --replay FILE                        re-run a replay file
  python3 run.py --all                                   every check in turn

Exit 0: the property held on everything explored. Exit 1: a line
"VIOLATION property=ID replay=PATH". The tested sources are those of /repo's
current working tree (VERIF_REPO overrides the path, for scratch copies).
"""
import argparse, hashlib, importlib.util, json, os, shutil, struct, subprocess, sys, time, zlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = min(8, os.cpu_count() or 1)
sys.path.insert(0, os.path.join(ROOT, 'lib'))

GXX = ['g++']
CLANG = ['clang++']
SAN = ['-O1', '-g1', '-fsanitize=address,undefined',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
OPT = ['-O2', '-g0', '-DNDEBUG']
COMMON = ['-w', '-I' + os.path.join(ROOT, 'lib')]
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:abort_on_error=0:hard_rss_limit_mb=3000:'
                    'detect_stack_use_after_return=1:allocator_may_return_null=0:handle_abort=0',
    'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1:exitcode=99',
    'LC_ALL': 'C.UTF-8',
}


class Ctx:
    """What a check gets: where to build, the tier, the seed."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.repo = REPO
        self.root = ROOT
        self.thorough = tier == 'thorough'
        self.work = os.path.join(ROOT, 'build', pid + ('' if tier == 'quick' else '-' + tier) + '-%d' % os.getpid())
        self.out = os.path.join(ROOT, 'out')
        self.t0 = time.time()
        self.log = []

    def note(self, s):
        self.log.append(s)
        print('  ' + s, flush=True)

    def path(self, *a):
        return os.path.join(self.work, *a)


class ToolError(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                       timeout=timeout, input=stdin)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def compile_one(ctx, src, exe, flags, compiler=None, retries=2, warn=False):
    """Returns (ok, command, log). A failure caused by the machine is retried."""
    cmd = (compiler or GXX) + (COMMON[1:] if warn else COMMON) + ['-I' + os.path.join(ctx.repo, 'include')] + list(flags)
    cmd += [src, '-o', exe]
    for i in range(retries + 1):
        try:
            rc, log = sh(cmd, timeout=600)
        except subprocess.TimeoutExpired:
            rc, log = -1, 'compiler timed out'
        if rc == 0:
            return True, cmd, log
        if rc > 0 and 'error:' in log and 'Killed' not in log and 'No space left' not in log:
            return False, cmd, log
        time.sleep(2 + 3 * i)
    return False, cmd, log


def compiler_works(ctx):
    s = ctx.path('selftest.cpp')
    open(s, 'w').write('#include <vector>\nint main(){std::vector<int> v(3); return (int)v.size()-3;}\n')
    ok = True
    for cc in (GXX, CLANG):
        rc, log = sh(cc + ['-std=gnu++17', s, '-o', ctx.path('selftest')], timeout=120)
        ok = ok and rc == 0
    return ok


def write_replay(ctx, data):
    os.makedirs(ctx.out, exist_ok=True)
    data = dict(data)
    data['property'] = ctx.pid
    body = json.dumps(data, indent=1)
    name = '%s-%s.json' % (ctx.pid, hashlib.sha1(body.encode()).hexdigest()[:10])
    p = os.path.join(ctx.out, name)
    open(p, 'w').write(body)
    return p


class Violation(Exception):
    def __init__(self, data, summary):
        self.data, self.summary = data, summary


def run_seed(seed, config):
    """Each configuration explores its own cases."""
    return (seed * 1000003 + zlib.crc32(config.encode())) & 0xffffffffffff


class PbtCheck:
    """A C++ harness on lib/pbt.h, built in several configurations."""

    def __init__(self, src, rule, configs, assumptions=(), workers=None, exhaustive=None):
        self.src, self.rule, self.configs = src, rule, configs
        self.assumptions = list(assumptions)
        self.exhaustive = exhaustive

    def select(self, ctx):
        return [c for c in self.configs if not c.get('thorough_only') or ctx.thorough]

    def build(self, ctx, configs):
        src = os.path.join(ROOT, 'checks', self.src)

        def one(c):
            exe = ctx.path('bin-' + c['name'])
            return c, exe, compile_one(ctx, src, exe, c['flags'], c.get('cc'))
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(one, configs))
        exes = {}
        for c, exe, (ok, cmd, log) in res:
            if not ok:
                if not compiler_works(ctx) or 'error:' not in log:
                    raise ToolError('cannot compile: ' + log[-2000:])
                raise Violation(dict(kind='compile', config=c['name'], command=cmd, log=log[:20000]),
                                'valid use of the library does not compile (%s)' % c['name'])
            exes[c['name']] = exe
        return exes

    def run(self, ctx):
        configs = self.select(ctx)
        exes = self.build(ctx, configs)
        ctx.note('built %d configuration(s) in %.1f s' % (len(configs), time.time() - ctx.t0))
        jobs = []
        for c in configs:
            n = c.get('workers', NPROC)
            for w in range(n):
                jobs.append((c, w, n))

        failed = []

        def one(j):
            c, w, n = j
            prefix = ctx.path('run-%s-%d' % (c['name'], w))
            if failed:  # what has not started yet is not needed any more
                return c, w, prefix, None, ''
            scale = c.get('scale_thorough', c.get('scale', 1.0)) if ctx.thorough else c.get('scale', 1.0)
            cmd = [exes[c['name']], 'run', '--seed', str(run_seed(ctx.seed, c['name'])), '--tier', ctx.tier,
                   '--worker', str(w),
                   '--nworkers', str(n), '--scale', repr(scale), '--out', prefix]
            rc, log = sh(cmd, env=c.get('env'))
            if rc == 1:
                failed.append(j)
            return c, w, prefix, rc, log
        fails, per, labels, samples, unrep = [], {}, {}, [], 0
        hashes = set()
        ev = nt = disc = 0
        overflow = False
        with ThreadPoolExecutor(NPROC) as ex:
            for c, w, prefix, rc, log in ex.map(one, jobs):
                if rc is None:
                    continue
                if rc == 1 and os.path.exists(prefix + '.fail.json'):
                    fails.append((c, json.load(open(prefix + '.fail.json'))))
                    continue
                if rc != 0:
                    raise ToolError('harness exited with %d: %s' % (rc, log[-2000:]))
                d = json.load(open(prefix + '.json'))
                ev += d['evaluations']
                nt += d['nontrivial']
                disc += d['discarded']
                unrep += d['unreproduced']
                per[c['name']] = per.get(c['name'], 0) + d['evaluations']
                for k, v in d['labels'].items():
                    labels[k] = labels.get(k, 0) + v
                for s in d['samples']:
                    if len(samples) < 12 and sum(x['generator'] == s['generator'] for x in samples) < 2:
                        samples.append(s)
                raw = open(prefix + '.hash', 'rb').read()
                if len(raw) >= 8 * (1 << 20):
                    overflow = True
                if len(hashes) < 20000000:
                    hashes.update(struct.unpack('<%dQ' % (len(raw) // 8), raw))
                os.unlink(prefix + '.hash')
        cov = dict(evaluations=ev, distinct_nontrivial=len(hashes), nontrivial=nt, discarded=disc, rule=self.rule,
                   samples=samples, labels=labels, evaluations_per_configuration=per,
                   configurations={c['name']: ' '.join((c.get('cc') or GXX) + list(c['flags'])) for c in configs},
                   failures_not_reproduced=unrep)
        if overflow:
            cov['distinct_note'] = 'hash tables filled up: distinct_nontrivial is a lower bound'
        if fails:
            fails.sort(key=lambda x: len(x[1]['choices']))
            c, f = fails[0]
            f = dict(f)
            f['config'] = c['name']
            f['violation_kind'] = 'pbt'
            f['other_failures'] = [dict(config=x['name'], prop=y['prop'], message=y['message'][:300])
                                   for x, y in fails[1:6]]
            raise Violation(dict(kind='pbt', **{k: v for k, v in f.items() if k != 'kind'}, how=f['kind']),
                            '%s [%s]: %s: %s' % (f['prop'], c['name'], f['kind'], f['message'][:400]))
        return cov

    def replay(self, ctx, data):
        if data['kind'] == 'compile':
            c = [x for x in self.configs if x['name'] == data['config']]
            try:
                self.build(ctx, c)
            except Violation as v:
                print(v.data['log'][:4000])
                return False
            return True
        c = [x for x in self.configs if x['name'] == data['config']][0]
        exes = self.build(ctx, [c])
        if data.get('by_run'):
            rc, log = sh([exes[c['name']], 'run', '--seed', str(run_seed(data['seed'], c['name'])), '--tier', data['tier'],
                          '--only', data['prop'], '--out', ctx.path('r')], env=c.get('env'))
            print(log)
            return rc == 0
        f = ctx.path('replay.txt')
        open(f, 'w').write(data['prop'] + '\n' + '\n'.join(map(str, data['choices'])) + '\n')
        rc, log = sh([exes[c['name']], 'replay', f], env=c.get('env'))
        print(log)
        return rc == 0


def load_checks():
    spec = importlib.util.spec_from_file_location('registry', os.path.join(ROOT, 'checks', 'registry.py'))
    m = importlib.util.module_from_spec(spec)
    sys.modules['vrun'] = sys.modules[__name__]
    sys.path.insert(0, os.path.join(ROOT, 'checks'))
    sys.dont_write_bytecode = True
    spec.loader.exec_module(m)
    return m.CHECKS


def known_findings(pid):
    """Open (unrepaired) findings only; 'fixed:' entries suppress nothing."""
    p = os.path.join(ROOT, 'known-findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('open: property=%s ' % pid):
                r.append(l.split(' ', 2)[2])
    return r


def evidence(ctx, cov, violations, check):
    d = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level='exploration', coverage=cov,
             assumptions=getattr(check, 'assumptions', []), wall_s=round(time.time() - ctx.t0, 2),
             violations=violations)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', '.%s.%d' % (ctx.pid, os.getpid()))
    json.dump(d, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(ROOT, 'evidence', ctx.pid + '.json'))


def run_check(pid, tier, seed, replay=None):
    checks = load_checks()
    if pid not in checks:
        print('unknown property ' + pid)
        return 2
    check = checks[pid]
    ctx = Ctx(pid, tier, seed)
    shutil.rmtree(ctx.work, ignore_errors=True)
    os.makedirs(ctx.work)
    try:
        print('%s: tier=%s seed=%d repo=%s' % (pid, tier, seed, ctx.repo), flush=True)
        if replay:
            data = json.load(open(replay))
            ok = check.replay(ctx, data)
            print('replay: ' + ('passes' if ok else 'FAILS'))
            return 0 if ok else 1
        try:
            cov = check.run(ctx)
        except Violation as v:
            data = dict(v.data)
            data['seed'], data['tier'], data['summary'] = seed, tier, v.summary
            path = write_replay(ctx, data)
            evidence(ctx, dict(evaluations=1, distinct_nontrivial=1, rule=getattr(check, 'rule', ''),
                               samples=[dict(violation=v.summary, replay=path)]), 1, check)
            print(v.summary)
            if data.get('trace'):
                print('minimal case:\n' + data['trace'][:3000])
            if data.get('log'):
                print(data['log'][:3000])
            print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
            return 1
        for k in known_findings(pid):
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        evidence(ctx, cov, 0, check)
        print('%s: held on %d cases (%d distinct non-trivial), %.1f s' % (
            pid, cov['evaluations'], cov['distinct_nontrivial'], time.time() - ctx.t0), flush=True)
        return 0
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(ctx.work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--all', action='store_true')
    a = ap.parse_args()
    if a.all:
        bad = []
        for pid in sorted(load_checks()):
            if run_check(pid, a.tier, a.seed) != 0:
                bad.append(pid)
        print('failed: %s' % bad)
        return 1 if bad else 0
    return run_check(a.id, a.tier, a.seed, a.replay)


if __name__ == '__main__':
    sys.exit(main())
