#!/usr/bin/env python3
"""Validates planted bugs and reports which checks catch them.

usage: try_seeded.py [--novalidate] [--checks ID,ID|own|none] [BUG...]

For each bug: applies the patch to a scratch copy of /repo, builds it, runs the
tests and the demonstration (which has to pass before and fail after), and
runs the check of its property against the copy.
"""
import argparse, json, os, re, shutil, subprocess, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, timeout=1200, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       env=dict(os.environ, **(env or {})), errors='replace')
    return p.returncode, p.stdout


def demo(bug, repo):
    """The demonstrations include /repo/include by relative path from cwd."""
    d = tempfile.mkdtemp(prefix='demo')
    try:
        for f in os.listdir(bug):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(bug, f), d)
        return sh('bash %s/demo.sh' % d, repo, 300)
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--novalidate', action='store_true')
    ap.add_argument('--checks', default='own')
    ap.add_argument('--seed', default='1')
    ap.add_argument('bugs', nargs='*')
    a = ap.parse_args()
    bugs = a.bugs or sorted(os.listdir(V + '/seeded'))
    work = tempfile.mkdtemp(prefix='seeded')
    repo = work + '/repo'
    sh('cp -a /repo %s && rm -rf %s/_build' % (repo, repo), '/')
    bad = []
    try:
        for b in bugs:
            bug = os.path.join(V, 'seeded', b)
            meta = json.load(open(bug + '/meta.json'))
            sh('git checkout -q -- .', repo)
            why = []
            if not a.novalidate:
                rc, o = demo(bug, '/repo')
                if rc:
                    why.append('demo fails on the unchanged tree: ' + o[-600:])
            rc, o = sh('git apply %s/patch.diff' % bug, repo)
            if rc:
                why.append('does not apply: ' + o)
            elif not a.novalidate:
                rc, o = demo(bug, repo)
                if rc == 0:
                    why.append('demo passes with the patch')
                rc, o = tests(repo)
                if rc:
                    why.append(o)
            res = ''
            if not why and a.checks != 'none':
                ids = [meta['property']] if a.checks == 'own' else a.checks.split(',')
                for i in ids:
                    t = time.time()
                    rc, o = sh('python3 %s/run.py %s --tier quick' % (V, i), V, 2000,
                               {'VERIF_REPO': repo, 'VERIF_SEED': a.seed, 'VERIF_TIER': 'quick'})
                    hit = rc == 1 and re.search('^VIOLATION property=%s ' % i, o, re.M)
                    res += ' %s:%s(%.0fs)' % (i, 'CAUGHT' if hit else 'missed' if rc == 0 else 'error %d' % rc, time.time() - t)
                    if hit:
                        lines = [l for l in o.splitlines() if 'check failed' in l or ': ' in l][1:3]
                        res += ' ' + ' / '.join(l.strip()[:110] for l in lines)
                    else:
                        bad.append(b)
            if why:
                bad.append(b)
            print('%-10s %s%s' % (b, 'valid' if not why else 'INVALID ' + '; '.join(why), res), flush=True)
    finally:
        shutil.rmtree(work)
    print('not caught or invalid:', ' '.join(bad) or 'none')


def tests(repo):
    """Builds and runs the tests of a copy of the repository."""
    return sh(r"""
rm -f _build/tests/libembedded_test
cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DWITH_EXAMPLES=ON \
  -DCMAKE_SUPPRESS_DEVELOPER_WARNINGS=ON -DCMAKE_PROJECT_libembedded_INCLUDE=/opt/vp/cmake/top-hook.cmake \
  -DCMAKE_PROJECT_libembedded-test_INCLUDE=/opt/vp/cmake/tests-hook.cmake > log 2>&1 &&
ninja -C _build -j8 libembedded_test filter > log 2>&1 || { echo "does not build: $(grep -m3 error log)"; exit 1; }
_build/tests/libembedded_test > log 2>&1 || { echo "tests fail: $(grep FAILED log | head -3)"; exit 1; }
""", repo, env={'CC': '/usr/bin/gcc', 'CXX': '/usr/bin/g++'})


if __name__ == '__main__':
    main()
