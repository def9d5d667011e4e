"""S12: scripts/parse-filter-coefs.py reports what is in the debug records.

The programs are those of S09 (float and double records). The script, run on
the executable or on the object files, has to print every record once with the
coefficients which the designs report. pyelftools, which the script uses, is
replaced by lib/elfstub.
"""
import glob, os, re, struct, subprocess, sys
import s09_gen
from gen import Program, math_compiler

STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'elfstub')
SOS = ['b0', 'b1', 'b2', 'a1', 'a2']


def parse_output(text):
    """[(structure, name, values)] or ValueError"""
    recs, cur = [], None
    lines = text.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    for l in lines:
        m = re.match(r'^  SOS stage (\d+):$', l)
        v = re.match(r'^    ([ab]\d) = (\S+)$', l)
        p = re.match(r'^  ([ab])\[(\d+)\] = (\S+)$', l)
        if m:
            if int(m.group(1)) != len(cur['vals']) // 5 + 1 or len(cur['vals']) % 5:
                raise ValueError('unexpected line %r' % l)
            cur['s'] = 0
        elif v:
            if v.group(1) != SOS[len(cur['vals']) % 5] or cur['s'] != 0:
                raise ValueError('unexpected line %r' % l)
            cur['vals'].append(float(v.group(2)))
        elif p:
            cur['s'] = 1
            cur['poly'].setdefault(p.group(1), []).append((int(p.group(2)), float(p.group(3))))
        else:
            if not l.endswith(':'):
                raise ValueError('unexpected line %r' % l)
            cur = dict(name=l[:-1], s=None, vals=[], poly={})
            recs.append(cur)
    out = []
    for r in recs:
        if r['s'] == 1:
            b, a = r['poly'].get('b', []), r['poly'].get('a', [])
            if [i for i, _ in b] != list(range(len(b))) or [i for i, _ in a] != list(range(len(a))) or r['vals']:
                raise ValueError('coefficients of %r are not in order' % r['name'])
            out.append((1, r['name'], tuple(x for _, x in b) + tuple(x for _, x in a)))
        else:
            out.append((0, r['name'], tuple(r['vals'])))
    return out


def run_script(repo, path):
    env = dict(os.environ, PYTHONPATH=STUB, PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONSTARTUP', None)
    p = subprocess.run([sys.executable, os.path.join(repo, 'scripts', 'parse-filter-coefs.py'), path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def same_name(shown, raw):
    try:
        return shown == raw.decode('utf-8')
    except UnicodeDecodeError as e:  # cut within a character
        return shown.startswith(raw[:e.start].decode('utf-8'))


def judge(repo, objects, compiler):
    def f(items, exe, rc, out):
        if rc != 0:
            return ['exit code %d' % rc]
        want = []
        for l in out.splitlines():
            m = l.split()
            if m and m[0] == 'REC':
                fmt = '<f' if m[2] == '0' else '<d'
                want.append((int(m[1]), bytes.fromhex(m[3][1:]), tuple(struct.unpack(fmt, bytes.fromhex(x))[0] for x in m[4:])))
        if len(want) != len(items):
            return ['%d of %d designs printed' % (len(want), len(items))]
        got = []
        files = [exe]
        if objects:  # the units one by one
            files = []
            for src in sorted(glob.glob(os.path.join(os.path.dirname(exe), 'u*.cpp'))):
                o = src[:-4] + '.o'
                p = subprocess.run(compiler + ['-std=gnu++17', '-w', '-c', '-O1', '-I' + os.path.join(repo, 'include'), src, '-o', o],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode:
                    return ['%s does not compile: %s' % (src, p.stdout.decode('utf-8', 'replace')[:500])]
                files.append(o)
        for x in files:
            rc, text, err = run_script(repo, x)
            if rc:
                return ['the script failed: %s' % err.strip().splitlines()[-1:]]
            try:
                got += parse_output(text)
            except (ValueError, TypeError) as e:
                return ['output of the script: %s' % e]
        msgs = []
        for s, name, vals in want:
            hit = next((g for g in got if g[0] == s and g[2] == vals and same_name(g[1], name)), None)
            if hit:
                got.remove(hit)
            else:
                msgs.append('not reported: structure %d, name %r, values %s; left: %s' % (s, name, vals[:6], [(g[0], g[1], g[2][:6]) for g in got[:2]]))
        if got and not msgs:
            msgs.append('superfluous: %s' % str(got)[:300])
        return msgs
    return f


def generate(rng, ctx):
    progs = []
    for k in range(350 if ctx.thorough else 100):
        units = rng.choice([1, 1, 2, 3])
        items = []
        n = rng.randint(1, 14)
        while len(items) < n:
            u = rng.randrange(units)
            mine = [it for it in items if it.unit == u]
            if mine and rng.random() < 0.25:
                src = rng.choice(mine)
                it = s09_gen.Item(rng, u, None, src.reuse or src)
            else:
                it = s09_gen.Item(rng, u, 'u%d_d%d' % (u, len(items)))
                if 'long double' in it.design or '<L>' in it.design:
                    continue
            if it.name and it.name[0] == 'array':
                it.name = ('array', it.name[1], False)
            items.append(it)
        objects = rng.random() < 0.3
        flags = ['-std=' + rng.choice(['c++11', 'c++14', 'gnu++17']), rng.choice(['-O0', '-O1', '-O2']), '-w']
        cc, extra = math_compiler(rng)
        progs.append(Program('%s %s #%d' % ('objects' if objects else 'executable', cc, k), items, s09_gen.build, flags + extra, cc=[cc],
                             judge=judge(ctx.repo, objects, [cc] + extra)))
    return progs
