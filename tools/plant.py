"""plant.py <id> <property> <<< JSON {edits:[[file, old, new],...], needs, what, demo(python body)}: writes seeded/<id>/ after
checking that the demo passes without and fails with the change (scratch copy)."""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

STUB = '''# stand-in for the compiled kernels (they cannot be built here)
import sys, types, enum, os
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
class CollisionIntegralKind(enum.IntFlag):
    Full = 0; F_1 = 1; F_f = 2; Full_vacuum_decay = 3; F_1_vacuum_decay = 4; F_f_vacuum_decay = 5; F_creation = 6; F_decay = 7
class Rec(object):
    def __init__(self, *a, **kw):
        self.args = a; self.__dict__.update(kw)
class Kernels(object):
    pass
kernels = Kernels()
def _interp(grid, f, p, m=0, eta=1, T=1., eq=False):
    import numpy
    return numpy.interp(p, grid, f)
kernels.distribution_interpolation = _interp
def _k(nm):
    def f(*a, **kw):
        return getattr(kernels, nm)(*a, **kw)
    return f
for k, nm in ((4, 'four'), (3, 'three')):
    m = types.ModuleType('interactions.%s_particle.cpp.integral' % nm)
    m.CollisionIntegralKind = m.CollisionIntegralKind_3 = CollisionIntegralKind
    m.M_t = Rec
    for s in ('grid_t', 'particle_t', 'reaction_t'):
        setattr(m, s + ('' if k == 4 else '3'), type(s, (Rec,), {}))
    for s in ('integration', 'integration_3', 'distribution_interpolation'):
        setattr(m, s, _k(s))
    sys.modules[m.__name__] = m
'''


def main():
    sid, prop = sys.argv[1:3]
    d = json.loads(sys.stdin.read()) if len(sys.argv) < 4 else json.load(open(sys.argv[3]))
    plant(sid, prop, d)


def plant(sid, prop, edits, needs, what, demo, extra=None):
    tmp = tempfile.mkdtemp(prefix='plant')
    repo = os.path.join(tmp, 'repo')
    out = os.path.join(HERE, 'seeded', sid)
    try:
        subprocess.check_call(['cp', '-a', '/repo', repo])
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', repo, 'diff']).decode()
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        if demo.startswith('#!'):
            open(out + '/demo.sh', 'w').write(demo)
        else:
            open(out + '/demo.py', 'w').write(STUB + demo)
            open(out + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository\nexec /opt/venv/bin/python -W ignore -B "$(dirname "$0")/demo.py"\n')
        for n, text in (extra or {}).items():
            open(os.path.join(out, n), 'w').write(text)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(out + '/meta.json', 'w'), indent=1)
        bad = subprocess.run([out + '/demo.sh'], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        good = subprocess.run([out + '/demo.sh'], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ok = good.returncode == 0 and bad.returncode != 0
        print(sid, prop, 'demo ok' if ok else 'DEMO BAD good=%d bad=%d' % (good.returncode, bad.returncode))
        if not ok or os.environ.get('V'):
            print(good.stdout.decode()[-1500:], '-----', bad.stdout.decode()[-1500:])
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
