#!/opt/venv/bin/python
"""Lines (and jumps) of /repo's Python sources that no sampled input of any contract reaches: places where a contract may be blind.
usage: cover.py [FILE...]      (development aid, not used by the checks)"""
import warnings; warnings.simplefilter('ignore')
import ast, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from multiprocessing import Pool
from vc import run, job, loader
CS = run.load_contracts()
REPO = loader.REPO


def one(k):
    i, n = k
    c = CS[i]
    seen = set()

    def local(f):
        fn = os.path.relpath(f.f_code.co_filename, REPO)
        last = [0]

        def t(fr, ev, arg):
            if ev == 'line':
                seen.add((fn, last[0], fr.f_lineno))
                last[0] = fr.f_lineno
            elif ev == 'return':
                seen.add((fn, last[0], -1))
            return t
        return t

    def tr(f, ev, arg):
        return local(f) if ev == 'call' and f.f_code.co_filename.startswith(REPO) else None
    mode, c.mode = c.mode, 'bounded'
    sys.stdout = open(os.devnull, 'w')
    try:
        j = job.Job(c, c.cases[n])
        orig = j.once

        def once(seed, preset=None):
            sys.settrace(tr)
            try:
                return orig(seed, preset)
            finally:
                sys.settrace(None)
        j.once = once

        j.run(60)
    except Exception as e:
        return seen
    return seen


def main():
    jobs = [(i, n) for i, c in enumerate(CS) for n in range(len(c.cases))]
    seen = set()
    with Pool(8, maxtasksperchild=1) as p:
        for s in p.imap_unordered(one, jobs, chunksize=1):
            seen |= s
    lines = {}
    arcs = {}
    for f, a, b in seen:
        lines.setdefault(f, set()).add(b)
        arcs.setdefault(f, {}).setdefault(a, set()).add(b)
    files = sys.argv[1:] or sorted(f for f in lines if f.endswith('.py'))
    for f in files:
        src = open(os.path.join(REPO, f)).read()
        tree = ast.parse(src)
        text = src.split('\n')
        print('== ' + f)
        for fn in ast.walk(tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            st = [s for s in ast.walk(fn) if isinstance(s, ast.stmt) and s is not fn]
            first = fn.body[0].lineno
            body = [s for s in st if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            hit = [s for s in body if s.lineno in lines.get(f, ())]
            if not hit:
                print('   %4d never: %s' % (fn.lineno, fn.name))
                continue
            for s in body:
                if s.lineno not in lines[f] and not isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Global)):
                    print('   %4d       %s' % (s.lineno, text[s.lineno - 1].strip()[:110]))
                elif isinstance(s, (ast.If, ast.While)) and len(arcs[f].get(s.lineno, ())) == 1 and s.test.lineno == s.test.end_lineno:
                    print('   %4d  one way only: %s' % (s.lineno, text[s.lineno - 1].strip()[:100]))


if __name__ == '__main__':
    main()
