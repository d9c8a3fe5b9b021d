#!/usr/bin/env python3
"""Random mutants of /repo's functions, run against the checks in scratch copies; prints the ones no check reports.
usage: mutate.py [-n N] [-s SEED] [-w WORKERS] FILE[:function,...] ...      (development aid, not used by the checks)"""
import warnings; warnings.simplefilter("ignore")
import argparse, ast, copy, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
ATTR = {'T': 'aT', 'aT': 'T', 'a': 'x', 'x': 'a', 'm': 'a', 'h': 'x', 'MeV': 'GeV', 'keV': 'MeV', 'MIN_MOMENTUM': 'MAX_MOMENTUM', 'mass': 'conf_mass', 'conf_mass': 'mass', 'majorana': 'Q',
        'energy': 'conf_energy', 'conf_energy': 'energy', 'side': 'index', 'dy': 'x', 'append': 'count'}


def sites(tree, want):
    """(function, mutator) pairs"""
    out = []

    def visit(fn, node):
        for f, val in ast.iter_fields(node):
            items = val if isinstance(val, list) else [val]
            for k, c in enumerate(items):
                if not isinstance(c, ast.AST):
                    continue
                name = fn
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    name = (fn + '.' if fn else '') + c.name
                if not want or any(w in name for w in want):
                    gen(name, node, f, k if isinstance(val, list) else None, c)
                visit(name, c)

    def gen(fn, parent, f, k, c):
        def rep(new):
            def do():
                if k is None:
                    setattr(parent, f, new)
                else:
                    getattr(parent, f)[k] = new
            out.append((fn, c.lineno if hasattr(c, 'lineno') else 0, do))
        cp = lambda **kw: (lambda n: ([setattr(n, a, b) for a, b in kw.items()], n)[1])(copy.deepcopy(c))
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                   ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}.get(type(c.ops[0]), [])
            for a in alt:
                rep(cp(ops=[a()]))
        elif isinstance(c, ast.BinOp):
            alt = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div]}.get(type(c.op), [])
            for a in alt:
                rep(cp(op=a()))
            if type(c.op) in (ast.Mult, ast.Div, ast.Add, ast.Sub):
                rep(copy.deepcopy(c.left))
        elif isinstance(c, ast.Constant):
            if c.value is True or c.value is False:
                rep(ast.Constant(not c.value))
            elif isinstance(c.value, (int, float)):
                rep(ast.Constant(c.value + 1 if isinstance(c.value, int) else c.value * 1.5))
                if isinstance(c.value, int):
                    rep(ast.Constant(c.value - 1))
        elif isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.Not, ast.USub)):
            rep(copy.deepcopy(c.operand))
        elif isinstance(c, ast.BoolOp):
            rep(cp(op=ast.Or() if isinstance(c.op, ast.And) else ast.And()))
            for j in range(len(c.values)):
                rest = [copy.deepcopy(x) for i, x in enumerate(c.values) if i != j]
                rep(rest[0] if len(rest) == 1 else ast.BoolOp(copy.deepcopy(c.op), rest))
        elif isinstance(c, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant)):
            rep(ast.Pass())
            if isinstance(c, ast.AugAssign):
                rep(ast.Assign(targets=[copy.deepcopy(c.target)], value=copy.deepcopy(c.value), lineno=0))
        elif isinstance(c, ast.Attribute) and c.attr in ATTR:
            rep(cp(attr=ATTR[c.attr]))
        elif isinstance(c, (ast.If, ast.IfExp)):
            rep(cp(test=ast.Constant(True)))
            rep(cp(test=ast.Constant(False)))
        elif isinstance(c, (ast.Break, ast.Continue)):
            rep(ast.Pass())
        elif isinstance(c, ast.Call) and len(c.args) >= 2:
            j = 0
            rep(cp(args=[copy.deepcopy(c.args[1]), copy.deepcopy(c.args[0])] + copy.deepcopy(c.args[2:])))
            if c.keywords:
                rep(cp(keywords=copy.deepcopy(c.keywords[1:])))
        elif isinstance(c, ast.Call) and c.keywords:
            rep(cp(keywords=copy.deepcopy(c.keywords[1:])))
        if isinstance(c, ast.Slice):
            for a in ('lower', 'upper'):
                if getattr(c, a) is not None:
                    rep(cp(**{a: None}))
    visit('', tree)
    return out


def py_mutants(src, want):
    n = len(sites(ast.parse(src), want))
    base = ast.unparse(ast.parse(src))
    for j in range(n):
        t = ast.parse(src)
        fn, line, do = sites(t, want)[j]
        do()
        try:
            new = ast.unparse(ast.fix_missing_locations(t))
            compile(new, 'm', 'exec')
        except Exception:
            continue
        if new != base and not re.search(r'(^|\.)(log|__repr__|__str__|print_info|info|plot\w*|graphics\w*|pickle\w*|benchmark|getsize\w*|profile\w*)$', fn):
            yield fn, line, base, new


CPP = [(r'(?<![<>=!-])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![<>=!-])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'&&', '||'), (r'\|\|', '&&'), (r'(?<=[\w\])]) \+ (?=[\w(])', ' - '),
       (r'(?<=[\w\])]) - (?=[\w(])', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r'\[0\]', '[1]'), (r'\[1\]', '[2]'), (r'\[2\]', '[3]'), (r'\[3\]', '[1]'), (r'\bp1\b', 'p2'), (r'\bp0\b', 'p1'),
       (r'\bmax\b', 'min'), (r'\bmin\b', 'max'), (r'\+=', '-='), (r'\b1\.', '2.'), (r'\b2\b', '3'), (r'\.eta\b', '.m'), (r'\bE(\d)\b', lambda m: 'E%d' % ((int(m.group(1)) + 1) % 4)),
       (r'\bm(\d)\b', lambda m: 'm%d' % ((int(m.group(1)) + 1) % 4)), (r'\bcontinue;', ';'), (r'\breturn ([^;]+);', r'return -(\1);'), (r'sqrt\(', 'fabs('), (r'(?<=[(,=] )-(?=\w)', '')]


def cpp_mutants(src, want):
    off = 0
    for ln, line in enumerate(src.split('\n')):
        s = line.strip()
        if s and not s.startswith(('//', '#', '*')) and 'printf' not in s and 'cout' not in s and not s.startswith('template') and '//' not in s:
            for pat, new in CPP:
                for m in re.finditer(pat, line):
                    nl = line[:m.start()] + m.expand(new if isinstance(new, str) else new(m)).replace('\\1', '') + line[m.end():]
                    if nl != line:
                        yield '', ln + 1, src, src[:off] + nl + src[off + len(line):]
        off += len(line) + 1


def props_of(path):
    sys.path.insert(0, HERE)
    out = {}
    mod = path[:-3].replace('/', '.').replace('.__init__', '') if path.endswith('.py') else path
    o = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', '''
import sys; sys.path[:0] = [%r]; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import json
from vc.run import load_contracts
print(json.dumps([[c.name, c.props, c.functions] for c in load_contracts()]))''' % HERE], capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    return [(n, p, f) for n, p, f in json.loads(o.stdout.strip().split('\n')[-1]) if any(mod in x or path in x for x in f)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=20)
    ap.add_argument('-s', type=int, default=0)
    ap.add_argument('-w', type=int, default=3)
    ap.add_argument('-j', type=int, default=3)
    ap.add_argument('--props', default='')
    ap.add_argument('files', nargs='+')
    a = ap.parse_args()
    rng = random.Random(a.s)
    tmp = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    os.makedirs(tmp + '/verif')
    for x in ('check', 'vc', 'contracts', 'known_findings.json'):
        subprocess.run(['cp', '-a', os.path.join(HERE, x), tmp + '/verif/'])
    todo = []
    for f in a.files:
        path, _, fns = f.partition(':')
        src = open(os.path.join(REPO, path)).read()
        ms = list((py_mutants if path.endswith('.py') else cpp_mutants)(src, [x for x in fns.split(',') if x]))
        cs = props_of(path)
        props = a.props.split(',') if a.props else sorted(set(p for _, ps, _ in cs for p in ps))
        print('%s: %d mutants, checks %s' % (path, len(ms), props), flush=True)
        for m in rng.sample(ms, min(a.n, len(ms))):
            todo.append((path, m, props, cs))

    def run(k):
        path, (fn, line, base, new), props, cs = todo[k]
        d = '%s/r%d' % (tmp, k)
        subprocess.run(['cp', '-a', REPO, d])
        v = '%s/v%d' % (tmp, k)
        subprocess.run(['cp', '-a', tmp + '/verif', v])
        with open(os.path.join(d, path), 'w') as h:
            h.write(new)
        import difflib
        diff = [l for l in difflib.unified_diff(base.split('\n'), new.split('\n'), lineterm='', n=0) if not l.startswith(('---', '+++', '@@'))]
        res = 'SURVIVED'
        leaf = fn.rsplit('.', 1)[-1]
        order = sorted(props, key=lambda p: -sum(1 for _, ps, fs in cs if p in ps and leaf and any(leaf in x for x in fs)))
        notes = []
        for p in order:
            try:
                o = subprocess.run(['./check', p, '-j', str(a.j)], cwd=v, capture_output=True, text=True, timeout=900, env=dict(os.environ, VC_REPO=d))
            except subprocess.TimeoutExpired:
                notes.append(p + ' timeout')
                continue
            if o.returncode == 1 and 'VIOLATION' in o.stdout:
                res = 'killed by ' + p + (' (no input)' if 'no-failing-input' in o.stdout and len(re.findall('VIOLATION', o.stdout)) == len(re.findall('no-failing', o.stdout)) else '')
                break
            m = re.search(r'(\d+) undecided', o.stdout)
            if m:
                notes.append('%s %s undecided' % (p, m.group(1)))
            if o.returncode not in (0, 1):
                notes.append('%s rc %d %s' % (p, o.returncode, o.stderr[-200:]))
        shutil.rmtree(d)
        shutil.rmtree(v)
        print('%-10s %s %s:%d %s\n      %s' % (res, path, fn, line, '; '.join(notes), '\n      '.join(x[:300] for x in diff[:6])), flush=True)
        return res
    try:
        with ThreadPoolExecutor(a.w) as ex:
            rs = list(ex.map(run, range(len(todo))))
        print('%d mutants, %d survived' % (len(rs), rs.count('SURVIVED')))
    finally:
        shutil.rmtree(tmp)


main()
