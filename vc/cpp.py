"""The C++ collision kernels: extraction of the real source for the verifier.

`clang -ast-dump=json` parses /repo's .cpp files (stand-in headers for pybind11 and GSL, real standard library); every
function body is translated mechanically, statement by statement, into the Python the engine executes.  Dropped: output
(`printf`, `std::cout`), the binding block (run natively instead), OpenMP scheduling (iterations must not write variables of
the enclosing scope except elements of arrays: checked during translation, such variables are havoced), floating-point rounding.  Anything
the translation does not know makes the function unavailable (=> undecided), never silently different."""
import ast
import hashlib
import json
import os
import re
import subprocess
import tempfile
import types

from .loader import REPO, Rewrite

STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cppstub')
DIR = {4: 'interactions/four_particle/cpp', 3: 'interactions/three_particle/cpp'}
FILES = {4: ['integral.cpp', 'Ds.cpp'], 3: ['integral.cpp']}


def sources(k):
    d = os.path.join(REPO, DIR[k])
    return [os.path.join(d, f) for f in FILES[k]]


def source_hash(k):
    h = hashlib.sha256()
    for base in (os.path.join(REPO, DIR[k]), STUB, os.path.join(STUB, 'pybind11'), os.path.join(STUB, 'gsl'), os.path.dirname(os.path.abspath(__file__))):
        for f in sorted(os.listdir(base)):
            if f.endswith(('.cpp', '.h', '.hpp')) or f in ('cpp.py', 'cppnative.py'):
                h.update(f.encode())
                h.update(open(os.path.join(base, f), 'rb').read())
    return h.hexdigest()[:24]


def cache_dir():
    d = os.path.join(tempfile.gettempdir(), 'vc-cpp-%d' % os.getuid())
    os.makedirs(d, mode=0o700, exist_ok=True)
    return d


def cached(name, make):
    p = os.path.join(cache_dir(), name)
    if not os.path.exists(p):
        t = '%s.%d' % (p, os.getpid())
        make(t)
        os.rename(t, p)
    return p


class Untranslated(Exception):
    pass


def dump(f):
    """clang's AST of one file, inside a namespace so that only its own declarations are dumped"""
    with tempfile.TemporaryDirectory() as d:
        w = os.path.join(d, 'w.cpp')
        open(w, 'w').write('#include "pre.h"\nnamespace VCNS {\n#include "%s"\n}\n' % f)
        r = subprocess.run(['clang++', '-std=c++11', '-fopenmp', '-fsyntax-only', '-w', '-I', STUB, '-Xclang', '-ast-dump=json',
                            '-Xclang', '-ast-dump-filter=VCNS', w], capture_output=True, text=True)
        if r.returncode:
            raise Untranslated('clang: ' + r.stderr[:500])
    s, i, docs, dec = r.stdout, 0, [], json.JSONDecoder()
    while True:
        while i < len(s) and s[i].isspace():
            i += 1
        if i >= len(s):
            break
        o, i = dec.raw_decode(s, i)
        docs.append(o)
    return [x for o in docs if o.get('kind') == 'NamespaceDecl' for x in o.get('inner', [])]


def translate(k):
    """Python source of all functions of the kernel, and the list of what was dropped or could not be translated"""
    def make(t):
        decls = []
        for f in sources(k):
            decls.append((os.path.basename(f), dump(f)))
        tr = Translator(decls, [(os.path.basename(f), f) for f in sources(k)])
        json.dump({'text': tr.text(), 'dropped': sorted(tr.dropped), 'failed': tr.failed, 'functions': tr.functions,
                   'structs': tr.structs, 'signatures': tr.signatures, 'enums': tr.enums, 'enum_types': sorted(tr.enum_types)}, open(t, 'w'))
    return json.load(open(cached('tr-%d-%s.json' % (k, source_hash(k)), make)))


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'std::size_t', 'size_type', 'unsigned', 'short', 'long long', 'unsigned long long', 'char', 'bool'}
PASS = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'CapturedStmt', 'CXXConstCastExpr', 'FullExpr', 'SubstNonTypeTemplateParmExpr'}
EXTERN = {'sqrt', 'exp', 'log', 'pow', 'abs', 'fabs', 'isnan', 'max', 'min', 'make_pair', 'sin', 'cos', 'atan', 'tan', 'log10', 'isfinite', 'isinf', 'cbrt',
          'gsl_integration_workspace_alloc', 'gsl_integration_workspace_free', 'gsl_set_error_handler_off', 'gsl_integration_qag', 'gsl_strerror', 'move', 'get'}


def typ(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def bare(t):
    t = t.replace('const ', '').replace('struct ', '').strip()
    return t.rstrip('&* ').strip()


def pragmas(path):
    """the OpenMP directives of a file in order (clang's JSON dump does not name the clauses)"""
    txt = re.sub(r'\\\n', ' ', open(path).read())
    txt = re.sub(r'/\*.*?\*/', '', txt, flags=re.S)
    return [' '.join(l.split('//')[0].split()) for l in txt.split('\n') if re.match(r'\s*#\s*pragma\s+omp\b', l)]


class Translator(object):
    def __init__(self, files, paths=()):
        self.files = files
        self.names = {}         # (name, type) -> python name
        self.enums = {}         # enumerator -> value
        self.fields = {}        # struct -> field names
        self.defaults = {}      # python name -> {index: expr node}
        self.dropped = set()
        self.failed = {}
        self.functions = []
        self.structs = {}       # struct -> [(constructor parameter, type)]
        self.signatures = {}    # python name -> (name, type, [(parameter, type, default)])
        self.enum_types = set()
        defs = []
        for fname, decls in files:
            for d in decls:
                kd = d.get('kind')
                if kd == 'EnumDecl':
                    self.enum(d)
                elif kd == 'CXXRecordDecl':
                    fl = [x['name'] for x in d.get('inner', []) if x.get('kind') == 'FieldDecl']
                    if fl:
                        self.fields[d['name']] = fl
                    for x in d.get('inner', []):
                        if x.get('kind') == 'CXXConstructorDecl' and not x.get('isImplicit'):
                            self.structs[d['name']] = [(y['name'], y['type']['qualType']) for y in x.get('inner', []) if y.get('kind') == 'ParmVarDecl']
                elif kd == 'FunctionDecl':
                    body = [x for x in d.get('inner', []) if x.get('kind') == 'CompoundStmt']
                    key = (d['name'], d['type']['qualType'])
                    if key not in self.names:
                        same = [v for (n, t), v in self.names.items() if n == d['name']]
                        self.names[key] = d['name'] if not same else '%s__%d' % (d['name'], len([x for x in d.get('inner', []) if x.get('kind') == 'ParmVarDecl']))
                    for i, prm in enumerate(x for x in d.get('inner', []) if x.get('kind') == 'ParmVarDecl'):
                        if prm.get('inner') and 'init' in prm:
                            self.defaults.setdefault(self.names[key], {})[i] = prm['inner'][-1]
                    if body and d['name'] != 'vc_bind':
                        defs.append((fname, d, body[0]))
                        df = self.defaults.get(self.names[key], {})
                        self.signatures[self.names[key]] = (d['name'], d['type']['qualType'], [
                            (x.get('name', ''), x['type']['qualType'], self.constant(df.get(i)))
                            for i, x in enumerate(y for y in d.get('inner', []) if y.get('kind') == 'ParmVarDecl')])
        self.out = []
        cur = None
        for fname, d, body in defs:
            py = self.names[(d['name'], d['type']['qualType'])]
            if fname != cur:
                cur, self.pragmas = fname, pragmas(dict(paths)[fname]) if paths else []
            try:
                self.out.append(self.function(py, d, body))
                self.functions.append(fname + ':' + py)
            except Untranslated as e:
                self.failed[py] = str(e)
                self.out.append('def %s(*a, **k):\n    cpp_untranslated(%r, %r)\n' % (py, py, str(e)))

    def text(self):
        head = ''.join('%s = %d\n' % (k, v) for k, v in sorted(self.enums.items()))
        return head + '\n' + '\n'.join(self.out)

    def constant(self, n):
        if n is None:
            return None
        try:
            return float(eval(self.expr(n), {'__builtins__': {}, 'cpp_b2i': int}))
        except Exception:
            return None

    def enum(self, d):
        self.enum_types.add(d['name'])
        nxt = 0
        for x in d.get('inner', []):
            if x.get('kind') == 'EnumConstantDecl':
                if x.get('inner'):
                    nxt = int(self.const(x['inner'][0]))
                self.enums['%s__%s' % (d['name'], x['name'])] = nxt
                nxt += 1

    def const(self, n):
        if 'value' in n:
            return n['value']
        for x in n.get('inner', []):
            return self.const(x)
        raise Untranslated('enumerator')

    # ---------------------------------------------------------------- functions
    def function(self, py, d, body):
        self.vars, self.used, self.declared = {}, set(), []
        self.scope = []
        params = [x for x in d.get('inner', []) if x.get('kind') == 'ParmVarDecl']
        names, pre = [], []
        for i, x in enumerate(params):
            nm = self.declare(x) if 'name' in x else 'unused_%d' % i
            names.append(nm)
            t = x['type']['qualType']
            if self.is_class(typ(x)) and '&' not in t and '*' not in t:
                pre.append('    %s = cpp_copy(%s)' % (nm, nm))
        args = []
        df = self.defaults.get(py, {})
        started = False
        for i, nm in enumerate(names):
            if i in df:
                args.append('%s=%s' % (nm, self.expr(df[i])))
                started = True
            elif started:
                raise Untranslated('parameter after default')
            else:
                args.append(nm)
        lines = self.block(body, 1)
        return 'def %s(%s):\n%s\n' % (py, ', '.join(args), '\n'.join(pre + (lines or ['    pass'])))

    RES = {'lambda', 'in', 'is', 'None', 'from', 'def', 'pass', 'not', 'and', 'or', 'with', 'as', 'del', 'yield', 'global', 'print', 'max', 'min', 'abs', 'len'}

    def declare(self, x):
        nm = x.get('name', 'anon')
        if nm in self.RES or nm in (v for v in self.names.values()) or nm in EXTERN:
            nm += '_'
        base, k = nm, 2
        while nm in self.used:
            nm = '%s_%d' % (base, k)
            k += 1
        self.used.add(nm)
        self.vars[x['id']] = nm
        self.declared.append(x)
        return nm

    def is_class(self, t):
        t = bare(t)
        return t.startswith('std::') or t in self.fields or t in ('gsl_function',) or 'VCNS::' in t

    # ---------------------------------------------------------------- statements
    def block(self, n, ind):
        out = []
        for x in n.get('inner', []) if n.get('kind') == 'CompoundStmt' else [n]:
            out += self.stmt(x, ind)
        return out

    def stmt(self, n, ind):
        p = '    ' * ind
        kd = n.get('kind')
        if kd is None or kd == 'NullStmt':
            return []
        if kd in ('ExprWithCleanups', 'ParenExpr', 'CapturedStmt', 'AttributedStmt'):
            return self.stmt([x for x in n['inner'] if x.get('kind') != 'ImplicitParamDecl'][0], ind)
        if kd == 'CompoundStmt':
            return self.block(n, ind)
        if kd == 'DeclStmt':
            out = []
            for x in n['inner']:
                if x['kind'] == 'VarDecl':
                    out += self.vardecl(x, ind)
                elif x['kind'] not in ('CXXRecordDecl', 'TypedefDecl', 'UsingDecl', 'StaticAssertDecl'):
                    raise Untranslated(x['kind'])
            return out
        if kd == 'IfStmt':
            inner = list(n['inner'])
            if n.get('hasInit') or n.get('hasVar'):
                raise Untranslated('if with initialiser')
            c = self.cond(inner[0])
            out = [p + 'if %s:' % c] + (self.block(inner[1], ind + 1) or [p + '    pass'])
            if len(inner) > 2:
                out += [p + 'else:'] + (self.block(inner[2], ind + 1) or [p + '    pass'])
            return out
        if kd == 'ReturnStmt':
            return [p + ('return ' + self.expr(n['inner'][0]) if n.get('inner') else 'return')]
        if kd == 'ContinueStmt':
            return [p + 'continue']
        if kd == 'BreakStmt':
            return [p + 'break']
        if kd == 'WhileStmt':
            if len(n['inner']) != 2:
                raise Untranslated('while with declaration')
            return [p + 'while %s:' % self.cond(n['inner'][0])] + (self.block(n['inner'][1], ind + 1) or [p + '    pass'])
        if kd == 'ForStmt':
            return self.forstmt(n, ind)
        if kd == 'CXXForRangeStmt':
            return self.forrange(n, ind)
        if kd in ('OMPParallelForDirective',):
            return self.omp(n, ind)
        if kd == 'SwitchStmt':
            return self.switch(n, ind)
        if kd == 'CXXThrowExpr':
            return [p + 'raise cpp_error(%s)' % self.message(n)]
        if kd in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator', 'CallExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr'):
            return self.exprstmt(n, ind)
        if kd in ('CStyleCastExpr', 'ImplicitCastExpr') and n.get('castKind') in ('ToVoid', 'NoOp', 'LValueToRValue'):
            return []
        raise Untranslated('statement ' + kd)

    def message(self, n):
        s = []

        def walk(x):
            if x.get('kind') == 'StringLiteral':
                s.append(x['value'])
            for y in x.get('inner', []):
                walk(y)
        walk(n)
        return s[0] if s else repr('exception')

    def vardecl(self, x, ind):
        p = '    ' * ind
        t = typ(x)
        ref = '&' in x['type']['qualType'].split('<')[0].split('>')[-1] or x['type']['qualType'].rstrip().endswith('&')
        init = x['inner'][-1] if x.get('inner') and 'init' in x else None
        if x.get('storageClass') == 'static':
            raise Untranslated('static local')
        if init is None or self.empty_ctor(init):
            nm = self.declare(x)
            return [p + '%s = %s' % (nm, self.default(t, x.get('name')))]
        e = self.expr(init)
        nm = self.declare(x)
        if self.is_class(t) and not ref and '*' not in t.split('<')[0]:
            e = 'cpp_copy(%s)' % e if not e.startswith(('cpp_copy(', 'cpp_struct(', 'cpp_vec(')) else e
        return [p + '%s = %s' % (nm, e)]

    def empty_ctor(self, n):
        while n.get('kind') in PASS and n.get('inner'):
            n = n['inner'][0]
        return n.get('kind') == 'CXXConstructExpr' and not n.get('inner')

    def default(self, t, name):
        b = bare(t)
        if b.startswith('std::array<'):
            return 'cpp_array(%s)' % b.rstrip('>').split(',')[-1].strip().rstrip('UL')
        if b.startswith('std::vector<'):
            return '[]'
        if self.is_class(t) or b in self.fields:
            return 'cpp_struct(%r, [])' % (self.fields.get(b.split('::')[-1], []),)
        return 'cpp_undef(%r)' % name

    def forstmt(self, n, ind):
        p = '    ' * ind
        init, var, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        # canonical: for (int i = a; i < b; ++i) with i not written in the body
        if init.get('kind') == 'DeclStmt' and len(init['inner']) == 1 and cond.get('kind') == 'BinaryOperator' and cond['opcode'] in ('<', '<=', '!=') \
                and inc.get('kind') == 'UnaryOperator' and inc['opcode'] == '++':
            v = init['inner'][0]
            lhs = self.strip(cond['inner'][0])
            tgt = self.strip(inc['inner'][0])
            if lhs.get('referencedDecl', {}).get('id') == v['id'] == tgt.get('referencedDecl', {}).get('id') and not self.writes(body, v['id']):
                a = self.expr(v['inner'][-1])
                b = self.expr(cond['inner'][1])
                nm = self.declare(v)
                if cond['opcode'] == '<=':
                    b = '(%s) + 1' % b
                return [p + 'for %s in cpp_range(%s, %s):' % (nm, a, b)] + (self.block(body, ind + 1) or [p + '    pass'])
        out = self.stmt(init, ind) if init else []
        if self.has(body, 'ContinueStmt'):
            raise Untranslated('for loop with continue')
        c = self.cond(cond) if cond else 'True'
        return out + [p + 'while %s:' % c] + self.block(body, ind + 1) + (self.stmt(inc, ind + 1) if inc else [])

    def has(self, n, kd):
        return n.get('kind') == kd or any(self.has(x, kd) for x in n.get('inner', []))

    def writes(self, n, vid):
        if n.get('kind') in ('BinaryOperator', 'CompoundAssignOperator') and (n['kind'] != 'BinaryOperator' or n['opcode'] == '=') \
                and self.strip(n['inner'][0]).get('referencedDecl', {}).get('id') == vid:
            return True
        if n.get('kind') == 'UnaryOperator' and n['opcode'] in ('++', '--', '&'):
            r = self.strip(n['inner'][0]).get('referencedDecl', {})
            if r.get('id') == vid and not (n['opcode'] == '&' and r.get('type', {}).get('qualType', '').startswith('const ')):
                return True
        if n.get('kind') == 'CallExpr' and self.strip(n['inner'][0]).get('referencedDecl', {}).get('name') in ('swap', 'tie', 'sort'):
            if any(self.mentions(x, vid) for x in n['inner'][1:]):
                return True
        return any(self.writes(x, vid) for x in n.get('inner', []))

    def mentions(self, n, vid):
        return n.get('referencedDecl', {}).get('id') == vid or any(self.mentions(x, vid) for x in n.get('inner', []))

    def strip(self, n):
        while n.get('kind') in PASS | {'ImplicitCastExpr'} and n.get('inner'):
            n = n['inner'][0]
        return n

    def forrange(self, n, ind):
        p = '    ' * ind
        inner = [x for x in n['inner'] if x.get('kind')]
        decls = [x['inner'][0] for x in inner if x['kind'] == 'DeclStmt']
        rng = decls[0]
        loopvar = decls[-1]
        e = self.expr(rng['inner'][-1])
        ref = loopvar['type']['qualType'].rstrip().endswith('&')
        if ref and 'const' not in loopvar['type']['qualType'] and not self.is_class(typ(loopvar)):
            raise Untranslated('range-for over mutable references')
        nm = self.declare(loopvar)
        return [p + 'for %s in %s:' % (nm, e)] + (self.block(inner[-1], ind + 1) or [p + '    pass'])

    def omp(self, n, ind):
        """a parallel loop: every variable of the enclosing scope written by an iteration is havoced at its start"""
        cap = [x for x in n['inner'] if x.get('kind') == 'CapturedStmt'][0]
        loop = None

        def find(x):
            nonlocal loop
            if x.get('kind') == 'ForStmt' and loop is None:
                loop = x
            for y in x.get('inner', []):
                find(y)
        find(cap)
        inside = set()

        def decls(x):
            if x.get('kind') == 'VarDecl':
                inside.add(x['id'])
            for y in x.get('inner', []):
                decls(y)
        decls(loop)
        if not self.pragmas:
            raise Untranslated('OpenMP directive without its text')
        pragma = self.pragmas.pop(0)
        if not re.match(r'#\s*pragma omp parallel for\b', pragma) or re.search(r'\b(reduction|lastprivate|collapse|ordered|linear|copyin)\b', pragma):
            raise Untranslated('OpenMP directive ' + pragma)
        own = set()
        for c in re.findall(r'\b(?:first)?private\s*\(([^)]*)\)', pragma):
            own |= set(x.strip() for x in c.split(','))
        only = set()        # private without firstprivate: uninitialised
        for c in re.findall(r'(?<!first)private\s*\(([^)]*)\)', pragma):
            only |= set(x.strip() for x in c.split(','))
        written = {i for i in self.vars if i not in inside and self.writes(loop, i)}
        names = dict((x['id'], x['name']) for x in self.declared)
        lines = self.stmt(loop, ind)
        q = '    ' * ind
        p = q + '    '
        hav = sorted((self.vars[i], names.get(i)) for i in written)
        m = re.match(r'\s*for (\w+) in cpp_range\(', lines[0])
        if not m:
            raise Untranslated('OpenMP loop')
        lines[0] = lines[0].replace('cpp_range(', 'cpp_omp(', 1)
        pre = []
        for h, src in hav:
            if src not in own:
                pre.append(p + 'cpp_race(%r)' % h)
            pre.append(p + '%s = cpp_havoc(%r, %s)' % (h, h, h))
        pre += [p + '%s = cpp_undef(%r)' % (self.vars[i], x) for i, x in sorted(names.items()) if x in only and i in self.vars and i not in inside]
        keep = [h for h, _ in hav]
        out = [q + '__omp_%s = %s' % (h, h) for h in keep] + lines[:1] + pre + lines[1:]
        return out + [q + '%s = __omp_%s' % (h, h) for h in keep]

    def switch(self, n, ind):
        p = '    ' * ind
        cond, body = n['inner'][0], n['inner'][-1]
        self.tmp = getattr(self, 'tmp', 0) + 1
        v = '__sw%d' % self.tmp
        segs = []
        for x in body['inner']:
            labels = []
            while x.get('kind') in ('CaseStmt', 'DefaultStmt'):
                labels.append(None if x['kind'] == 'DefaultStmt' else self.expr(x['inner'][0]))
                x = x['inner'][-1]
            if labels:
                segs.append([labels, [x]])
            elif segs:
                segs[-1][1].append(x)
            else:
                raise Untranslated('switch')
        out = [p + '%s = %s' % (v, self.expr(cond))]
        kw = 'if'
        dflt = None
        for i, (labels, _) in enumerate(segs):
            body = []
            for labs, ss in segs[i:]:
                body += ss
                if ss[-1].get('kind') in ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'CXXThrowExpr') or \
                        ss[-1].get('kind') == 'CompoundStmt' and ss[-1].get('inner') and ss[-1]['inner'][-1].get('kind') in ('ReturnStmt', 'BreakStmt'):
                    break
            lines = []
            for s in body:
                flat = s['inner'] if s.get('kind') == 'CompoundStmt' else [s]
                for q in flat:
                    if q.get('kind') == 'BreakStmt':
                        continue
                    if self.has(q, 'BreakStmt'):
                        raise Untranslated('nested break')
                    lines += self.stmt(q, ind + 1)
            lines = lines or [p + '    pass']
            if None in labels:
                dflt = (lines, i)
                continue
            out += [p + '%s %s:' % (kw, ' or '.join('%s == %s' % (v, l) for l in labels))] + lines
            kw = 'elif'
        if dflt:
            out += ([p + 'else:'] if kw == 'elif' else [p + 'if True:']) + dflt[0]
        return out

    def exprstmt(self, n, ind):
        p = '    ' * ind
        kd = n['kind']
        if kd == 'BinaryOperator' and n['opcode'] == '=':
            l, r = n['inner']
            call = self.strip(r)
            outs = self.outparams(call)
            if outs:
                return [p + '%s, %s = %s' % (self.lval(l), ', '.join(outs), self.expr(r))]
            return [p + '%s = %s' % (self.lval(l), self.expr(r))]
        if kd == 'CompoundAssignOperator':
            l, r = n['inner']
            op = n['opcode'][:-1]
            if op not in '+-*/':
                raise Untranslated(n['opcode'])
            lv = self.lval(l)
            e = self.arith(op, lv, self.expr(r), n.get('computeResultType', {}).get('desugaredQualType') or n.get('computeResultType', {}).get('qualType', ''))
            return [p + '%s = %s' % (lv, e)]
        if kd == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            lv = self.lval(n['inner'][0])
            return [p + '%s = %s %s 1' % (lv, lv, n['opcode'][0])]
        if kd == 'CXXOperatorCallExpr':
            op = self.callee_name(n)
            if op == 'operator=':
                l, r = n['inner'][1], n['inner'][2]
                ls = self.strip(l)
                if ls.get('kind') == 'CallExpr' and self.callee_name(ls) == 'tie':
                    return [p + '%s = %s' % (', '.join(self.lval(a) for a in ls['inner'][1:]), self.expr(r))]
                return [p + '%s = cpp_copy(%s)' % (self.lval(l), self.expr(r))]
            if op == 'operator<<':
                self.dropped.add('output')
                return [p + 'pass']
            raise Untranslated(op)
        if kd == 'CallExpr':
            nm = self.callee_name(n)
            args = n['inner'][1:]
            if nm in ('printf', 'puts', 'fprintf', 'putchar'):
                self.dropped.add('output')
                return [p + 'pass']
            if nm == 'swap':
                a, b = self.lval(args[0]), self.lval(args[1])
                return [p + '%s, %s = %s, %s' % (a, b, b, a)]
            if nm == 'sort':
                obj = self.begin_end(args)
                if len(args) == 2:
                    rev = False
                else:
                    t = typ(args[2])
                    if 'greater' in t:
                        rev = True
                    elif 'less' in t:
                        rev = False
                    else:
                        raise Untranslated('sort order')
                return [p + '%s = cpp_sort(%s, %r)' % (obj, obj, rev)]
            outs = self.outparams(n)
            if outs:
                return [p + '_, %s = %s' % (', '.join(outs), self.expr(n))]
            return [p + self.expr(n)]
        if kd == 'CXXMemberCallExpr':
            m = n['inner'][0]
            nm = m.get('name')
            obj = self.expr(m['inner'][0])
            args = [self.expr(a) for a in n['inner'][1:]]
            if nm == 'push_back':
                return [p + '%s.append(%s)' % (obj, args[0])]
            raise Untranslated('method ' + str(nm))
        raise Untranslated('expression statement ' + kd)

    def begin_end(self, args):
        o = []
        for a, nm in zip(args[:2], ('begin', 'end')):
            x = self.strip(a)
            if x.get('kind') != 'CXXMemberCallExpr' or x['inner'][0].get('name') != nm:
                raise Untranslated('iterator range')
            o.append(self.expr(x['inner'][0]['inner'][0]))
        if o[0] != o[1]:
            raise Untranslated('iterator range')
        return o[0]

    def outparams(self, n):
        """names of local scalars whose address is handed to an external function"""
        if n.get('kind') != 'CallExpr' or self.callee_name(n) not in EXTERN:
            return []
        out = []
        for a in n['inner'][1:]:
            x = self.strip(a)
            if x.get('kind') == 'UnaryOperator' and x['opcode'] == '&' and not self.is_class(typ(x['inner'][0])):
                out.append(self.lval(x['inner'][0]))
        return out

    def lval(self, n):
        n = self.strip(n)
        kd = n.get('kind')
        if kd == 'DeclRefExpr':
            return self.ref(n)
        if kd == 'MemberExpr':
            return self.expr(n)
        if kd == 'CXXOperatorCallExpr' and self.callee_name(n) == 'operator[]':
            a, i = self.expr(n['inner'][1]), self.expr(n['inner'][2])
            return '%s[cpp_ix(%s, %s)]' % (a, a, i)
        raise Untranslated('assignment to ' + str(kd))

    def ref(self, n):
        d = n['referencedDecl']
        if d['kind'] in ('VarDecl', 'ParmVarDecl'):
            if d['id'] not in self.vars:
                raise Untranslated('global variable ' + d.get('name', ''))
            return self.vars[d['id']]
        if d['kind'] == 'FunctionDecl':
            nm = self.names.get((d['name'], d['type']['qualType']))
            if nm:
                return nm
            if d['name'] in EXTERN:
                return 'cpp_' + d['name']
            raise Untranslated('external function ' + d['name'])
        if d['kind'] == 'EnumConstantDecl':
            t = bare(n['type'].get('qualType', '')).split('::')[-1]
            if '%s__%s' % (t, d['name']) in self.enums:
                return '%s__%s' % (t, d['name'])
            if d['name'].startswith('GSL_'):
                return repr(d['name'])
            raise Untranslated('enumerator ' + d['name'])
        raise Untranslated('reference to ' + d['kind'])

    def callee_name(self, n):
        c = self.strip(n['inner'][0])
        return c.get('referencedDecl', {}).get('name', '')

    # ---------------------------------------------------------------- expressions
    def cond(self, n):
        t = bare(typ(n))
        e = self.expr(n)
        return e if t == 'bool' else '(%s) != 0' % e

    def isint(self, t):
        t = bare(t)
        return t in INTS or t.endswith('size_type')

    def arith(self, op, a, b, t):
        if op == '/' and self.isint(t):
            return 'cpp_idiv(%s, %s)' % (a, b)
        if op == '%':
            return 'cpp_mod(%s, %s)' % (a, b)
        return '(%s %s %s)' % (a, op, b)

    def expr(self, n):
        kd = n.get('kind')
        if kd in PASS:
            return self.expr(n['inner'][0])
        if kd == 'IntegerLiteral':
            return n['value']
        if kd == 'FloatingLiteral':
            f = float(n['value'])
            return repr(f)
        if kd == 'CXXBoolLiteralExpr':
            return 'True' if n['value'] else 'False'
        if kd == 'StringLiteral':
            return n['value']
        if kd == 'DeclRefExpr':
            return self.ref(n)
        if kd == 'CXXDefaultArgExpr':
            raise Untranslated('default argument')
        if kd in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr'):
            return self.cast(n)
        if kd == 'BinaryOperator':
            op = n['opcode']
            l, r = n['inner']
            if op in ('&&', '||'):
                return '(%s %s %s)' % (self.cond(l), 'and' if op == '&&' else 'or', self.cond(r))
            if op in ('+', '-', '*', '/', '%'):
                return self.arith(op, self.expr(l), self.expr(r), typ(n))
            if op in ('<', '>', '<=', '>=', '==', '!='):
                return '(%s %s %s)' % (self.expr(l), op, self.expr(r))
            raise Untranslated('operator ' + op)
        if kd == 'UnaryOperator':
            op = n['opcode']
            x = n['inner'][0]
            if op == '-':
                return '(-%s)' % self.expr(x)
            if op == '+':
                return self.expr(x)
            if op == '!':
                return '(not %s)' % self.cond(x)
            if op == '&':
                s = self.strip(x)
                if self.is_class(typ(x)) or s.get('referencedDecl', {}).get('kind') == 'FunctionDecl':
                    return self.expr(x)
                return self.lval(x)         # out parameter: see outparams
            if op == '*':
                return self.expr(x)
            raise Untranslated('operator ' + op)
        if kd == 'ConditionalOperator':
            c, a, b = n['inner']
            return '(%s if %s else %s)' % (self.expr(a), self.cond(c), self.expr(b))
        if kd == 'MemberExpr':
            o = self.expr(n['inner'][0])
            if n['name'] in ('first', 'second'):
                return '%s[%d]' % (o, n['name'] == 'second')
            return '%s.%s' % (o, n['name'])
        if kd == 'CXXOperatorCallExpr':
            op = self.callee_name(n)
            if op == 'operator[]':
                a, i = self.expr(n['inner'][1]), self.expr(n['inner'][2])
                return '%s[cpp_ix(%s, %s)]' % (a, a, i)
            raise Untranslated(op)
        if kd == 'CXXMemberCallExpr':
            m = n['inner'][0]
            nm = m.get('name')
            if nm == 'size':
                return 'len(%s)' % self.expr(m['inner'][0])
            if nm == 'at':
                a, i = self.expr(m['inner'][0]), self.expr(n['inner'][1])
                return '%s[cpp_ix(%s, %s)]' % (a, a, i)
            if nm in ('front', 'back'):
                a = self.expr(m['inner'][0])
                return '%s[cpp_ix(%s, %s)]' % (a, a, '0' if nm == 'front' else 'len(%s) - 1' % a)
            if nm == 'empty':
                return '(len(%s) == 0)' % self.expr(m['inner'][0])
            raise Untranslated('method ' + str(nm))
        if kd == 'CallExpr':
            c = self.strip(n['inner'][0])
            nm = c.get('referencedDecl', {}).get('name', '')
            args = []
            py = self.expr(c)
            for i, a in enumerate(n['inner'][1:]):
                if self.strip(a).get('kind') == 'CXXDefaultArgExpr':
                    df = self.defaults.get(py, {})
                    if i not in df:
                        raise Untranslated('default argument of ' + nm)
                    args.append(self.expr(df[i]))
                else:
                    args.append(self.expr(a))
            if nm in EXTERN and py == 'cpp_' + nm:
                n_out = self.outparams(n)
                if n_out:
                    args = [a for a in args if a not in n_out]
            return '%s(%s)' % (py, ', '.join(args))
        if kd in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.construct(n)
        if kd == 'InitListExpr':
            t = bare(typ(n)).split('::')[-1]
            vals = [self.expr(x) for x in n.get('inner', [])]
            if t in self.fields:
                return 'cpp_struct(%r, [%s])' % (self.fields[t], ', '.join(vals))
            return '[%s]' % ', '.join(vals) if not (len(vals) == 1 and vals[0].startswith('[')) else vals[0]
        if kd == 'ImplicitValueInitExpr':
            return '0'
        raise Untranslated('expression ' + str(kd))

    def construct(self, n):
        t = bare(typ(n))
        args = [x for x in n.get('inner', []) if self.strip(x).get('kind') != 'CXXDefaultArgExpr']
        if t.startswith('std::vector<'):
            if len(args) == 2:
                return 'cpp_vec(%s, %s)' % (self.expr(args[0]), self.expr(args[1]))
            if len(args) == 1 and bare(typ(args[0])).startswith('std::vector'):
                return self.expr(args[0])
            if len(args) == 1 and self.isint(typ(args[0])):
                return 'cpp_vec(%s, 0)' % self.expr(args[0])
            if not args:
                return '[]'
            raise Untranslated('vector constructor')
        if len(args) == 1:
            return self.expr(args[0])
        if t.startswith('std::pair<') and len(args) == 2:
            return '(%s, %s)' % (self.expr(args[0]), self.expr(args[1]))
        if not args:
            return self.default(t, t)
        raise Untranslated('constructor of ' + t)

    def cast(self, n):
        ck = n.get('castKind')
        x = n['inner'][0]
        if ck in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'ConstructorConversion', 'IntegralToFloating', 'FloatingCast',
                  'IntegralCast', 'BitCast', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'NullToPointer', 'BuiltinFnToFnPtr'):
            e = self.expr(x)
            if ck in ('IntegralToFloating', 'IntegralCast') and bare(typ(x)) == 'bool':
                return 'cpp_b2i(%s)' % e
            if ck == 'FloatingCast' and bare(typ(n)) == 'float':
                raise Untranslated('single precision')
            return e
        if ck in ('FloatingToBoolean', 'IntegralToBoolean'):
            return '((%s) != 0)' % self.expr(x)
        if ck == 'FloatingToIntegral':
            return 'cpp_trunc(%s)' % self.expr(x)
        raise Untranslated('cast ' + str(ck))


# -------------------------------------------------------------------- symbolic module
def helpers(loader):
    from . import shims, terms as tm, explore, arrays as ar
    import copy
    np_ = loader.numpy

    class Struct(object):
        pass

    state = Struct()
    state.omp, state.index, state.busy = [], None, []

    def struct(names, vals):
        s = Struct()
        for n, v in zip(names, vals):
            setattr(s, n, v)
        return s

    def copy_(x):
        if isinstance(x, list):
            return [copy_(y) for y in x]
        if isinstance(x, tm.T) or not hasattr(x, '__dict__') or isinstance(x, types.FunctionType):
            return x
        if hasattr(x, 'copy') and not isinstance(x, dict):
            return x.copy()
        return copy.copy(x)

    def ix(a, i):
        n = shims.slen(a)
        if isinstance(i, tm.T) or isinstance(n, tm.T):
            if not bool(tm.land(tm.le(tm.const(0), tm.num(i)), tm.lt(tm.num(i), tm.num(n)))):
                raise IndexError('out of bounds')
            if isinstance(i, tm.T) and i.is_const:
                return int(i)
            return i
        if not 0 <= i < n:
            raise IndexError('out of bounds')
        return i

    def fork_abs(x):
        x = tm.num(x)
        return x if bool(tm.le(tm.const(0), x)) else -1 * x

    def rng(a, b):
        if isinstance(b, tm.T) or isinstance(a, tm.T):
            return shims.srange(a, b) if hasattr(shims, 'srange') else loader.builtins['range'](a, b)
        return range(a, b)

    def idiv(a, b):
        if not isinstance(a, tm.T) and not isinstance(b, tm.T):
            return int(a / b) if a * b < 0 else a // b
        if isinstance(b, tm.T) or b <= 0:
            raise tm.Unsupported('integer division')
        a = tm.num(a)
        if a.is_const:
            return int(a) // b
        if not bool(tm.le(tm.const(0), a)):
            raise tm.Unsupported('integer division of a negative number')
        p = explore.current()
        q = tm.fn('idiv_%d' % b, tm.to_real(a), sort='I')
        p.assume(tm.land(tm.le(tm.mul(tm.const(b), q), a), tm.lt(a, tm.add(tm.mul(tm.const(b), q), tm.const(b)))))
        return q

    def b2i(c):
        return 1 if bool(c) else 0

    def sort(a, rev):
        a = list(a)
        for i in range(1, len(a)):
            j = i
            while j > 0 and bool(a[j] > a[j - 1] if rev else a[j] < a[j - 1]):
                a[j], a[j - 1] = a[j - 1], a[j]
                j -= 1
        return a

    def untranslated(f, why):
        raise tm.Unsupported('C++ function %s: %s' % (f, why))

    def havoc(name, v):
        if v is None or isinstance(v, Undef):
            return v
        p = explore.current()
        p.nhavoc = getattr(p, 'nhavoc', 0) + 1
        return tm.var('all!%s_%d' % (name, p.nhavoc), v.sort if isinstance(v, tm.T) else 'R')

    class Undef(object):
        def __init__(self, n):
            self.n = n

        def bad(self, *a):
            raise tm.Unsupported('use of uninitialised %s' % self.n)
        __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __bool__ = __lt__ = __gt__ = __le__ = __ge__ = __neg__ = __truediv__ = __rtruediv__ = bad

    def err(msg):
        return RuntimeError(msg)

    def race(name):
        raise RuntimeError('%s is written by parallel iterations without being private' % name)

    class Vec(object):
        """a vector of symbolic length, all elements equal but for those written; in a parallel loop only the slot of the iteration"""

        def __init__(self, n, v):
            self.n, self.v, self.writes, self.depth = n, v, [], len(state.omp)

        def __vc_len__(self):
            return self.n

        def copy(self):
            r = Vec(self.n, self.v)
            r.writes = list(self.writes)
            return r

        def own(self, i):
            if len(state.omp) > self.depth and not bool(tm.eq(tm.num(i), state.omp[-1])):
                raise RuntimeError('parallel iterations access the same element')

        def __getitem__(self, i):
            self.own(i)
            for j, x in reversed(self.writes):
                if bool(tm.eq(tm.num(i), j)):
                    return x
            return self.v

        def __setitem__(self, i, x):
            self.own(i)
            self.writes.append((tm.num(i), x))

    def vec(n, v):
        if isinstance(n, tm.T) and not n.is_const:
            return Vec(n, v)
        return [v] * int(n)

    def omp(a, b):
        if not isinstance(b, tm.T) and not isinstance(a, tm.T):
            for i in range(a, b):
                yield i
            return
        i = state.index
        if i is None:
            raise tm.Unsupported('parallel loop without an index')
        explore.current().assume(tm.land(tm.le(tm.num(a), i), tm.lt(i, tm.num(b))))
        state.omp.append(i)
        yield i
        state.omp.pop()

    class Workspace(object):
        def __init__(self, n):
            self.limit = self.size = n
            self.depth = len(state.omp)
            self.freed = False

    def free(w):
        w.freed = True

    def isnan(x):
        return False        # reals

    def power(a, b):
        return shims.spow(a, b)

    H = dict(cpp_struct=struct, cpp_copy=copy_, cpp_ix=ix, cpp_abs=fork_abs, cpp_fabs=fork_abs, cpp_range=rng, cpp_idiv=idiv, cpp_b2i=b2i, cpp_sort=sort,
             cpp_untranslated=untranslated, cpp_havoc=havoc, cpp_undef=Undef, cpp_error=err, cpp_isnan=isnan, cpp_isinf=isnan, cpp_isfinite=lambda x: True, cpp_pow=power,
             cpp_sqrt=np_.sqrt, cpp_exp=np_.exp, cpp_log=np_.log, cpp_sin=np_.sin, cpp_cos=np_.cos,
             cpp_max=lambda a, b: b if bool(a < b) else a, cpp_min=lambda a, b: b if bool(b < a) else a,
             cpp_make_pair=lambda a, b: (a, b), cpp_vec=vec, cpp_omp=omp, cpp_race=race, cpp_state=state, cpp_array=lambda n: [Undef('array')] * int(n), cpp_move=lambda x: x,
             cpp_gsl_integration_workspace_alloc=Workspace, cpp_gsl_integration_workspace_free=free,
             cpp_gsl_set_error_handler_off=lambda: None, cpp_gsl_strerror=lambda s: '')
    return H


_CODE = {}


def sym_module(loader, k):
    key = (k, source_hash(k))
    if key not in _CODE:
        t = translate(k)
        tree = ast.parse(t['text'])
        tree = Rewrite().visit(tree)
        ast.fix_missing_locations(tree)
        _CODE[key] = (t, compile(tree, os.path.join(REPO, DIR[k], 'integral.cpp.py'), 'exec', dont_inherit=True))
    t, code = _CODE[key]
    m = types.ModuleType('cpp.' + ('four' if k == 4 else 'three'))
    m.__dict__['__builtins__'] = loader.builtins
    m.__dict__.update(helpers(loader))

    def qag(F, a, b, epsabs, epsrel, limit, key_, w):
        if m.qag is None:
            from . import terms as tm
            raise tm.Unsupported('quadrature without a contract')
        st = m.cpp_state
        if w.freed:
            raise RuntimeError('workspace used after it was freed')
        if limit > w.limit:
            raise RuntimeError('more subdivisions than the workspace holds')
        if any(w is x for x in st.busy):
            raise RuntimeError('workspace in use by the enclosing quadrature')
        if w.depth < len(st.omp):
            raise RuntimeError('workspace shared by parallel iterations')
        st.busy.append(w)
        try:
            return 0, m.qag(lambda x: F.function(x, F.params), a, b, epsabs, epsrel), 0
        finally:
            st.busy.pop()
    m.qag = None
    m.cpp_gsl_integration_qag = qag
    exec(code, m.__dict__)
    m.translation = t
    return m
