"""C01 -- recorded histories (common.utils.DynamicRecArray, Dynamic2DArray).

Proof: the representation invariant
    0 <= length <= len(storage) - 2,   len(storage) <= size,   size >= 10
holds after construction, every operation preserves it from an arbitrary state that satisfies it (any length,
any stored rows), and the operation has the effect of the same operation on a list of rows.
By induction over operations this is the list semantics for every history.
Replay: random histories of operations against a Python list."""
import io
from vc.registry import contract
from vc.env import Skip

U = 'common.utils'
COLS = ['a', 't', 'T']


def _inv(v, d):
    n, N, s = d.length, v.len(d._data), d.size
    return v.land(n >= 0, n + 2 <= N, N <= s, s >= 10)


def _private(d):
    for k in ('length', 'size', '_data'):
        if k not in vars(d):
            raise Skip('storage layout changed: no %s' % k)


def _rec(v, units=None):
    M = v.mod(U)
    units = units or [v.real('u%d' % i, pos=True) for i in range(3)]
    return M.DynamicRecArray([[c, ('MeV' if i else ''), units[i]] for i, c in enumerate(COLS)])


def _havoc_rec(v, d):
    """an arbitrary reachable state"""
    from vc.arrays import SRec
    _private(d)
    n, N, s = [v.int(k) for k in ('length', 'capacity', 'size')]
    old = dict((c, v.array('old.' + c, N)) for c in COLS)
    d.length, d.size, d._data = n, s, SRec(N, dict((c, old[c].copy()) for c in COLS))
    v.assume(_inv(v, d))
    return n, N, old


def _havoc_2d(v, d, m):
    _private(d)
    n, N, s = [v.int(k) for k in ('length', 'capacity', 'size')]
    old = v.matrix('old', N, m)
    d.length, d.size, d._data = n, s, old.copy()
    v.assume(_inv(v, d))
    return n, N, old


def _history(v, d, rows, make, width):
    """random history: the storage under contract next to a list of rows"""
    r = v.rng
    log = []
    for _ in range(v.int('operations', lo=1, span=60)):
        op = r.random()
        if op < 0.62 or len(rows) < 2:
            row = [r.uniform(-5, 5) for _ in range(width)]
            make(row)
            rows.append(row)
            log.append('append')
        elif op < 0.8:
            more = [[r.uniform(-5, 5) for _ in range(width)] for _ in range(r.randint(0, 14))]
            d.extend([make.conv(x) for x in more])
            rows.extend(more)
            log.append('extend %d' % len(more))
        else:
            d.truncate()
            rows.pop()
            log.append('truncate')
    v.inputs['history'] = log


class _AppendRec(object):
    def __init__(self, v, d, how):
        self.v, self.d, self.how = v, d, how

    def conv(self, row):
        if self.how == 'tuple':
            return tuple(row)
        items = list(zip(COLS, row)) + [('unrelated', 7.)]
        self.v.rng.shuffle(items)
        return dict(items)

    def __call__(self, row):
        self.d.append(self.conv(row))


@contract('C01', [U + '.DynamicRecArray.__init__', U + '.DynamicRecArray.append', U + '.DynamicRecArray.__getitem__',
                  U + '.DynamicRecArray.data', U + '.DynamicRecArray.__len__'], how=['dict', 'tuple'])
def record_append(v, how):
    d = _rec(v)
    v.eq('starts empty', v.len(d), 0)
    new = [v.real('new.' + c) for c in COLS]
    if v.sym:
        _private(d)
        v.check('invariant established', _inv(v, d))
        n, N, old = _havoc_rec(v, d)
        d.append(tuple(new) if how == 'tuple' else {'T': new[2], 'unrelated': v.num(7), 'a': new[0], 't': new[1]})
        v.check('invariant preserved', _inv(v, d))
        v.eq('length', v.len(d), n + 1)
        for c, x in zip(COLS, new):
            v.eq('column length', v.len(d[c]), n + 1)
            v.eq('new row', v.at(d[c], n), x)
            k = v.int('k')
            v.assume(v.land(k >= 0, k < n))
            v.eq('earlier rows', v.at(d[c], k), v.at(old[c], k))
            v.eq('row by number', d[k][c], v.at(old[c], k))
            v.eq('last row', d[-1][c], x)
            v.eq('data', d.data[n][c], x)
        return
    rows = []
    mk = _AppendRec(v, d, how)
    _history(v, d, rows, mk, 3)
    mk(new)
    rows.append(new)
    v.eq('length', len(d), len(rows))
    for i, c in enumerate(COLS):
        v.eq('column ' + c, list(d[c]), [r[i] for r in rows], tol=0)
    for k in [0, -1, v.rng.randrange(len(rows)), -v.rng.randint(1, len(rows))]:
        for i, c in enumerate(COLS):
            v.eq('row %d' % k, d[k][c], rows[k][i], tol=0)
    v.eq('data', len(d.data), len(rows))


@contract('C01', [U + '.DynamicRecArray.truncate', U + '.Dynamic2DArray.truncate'], which=['record', 'plain'])
def truncate(v, which):
    """drops the last row"""
    M = v.mod(U)
    m = v.int('width', lo=1)
    rec = which == 'record'
    if not v.sym:
        d = _rec(v) if rec else M.Dynamic2DArray([0.] * m)
        w = 3 if rec else m
        rows = []
        mk = _AppendRec(v, d, 'tuple') if rec else _Append2D(d)
        _history(v, d, rows, mk, w)
        row = [v.rng.uniform(-1, 1) for _ in range(w)]
        mk(row)
        d.truncate()
        v.eq('length', len(d), len(rows))
        got = [list(x) for x in d.data]
        v.eq('rows', got, rows, tol=0)
        return
    d = _rec(v) if rec else M.Dynamic2DArray(v.array('header', m))
    n, N, old = _havoc_rec(v, d) if rec else _havoc_2d(v, d, m)
    v.assume(n >= 1)
    d.truncate()
    v.check('invariant preserved', _inv(v, d))
    v.eq('length', v.len(d), n - 1)
    k = v.int('k')
    v.assume(v.land(k >= 0, k < n - 1))
    if rec:
        for c in COLS:
            v.eq('earlier rows', d[k][c], v.at(old[c], k))
    else:
        v.eq('earlier rows', d[k], old[k])


class _Append2D(object):
    def __init__(self, d):
        self.d = d

    def conv(self, row):
        import numpy
        return numpy.array(row)

    def __call__(self, row):
        self.d.append(self.conv(row))


@contract('C01', [U + '.Dynamic2DArray.__init__', U + '.Dynamic2DArray.append', U + '.Dynamic2DArray.__getitem__',
                  U + '.Dynamic2DArray.data', U + '.Dynamic2DArray.__len__'])
def table_append(v):
    """rows of any width"""
    M = v.mod(U)
    m = v.int('width', lo=1)
    header = v.array('header', m)
    d = M.Dynamic2DArray(header)
    v.eq('starts empty', v.len(d), 0)
    new = v.array('new', m)
    if v.sym:
        _private(d)
        v.check('invariant established', _inv(v, d))
        n, N, old = _havoc_2d(v, d, m)
        d.append(new)
        v.check('invariant preserved', _inv(v, d))
        v.eq('length', v.len(d), n + 1)
        k, j = v.int('k'), v.int('j')
        v.assume(v.land(k >= 0, k < n, j >= 0, j < m))
        v.eq('earlier rows', d[k][j], old.at(k, j))
        v.eq('new row', d[n], new)
        v.eq('last row', d[-1], new)
        v.eq('data', d.data[n], new)
        # the recorded row is a copy: later changes of the argument do not alter the history
        kept = new.copy()
        new[0] = v.real('later')
        v.eq('history does not alias the argument', d[n], kept)
        return
    rows = []
    mk = _Append2D(d)
    _history(v, d, rows, mk, m)
    mk(new)
    rows.append(list(new))
    new[0] += 1
    v.eq('length', len(d), len(rows))
    v.eq('rows', [list(x) for x in d.data], rows, tol=0)
    for k in [0, -1, v.rng.randrange(len(rows)), -v.rng.randint(1, len(rows))]:
        v.eq('row %d' % k, list(d[k]), rows[k], tol=0)


@contract('C01', U + '.Dynamic2DArray.__getitem__', back=[1, 2, 3, 5])
def last_rows(v, back):
    """the most recent rows, oldest first (what the multi-step solvers are fed with)"""
    M = v.mod(U)
    m = v.int('width', lo=1)
    d = M.Dynamic2DArray(v.array('header', m))
    if v.sym:
        n, N, old = _havoc_2d(v, d, m)
        got = d[-back:]
        i, j = v.int('i', lo=0), v.int('j', lo=0)
        v.assume(j < m)
        have = v.min(n, v.num(back))
        v.eq('number of rows', v.len(got), have)
        v.assume(i < have)
        v.eq('rows', got[i][j], old.at(n - have + i, j))
        return
    rows = []
    _history(v, d, rows, _Append2D(d), m)
    v.eq('rows', [list(x) for x in d[-back:]], rows[-back:], tol=0)


@contract('C01', [U + '.DynamicRecArray.extend', U + '.Dynamic2DArray.extend'], which=['record', 'plain'], rows=[0, 1, 3])
def extend(v, which, rows):
    M = v.mod(U)
    m = v.int('width', lo=1)
    rec = which == 'record'
    if not v.sym:
        d = _rec(v) if rec else M.Dynamic2DArray([0.] * m)
        w = 3 if rec else m
        hist = []
        mk = _AppendRec(v, d, 'dict') if rec else _Append2D(d)
        _history(v, d, hist, mk, w)
        more = [[v.rng.uniform(-5, 5) for _ in range(w)] for _ in range(rows + v.rng.randint(0, 40))]
        d.extend([mk.conv(x) for x in more])
        v.eq('rows', [list(x) for x in d.data], hist + more, tol=0)
        return
    d = _rec(v) if rec else M.Dynamic2DArray(v.array('header', m))
    n, N, old = _havoc_rec(v, d) if rec else _havoc_2d(v, d, m)
    if rec:
        more = [tuple(v.real('new%d.%s' % (i, c)) for c in COLS) for i in range(rows)]
    else:
        more = [v.array('new%d' % i, m) for i in range(rows)]
    d.extend(more)
    v.check('invariant preserved', _inv(v, d))
    v.eq('length', v.len(d), n + rows)
    k = v.int('k')
    v.assume(v.land(k >= 0, k < n))
    if rec:
        for i, c in enumerate(COLS):
            v.eq('earlier rows', d[k][c], v.at(old[c], k))
            for r in range(rows):
                v.eq('row %d' % r, d[n + r][c], more[r][i])
    else:
        v.eq('earlier rows', d[k], old[k])
        for r in range(rows):
            v.eq('row %d' % r, d[n + r], more[r])


@contract('C01', [U + '.DynamicRecArray.savetxt', U + '.Dynamic2DArray.savetxt'], kind=['record', 'table'])
def export(v, kind):
    """any state of the history: what is handed over for writing is one line per row, in order, every column over its unit"""
    if not v.sym:
        return _exported(v, kind)
    units = [v.real('u%d' % i, pos=True) for i in range(3)]
    if kind == 'record':
        d = _rec(v, units)
        n, N, old = _havoc_rec(v, d)
    else:
        m = 3
        head = v.array('head', m)
        d = v.mod(U).Dynamic2DArray(head)
        n, N, old = _havoc_2d(v, d, m)
    f = object()
    d.savetxt(f)
    (g, x, kw), = v.path.saved
    v.check('to the file given', g is f)
    v.eq('lines', v.len(x), n)
    k = v.int('k')
    v.assume(v.land(k >= 0, k < n))
    v.check('separated by tabs', kw.get('delimiter') == '\t')
    if kind == 'record':
        for i, (c, u) in enumerate(zip(COLS, units)):
            v.eq('line', x[k, i], v.at(old[c], k) / u)
        v.check('heading', kw.get('header') == 'a\tt, MeV\tT, MeV')
    else:
        j = v.int('j')
        v.assume(v.land(j >= 0, j < m))
        v.eq('columns', v.len(x[k]), m)
        v.check('a heading for each', len(kw.get('header').split('\t')) == m)
        v.eq('line', x[k, j], old[k, j])


@contract('C01', U + '.DynamicRecArray.row_repr', names=[False, True])
def row_text(v, names):
    """the text of one row: every column in its own unit"""
    if v.sym:
        units = [v.real('u%d' % i, pos=True) for i in range(3)]
        d = _rec(v, units)
        n, N, old = _havoc_rec(v, d)
        k = v.int('k')
        v.assume(v.land(k >= 0, k < n))
        for which, row in ((k, k), (-1, n - 1)):
            text, nums = v.formatted(lambda: d.row_repr(which, names=names))
            parts = text.split('\t')
            v.check('columns', len(parts) == 3 and len(nums) == 3)
            for i, c in enumerate(COLS):
                v.check('layout', parts[i] == ('%s = <%d>%s' % (c, i, ' MeV' if i else '') if names else '<%d>' % i))
                v.eq('value', nums[i][0], v.at(old[c], row) / units[i])
        return
    units = [v.real('u%d' % i, pos=True, samples=(1e-20, 1e20)) for i in range(3)]
    d = _rec(v, units)
    rows = []
    _history(v, d, rows, _AppendRec(v, d, 'dict'), 3)
    if not rows:
        v.assume(False)
    k = v.rng.choice([-1, 0, len(rows) - 1])
    if not names:
        v.eq('row text', [float(x) for x in d.row_repr(k).split('\t')], [x / u for x, u in zip(rows[k], units)], tol=1e-5)
        return
    named = d.row_repr(k, names=True).split('\t')
    for c, x, u, s in zip(COLS, rows[k], units, named):
        name, val = s.split(' = ')
        v.eq('named', name, c)
        v.eq('named value', float(val.split()[0]), x / u, tol=1e-2)
        v.eq('unit', val.split()[1:], ['MeV'] if c != 'a' else [])


def _exported(v, kind):
    """the text itself: one line per row, under a heading naming the columns"""
    if kind == 'record':
        units = [v.real('u%d' % i, pos=True, samples=(1e-20, 1e20)) for i in range(3)]
        d = _rec(v, units)
        rows = []
        _history(v, d, rows, _AppendRec(v, d, 'dict'), 3)
        if not rows:
            v.assume(False)
        f = io.BytesIO()
        d.savetxt(f)
        text = f.getvalue().decode().splitlines()
        v.eq('heading', text[0].lstrip('#').strip().split('\t'), ['a', 't, MeV', 'T, MeV'])
        v.eq('lines', len(text) - 1, len(rows))
        for line, row in zip(text[1:], rows):
            v.eq('line', [float(x) for x in line.split('\t')], [x / u for x, u in zip(row, units)])
        return
    m = v.int('width', lo=1)
    header = [v.rng.uniform(0, 1e7) for _ in range(m)]
    t = v.mod(U).Dynamic2DArray(header)
    trows = []
    _history(v, t, trows, _Append2D(t), m)
    f = io.BytesIO()
    t.savetxt(f)
    text = f.getvalue().decode().splitlines()
    v.eq('table heading', [float(x) for x in text[0].lstrip('#').split('\t')], header, tol=1e-5)
    v.eq('table', [[float(x) for x in s.split('\t')] for s in text[1:]], trows)
