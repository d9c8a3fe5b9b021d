"""Contracts register themselves here."""
import itertools

CONTRACTS = []


class Contract(object):
    def __init__(self, prop, fn, functions, cases, trials, mode, max_paths, timeout, note):
        self.props, self.fn, self.functions, self.cases = prop, fn, functions, cases
        self.trials, self.mode, self.max_paths, self.timeout, self.note = trials, mode, max_paths, timeout, note
        self.name = '%s.%s' % (fn.__module__.rsplit('.', 1)[-1], fn.__name__)


def contract(prop, functions, cases=None, trials=60, mode='proof', max_paths=300, timeout=60, note='', **grid):
    """mode 'proof': symbolic + concrete replay;  'bounded': concrete only (labelled bounded)."""
    prop = (prop,) if isinstance(prop, str) else tuple(prop)
    if isinstance(functions, str):
        functions = [functions]
    if cases is None:
        keys = sorted(grid)
        cases = [dict(zip(keys, vals)) for vals in itertools.product(*[grid[k] for k in keys])]

    def deco(fn):
        CONTRACTS.append(Contract(prop, fn, functions, cases, trials, mode, max_paths, timeout, note))
        return fn
    return deco
