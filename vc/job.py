"""One job = one contract x one case: symbolic proof, then concrete replay / cross-check."""
import hashlib
import os
from fractions import Fraction
import time
import traceback

from . import explore, smt, loader, env, terms as tm, native
from .env import Reject, Fail, Skip


def _cpp(l, k):
    from . import cpp
    return cpp.sym_module(l, k)


class Job(object):
    def __init__(self, contract, case, tier='quick', seed=1):
        self.c, self.case, self.tier, self.seed = contract, case, tier, seed
        self.smt = None
        self._loader = None
        self.deadline = None
        self.native = None

    def new_loader(self):
        from . import cppmod
        return loader.Loader(overrides={
            'interactions.four_particle.cpp.integral': cppmod.native_module(4),
            'interactions.three_particle.cpp.integral': cppmod.native_module(3),
            'cppfour': lambda l: _cpp(l, 4), 'cppthree': lambda l: _cpp(l, 3)})

    @property
    def loader(self):
        if self._loader is None:
            self._loader = self.new_loader()
        return self._loader

    def label(self):
        return self.c.name + (str(sorted(self.case.items())) if self.case else '')

    # ------------------------------------------------------------------ symbolic part
    def prove(self, out):
        quick, t0 = self.tier == 'quick', time.time()
        self.smt = smt.SMT(rlimit=30000000 if quick else 200000000, timeout_ms=8000 if quick else 60000)
        ex = explore.Explorer(self.smt, max_paths=self.c.max_paths, deadline=self.deadline)
        refuted = []
        self.smt.nz.positive.update(['N.legendre', 'N.laguerre'])

        def body():
            p = explore.current()
            v = env.SymV(self, p)
            return self.c.fn(v, **self.case)
        try:
            for path, (kind, val) in ex.run(body):
                out['paths'] += 1
                if kind == 'exc':
                    tb = traceback.extract_tb(val.__traceback__)
                    inrepo = any(f.filename.startswith(loader.REPO) for f in tb)
                    msg = '%s: %s' % (type(val).__name__, val)
                    where = ' @ '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
                    if isinstance(val, Fail):
                        path.obligations.append((val.name, tm.FALSE, len(path.pc), val.detail))
                    elif inrepo:
                        # the solver decides whether the path is feasible
                        r = self.smt.prove(path.pc, tm.FALSE)
                        if r.status != 'proved':
                            out['undecided'].append('%s: exception on a path: %s (%s)' % (self.label(), msg, where))
                            if r.model:
                                refuted.append(('no-exception', r.model, False, msg))
                    else:
                        out['undecided'].append('%s: contract error: %s (%s)' % (self.label(), msg, where))
                seen = set()
                for name, goal, npc, detail in path.obligations:
                    pc = path.pc[:npc]
                    key = (name, goal.uid, tuple(x.uid for x in pc))
                    if key in seen:
                        continue
                    seen.add(key)
                    out['obligations'] += 1
                    r = self.smt.prove(pc, goal)
                    if r.status == 'proved':
                        out['discharged'] += 1
                        out['backends'][r.backend] = out['backends'].get(r.backend, 0) + 1
                        continue
                    if r.status == 'refuted':
                        exact = r.exact and not any(k.startswith(('all!', 'wit!', 'lem!')) for k in (r.model or {}))
                        refuted.append((name, r.model, exact, tm.show(goal, 6)))
                        out['failed'].append({'obligation': name, 'status': 'refuted', 'exact': exact,
                                              'goal': tm.show(goal, 8)[:1500], 'detail': str(detail),
                                              'model': {k: str(x) for k, x in (r.model or {}).items()}})
                    else:
                        refuted.append((name, None, False, ''))
                        out['failed'].append({'obligation': name, 'status': 'unknown', 'reason': r.reason,
                                              'goal': tm.show(goal, 8)[:1500], 'detail': str(detail)})
                    if len(out['failed']) > 12:
                        raise explore.PathLimit('many failed obligations')
                    # something failed: leave most of the time to the search for a failing input
                    if len(out['failed']) > 2 and time.time() - t0 > 20 or self.deadline and time.time() > self.deadline:
                        raise explore.PathLimit('time')
                if self.deadline and time.time() > self.deadline:
                    raise explore.PathLimit('time')
        except (tm.Unsupported, explore.PathLimit, Skip) as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ' @ '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in tb[-5:])
            out['undecided'].append('%s: %s: %s (%s)' % (self.label(), type(e).__name__, e, where))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ' @ '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in tb[-5:])
            out['undecided'].append('%s: engine error %s: %s (%s)' % (self.label(), type(e).__name__, e, where))
        out['solver_s'] = self.smt.stats['solver_s']
        out['obligation_names'] = None
        return refuted

    # ------------------------------------------------------------------ concrete part
    def once(self, seed, preset=None):
        """-> ('ok', nchecks, inputs) | ('reject',) | ('fail', name, detail, inputs) | ('skip', why)"""
        import random
        import numpy
        v = env.ConV(self.native, seed, preset)
        random.seed(seed)
        numpy.random.seed(seed % (2 ** 32))
        try:
            self.c.fn(v, **self.case)
        except Reject:
            return ('reject',)
        except Skip as e:
            return ('skip', str(e))
        except Fail as e:
            return ('fail', e.name, e.detail, v.inputs)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = any(f.filename.startswith(loader.REPO) for f in tb)
            msg = '%s: %s @ %s' % (type(e).__name__, e, ' @ '.join('%s:%s' % (f.filename, f.lineno) for f in tb[-3:]))
            if inrepo and not isinstance(e, (NotImplementedError, MemoryError)):
                return ('fail', 'no-exception', msg, v.inputs)
            return ('skip', 'contract error ' + msg)
        if not v.nchecks:
            return ('skip', 'no check reached')
        return ('ok', v.nchecks, v.inputs)

    def seedof(self, i):
        h = hashlib.sha256(('%s|%d|%d' % (self.label(), self.seed, i)).encode()).digest()
        return int.from_bytes(h[:6], 'big')

    def run(self, budget):
        t0 = time.time()
        out = dict(contract=self.c.name, case=self.case, functions=self.c.functions, mode=self.c.mode, paths=0,
                   obligations=0, discharged=0, backends={}, failed=[], undecided=[], solver_s=0., accepted=0,
                   rejected=0, checks=0, violation=None, label=self.label())
        refuted = []
        if self.c.mode == 'proof':
            self.deadline = t0 + budget * 0.6
            refuted = self.prove(out)
        out['prove_s'] = time.time() - t0
        try:
            self.native = native.Native()
        except Exception as e:
            out['undecided'].append('%s: native import failed: %s' % (self.label(), e))
            out['time'] = time.time() - t0
            return out
        # whatever the proof took, inputs are still tried
        limit = max(t0 + budget * 0.9, min(time.time() + budget * 0.3, t0 + budget * 1.2))
        # 1. replay counter-models
        unreplayed = []
        for name, model, exact, text in refuted[:12]:
            if model is None:
                continue
            acc = 0
            exactly = dict(model)
            for i in range(30):
                if time.time() > limit:
                    break
                # a model on the boundary of a case distinction need not survive rounding: later tries step off it
                model = exactly if i < 3 else dict(exactly, **{'#jitter': Fraction(1, 10 ** (1, 3, 9)[i % 3])})
                r = self.once(self.seedof(100000 + i), model)
                if r[0] == 'ok':
                    acc += 1
                if r[0] == 'fail':
                    out['violation'] = dict(obligation=r[1], detail=r[2], inputs=r[3], seed=self.seedof(100000 + i),
                                            preset={k: str(x) for k, x in model.items()}, source='counter-model')
                    break
                if acc >= 8:
                    break
            if out['violation']:
                break
            if exact and acc == 0:
                unreplayed.append((name, text))
        # 2. sampled cross-check
        n = self.c.trials if self.tier == 'quick' else self.c.trials * 20
        if refuted:
            n *= 10          # something did not discharge: search harder for a failing input
        skips = []
        i = 0
        while out['violation'] is None and i < n and time.time() < limit:
            r = self.once(self.seedof(i))
            i += 1
            if r[0] == 'ok':
                out['accepted'] += 1
                out['checks'] += r[1]
            elif r[0] == 'reject':
                out['rejected'] += 1
            elif r[0] == 'skip':
                skips.append(r[1])
                if len(skips) > 3 and not out['accepted']:
                    break
            else:
                out['violation'] = dict(obligation=r[1], detail=r[2], inputs=r[3], seed=self.seedof(i - 1), preset=None,
                                        source='sample')
        if skips:
            out['undecided'].append('%s: %s' % (self.label(), skips[0]))
        if out['violation'] is None and unreplayed:
            out['unreplayed'] = [{'obligation': a, 'goal': b} for a, b in unreplayed]
        out['time'] = time.time() - t0
        return out
