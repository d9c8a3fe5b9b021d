"""Decide one property:  python -m vc.run <property> [--tier quick|thorough]"""
import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    'the extraction of /verif/vc/loader.py (float literals as exact decimals, / and ** as exact operations, loop rule for '
    'iterables of symbolic length) and the symbolic interpreter of /verif/vc',
    'floating point treated as exact real arithmetic in the proofs (concrete replays use IEEE doubles, relative tolerance 1e-7)',
    'contracts assumed for numpy / scipy / math functions (/verif/vc/shims.py, arrays.py): elementwise ufuncs, linspace, arange, '
    'dot, sum, searchsorted on sorted input, simps / quad / Gauss rules as linear functionals of the samples',
    'z3, cvc5 and the polynomial normal form of /verif/vc/norm.py',
]
TRUSTED_CPP = [
    'clang 18 (parser, JSON AST) and the statement-by-statement translation of /verif/vc/cpp.py; stand-in headers for pybind11 and GSL (/verif/vc/cppstub)',
    'GSL adaptive quadrature: assumed to be an opaque linear functional of the integrand on the given interval; its error estimate and tolerance are not modelled',
    'OpenMP: iterations of a parallel loop see arbitrary values in shared variables that an iteration writes; data races on array elements are excluded by the slot rule',
    'g++ -O1 build of the same files, with the stand-in headers, for replay of concrete inputs',
]
SETS = {
    'C22': 'the sets of leptons, mesons and mixings are the finite ones of the library (enumerated); the mass of the heavy neutral lepton is symbolic within each interval between thresholds, the other masses are those of the library, angles are symbolic',
    'C23': 'the sets of primary mesons are enumerated: every single one and selected combinations, not all subsets',
    'C13': 'declared processes are enumerated up to renaming of particles (which ones coincide, are their own antiparticle, stable); masses and amplitudes are symbolic',
}


def trusted(prop):
    return TRUSTED + (TRUSTED_CPP if prop in ('C05', 'C14', 'C15') else []) + ([SETS[prop]] if prop in SETS else [])


def load_contracts():
    from . import registry
    for f in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.py'))):
        n = os.path.basename(f)[:-3]
        if n != '__init__':
            importlib.import_module('contracts.' + n)
    return registry.CONTRACTS


def _worker(conn, idx, case, tier, seed, budget):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    from . import registry, job
    import threading
    threading.stack_size(256 * 1024 * 1024)
    res = {}

    def go():
        try:
            j = job.Job(registry.CONTRACTS[idx], case, tier, seed)
            res['out'] = j.run(budget)
        except BaseException as e:
            import traceback
            res['out'] = dict(crash='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc())
    t = threading.Thread(target=go)
    t.start()
    t.join()
    conn.send(res['out'])
    conn.close()


def run_jobs(jobs, tier, seed, nproc, total):
    """jobs: list of (contract index, case, contract)"""
    ctx = mp.get_context('fork')
    pending = list(enumerate(jobs))
    pending.sort(key=lambda x: -x[1][2].timeout)
    active, results = {}, {}
    t0 = time.time()
    while pending or active:
        while pending and len(active) < nproc:
            k, (idx, case, c) = pending.pop(0)
            left = total - (time.time() - t0)
            if left < 3:
                results[k] = dict(crash='time budget of the check exhausted')
                continue
            b = min(c.timeout if tier == 'quick' else c.timeout * 10, left)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(w, idx, case, tier, seed, b))
            p.start()
            w.close()
            active[k] = (p, r, time.time() + b * 1.3 + 20)
        for k, (p, r, lim) in list(active.items()):
            if r.poll(0):
                try:
                    results[k] = r.recv()
                except EOFError:
                    results[k] = dict(crash='worker died')
                p.join(5)
                if p.is_alive():
                    p.kill()
                del active[k]
            elif not p.is_alive():
                results[k] = r.recv() if r.poll(0.2) else dict(crash='worker died (exit %s)' % p.exitcode)
                del active[k]
            elif time.time() > lim:
                p.kill()
                results[k] = dict(crash='job timeout')
                del active[k]
        time.sleep(0.01)
    return [results[k] for k in range(len(jobs))]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--self-test', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--case', default=None, help='text the case must contain')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    contracts = load_contracts()
    if a.self_test:
        import z3, numpy, scipy, mpmath
        print('%d contracts over %d properties' % (len(contracts), len(set(p for c in contracts for p in c.props))))
        return 0
    jobs = []
    for i, c in enumerate(contracts):
        if a.prop in c.props and (not a.only or a.only in c.name):
            for case in c.cases:
                if a.case and a.case not in str(case):
                    continue
                jobs.append((i, case, c))
    if not jobs:
        print('no contract for property', a.prop)
        return 2
    outs = run_jobs(jobs, a.tier, seed, a.j, 600 if a.tier == 'quick' else 7200)
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == a.prop and k['status'] == 'known']
    tot = dict(obligations=0, discharged=0, paths=0, accepted=0, checks=0, rejected=0)
    backends, undecided, violations, funcs, bounded, solver = {}, [], [], {}, [], 0.
    per = []
    for (i, case, c), o in zip(jobs, outs):
        if 'crash' in o:
            undecided.append('%s%s: %s' % (c.name, case or '', o['crash']))
            per.append(dict(contract=c.name, case=case, crash=o['crash']))
            if a.v:
                print('CRASH', c.name, case, o['crash'], o.get('tb', ''))
            continue
        for k in tot:
            tot[k] += o[k]
        solver += o['solver_s']
        for k, n in o['backends'].items():
            backends[k] = backends.get(k, 0) + n
        undecided += o['undecided']
        for f in o['failed']:
            undecided.append('%s: obligation %s %s' % (o['label'], f['obligation'], f['status']))
        for f in c.functions:
            funcs.setdefault(f, set()).add('proof' if c.mode == 'proof' else 'bounded')
        if c.mode != 'proof':
            bounded.append('%s %s: %d sampled inputs' % (c.name, case or '', o['accepted']))
        if o['violation']:
            violations.append((o, c))
        elif o.get('unreplayed'):
            violations.append((o, c))
        per.append(dict(contract=c.name, case={k: str(x) for k, x in case.items()}, mode=c.mode, paths=o['paths'], obligations=o['obligations'],
                        discharged=o['discharged'], accepted_inputs=o['accepted'], seconds=round(o['time'], 2)))
        if a.v:
            print('%-70s paths %d  obl %d/%d  conc %d ok %d rej  %.1fs (prove %.1fs)' % (
                o['label'][:110], o['paths'], o['discharged'], o['obligations'], o['accepted'], o['rejected'], o['time'], o['prove_s']))
            for f in o['failed']:
                print('    FAILED', json.dumps(f)[:1800])
            for u in o['undecided']:
                print('    UNDECIDED', u)
            if c.mode == 'proof' and not o['obligations']:
                print('    NO OBLIGATIONS')
            if not o['accepted'] and not o['violation']:
                print('    NOT COVERED: no accepted concrete input')
    rc = 0
    replays = []
    rdir = os.path.join(HERE, 'evidence', 'replays')
    for n, (o, c) in enumerate(violations):
        hit = None
        for k in known:
            if k['contract'] == c.name and k.get('case', o['case']) == o['case'] and \
                    (not k.get('obligation') or o['violation'] and o['violation']['obligation'].startswith(k['obligation'])):
                hit = k
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, hit['text']))
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (a.prop, len(replays)))
        suffix = ''
        rec = dict(property=a.prop, contract=c.name, case=o['case'], functions=c.functions, failed_obligations=o['failed'],
                   how='python -m vc.replay %s' % path)
        if o['violation']:
            rec['violation'] = o['violation']
        else:
            rec['unreplayed'] = o['unreplayed']
            suffix = ' no-failing-input-found'
        json.dump(rec, open(path, 'w'), indent=1, default=str)
        replays.append(path)
        if len(replays) <= 5:
            if o['violation']:
                print('%s: %s: %s' % (o['label'], o['violation']['obligation'], str(o['violation']['detail'])[:400]))
                print('   inputs: %s' % (str(o['violation']['inputs'])[:600]))
            print('VIOLATION property=%s replay=%s%s' % (a.prop, path, suffix))
        rc = 1
    # vacuity guards
    vac = []
    if rc == 0:
        if not any(c.mode == 'proof' for _, _, c in jobs) is False and tot['obligations'] == 0:
            vac.append('no obligation was generated')
        if tot['accepted'] == 0:
            vac.append('no concrete input satisfied the preconditions')
    level = 'proof' if any(c.mode == 'proof' for _, _, c in jobs) else 'bounded'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = evidence(a, seed, t0, tot, backends, undecided, violations, funcs, bounded, solver, per, level, replays, rc, vac)
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d contracts x cases, %d/%d obligations discharged (%s), %d concrete inputs, %.1f s%s' % (
        a.prop, len(jobs), tot['discharged'], tot['obligations'], backends, tot['accepted'], time.time() - t0,
        '' if not undecided else ', %d undecided' % len(undecided)))
    if a.v:
        for u in undecided:
            print('   undecided:', u[:400])
    return rc


def evidence(a, seed, t0, tot, backends, undecided, violations, funcs, bounded, solver, per, level, replays, rc, vac):
    from . import evid
    return evid.build(a.prop, a.tier, seed, t0, tot, backends, undecided, violations, funcs, bounded, solver, per, level,
                      replays, rc, vac, trusted(a.prop))


if __name__ == '__main__':
    sys.exit(main())
