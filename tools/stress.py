"""stress.py SEED SECONDS [properties]: concrete side only, many inputs per contract, on the unchanged tree: any failure is a false alarm
(or a defect).  Run with /opt/venv/bin/python -W ignore."""
import sys, os, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(H)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, H)
os.environ.update(PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
import multiprocessing as mp
from vc import run, job, registry, native


def one(a):
    sys.stdout = open(os.devnull, 'w')
    i, case, seed, secs = a
    c = registry.CONTRACTS[i]
    sys.setrecursionlimit(100000)
    try:
        j = job.Job(c, case, 'quick', seed)
        j.native = native.Native()
        t0, n, ok = time.time(), 0, 0
        while time.time() - t0 < secs and n < c.trials * 40:
            r = j.once(j.seedof(n))
            n += 1
            ok += r[0] == 'ok'
            if r[0] == 'fail':
                return '%s seed %d/%d FAIL %s: %s\n    %s' % (j.label(), seed, n - 1, r[1], str(r[2])[:200], str(r[3])[:600])
    except BaseException as e:
        return '%s %r' % (c.name, e)
    return None


if __name__ == '__main__':
    seed, secs = int(sys.argv[1]), float(sys.argv[2])
    run.load_contracts()
    jobs = [(i, case, seed, secs) for i, c in enumerate(registry.CONTRACTS) for case in c.cases
            if not sys.argv[3:] or set(c.props) & set(sys.argv[3:])]
    print(len(jobs), 'contracts x cases')
    with mp.Pool(8, maxtasksperchild=4) as p:
        for r in p.imap_unordered(one, jobs):
            if r:
                print(r, flush=True)
