"""python -m vc.replay FILE : run the recorded failing input against the real code again."""
import json
import sys
from fractions import Fraction


def main():
    rec = json.load(open(sys.argv[1]))
    from . import run, registry, job, native
    run.load_contracts()
    c = [k for k in registry.CONTRACTS if k.name == rec['contract']][0]
    case = [k for k in c.cases if json.loads(json.dumps(k, default=str)) == rec['case']][0]
    v = rec.get('violation')
    if not v:
        print(json.dumps(rec, indent=1))
        return 0
    j = job.Job(c, case)
    j.native = native.Native()
    preset = v.get('preset')
    if preset:
        out = {}
        for k, x in preset.items():
            if k == '#apps':
                out[k] = eval(x, {})
            else:
                out[k] = {'True': True, 'False': False}.get(x) if x in ('True', 'False') else Fraction(x)
        preset = out
    r = j.once(v['seed'], preset)
    print(r)
    return 0 if r[0] == 'fail' else 3


if __name__ == '__main__':
    sys.exit(main())
