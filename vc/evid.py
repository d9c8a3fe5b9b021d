import time


def build(prop, tier, seed, t0, tot, backends, undecided, violations, funcs, bounded, solver, per, level, replays, rc, vac, trusted):
    cov = dict(
        obligations=tot['obligations'], discharged=tot['discharged'],
        checker_cmd='./check %s (symbolic execution of /repo sources; back ends: polynomial normal form, z3, cvc5)' % prop,
        trusted_base=trusted,
        functions_under_contract={k: sorted(v) for k, v in sorted(funcs.items())},
        back_ends=backends, solver_seconds=round(solver, 2), symbolic_paths=tot['paths'],
        concrete_inputs_replayed=tot['accepted'], concrete_inputs_rejected_by_precondition=tot['rejected'],
        concrete_checks=tot['checks'],
        undecided=undecided[:60], bounded=bounded, contracts=per, vacuity_problems=vac, replay_files=replays)
    if level != 'proof':
        cov = dict(explanation='bounded check', **cov)
    return dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed,
                level='proof' if level == 'proof' else 'other', coverage=cov, assumptions=trusted,
                wall_s=round(time.time() - t0, 2), violations=len(replays))
