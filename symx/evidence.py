"""Evidence file of one check run."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASSUME = [
 'real arithmetic: floating point operations of the code are taken as exact; literals are the nearby rationals (or n*pi/8) they denote, obligations carry a tolerance of 1e-4',
 'the zero threshold of the code is a symbolic positive quantity tending to zero; inputs on the measure-zero set where a compared probability vanishes identically are outside (counted as generic_assumptions)',
 'numpy/math/cmath/random are replaced by exact symbolic stand-ins (symx/shims.py); every path witness and every counterexample is replayed on the unmodified code with the real numpy',
]
def write(pid, ev, tier):
    cov = dict(states=ev['states_explored'], transitions=ev['transitions'], traces_validated_against_impl=ev['traces_validated_against_impl'],
               samples=ev['samples'] or [dict(note='no witness recorded')])
    for k in ('cases', 'obligations', 'obligations_same_normal_form', 'obligations_discharged_by_solver', 'solver_queries', 'solver_unsat', 'solver_sat',
              'solver_unknown', 'solver_seconds', 'reachable_paths', 'inconclusive', 'generic_assumptions', 'undecided_sides_left_out', 'unsupported_paths', 'functions_encoded',
              'bounds', 'outside', 'known_findings', 'inconclusive_cases', 'vacuous_cases'): cov[k] = ev[k]
    cov['meaning'] = ('states = symbolic paths executed; transitions = symbolic branch decisions; traces_validated_against_impl = path witnesses / '
                      'counterexamples replayed on the unmodified code')
    d = dict(property=pid, tier=tier, seed=ev['seed'], level='model_checking', coverage=cov, assumptions=ASSUME, wall_s=ev['seconds'], violations=ev['violations'])
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', pid + '.json.tmp')
    json.dump(d, open(tmp, 'w'), indent=1, default=str)
    os.replace(tmp, os.path.join(ROOT, 'evidence', pid + '.json'))
