#!/usr/bin/env python3
"""Writes MANIFEST.json (kept as a script so that the texts stay consistent)."""
import json
import os

EXP = 'exploration'
MC = 'model_checking'
RUN = ('Bounded-exhaustive: every execution of the stated finite spaces of whole solver runs (option sets, budgets, answer trees, fault plans, restart '
       'histories) of the real, unmodified code is judged. ')
CHECKS = {
 'C01': (EXP, 'stateless exhaustive exploration of real solver runs (options x bound placements x answer trees), exact bound monitor',
         RUN + 'No claim beyond the bounds (n <= 3, up to 3 options off default, answer trees to depth 5-7). Trusts the recording wrapper.'),
 'C02': (EXP, 'stateless exhaustive exploration of budgets, nsamples answer sequences and option sets on real runs, exact counter monitor',
         RUN + 'Evaluation and point numbers are read from the log; everything else from the calls actually made.'),
 'C03': (EXP, 'stateless exhaustive exploration of real solver runs over options, budgets, answer trees and restart histories; result compared with recorded calls',
         RUN + 'Tolerances: 64 ulp on x, 32 ulp on resid, 1e-10 relative on obj.'),
 'C04': (EXP, 'stateless exhaustive exploration of real solver runs over options, budgets, answer trees, faults and restart histories; minimum over recorded evaluations',
         RUN + 'Tolerance 1e-10 relative.'),
 'C05': (EXP, 'exhaustive enumeration of a finite grid of linear least-squares instances, each one a whole default-budget run of the real solver; active-set enumeration as exact oracle',
         'Every instance of the stated grid is executed and judged at the tolerance of the property; no claim between the letters of the grid.'),
 'C06': (EXP, 'exhaustive enumeration of a finite grid of regularised linear least-squares instances, each one a whole default-budget run of the real solver; sign/active-set enumeration and bisection as exact oracles',
         'Every instance of the stated grid (size x shape x right-hand side x regulariser x weight x start x box x scaling x argument convention x option group) is executed and judged at the tolerance of the property; well-conditioned is read as condition number <= 10; no claim between the letters of the grid.'),
 'C07': (EXP, 'exhaustive enumeration of argument combinations, parameter values and option sets on the real solve(); well-formedness and input-error oracle',
         'Every pair of the argument alphabet, every parameter x value x context of the table, every option set within the bounds. Expected status (valid / input error) comes from an independent table.'),
 'C08': ('fault_enumeration', 'exhaustive fault injection: every fault kind at every evaluation index of every configuration, plus full trees of bad answers',
         'Every single-fault plan of the listed configurations is executed on the real code (pairs of faults in the thorough tier). Hangs are detected by CPU-time limit.'),
 'C10': (EXP, 'stateless exhaustive exploration of real solver runs over tolerances, budgets, restarts and answer trees; exit message monitor',
         RUN + 'Restarts performed are counted from the log.'),
 'C11': (EXP, 'stateless exhaustive exploration of real solver runs; Jacobian compared with an independent fit through the recorded evaluations',
         RUN + 'Tolerance follows the condition number of the named points; hopelessly ill-conditioned sets are counted and not compared.'),
 'C09': (EXP, 'stateless exhaustive exploration of real solver runs with convex projections over options, budgets and answer trees; every output of the projection routine and every evaluation judged',
         RUN + 'Projection outputs are observed by wrapping the routine; convergence is recomputed by an independent Dykstra iteration.'),
 'C12': (EXP, 'exhaustive enumeration of finite instance alphabets (Hessian x scale x radius x gradient x bound placement, n = 1..8) and of every call made in explored solver runs; independent feasibility, Cauchy-decrease and gradient oracle',
         'Every instance of the stated alphabets is executed on the real routine and judged; no claim about values between the letters of the alphabets.'),
 'C13': (EXP, 'exhaustive enumeration of finite instance alphabets for the four step routines and Controller.trust_region_step, and of every call made in explored solver runs; exact clipped-ray optimum as oracle',
         'Every instance of the stated alphabets is executed on the real routines and judged; no claim about values between the letters of the alphabets.'),
 'C14': (EXP, 'exhaustive enumeration of placements of x0 next to bounds (every coordinate, npt, width, radius, scaling) and of active-set patterns for the generators under scripted random numbers; plus calls of explored solver runs',
         'Every start and every generator call of the stated alphabets is executed on the real code and judged.'),
 'C15': (EXP, 'exhaustive enumeration of lists of up to four convex sets from finite alphabets (dimension 1..6) x starting points x tolerances; textbook iteration to machine precision as reference, sweeps counted through wrapped projectors',
         'Closeness is judged for tolerances <= 1e-8; one loose-tolerance instance is a listed finding.'),
 'C16': (MC, 'explicit-state exploration of operation sequences on the real Model; fits, Lagrange functions and base shifts checked in every state',
         'All sequences of the public operations up to the stated depths over finite alphabets of points; tolerances follow the condition number. Sampled sequences are replayed from a fresh object.'),
 'C17': (MC, 'explicit-state exploration of operation sequences on the real Model next to a shadow model; live monitor inside whole solver runs',
         'Every transition executes the implementation and the specification model side by side and compares all public attributes.'),
 'C18': (EXP, 'stateless exhaustive exploration of real solver runs; invariants checked on every row of the diagnostic table',
         RUN + 'Radius comparisons use 1e-12 relative tolerance.'),
 'C19': (EXP, 'stateless exhaustive exploration: every case executed twice (other seed, prior runs, in-process and fresh process) and compared bit for bit',
         RUN + 'Options documented as random are compared under equal seeds only.'),
 'C20': (EXP, 'stateless exhaustive exploration of result objects: every explored run and every constructed result goes through the JSON round trip',
         RUN + 'Comparison is exact; None and NaN are identified.'),
}


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    props = [json.loads(line)['id'] for line in open(os.path.join(here, 'properties.jsonl'))]
    checks = []
    for p in props:
        if p not in CHECKS:
            continue
        level, tech, note = CHECKS[p]
        checks.append(dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=tech, level=level, level_note=note))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import numpy, scipy, pandas"', checks=checks,
             not_applicable=[dict(property=p, reason='check not built yet') for p in props if p not in CHECKS],
             notes='No hooks in /repo: every check drives the public interface (or the documented classes and functions) of the working tree in /repo. '
                   './check replay <file> re-executes a recorded counterexample.')
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
