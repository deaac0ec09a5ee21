"""Writes MANIFEST.json from the list of implemented checks."""
import json, os
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {}
CNF = 'symbolic execution of the real code to CNF (clauses regenerated each run, real decoder run symbolically) + SAT (CaDiCaL)'
SMT = 'symbolic execution of the real functions with z3-backed values (path forking), SMT verdict per path'
TECH = {k: CNF for k in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C25 C27'.split()}
TECH['C15'] = CNF + '; ' + SMT
TECH['C26'] = 'linear real arithmetic (z3) over all input rates of the layouts read by the real code; ' + CNF
NOTES = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.exists(f'/verif/fsv/checks/{i.lower()}.py'):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    checks.append({'property': i, 'quick_cmd': f'bash check.sh {i} quick', 'thorough_cmd': f'bash check.sh {i} thorough',
                   'technique': TECH.get(i, SMT), 'level': 'other',
                   'level_note': NOTES.get(i, 'Bounded: the solver decides every value within the bounds stated in the evidence file and DESIGN.md; '
                                              'nothing is claimed outside them. Trusts the SAT/SMT solver, the reference rules and CPython. '
                                              'Counterexamples are replayed on the unpatched code before being reported.')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'level "other": solver-based checking of the real code within stated bounds. No hooks in /repo.'},
          open('/verif/MANIFEST.json', 'w'), indent=1)
