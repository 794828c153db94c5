"""Source of checks.json and MANIFEST.json (run: python3 tools/manifest.py)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
# properties whose contracts the deductive engine discharges (see contracts/)
PROOF = json.load(open(os.path.join(ROOT, 'tools', 'proof_props.json')))
RULES = {
    'C01': 'random chemistries (species, ions, reactions, chains) with histories of disable/protect/reset; non-trivial: distinct chemistry and history',
    'C02': 'random left and right hand sides, balanced and unbalanced; non-trivial: distinct sides',
    'C03': 'random attributes, units and sides; non-trivial: distinct attributes and sides',
    'C04': 'random attributes and units; non-trivial: distinct attributes',
    'C05': 'random chemistries and selection flags after random disabling; non-trivial: distinct chemistry',
    'C06': 'random chemistries with histories of overrides, disabling, copies; non-trivial: distinct chemistry and history',
    'C07': 'random chemistries with overrides and disabling; non-trivial: distinct chemistry and history',
    'C08': 'random chemistries with histories, saved, loaded, copied; non-trivial: distinct chemistry and history',
    'C09': 'random species and reactions in random order; non-trivial: distinct reactions',
    'C10': 'random chemistries written and parsed, and inconsistent inputs; non-trivial: distinct chemistry',
    'C11': 'random parameter dictionaries, valid and invalid; non-trivial: distinct dictionary',
    'C12': 'random stand-in chemistries, parameters and states, against an independent transcription of the formulas; non-trivial: distinct input',
    'C13': 'random stand-in chemistries, parameters, times and states; non-trivial: distinct input',
    'C14': 'random states, subsets of precomputed arguments and orders of calls; non-trivial: distinct input',
    'C15': 'random chemistries, feeds and initial densities; non-trivial: distinct input',
    'C16': 'random chemistries and trajectories of a stand-in solver, failing and repeated runs, logs; non-trivial: distinct input',
    'C17': 'random pairs of solutions, outputs and times; non-trivial: distinct outputs and number of times',
    'C18': 'random chemistries, rates, fluxes and methods; non-trivial: distinct chemistry and number of times',
    'C19': 'random graphs against brute force; non-trivial: distinct graph',
    'C20': 'random chemistries, seeds, factors and trajectories with a stand-in model; non-trivial: distinct input',
    'C21': 'random chemistries, rankings, limits and scripted model outcomes; non-trivial: distinct input',
    'C22': 'random tables, times and chemistries; non-trivial: distinct input',
}
EXPL_NOTE = ('Bounded: the executable contracts (pre/postconditions, invariants over histories) of the functions behind this property are evaluated on the '
             'real code for the inputs generated within the time limit; nothing is proved beyond these.')
checks, manifest = {}, []
for p in PROPS:
    i = p['id']
    pr = PROOF.get(i)
    level = 'proof' if pr else 'exploration'
    checks[i] = dict(title=p['title'], level=level, rule=RULES[i], contracts=bool(pr), assumptions=(pr or {}).get('assumptions', []),
                     quick_s=22, thorough_s=420, workers=7)
    manifest.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py {} --thorough'.format(i),
                         evidence_file='evidence/{}.json'.format(i), level=level,
                         technique='contract-based deductive verification (VCs generated from the real source, z3/cvc5) plus bounded contract evaluation' if pr else
                         'bounded evaluation of the executable contracts on the real code (no proof)',
                         level_note=pr['note'] if pr else EXPL_NOTE))
json.dump(checks, open(os.path.join(ROOT, 'checks.json'), 'w'), indent=1)
json.dump(dict(version=1, setup_cmd='sh tools/setup.sh', checks=manifest, not_applicable=[],
               notes='See DESIGN.md. No hooks are needed: the checks read and run /repo as it is.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
