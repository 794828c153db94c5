#!/usr/bin/env python3
"""check.py PROP: decides one property on /repo's current working tree.

 1. the deductive engine (pyvc) re-generates every proof obligation of the property from /repo's source and discharges it;
 2. the executable form of the same contracts is evaluated on the real code (bounded; cross-check of the engine, stand-in for the
    functions the engine does not reach, and the replay that turns a failed obligation into a failing input).
Exit 0: held on everything explored. Exit 1: a line VIOLATION property=<id> replay=<path>."""
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
PY = 'python3-vt'


def load_known(prop):
    """known: property=<id> contract=<name> match=<regular expression on the message> -- <what fails>"""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    for line in open(path) if os.path.exists(path) else ():
        m = re.match(r'known: property=(\S+) contract=(\S+) match=(.*) -- (.*)$', line.strip())
        if m and m.group(1) == prop:
            out.append(m.groups()[1:])
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = json.load(open(os.path.join(HERE, 'checks.json')))[prop]
    thorough = tier == 'thorough'
    budget = cfg.get('thorough_s', 420) if thorough else cfg.get('quick_s', 22)
    workers = int(cfg.get('workers', 7))
    t0 = time.time()
    print('{} {} seed={}: {}'.format(prop, tier, seed, cfg['title']))
    procs = []
    if os.path.exists(os.path.join(HERE, 'conc', 'p_{}.py'.format(prop))):
        for w in range(workers):
            procs.append(subprocess.Popen(
                [os.path.join(HERE, 'conc', 'run.sh'), prop, '--repo', REPO, '--budget', str(budget), '--seed', str(seed), '--worker', str(w),
                 '--workers', str(workers)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    prover = None
    if cfg.get('contracts'):
        limit = 800 if thorough else 420
        prover = subprocess.Popen(
            ['timeout', '-k', '5', str(limit), PY, os.path.join(HERE, 'pyvc', 'prove.py'), prop, '--repo', REPO,
             '--timeout', '30' if thorough else '10'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=HERE)
    results, notes = [], []
    for w, p in enumerate(procs):
        try:
            out, err = p.communicate(timeout=max(5, t0 + 6 * budget + 240 - time.time()))
            r = json.loads(out.split('RESULT ', 1)[1])
            if 'fatal' in r:
                notes.append('worker {}: {} {}'.format(w, r['fatal'], r.get('tb', '')[-800:]))
            else:
                results.append(r)
        except subprocess.TimeoutExpired:
            p.kill()
            notes.append('worker {} timed out'.format(w))
        except Exception as e:
            notes.append('worker {} ended without a result: {!r} {}'.format(w, e, (err or '')[-600:]))
    proof = None
    if prover:
        out, err = prover.communicate()
        try:
            proof = json.loads(out.split('PROOF ', 1)[1])
        except Exception:
            notes.append('prover ended without a result (rc {}): {}'.format(prover.returncode, (err or out)[-800:]))
    violations = []
    replay_dir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    known, seen_known = load_known(prop), set()
    for r in results:
        for v in r['violations']:
            k = [x for x in known if x[0] == v['contract'] and re.search(x[1], v['message'] or '')]
            if k:
                seen_known.add(k[0][2])
            else:
                violations.append(v)
    for what in seen_known:
        print('KNOWN-FINDING: property={} {}'.format(prop, what))
    counts, per_family, samples, errors, distinct = {}, {}, [], [], set()
    for r in results:
        for k, n in r['counts'].items():
            counts[k] = counts.get(k, 0) + n
        for k, n in r['per_family'].items():
            per_family[k] = per_family.get(k, 0) + n
        distinct |= set(r['distinct'])
        samples += r['samples'][:1]
        errors += r['errors']
    evaluations = sum(r['evaluations'] for r in results)
    for e in errors[:3]:
        notes.append('harness error in {} {}: {} {}'.format(e['family'], e['seed'], e['error'], e.get('tb', '')[-500:]))
    lines = []
    refuted = [o for o in proof['obligations'] if o['status'] == 'refuted'] if proof else []
    if violations:
        v = violations[0]
        path = os.path.join(replay_dir, '{}_{}_{}.json'.format(prop, v['family'], v['seed']))
        json.dump(dict(property=prop, contract=v['contract'], message=v['message'], input=v.get('data'), family=v['family'], seed=v['seed'],
                       failed_obligations=[o['name'] for o in refuted], how='{}/conc/run.sh {} --replay {} {}'.format(HERE, prop, v['family'], v['seed']),
                       others=violations[1:6]), open(path, 'w'), indent=1)
        print('contract {} does not hold: {}'.format(v['contract'], (v['message'] or '')[:1500]))
        for o in refuted[:5]:
            print('failed obligation: {} ({})'.format(o['name'], o.get('where', '')))
        lines.append('VIOLATION property={} replay={}'.format(prop, path))
    elif refuted and not errors:
        path = os.path.join(replay_dir, '{}_obligation.json'.format(prop))
        json.dump(dict(property=prop, failed_obligations=refuted, verifier=proof['checker']), open(path, 'w'), indent=1)
        for o in refuted[:5]:
            print('failed obligation: {} ({})\n{}'.format(o['name'], o.get('where', ''), o.get('model', '')[:1500]))
        lines.append('VIOLATION property={} replay={} no-failing-input-found'.format(prop, path))
    ev = dict(property=prop, tier=tier, seed=seed, wall_s=round(time.time() - t0, 1), violations=len(violations) or len(refuted))
    cov = dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=cfg['rule'], samples=samples[:5],
               contract_evaluations=counts, cases_per_family=per_family, notes=notes,
               bounded_part='the executable contracts were evaluated on the real code for the generated cases only (seed {}, {} s x {} workers)'.format(seed, budget, workers))
    ev['level'] = cfg['level']
    if cfg['level'] == 'proof':
        ob = proof['obligations'] if proof else []
        cov.update(obligations=len(ob), discharged=sum(o['status'] == 'proved' for o in ob),
                   checker_cmd='python3-vt pyvc/prove.py {} --repo /repo'.format(prop),
                   trusted_base=(proof or {}).get('trusted', []), functions_under_contract=(proof or {}).get('functions', []),
                   back_ends=(proof or {}).get('backends', {}), solver_s=(proof or {}).get('solver_s', 0),
                   undischarged=[dict(name=o['name'], status=o['status'], why=o.get('why', '')) for o in ob if o['status'] != 'proved'],
                   not_reached=(proof or {}).get('unsupported', []), bounded_obligations=(proof or {}).get('bounded', []),
                   assumed_contracts=(proof or {}).get('used_contracts', []), inlined=(proof or {}).get('inlined', []), vacuity=(proof or {}).get('vacuity', {}))
        if not ob:
            notes.append('no obligations were generated')
    ev['coverage'] = cov
    ev['assumptions'] = cfg.get('assumptions', []) + ((proof or {}).get('assumptions', []))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for n in notes:
        print('note:', n)
    print('{}: {} evaluations, {} contract evaluations{}; {:.0f} s'.format(
        prop, evaluations, sum(counts.values()), '' if not proof else ', {}/{} obligations discharged'.format(
            sum(o['status'] == 'proved' for o in proof['obligations']), len(proof['obligations'])), time.time() - t0))
    for x in lines:
        print(x)
    sys.stdout.flush()
    sys.exit(1 if lines else 0)


if __name__ == '__main__':
    main()
