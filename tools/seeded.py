"""seeded.py [ID...]: run the check of its property against every planted bug (applied to /repo, undone at once); records tools/caught.json."""
import json, os, subprocess, sys
V = '/verif'
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
out = V + '/tools/caught.json'
res = json.load(open(out)) if os.path.exists(out) else {}
for i in ids:
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    assert not subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout, '/repo is not clean'
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try:
        r = subprocess.run(['python3', V + '/check.py', prop], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    lines = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    how = 'missed' if r.returncode == 0 else 'unknown' if not lines else \
        'concrete input' if not all(l.endswith('no-failing-input-found') for l in lines) else 'refuted obligation'
    res[i] = {prop: how}
    print(i, r.returncode, how, [l[:120] for l in lines[:2]], flush=True)
    json.dump(res, open(out, 'w'), indent=1, sort_keys=True)
