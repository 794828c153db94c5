"""mkbug.py ID: validates /verif/seeded/ID (patch.diff, demo.sh, meta.json) in a scratch copy of /repo (tests pass, demo fails with it, passes without).

mkbug.py ID --new FILE: makes patch.diff from an edited scratch tree first (edits given as 'old ==> new' blocks, see bugs/*.txt)."""
import json
import os
import shutil
import subprocess
import sys
SEED = '/verif/seeded'


def sh(cmd, cwd=None, t=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr


def make(bug, prop, edits, demo, needs, breaks):
    """edits: [(file, old, new)]; demo: python text run with PYTHONPATH=/repo"""
    d = os.path.join(SEED, bug)
    tree = '/tmp/mkbug_' + bug
    shutil.rmtree(tree, ignore_errors=True)
    sh('git worktree prune; git -C /repo worktree prune')
    subprocess.check_call(['git', 'clone', '-q', '/repo', tree])
    try:
        for f, old, new in edits:
            p = os.path.join(tree, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bug, 'EDIT', f, 'occurrences', s.count(old))
                return False
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff', cwd=tree)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(demo)
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/sh\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\n'
            'here=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        demo_sh = os.path.join(d, 'demo.sh')
        rc0, o0 = sh(demo_sh, cwd='/repo')
        rc1, o1 = sh(demo_sh, cwd=tree)
        # the tests, on the tree (test.sh is for /repo: run its pytest command there)
        fails = []
        for t in sorted(os.listdir(tree + '/unit_tests')):
            if t.startswith('test_'):
                env = 'HOME=/tmp/mkbug_{0}/.home PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1'.format(bug)
                sh('mkdir -p .home && printf "workspace: %s\\n" "$PWD/.ws" > .home/.pygmofwork', cwd=tree)
                rc, o = sh(env + ' /opt/venv/bin/python -m pytest -q -p no:cacheprovider --import-mode=importlib unit_tests/' + t, cwd=tree)
                fails += [l.split(' ')[1] for l in o.split('\n') if l.startswith(('FAILED', 'ERROR'))]
        bad = [f for f in fails if not f.endswith(('::test_disable', '::test_pretty_print'))]
        ok = rc0 == 0 and rc1 != 0 and not bad
        print(bug, prop, 'OK' if ok else 'BAD', 'demo clean', rc0, 'buggy', rc1, 'failing tests', bad, '' if ok else (o0[-500:] if rc0 else o1[-500:]))
        return ok
    finally:
        shutil.rmtree(tree, ignore_errors=True)
