"""Engine self-test: mutations of a source file, one at a time, in a scratch copy; does the prover notice?

python3 tools/mutate.py PROP FILE [--only FUNCTION] [--n N] [--seed S]  (never part of a check)"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sites(tree, only):
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or (only and only not in fn.name):
            continue
        for n in ast.walk(fn):
            if isinstance(n, ast.BinOp):
                out.append((fn.name, n, 'binop'))
            elif isinstance(n, ast.Compare):
                out.append((fn.name, n, 'compare'))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                out.append((fn.name, n, 'const'))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append((fn.name, n, 'bool'))
            elif isinstance(n, ast.BoolOp):
                out.append((fn.name, n, 'boolop'))
            elif isinstance(n, ast.UnaryOp):
                out.append((fn.name, n, 'unary'))
            elif isinstance(n, ast.If):
                out.append((fn.name, n, 'if'))
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                out.append((fn.name, n, 'drop'))
            elif isinstance(n, ast.Call) and len(n.args) >= 2:
                out.append((fn.name, n, 'swapargs'))
    return out


def apply(kind, n, r):
    if kind == 'binop':
        ops = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Mod: ast.Add}
        n.op = ops.get(type(n.op), ast.Add)()
    elif kind == 'compare':
        ops = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        n.ops[0] = ops[type(n.ops[0])]()
    elif kind == 'const':
        n.value = n.value + 1 if r.random() < 0.7 else n.value * 2 + 3
    elif kind == 'bool':
        n.value = not n.value
    elif kind == 'boolop':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'unary':
        n.op = ast.Not() if not isinstance(n.op, ast.Not) else ast.UAdd()
        if isinstance(n.op, ast.UAdd):
            n.op = ast.Not()
            n.operand = ast.UnaryOp(op=ast.Not(), operand=n.operand)
    elif kind == 'if':
        n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
    elif kind == 'drop':
        n.__class__ = ast.Pass
        n._fields = ()
    elif kind == 'swapargs':
        n.args[0], n.args[1] = n.args[1], n.args[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('file')
    ap.add_argument('--only', default='')
    ap.add_argument('--n', type=int, default=60)
    ap.add_argument('--seed', type=int, default=1)
    a = ap.parse_args()
    r = random.Random(a.seed)
    src = open(os.path.join('/repo', a.file)).read()
    tree = ast.parse(src)
    ss = sites(tree, a.only)
    r.shuffle(ss)
    seen, jobs = set(), []
    for fn, n, kind in ss:
        if (id(n), kind) in seen or len(jobs) >= a.n:
            continue
        seen.add((id(n), kind))
        jobs.append((fn, n.lineno, n.col_offset, kind))

    def one(job):
        fn, line, col, kind = job
        t2 = ast.parse(src)
        for f, n, k in sites(t2, a.only):
            if (f, n.lineno, n.col_offset, k) == job:
                before = ast.unparse(n)[:70]
                apply(k, n, random.Random(1))
                try:
                    after = ast.unparse(n)[:70]
                    new = ast.unparse(ast.fix_missing_locations(t2))
                except Exception:
                    return None
                break
        d = tempfile.mkdtemp(prefix='mut')
        try:
            shutil.copytree('/repo/plaschem', d + '/plaschem')
            shutil.copytree('/repo/pygmo_fwork', d + '/pygmo_fwork')
            open(os.path.join(d, a.file), 'w').write(new)
            p = subprocess.run(['python3-vt', HERE + '/pyvc/prove.py', a.prop, '--repo', d, '--timeout', '5'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
            try:
                o = json.loads(p.stdout.split('PROOF ')[1])
            except Exception:
                return 'ERROR', job, before, after, (p.stderr or p.stdout)[-300:]
            c = {}
            for x in o['obligations']:
                c[x['status']] = c.get(x['status'], 0) + 1
            st = 'REFUTED' if c.get('refuted') else 'UNKNOWN' if c.get('unknown') or o['unsupported'] else 'PASSED'
            return st, job, before, after, (o['unsupported'][:1] or '') if st == 'UNKNOWN' else ''
        finally:
            shutil.rmtree(d)
    tot = {}
    with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        for res in ex.map(one, jobs):
            if res:
                tot[res[0]] = tot.get(res[0], 0) + 1
                if res[0] != 'REFUTED':
                    print(res[0], res[1], '|', res[2].replace('\n', ' '), '->', res[3].replace('\n', ' '), '|', str(res[4])[:200], flush=True)
    print(tot)


if __name__ == '__main__':
    main()
