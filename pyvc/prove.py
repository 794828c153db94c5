"""prove.py PROP: generates the proof obligations of a property from /repo's current source and discharges them.

Prints 'PROOF {json}'."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'contracts'))
import terms as tm
from terms import *
from values import *
import interp as ip
import numeval
import lib
from maps import SymMap

PROPERTY_MODULES = {
    'C19': ['search'], 'C01': ['chemstate'], 'C08': ['chemstate'], 'C02': ['rx'], 'C05': ['chem'], 'C06': ['chem'], 'C07': ['chem'], 'C03': ['rx'], 'C04': ['rx'], 'C11': ['params'], 'C12': ['equations'], 'C15': ['initial'], 'C17': ['errors'], 'C18': ['graph'], 'C20': ['morris'], 'C13': ['equations'], 'C14': ['equations'], 'C22': ['results'], 'C16': ['output'], 'C21': ['reduction'],
}
if os.path.exists(os.path.join(HERE, 'modules.json')):
    PROPERTY_MODULES = json.load(open(os.path.join(HERE, 'modules.json')))


class Session:
    """collects the obligations of one property"""

    def __init__(self, prop, repo, timeout):
        self.prop, self.repo, self.timeout = prop, repo, timeout
        self.obs, self.functions, self.unsupported = [], {}, []
        self.trusted, self.assumptions, self.bounded = set(), set(), []
        self.vacuity = {'paths': 0, 'hypotheses_satisfiable': 0, 'cross_checked': 0, 'cross_check_failures': 0}
        self.inlined, self.used = set(), set()
        self.deadline = None
        self._sat = {}

    def interp(self, contracts=None):
        it = ip.Interp(self.repo, contracts)
        lib.make_libs(it)
        return it

    def explore(self, it, name, run, conds=()):
        """paths of a function, or None if it is out of reach"""
        try:
            outs = it.explore(run, conds)
        except Unsupported as e:
            self.unsup(name, e)
            return None
        except (TypeError, AttributeError, IndexError, KeyError, ValueError, RecursionError, AssertionError, ZeroDivisionError) as e:
            self.unsup(name, 'engine error: {!r} {}'.format(e, traceback.format_exc()[-600:]))
            return None
        self.note(it)
        self.vacuity['paths'] += len(outs)
        return outs

    def note(self, it):
        self.inlined |= it.inlined
        self.used |= it.used_contracts

    def under_contract(self, q, what=''):
        self.functions.setdefault(q, []).append(what) if what else self.functions.setdefault(q, [])

    def unsup(self, name, why):
        self.unsupported.append({'name': name, 'why': str(why)[:300]})

    def add(self, name, status, back='', model='', where='', why=''):
        self.obs.append(dict(name=name, status=status, back=back, model=model, where=where, why=why))

    def check(self, name, goal, hyps=(), where='', junk=('junk',)):
        """one obligation"""
        goal = lift(goal)
        hyps = [h for h in hyps if h is not TRUE]
        t0 = time.time()
        try:
            st, back, model = tm.prove(goal, hyps, int(self.timeout * 1000), junk)
        except (Unsupported, TypeError, RecursionError, AttributeError) as e:
            st, back, model = 'unknown', '', repr(e)[:300]
        if st == 'proved' and back != 'trivial':
            # cross-check of the prover on random models
            f, text = numeval.falsify(goal, hyps, tries=30, wanted=2, seconds=1.0)
            if f in ('refuted', 'junk'):
                self.vacuity['cross_check_failures'] += 1
                st, back, model = 'unknown', back, 'the prover and the evaluation disagree: ' + text
            elif f == 'agree':
                self.vacuity['cross_checked'] += 1
        if st == 'refuted' and back.startswith('z3'):
            for x in tm.walk_all([goal] + hyps):
                if x.op in ('app', 'const') and any(str(x.args[0]).startswith(j) for j in junk):
                    st, model = 'unknown', 'depends on a value left open: ' + str(x)[:80]
                    break
        if st == 'proved' and back == 'trivial':
            self.add(name, st, back, '', where)
            return st
        key = tuple(hyps)
        if key not in self._sat:
            if tm.quantified(hyps):
                import fol
                self._sat[key] = fol.check(hyps, FALSE, 300) != 'unsat'
            else:
                self._sat[key] = z3_check(hyps, FALSE, 1000)[0] != 'unsat' if hyps else True
        if not self._sat[key]:
            self.vacuity['contradictory_paths'] = self.vacuity.get('contradictory_paths', 0) + 1
            return None
        self.vacuity['hypotheses_satisfiable'] += 1
        self.add(name, st, back, model if st != 'proved' else '', where, model[:300] if st != 'proved' else '')
        if os.environ.get('PYVC_VERBOSE') and st != 'proved':
            print('  ', st, name, back, model[:400])
            if os.environ.get('PYVC_VERBOSE') == '2':
                print('     goal', str(goal)[:1500])
                print('     hyps', [str(h)[:200] for h in hyps])
        return st

    def equal(self, name, got, want, hyps=(), where='', it=None):
        """equality of two values: terms, arrays (same dimensions, all elements), tuples, lists, dicts, None, texts"""
        if isinstance(got, Arr) and isinstance(want, Arr):
            if len(got.dims) != len(want.dims) or not all(same_dim(a, b, hyps) or self.same(a, b) for a, b in zip(got.dims, want.dims)):
                return self.shape(name, got, want, hyps, where)
            for p in positions(want.dims, 'p'):
                h = list(hyps) + [dims_member(want.dims, p)]
                suffix = '' if len(positions(want.dims, 'x')) == 1 else '[' + ','.join(str(q[0]) if isinstance(q, tuple) else '' for q in p) + ']'
                self.equal(name + suffix, got.at(*p), want.at(*p), h, where)
            return
        if isinstance(got, Arr) != isinstance(want, Arr):
            return self.shape(name, got, want, hyps, where)
        if isinstance(got, (tuple, list)) and isinstance(want, (tuple, list)):
            if len(got) != len(want):
                return self.check(name + '.length', FALSE, hyps, where)
            for k, (a, b) in enumerate(zip(got, want)):
                self.equal('{}.{}'.format(name, k), a, b, hyps, where)
            return
        if isinstance(got, dict) and isinstance(want, dict):
            if set(got) != set(want):
                return self.check(name + '.keys', FALSE, hyps, where)
            for k in want:
                self.equal('{}.{}'.format(name, k), got[k], want[k], hyps, where)
            return
        if isinstance(got, SymMap) and isinstance(want, SymMap) and got.axis is want.axis:
            k = got.axis.new('k')
            self.check(name + '.keys', eq(got.dom(k), want.dom(k)), list(hyps) + [got.axis.member(k)], where)
            return self.check(name + '.values', eq(got.val(k), want.val(k)), list(hyps) + [got.axis.member(k), want.dom(k)], where)
        if isinstance(got, (dict, SymMap)) != isinstance(want, (dict, SymMap)) or isinstance(got, dict) != isinstance(want, dict):
            return self.check(name + '.kind', FALSE, hyps, where)
        ok = (T, int, bool, str, Fraction, type(None), float)
        if not isinstance(got, ok) or not isinstance(want, ok):
            if got is want:
                return self.check(name, TRUE, hyps, where)
            return self.unsup(name, 'value of type {} for {}'.format(type(got).__name__, type(want).__name__))
        return self.check(name, eq(lift(got), lift(want)), hyps, where)

    def same(self, a, b):
        return lib.is_fin(a) and lib.is_fin(b) and len(a.parts) == len(b.parts)

    def shape(self, name, got, want, hyps, where):
        base = len(got.dims) == len(want.dims) if isinstance(got, Arr) and isinstance(want, Arr) else False
        if base and any(type(a) is Axis and type(b) is Axis and a is not b for a, b in zip(got.dims, want.dims)):
            if z3_check([h for h in hyps if h is not TRUE], FALSE, 1000)[0] != 'unsat':
                return self.add(name + '.shape', 'refuted', 'shape', 'the result is indexed by other items: {} for {}'.format(got, want)[:300], where)
        self.add(name + '.shape', 'unknown', '', '', where, 'shape {} for {}'.format(got, want)[:300])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--timeout', type=float, default=10)
    ap.add_argument('--only', default='')
    a = ap.parse_args()
    s = Session(a.prop, a.repo, a.timeout)
    s.only = a.only
    t0 = time.time()
    for m in PROPERTY_MODULES.get(a.prop, []):
        try:
            importlib.import_module(m).generate(s)
        except Unsupported as e:
            s.unsup(m, e)
        except Exception as e:
            s.unsup(m, 'engine error: ' + repr(e) + traceback.format_exc()[-1500:])
    backs = {}
    for o in s.obs:
        if o['status'] == 'proved':
            for b in o['back'].split('+'):
                backs[b] = backs.get(b, 0) + 1
    fl = sorted(s.functions)
    print('PROOF ' + json.dumps(dict(
        obligations=s.obs, functions=fl, inlined=sorted(s.inlined - set(fl)), used_contracts=sorted(s.used), unsupported=s.unsupported,
        trusted=sorted(s.trusted), assumptions=sorted(s.assumptions), bounded=s.bounded, backends=backs,
        solver_s=round(tm.STATS['solver_s'], 2), wall_s=round(time.time() - t0, 1), vacuity=s.vacuity,
        checker='python3-vt pyvc/prove.py {} --repo {}'.format(a.prop, a.repo))))


if __name__ == '__main__':
    main()
