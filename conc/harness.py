"""Concrete side of the checks: evaluates the executable form of each contract on the real code in /repo.

It serves three purposes (see DESIGN.md):
  * replays the situations behind a failed obligation on the real code (turning it into a failing input),
  * is the bounded stand-in for functions that the deductive engine does not reach (always labelled bounded),
  * cross-checks the engine against CPython (a contract that was proved must also hold on every executed case).

A case is (family, integer seed): replaying it re-creates the same input from the same seed.
"""
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.filterwarnings('ignore')


class Violation(Exception):
    def __init__(self, contract, msg, data=None):
        super().__init__('{}: {}'.format(contract, msg))
        self.contract, self.msg, self.data = contract, msg, data


class HarnessError(Exception):
    """The harness itself could not do its work (never reported as a violation)."""


class MissingInterface(AttributeError, HarnessError):
    """A stand-in object of the harness lacks what the code asks for."""


class CaseTimeout(BaseException):
    """A single case ran for much longer than any case does."""


def in_repo(tb):
    """Was code of the repository running (directly or in a library it called) when the exception was raised?"""
    repo = os.environ.get('CONC_REPO', '/repo') + '/'
    return any(f.filename.startswith(repo) for f in traceback.extract_tb(tb))


def _alarm(signum, frame):
    raise CaseTimeout()


class Skip(Exception):
    """The generated input is outside the precondition; not counted as an evaluation."""


class Rec:
    """Counts contract evaluations; raises Violation on the first one which does not hold."""

    def __init__(self):
        self.counts = {}
        self.info = {}

    def check(self, cond, contract, msg='', data=None):
        self.counts[contract] = self.counts.get(contract, 0) + 1
        if not cond:
            raise Violation(contract, msg() if callable(msg) else str(msg), data)

    def eq(self, a, b, contract, msg='', data=None):
        self.counts[contract] = self.counts.get(contract, 0) + 1
        if not same(a, b):
            raise Violation(contract, '{} got {!r}, expected {!r}'.format(msg, a, b), data)

    def close(self, a, b, contract, msg='', rtol=1e-9, atol=0.):
        import numpy as np
        self.counts[contract] = self.counts.get(contract, 0) + 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape or not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
            raise Violation(contract, '{} got {!r}, expected {!r}'.format(msg, a.tolist(), b.tolist()))

    def raises(self, exc, fn, contract, msg=''):
        self.counts[contract] = self.counts.get(contract, 0) + 1
        try:
            res = fn()
        except HarnessError:
            raise
        except exc:
            return
        except Exception as e:  # a different exception type
            raise Violation(contract, '{}: raised {!r}, expected {}'.format(msg, e, exc))
        raise Violation(contract, '{}: returned {!r}, expected an exception {}'.format(msg, res, exc))

    def total(self, fn, contract, msg=''):
        """fn must not raise."""
        self.counts[contract] = self.counts.get(contract, 0) + 1
        try:
            return fn()
        except HarnessError:
            raise
        except Exception as e:
            raise Violation(contract, '{}: raised {!r}'.format(msg, e) + '\n' + traceback.format_exc(limit=-4))


def same(a, b):
    import numpy as np
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return a == b or (a != a and b != b)
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) is not None and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and all(same(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    r = a == b
    return bool(r)


def rng_for(family, seed):
    return random.Random('{}/{}'.format(family, seed))


def run_cases(families, seed0, budget_s, min_cases, max_cases=10 ** 9, worker=0, workers=1, case_limit=90):
    """families: list of (name, fn(rng, rec), weight). Runs round-robin cases until the budget is used."""
    t0 = time.time()
    rec = Rec()
    evaluations, skipped, distinct = 0, 0, set()
    samples, errors = [], []
    violations = []
    idx = worker
    per_family = {}
    if hasattr(signal, 'SIGALRM'):
        signal.signal(signal.SIGALRM, _alarm)
    while True:
        el = time.time() - t0
        if (el > budget_s and evaluations >= min_cases) or evaluations >= max_cases or el > 4 * budget_s + 60:
            break
        for name, fn, every in families:
            if idx % every and idx >= workers:
                continue
            seed = seed0 * 1000003 + idx
            rng = rng_for(name, seed)
            try:
                signal.alarm(case_limit)
                out = fn(rng, rec)
                signal.alarm(0)
                evaluations += 1
                per_family[name] = per_family.get(name, 0) + 1
                if out is not None:
                    key = hash(repr(out))
                    if key not in distinct:
                        distinct.add(key)
                        if len(samples) < 3:
                            samples.append({'family': name, 'seed': seed, 'case': repr(out)[:600]})
            except Skip:
                signal.alarm(0)
                skipped += 1
            except Violation as v:
                signal.alarm(0)
                violations.append({'family': name, 'seed': seed, 'contract': v.contract, 'message': v.msg,
                                   'data': repr(v.data)[:4000] if v.data is not None else None})
                if len(violations) >= 5:
                    break
            except CaseTimeout as e:
                signal.alarm(0)
                (violations if in_repo(e.__traceback__) else errors).append(
                    {'family': name, 'seed': seed, 'contract': 'terminates', 'error': 'timeout', 'data': None,
                     'message': 'no result after {} s'.format(case_limit), 'tb': traceback.format_exc(limit=-8)})
                break
            except Exception as e:
                signal.alarm(0)
                if in_repo(e.__traceback__) and not isinstance(e, HarnessError):
                    violations.append({'family': name, 'seed': seed, 'contract': 'no_unexpected_exception', 'data': None,
                                       'message': repr(e) + '\n' + traceback.format_exc(limit=-8)})
                    if len(violations) >= 5:
                        break
                    continue
                if len(errors) < 5:
                    errors.append({'family': name, 'seed': seed, 'error': repr(e), 'tb': traceback.format_exc(limit=-8)})
                if len(errors) >= 5:
                    break
        if len(violations) >= 5 or len(errors) >= 5:
            break
        idx += workers
        if time.time() - t0 > 6 * budget_s + 120:
            break
    return {'evaluations': evaluations, 'skipped': skipped, 'distinct': sorted(distinct), 'counts': rec.counts,
            'samples': samples, 'violations': violations, 'errors': errors, 'per_family': per_family}
