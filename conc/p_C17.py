"""C17: the differences between solutions of the full and reduced chemistry."""
import math
import numpy as np
import pandas as pd
from harness import Skip
from pygmo_fwork.optichem.errors import SolutionsDiff


def gen_sol(rng, cols, t0, t1):
    n = rng.randint(2, 7)
    t = [t0] + sorted(rng.uniform(t0, t1) for _ in range(n - 2)) + [t1]
    d = {'t': t}
    for c in cols:
        base = 10 ** rng.uniform(-3, 22)
        d[c] = [base * rng.uniform(.01, 2.) for _ in t]
        if rng.random() < .2:
            d[c] = [int(min(x, 1e15)) + 1 for x in d[c]]
    order = list(d)
    rng.shuffle(order)
    return pd.DataFrame({k: d[k] for k in order}, index=rng.choice([None, range(5, 5 + n), ['r%d' % i for i in range(n)]]))


def lin(df, c, t):
    ts, vs = [float(x) for x in df['t']], [float(x) for x in df[c]]
    for i in range(len(ts) - 1):
        if ts[i] <= t <= ts[i + 1] and ts[i] < ts[i + 1]:
            return vs[i] + (vs[i + 1] - vs[i]) * (t - ts[i]) / (ts[i + 1] - ts[i])
    raise Skip


def fam_errors(rng, rec):
    cols = rng.sample(['Ar', 'Ar+', 'e', 'Te', 'p', 'O2(v=1)', 'x'], rng.randint(1, 5))
    t1 = rng.choice([1., .01, 3.])
    full = gen_sol(rng, cols, 0., t1)
    red = gen_sol(rng, cols, 0., t1 * rng.choice([1., 1., 1.2]))
    keep = full.copy(), red.copy()
    sd = SolutionsDiff(gen_sol(rng, cols, 0., t1) if rng.random() < .3 else full)
    times = [rng.choice([rng.uniform(0, t1), 0., t1, float(rng.choice(list(full['t'])))]) for _ in range(rng.randint(1, 5))]
    tt = rng.choice([list, tuple, np.array])(times)
    if sd.sol_full is not full:
        # whatever was computed for the previous base solution is forgotten
        sd.get_error_max(red, cols, [t1 / 2])
        sd.get_error_max(red, cols, tt)
        sd.reset(full)
    wmax, wrms = {}, {}
    for c in cols:
        f, r = [lin(full, c, t) for t in times], [lin(red, c, t) for t in times]
        m = max(f)
        want = [2 * (b - a) / (a + m) for a, b in zip(f, r)]
        rec.close(rec.total(lambda: sd.get_output_errors(red, c, tt), 'error.total', c), want, 'error.definition', c, rtol=1e-7, atol=1e-9)
        wmax[c], wrms[c] = max(abs(x) for x in want), math.sqrt(sum(x * x for x in want) / len(want))
        rec.close(sd.get_output_error_max(red, c, tt), wmax[c], 'error.max', c, rtol=1e-7, atol=1e-9)
        rec.close(sd.get_output_error_rms(red, c, tt), wrms[c], 'error.rms', c, rtol=1e-7, atol=1e-9)
    sub = rng.sample(cols, rng.randint(1, len(cols)))
    so = rng.choice([list, tuple])(sub)
    rec.close(sd.get_error_max(red, so, tt), max(wmax[c] for c in sub), 'error.overall_max', str(sub), rtol=1e-7, atol=1e-9)
    rec.close(sd.get_error_rms(red, so, tt), math.sqrt(sum(wrms[c] ** 2 for c in sub) / len(sub)), 'error.overall_rms', str(sub),
              rtol=1e-7, atol=1e-9)
    # identical solutions do not differ
    rec.close(sd.get_error_max(full, sub, tt), 0., 'error.identity', '', atol=1e-12)
    rec.close(sd.get_error_rms(full, sub, tt), 0., 'error.identity', '', atol=1e-12)
    rec.check(full.equals(keep[0]) and red.equals(keep[1]), 'error.solutions_untouched', '')
    # outside of the precondition: refused
    for t in (t1 * 1.3, -1e-9, t1 * 1.0001):
        rec.raises(AssertionError, lambda: sd.get_output_errors(red, cols[0], list(times) + [t]), 'error.reject_time', str(t))
    rec.raises(AssertionError, lambda: sd.get_output_errors(red.iloc[:, :].assign(t=[x + t1 * .01 for x in red['t']]), cols[0], [0.]),
               'error.reject_time', 'before the reduced solution')
    for f in (sd.get_output_errors, sd.get_output_error_max, sd.get_output_error_rms):
        rec.raises(AssertionError, lambda: f(red, 'nope', [0.]), 'error.reject_output', '')
        rec.raises(AssertionError, lambda: f(red.drop(columns=cols[0]), cols[0], [0.]), 'error.reject_output', '')
    for f in (sd.get_error_max, sd.get_error_rms):
        rec.raises(AssertionError, lambda: f(red, cols + ['nope'], [0.]), 'error.reject_output', '')
    rec.raises(AssertionError, lambda: SolutionsDiff(full.drop(columns='t')), 'error.reject_solution', '')
    rec.raises(AssertionError, lambda: SolutionsDiff({'t': [0, 1]}), 'error.reject_solution', '')
    return cols, len(times)


FAMILIES = [('errors', fam_errors, 1)]
