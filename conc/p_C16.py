"""C16: what a model run reports: solution, rates, wall fluxes and diagnostics are those of the computed trajectory; success state and
errors; the saved logs reproduce the results."""
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
import yaml
import eqref
import mdl
from harness import Skip
from p_C12 import near
from pygmo_fwork.global_model import GlobalModel
from pygmo_fwork.results import ResultsParser
from pygmo_fwork.exceptions import (GlobalModelLogError, GlobalModelAttributeError, BackendNoRunError, BackendRunUnsuccessfulError,
                                    ResultsNotFoundError)
from pygmo_fwork.pygmol.neutral_model import NeutralModel
from pygmo_fwork.pygmol.exceptions import ModelSolutionError, ModelInitError

PER_R = ('reaction_rate_coefficients', 'reaction_rates', 'el_en_losses')
PER_S = ('density_vector', 'volumetric_source_rates', 'flow_source_rates', 'mean_speeds', 'mean_free_paths', 'free_diffusivities',
         'diffusivities', 'wall_fluxes', 'diffusion_sinks', 'diffusion_sources', 'diffusion_source_rates', 'dn_dt')
SCALAR = ('total_density', 'total_pressure', 'ion_temperature', 'electron_density', 'electron_temperature', 'debye_length',
          'electron_energy_density', 'ambipolar_diffusivity_pos', 'ambipolar_diffusivity_neg', 'drho_dt_el_inel',
          'drho_dt_gain_loss', 'sheath_voltage')


class Solver:
    """the stand-in of the ODE solver; remembers what it returned."""

    def __init__(self, rng, d, neutral=False):
        self.rng, self.d, self.neutral, self.mode = rng, d, neutral, 'ok'

    def __call__(self, *a, **k):
        c = mdl.call_args(a, k)
        if self.mode == 'error':
            raise ValueError('array must not contain infs or NaNs')
        y0 = np.array(c['y0'], float)
        self.t, self.y = mdl.trajectory(self.rng, self.d, y0, c['t_span'][1], self.neutral)
        if self.rng.random() < .15:  # a solver may stop before, or hardly before, the end
            self.t = self.t * self.rng.choice([.5, 1 - 1e-12])
        self.f = c['fun']
        return mdl.Raw(self.t.copy(), self.y.copy(), self.mode == 'ok', 'because')


def setup(rng, neutral=False):
    d = eqref.gen_chem(rng, neutral=neutral)
    if rng.random() < .35:  # as many reactions as species, one of each, or one off
        ns = len(d['name'])
        nr = rng.choice([ns, 1, ns + 1])
        for k in ('idx_r', 'a', 'b', 'c', 'sl', 'sr', 'el', 'er', 'ml', 'mr', 'loss', 'elastic'):
            d[k] = (d[k] * (nr // len(d[k]) + 1))[:nr]
        d['idx_r'] = rng.sample(range(1, 40000), nr)
    return d, eqref.gen_params(rng, d)


def frame(rec, df, cols, t, want, tol, where):
    rec.eq([str(c) for c in df.columns], [str(c) for c in ['t'] + cols], 'result.columns', where)
    rec.check(all(a == b for a, b in zip(df.columns, ['t'] + cols)), 'result.columns', '{} {}'.format(where, list(df.columns)))
    rec.eq(len(df), len(t), 'result.rows', where)
    rec.close(df['t'].values.astype(float), t, 'result.time', where)
    near(rec, df[cols].values.astype(float), np.array(want, float).reshape(len(t), len(cols)),
         np.abs(np.array(tol, float)).reshape(len(t), len(cols)), 'result.values', where)


def check_results(rec, m, d, p, s, neutral=False):
    ref = eqref.Ref(d, p)
    st = [ref.state(y) for y in s.y.T]
    names = list(d['name'])
    want = [list(x['density_vector']) + ([0., np.nan] if neutral else [x['electron_density'], x['electron_temperature']])
            + [p['temp_gas'], x['total_pressure']] for x in st]
    tol = [[0] * len(names) + [sum(a * abs(q) for a, q in zip(x['density_vector'], d['charge']))]
           + [0 if neutral else x['electron_temperature'] * sum(a * abs(q) for a, q in zip(x['density_vector'], d['charge'])) /
              max(abs(x['electron_density']), 1e-300)] + [0, x['total_pressure']] for x in st]
    sol = rec.total(m.get_solution, 'result.solution_total', str((d, p)))
    where = 'solution {} {}'.format(d, p)
    frame(rec, sol, names + ['e', 'Te', 'Tg', 'p'], s.t, want, tol, where)
    fin = m.get_solution_final()
    rec.eq(list(fin.index), list(sol.columns), 'result.final', where)
    rec.eq(fin.values.astype(float), sol.iloc[-1].values.astype(float), 'result.final', where)
    r = rec.total(m.get_rates, 'result.rates_total', str((d, p)))
    where = 'rates {} {}'.format(d, p)
    frame(rec, r, list(d['idx_r']), s.t, [x['reaction_rates'] for x in st],
          [x['reaction_rates'] for x in st], where)
    fin = m.get_rates_final()
    rec.eq([int(i) for i in fin.index], list(d['idx_r']), 'result.final', where)
    rec.eq(fin.values.astype(float), r.iloc[-1].values[1:].astype(float), 'result.final', where)
    w = rec.total(m.get_wall_fluxes, 'result.wall_total', str((d, p)))
    where = 'wall fluxes {} {}'.format(d, p)
    if not np.isnan([x['wall_fluxes'] for x in st]).any():
        frame(rec, w, names, s.t, [x['wall_fluxes'] for x in st], [x['wall_fluxes'] for x in st], where)
    fin = m.get_wall_fluxes_final()
    rec.eq(list(fin.index), names, 'result.final', where)
    rec.eq(fin.values.astype(float), w.iloc[-1].values[1:].astype(float), 'result.final', where)
    return sol, r, w


def diagnostics(rng, rec, m, d, p, s):
    for _ in range(3):
        q = rng.choice(PER_R + PER_S + SCALAR)
        totals = rng.random() < .5
        ys = s.y.T
        df = rec.total(lambda: m.diagnose(q, totals=totals), 'diagnose.total', '{} {} {}'.format(q, d, p))
        cols = list(d['idx_r']) if q in PER_R else list(d['name']) if q in PER_S else ['value']
        rec.check(list(df.columns) == ['t'] + cols + (['total'] if totals else []), 'diagnose.columns', '{} {}'.format(q, list(df.columns)))
        rec.close(df['t'].values, s.t, 'diagnose.time', q)
        want = np.array([np.array(np.atleast_1d(getattr(m.equations, 'get_' + q)(y)), dtype=float, copy=True) for y in ys])
        rec.eq(df[cols].values.astype(float), want, 'diagnose.values', '{} {} {}'.format(q, d, p))
        if totals and np.isfinite(want).all():
            rec.close(df['total'].values, want.sum(axis=1), 'diagnose.totals', q, rtol=1e-9, atol=1e-12 * abs(want).max())


def fam_run(rng, rec):
    d, p = setup(rng)
    gm = GlobalModel(mdl.chem(d), p, backend=rng.choice(['pygmol', 'PyGMol']))
    rec.raises(BackendNoRunError, gm.success, 'state.not_run', '')
    for f in ('get_solution', 'get_rates', 'get_wall_fluxes', 'get_solution_final', 'assert_success'):
        rec.raises(BackendNoRunError, getattr(gm, f), 'state.not_run', f)
    s = Solver(rng, d)
    with mdl.solver(s):
        for step in range(rng.randint(1, 3)):
            s.mode = rng.choice(['ok', 'ok', 'ok', 'fail', 'error'])
            if s.mode == 'ok':
                rec.total(lambda: gm.run(log_results=False, verbose=False), 'run.total', str((d, p)))
                rec.check(gm.success() is True, 'state.success', '')
                check_results(rec, gm, d, p, s)
                diagnostics(rng, rec, gm.model, d, p, s)
                # results are copies
                sol = gm.get_solution()
                keep = sol.copy()
                sol.iloc[:, :] = -1.
                sol['zz'] = 1
                rec.eq(gm.get_solution().values, keep.values, 'result.copy', '')
            else:
                rec.raises(ModelSolutionError, lambda: gm.run(log_results=False, verbose=False), 'run.failure_raised', s.mode)
                rec.check(gm.success() is False, 'state.failure', s.mode)
                for f in ('get_solution', 'get_rates', 'get_wall_fluxes', 'get_solution_final', 'get_rates_final',
                          'get_wall_fluxes_final', 'assert_success'):
                    rec.raises(BackendRunUnsuccessfulError, getattr(gm, f), 'state.failure_guard', f)
            # chemistry changed in place: the next run reflects it
            d['a'] = [x * rng.choice([1., 2., .5]) for x in d['a']]
            d['stick'] = [rng.choice([x, 1., 0.]) for x in d['stick']]
            d['mass'] = [x * rng.choice([1., 1., 2.]) for x in d['mass']]
    rec.eq((gm.num_species(), gm.num_reactions()), (len(d['name']), len(d['a'])), 'result.counts')
    return d['charge'], len(d['a'])


def fam_neutral(rng, rec):
    d, p = setup(rng, True)
    m = NeutralModel(mdl.chem(d), p)
    s = Solver(rng, d, True)
    with mdl.solver(s):
        rec.total(m.run, 'run.total', str((d, p)))
        rec.check(m.success() is True, 'state.success', '')
        check_results(rec, m, d, p, s, True)
    return d['charge'], len(d['a'])


def fam_logs(rng, rec):
    d, p = setup(rng)
    p['power'], p['t_power'] = [float(x) for x in p['power']], [float(x) for x in p['t_power']]
    gm = GlobalModel(mdl.chem(d), p)
    top = tempfile.mkdtemp(dir=os.environ.get('CONC_SCRATCH'))
    try:
        s = Solver(rng, d)
        compress = rng.random() < .3
        with mdl.solver(s):
            rid = rng.choice(['run1', 'a b', 'x.y'])
            te = rng.choice([1., 2.5])
            rec.raises(GlobalModelAttributeError, lambda: gm.run(run_id=rng.choice([None, 3]), log_to=top, verbose=False), 'log.run_id', '')
            rec.raises(GlobalModelLogError, lambda: gm.run(run_id=rid, log_to=os.path.join(top, 'none'), verbose=False), 'log.no_dir', '')
            rec.eq(os.listdir(top), [], 'log.nothing_on_error')
            s.mode = 'fail'
            rec.raises(ModelSolutionError, lambda: gm.run(run_id=rid, log_to=top, verbose=False), 'run.failure_raised', '')
            rec.eq(os.listdir(top), [], 'log.nothing_on_error')
            s.mode = 'ok'
            rec.total(lambda: gm.run(run_id=rid, log_to=top, verbose=False, init_el_temp=te, compress_logs=compress), 'log.total', str((d, p)))
            rec.eq(os.listdir(top), [rid], 'log.dir')
            sol, rates, wall = gm.get_solution(), gm.get_rates(), gm.get_wall_fluxes()
            if compress:
                sol, rates, wall = [ResultsParser.compress_solution(x) for x in (sol, rates, wall)]
            rp = ResultsParser(nominal_results_dir=top)
            compare_logs(rec, rp, rid, sol, rates, wall)
            init = rp.fetch_initial_params(rid)
            rec.eq(init, {'init_el_temp': te, 'init_n': gm.generate_initial_n()}, 'log.initial_params')
            got = rp.fetch_model_params(rid)
            rec.eq(set(got), set(p), 'log.model_params')
            rec.check(all(same_value(got[k], p[k]) for k in p), 'log.model_params', '{} {}'.format(got, p))
            # the directory exists: refused and untouched, or replaced
            marker = os.path.join(top, rid, 'marker')
            open(marker, 'w').close()
            keep = open(os.path.join(top, rid, 'solution.csv')).read()
            rec.raises(GlobalModelLogError, lambda: gm.run(run_id=rid, log_to=top, verbose=False), 'log.refuse_existing', '')
            rec.check(open(os.path.join(top, rid, 'solution.csv')).read() == keep and os.path.exists(marker), 'log.refuse_untouched', '')
            rec.total(lambda: gm.run(run_id=rid, log_to=top, verbose=False, overwrite=True), 'log.total', 'overwrite')
            rec.check(not os.path.exists(marker), 'log.overwrite', 'left-overs of the previous log')
            compare_logs(rec, rp, rid, gm.get_solution(), gm.get_rates(), gm.get_wall_fluxes())
            rec.raises(ResultsNotFoundError, lambda: rp.fetch_solution('nope'), 'log.not_found', '')
            rec.raises(ResultsNotFoundError, lambda: rp.fetch_rates('nope'), 'log.not_found', '')
            rec.raises(ResultsNotFoundError, lambda: rp.fetch_wall_fluxes('nope'), 'log.not_found', '')
            rec.raises(ResultsNotFoundError, lambda: rp.fetch_model_params('nope'), 'log.not_found', '')
            # comparison of the final values of logged runs
            rec.total(lambda: gm.run(run_id='second', log_to=top, verbose=False), 'log.total', 'second')
            a, b = rp.fetch_solution(rid).iloc[-1], rp.fetch_solution('second').iloc[-1]
            c = rp.compare([rid, ('second', top)], printout=False)
            rec.eq(list(c.columns), list(a.index), 'log.compare')
            rec.close(c.values.astype(float), np.array([a.values, b.values], float), 'log.compare', '')
            c = rp.compare([rid, 'second'], relative_to_first=True, printout=False)
            with np.errstate(all='ignore'):
                rec.close(c.values.astype(float), np.array([(a - a) / a * 100, (b - a) / a * 100], float), 'log.compare_relative', '', atol=1e-9)
    finally:
        shutil.rmtree(top)
    return rid, compress


def same_value(a, b):
    if isinstance(b, dict):
        return a == b
    return list(np.atleast_1d(a)) == list(np.atleast_1d(b))


def compare_logs(rec, rp, rid, sol, rates, wall):
    for name, want, got in (('solution', sol, rp.fetch_solution(rid)), ('rates', rates, rp.fetch_rates(rid)),
                            ('wall', wall, rp.fetch_wall_fluxes(rid))):
        rec.eq([c if isinstance(c, str) else int(c) for c in got.columns], [c if isinstance(c, str) else int(c) for c in want.columns],
               'log.columns', name)
        rec.eq(list(got.index), list(want.index), 'log.rows', name)
        rec.close(got.values.astype(float), want.values.astype(float), 'log.values', name, rtol=1e-10)


def fam_convergency(rng, rec):
    n = rng.randint(2, 7)
    t_end = rng.choice([1., 10, .03])
    t = [0.] + sorted(rng.uniform(0, t_end) for _ in range(n - 2)) + [t_end]
    cols = ['Ar', 'e', 'Te', 'x'][:rng.randint(1, 4)]
    df = pd.DataFrame({'t': t})
    for c in cols:
        base = 10 ** rng.uniform(-3, 20)
        df[c] = [base * (1 + rng.choice([.01, .3, 1.]) * rng.random()) for _ in t]
    kw = {}
    eps, win = .1, .1
    if rng.random() < .5:
        kw['eps'] = eps = rng.choice([.01, .05, .2])
    if rng.random() < .5:
        kw['timewindow'] = win = rng.choice([.01, .5, .9])
    keep = df.copy()
    res = rec.total(lambda: GlobalModel.check_convergency(df, {'t_end': t_end}, verbose=rng.random() < .3, **kw), 'convergency.total', '')
    rec.check(df.equals(keep), 'convergency.untouched', '')
    rec.eq(list(res.index), cols, 'convergency.index')
    for c in cols:
        a = np.interp(t_end - win * t_end, t, list(df[c]))
        b = df[c].iloc[-1]
        rel = abs(b - a) / abs(a + b) * 2
        if abs(rel - eps) < 1e-9:
            continue
        rec.eq(bool(res[c]), bool(rel <= eps), 'convergency.value', '{} {} {}'.format(c, rel, eps))
    return n, cols, kw


def fam_init(rng, rec):
    d, p = setup(rng)
    rec.raises(GlobalModelAttributeError, lambda: GlobalModel(mdl.chem(d), p, backend=rng.choice(['gk', '', 'pygmol2'])), 'init.backend', '')
    from pygmo_fwork.pygmol.model import Model
    k = rng.choice(['get_species_name', 'get_species_charge', 'get_species_mass', 'get_species_lj_sigma', 'get_species_stick_coef',
                    'get_reactions_arrh_a', 'get_reactions_arrh_b', 'get_reactions_arrh_c', 'get_reactions_el_en_loss',
                    'get_reactions_elastic', 'get_reactions_stoich_coefs_electron', 'get_reactions_stoich_coefs_arbitrary',
                    'get_reactions_id', 'get_return_matrix', 'get_stoichiomatrix', 'num_species', 'num_reactions'])
    c = mdl.chem(d)
    setattr(c, k, 5)
    rec.raises(ModelInitError, lambda: Model(c, p), 'init.mandatory_methods', k)
    gm = GlobalModel(mdl.chem(d), p)
    s = Solver(rng, d)
    with mdl.solver(s):
        gm.run(log_results=False, verbose=False)
        p2 = dict(p, pressure=p['pressure'] * 2, radius=p['radius'] * 1.5)
        gm.reload_model_parameters(p2)
        rec.raises(BackendNoRunError, gm.get_solution, 'reload.not_run', '')
        gm.run(log_results=False, verbose=False)
        check_results(rec, gm, d, p2, s)
    return k


FAMILIES = [('run', fam_run, 1), ('neutral', fam_neutral, 3), ('logs', fam_logs, 3), ('convergency', fam_convergency, 2), ('init', fam_init, 4)]
