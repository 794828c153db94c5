"""C14: the function given to the solver is the sum of the documented terms, whatever was evaluated before; optional arguments
equal to what would be computed do not change any result."""
import inspect
import numpy as np
import eqref
from harness import Skip
from p_C12 import PARTICLE, ENERGY, near, setup, scales

ARG = {'rates': 'reaction_rates', 'k_r': 'reaction_rate_coefficients', 'n': 'density_vector', 'n_e': 'electron_density',
       'n_tot': 'total_density', 'p': 'total_pressure', 'temp_i': 'ion_temperature', 'temp_e': 'electron_temperature',
       'rho': 'electron_energy_density', 'v_m': 'mean_speeds', 'debye_length': 'debye_length', 'mfp': 'mean_free_paths',
       'sigma_sc': 'sigma_sc', 'diff_c_free': 'free_diffusivities', 'diff_a_pos': 'ambipolar_diffusivity_pos',
       'diff_a_neg': 'ambipolar_diffusivity_neg', 'diff_c': 'diffusivities', 'wall_fluxes': 'wall_fluxes',
       'diff_sinks': 'diffusion_sinks', 'diff_sources': 'diffusion_sources', 'vol_source_rates': 'volumetric_source_rates',
       'flow_source_rates': 'flow_source_rates', 'diff_source_rates': 'diffusion_source_rates',
       'min_n_correction': 'min_n_correction', 'el_en_losses': 'el_en_losses', 'reaction_rates': 'reaction_rates',
       'sh_pot': 'sheath_voltage', 'dn_dt': 'dn_dt'}
TIMED = {'ext': 'drho_dt_ext', 'el_inel': 'drho_dt_el_inel', 'gain_loss': 'drho_dt_gain_loss',
         'el_walls': 'drho_dt_el_walls', 'ions_walls': 'drho_dt_ions_walls', 'min_rho_correction': 'min_rho_correction'}


def objective(rng, rec, neutral=False):
    d, p, ref, eq = setup(rng, neutral)
    f, jac = eq.get_objective_functions()
    rec.check(jac is None, 'objective.no_jacobian')
    rec.raises(NotImplementedError, lambda: eq.get_objective_functions(jacobian=True), 'objective.jacobian_not_implemented')
    ys = [eqref.gen_y(rng, d, neutral) for _ in range(3)]
    first = {}
    for step in range(6):
        i = rng.randrange(3)
        y, t = ys[i], (0., .37 * p['t_end'], p['t_end'])[i]
        y0 = y.copy()
        if rng.random() < .4:  # diagnostics in between
            k = rng.choice(PARTICLE if neutral else PARTICLE + ENERGY)
            if hasattr(eq, 'get_' + k) and not (neutral and k in ('debye_length', 'ambipolar_diffusivity_pos')):
                getattr(eq, 'get_' + k)(ys[rng.randrange(3)])
        got = np.array(rec.total(lambda: f(t, y), 'objective.total', str((d, p, y.tolist()))), copy=True)
        rec.eq(y, y0, 'objective.state_vector_untouched')
        S = ref.state(y)
        if any(np.isnan(x) or np.isinf(x) for x in S['dn_dt']):
            raise Skip
        want = ref.dy_dt(t, y)
        sc = scales(ref, S)
        scl = sc['dn_dt'] + [0. if neutral else sc['drho_dt'] + 1e-3 * max(p['power']) / ref.V / eqref.C.e]
        near(rec, got, want, scl, 'objective.sum_of_terms', '{} {} t={} y={}'.format(d, p, t, y.tolist()))
        if i in first:
            rec.eq(got, first[i], 'objective.history_independent', '{} {}'.format(d, p))
        first[i] = got
        near(rec, eq.get_dy_dt(t, y) if not neutral else got, want, scl, 'dy_dt.sum_of_terms', str((d, p, t, y.tolist())))
    return d, p, neutral


def objective_neutral(rng, rec):
    return objective(rng, rec, neutral=True)


def optional(rng, rec, neutral=False):
    d, p, ref, eq = setup(rng, neutral)
    y = eqref.gen_y(rng, d, neutral)
    t = rng.uniform(0, p['t_end'])
    names = PARTICLE + ([] if neutral else ENERGY)
    vals = {}
    for k in names:
        if neutral and k in ('debye_length', 'ambipolar_diffusivity_pos', 'ambipolar_diffusivity_neg', 'ion_temperature'):
            continue
        vals[k] = np.array(getattr(eq, 'get_' + k)(y), copy=True)
    if not neutral:
        vals['drho_dt_ext'] = eq.get_drho_dt_ext(t)
    for k in sorted(vals):
        if k == 'drho_dt_ext':
            continue
        fn = getattr(eq, 'get_' + k)
        opts = [a for a in inspect.signature(fn).parameters if a in ARG and ARG[a] in vals]
        if neutral and k in ('electron_temperature', 'electron_density'):
            continue
        for _ in range(2):
            sub = [a for a in opts if rng.random() < .5]
            kw = {a: (vals[ARG[a]].copy() if vals[ARG[a]].ndim else float(vals[ARG[a]])) for a in sub}
            y0, kw0 = y.copy(), {a: np.array(v, copy=True) for a, v in kw.items()}
            got = rec.total(lambda: fn(y, **kw), 'optional.total', k)
            rec.eq(y, y0, 'optional.state_vector_untouched', k)
            rec.check(all(np.array_equal(kw[a], kw0[a], equal_nan=True) for a in kw), 'optional.arguments_untouched', lambda: '{}({})'.format(k, sub))
            if np.isnan(vals[k]).any() or np.isinf(vals[k]).any():
                continue
            near(rec, got, vals[k], None, 'optional.same_result', '{}({}) {} {}'.format(k, sub, d, p))
    if not neutral:
        base = float(eq.get_drho_dt(t, y))
        sub = [a for a in TIMED if rng.random() < .5]
        kw = {a: float(eq.get_drho_dt_ext(t) if a == 'ext' else getattr(eq, 'get_' + TIMED[a])(y)) for a in sub}
        got = eq.get_drho_dt(t, y, **kw)
        if not np.isnan(base):
            near(rec, got, base, None, 'optional.same_result', str(sub))
    return d, p, neutral


def optional_neutral(rng, rec):
    return optional(rng, rec, neutral=True)


FAMILIES = [('objective', objective, 1), ('optional', optional, 1), ('objective_neutral', objective_neutral, 4),
            ('optional_neutral', optional_neutral, 4)]
