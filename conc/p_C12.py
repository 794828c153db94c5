"""C12: particle balance: every term of the density equations equals its documented formula, for every chemistry and state."""
import numpy as np
import eqref
from harness import Skip

PARTICLE = ['density_vector', 'electron_energy_density', 'total_density', 'total_pressure', 'ion_temperature',
            'electron_density', 'electron_temperature', 'debye_length', 'reaction_rate_coefficients', 'reaction_rates',
            'volumetric_source_rates', 'flow_source_rates', 'mean_speeds', 'sigma_sc', 'mean_free_paths',
            'free_diffusivities', 'ambipolar_diffusivity_pos', 'ambipolar_diffusivity_neg', 'diffusivities', 'wall_fluxes',
            'diffusion_sinks', 'diffusion_sources', 'diffusion_source_rates', 'min_n_correction', 'dn_dt']
ENERGY = ['el_en_losses', 'drho_dt_el_inel', 'drho_dt_gain_loss', 'drho_dt_el_walls', 'sheath_voltage',
          'drho_dt_ions_walls', 'min_rho_correction']
# terms which are differences of large numbers: compared relative to the magnitudes they are made of
SCALE = {'volumetric_source_rates', 'flow_source_rates', 'diffusion_source_rates', 'dn_dt', 'electron_density',
         'drho_dt_gain_loss', 'drho_dt_el_walls', 'drho_dt_ions_walls', 'drho_dt_el_inel', 'drho_dt'}


def scales(ref, S):
    d, out = ref.d, {}
    n = S['density_vector']
    sc_vol = [sum((d['sr'][j][i] + d['sl'][j][i]) * abs(S['reaction_rates'][j]) for j in range(ref.nr)) for i in range(ref.ns)]
    inflow = sum(ref.feed) * 4.485e17 / ref.V
    p = S['total_pressure']
    sc_flow = [n[i] * 1e3 * (p + ref.p0) / ref.p0 + inflow for i in range(ref.ns)]
    sc_dif = [abs(a) + abs(b) for a, b in zip(S['diffusion_sinks'], S['diffusion_sources'])]
    out['volumetric_source_rates'], out['flow_source_rates'], out['diffusion_source_rates'] = sc_vol, sc_flow, sc_dif
    out['dn_dt'] = [a + b + c + abs(e) for a, b, c, e in zip(sc_vol, sc_flow, sc_dif, S['min_n_correction'])]
    if any(d['charge']):
        te = S['electron_temperature']
        out['drho_dt_gain_loss'] = 3 * te * sum((d['er'][j] + d['el'][j]) * S['reaction_rates'][j] for j in range(ref.nr))
        out['drho_dt_el_walls'] = 4 * te * sum(abs(q) * s for q, s in zip(d['charge'], sc_dif))
        out['drho_dt_ions_walls'] = (te + abs(S['sheath_voltage'])) * sum(abs(q) * s for q, s in zip(d['charge'], sc_dif))
        out['drho_dt_el_inel'] = sum(abs(a * b) for a, b in zip(S['el_en_losses'], S['reaction_rates']))
        out['drho_dt'] = sum(out[k] for k in ('drho_dt_gain_loss', 'drho_dt_el_walls', 'drho_dt_ions_walls',
                                              'drho_dt_el_inel')) + abs(S['min_rho_correction'])
    return out


def near(rec, got, want, sc, name, msg):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    rec.check(got.shape == want.shape, name + '.shape', lambda: '{} {} {}'.format(msg, got.shape, want.shape))
    if np.isnan(want).any() or np.isinf(want).any():
        return  # outside of the precondition of the formula (e.g. a species colliding with nothing)
    tol = 1e-9 * np.abs(want) + 1e-9 * (np.asarray(sc, dtype=float) if sc is not None else 0.)
    rec.check(bool((np.abs(got - want) <= tol).all()), name,
              lambda: '{} got {!r}, expected {!r}'.format(msg, got.tolist(), want.tolist()))


def setup(rng, neutral=False, **kw):
    from pygmo_fwork.pygmol.equations import Equations
    from pygmo_fwork.pygmol.model_parameters import ModelParameters
    d = eqref.gen_chem(rng, neutral=neutral, **kw)
    p = eqref.gen_params(rng, d)
    dm = rng.choice([0, 1, 1])
    ref = eqref.Ref(d, p, dm)
    if not ref.well_defined_power():
        raise Skip
    cls = Equations
    if neutral:
        from pygmo_fwork.pygmol.neutral_model import NeutralEquations
        cls = NeutralEquations
    eq = cls(eqref.FakeChemistry(d), p if rng.random() < .5 else ModelParameters(p))
    eq.diffusion_model = dm
    return d, p, ref, eq


def check_terms(rng, rec, terms):
    d, p, ref, eq = setup(rng)
    for _ in range(2):
        y = eqref.gen_y(rng, d)
        y0 = y.copy()
        S = ref.state(y)
        sc = scales(ref, S)
        order = list(terms)
        rng.shuffle(order)
        for k in order:
            if k not in S:
                continue
            got = rec.total(lambda: getattr(eq, 'get_' + k)(y), 'terms.total', k)
            near(rec, got, S[k], sc.get(k), 'term.' + k, '{} for {} {} y={}'.format(k, d, p, y.tolist()))
        rec.eq(y, y0, 'terms.state_vector_untouched')
    return d, p, y.tolist(), ref, eq


def terms(rng, rec):
    d, p, y, ref, eq = check_terms(rng, rec, PARTICLE)
    # statics
    near(rec, eq.volume, ref.V, None, 'static.volume', str(p))
    near(rec, eq.area, ref.A, None, 'static.area', str(p))
    near(rec, eq.diff_l, ref.L, None, 'static.diffusion_length', str(p))
    return d, p, y


def laws(rng, rec):
    """Consequences users rely on: linearity of the sources in the rates, no wall loss without sticking, sign of fluxes..."""
    d, p, ref, eq = setup(rng)
    y = eqref.gen_y(rng, d)
    t = '{} {} {}'.format(d, p, y.tolist())
    S = ref.state(y)
    w = eq.get_wall_fluxes(y).copy()
    for i in range(ref.ns):
        if d['stick'][i] == 0. and not np.isnan(w[i]):
            rec.check(w[i] == 0, 'law.no_flux_without_sticking', t)
        if not np.isnan(w[i]) and min(min(r) for r in S['sigma_sc']) >= 0:  # (large enough debye length)
            rec.check(w[i] <= 0, 'law.flux_sign', t)
    fl = eq.get_flow_source_rates(y, p=ref.p0)
    n_in = sum(ref.feed) * 4.485e17 / ref.V
    rec.check(abs(fl.sum()) <= 1e-9 * max(n_in, 1e-300), 'law.flow_balanced_at_set_pressure', t)
    r = eq.get_reaction_rates(y).copy()
    near(rec, eq.get_volumetric_source_rates(y, rates=2 * r), 2 * eq.get_volumetric_source_rates(y, rates=r), None,
         'law.sources_linear', t)
    rec.check((r >= 0).all(), 'law.rates_nonnegative', t)
    return d, p, y.tolist()


FAMILIES = [('terms', terms, 1), ('laws', laws, 4)]
