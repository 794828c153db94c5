"""C13: electron energy balance: every term equals its documented formula; the power follows the given polygon in time."""
import numpy as np
import eqref
from harness import Skip
from p_C12 import check_terms, ENERGY, near, setup, scales


def terms(rng, rec):
    d, p, y, ref, eq = check_terms(rng, rec, ENERGY)
    return d, p, y


def total(rng, rec):
    d, p, ref, eq = setup(rng)
    y = eqref.gen_y(rng, d)
    S = ref.state(y)
    if any(np.isnan(x) or np.isinf(x) for x in S['dn_dt']):
        raise Skip
    sc = scales(ref, S)
    for t in [0, p['t_end']] + [rng.uniform(0, p['t_end']) for _ in range(3)] + \
            [x + s * 2e-5 * p['t_end'] for x in p['t_power'] for s in (-1, 0, 1) if 0 <= x <= p['t_end']]:
        P = ref.power(t)
        msg = 't={} {}'.format(t, p)
        near(rec, eq.get_power_ext(t), P, 1e-3 * max(p['power']), 'power.polygon', msg)
        near(rec, eq.get_drho_dt_ext(t), P / ref.V / eqref.C.e, 1e-3 * max(p['power']) / ref.V / eqref.C.e, 'power.density', msg)
        near(rec, eq.get_drho_dt(t, y), P / ref.V / eqref.C.e + ref.rest,
             sc['drho_dt'] + 1e-3 * max(p['power']) / ref.V / eqref.C.e, 'energy.total', msg + str(d))
    return d, p, y.tolist()


def bad_power(rng, rec):
    """Ill-defined power polygons are refused."""
    from pygmo_fwork.pygmol.equations import Equations
    from pygmo_fwork.pygmol.exceptions import EquationsParametersConsistencyError
    d = eqref.gen_chem(rng)
    p = eqref.gen_params(rng, d)
    if not eqref.Ref(d, p).well_defined_power():
        rec.raises(AssertionError, lambda: Equations(eqref.FakeChemistry(d), p), 'power.ill_defined_refused', str(p))
        return d, p
    t = [p['t_power'][0], .7 * p['t_end'], .3 * p['t_end'], p['t_power'][-1]]
    p2 = dict(p, t_power=t, power=[1, 2, 3, 4])
    rec.raises(AssertionError, lambda: Equations(eqref.FakeChemistry(d), p2), 'power.unsorted_refused', str(p2))
    p3 = dict(p, feeds=dict(p['feeds'], Unknown=3.))
    rec.raises(EquationsParametersConsistencyError, lambda: Equations(eqref.FakeChemistry(d), p3), 'feeds.unknown_refused')
    return d, p


FAMILIES = [('terms', terms, 1), ('total', total, 1), ('bad_power', bad_power, 5)]
