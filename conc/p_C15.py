"""C15: the initial state of a model run."""
import numpy as np
from scipy import constants as C
import eqref
import mdl
from harness import Skip
from pygmo_fwork.global_model import GlobalModel
from pygmo_fwork.exceptions import GlobalModelInitialGuessError
from pygmo_fwork.pygmol.model import Model
from pygmo_fwork.pygmol.neutral_model import NeutralModel
from pygmo_fwork.pygmol.exceptions import InitialSolutionError, EquationsParametersConsistencyError


def captured_y0(rng, model, d, rec, neutral=False, **kw):
    got = {}

    def fake(*a, **k):
        c = mdl.call_args(a, k)
        got['y0'], got['t'] = np.array(c['y0'], dtype=float), c['t_span']
        t, y = mdl.trajectory(rng, d, got['y0'], c['t_span'][1], neutral, steps=2)
        return mdl.Raw(t, y)
    with mdl.solver(fake):
        rec.total(lambda: model.run(**kw), 'init.run', repr(kw))
    return got


def feeds_of(p, d):
    return np.array([float(p['feeds'].get(n, 0.)) for n in d['name']])


def check_n(rec, n, d, p, n_tot, ion_deg, neg_frac, frac, where):
    n, q, feeds = np.array(n, float), np.array(d['charge']), feeds_of(p, d)
    rec.close(n.sum(), n_tot, 'init.total_density', where, rtol=1e-9)
    rec.check((n >= 0).all() and (n[q > 0] > 0).all(), 'init.non_negative', '{} {}'.format(where, n))
    # electron density follows from the charge neutrality (the sum loses digits against the ions only)
    ions = (abs(q) * n).sum()
    rec.check(abs((q * n).sum() - ion_deg * n_tot) <= 1e-9 * ions, 'init.electron_density',
              '{} {} {}'.format(where, (q * n).sum(), ion_deg * n_tot))
    rec.close(n[q < 0], np.full((q < 0).sum(), neg_frac * n_tot), 'init.negative_ions', where, rtol=1e-9)
    if (q > 0).any():
        rec.close(n[q > 0], np.full((q > 0).sum(), n[q > 0][0]), 'init.positive_ions_equal', where, rtol=1e-9)
    neutral = q == 0
    if feeds.sum() > 0:
        rec.close(n[neutral & (feeds == 0)], np.full((neutral & (feeds == 0)).sum(), frac * n_tot), 'init.non_feed', where)
        i = np.flatnonzero(feeds > 0)
        rec.close(n[i] * feeds[i[0]], n[i[0]] * feeds[i], 'init.feeds_proportional', where, rtol=1e-9)
    else:
        rec.close(n[neutral], np.full(neutral.sum(), n[neutral][0]), 'init.neutrals_equal', where, rtol=1e-9)


def setup(rng, neutral=False):
    d = eqref.gen_chem(rng, neutral=neutral)
    d['name'] = [rng.choice('zqAbYx') + n for n in d['name']]
    p = eqref.gen_params(rng, d)
    if rng.random() < .2:
        p['feeds'] = {}
    items = list(p['feeds'].items())
    rng.shuffle(items)
    p['feeds'] = dict(items)
    return d, p, p['pressure'] / (C.k * p['temp_gas'])


def fam_generate(rng, rec):
    d, p, n_tot = setup(rng)
    gm = GlobalModel(mdl.chem(d), p)
    kw, vals = {}, dict(ionisation_degree=1e-15, neg_ion_fraction=1e-15, non_feed_sp_fraction=1e-15)
    for k in vals:
        if rng.random() < .6:
            kw[k] = vals[k] = 10 ** rng.uniform(-12, -3)
    init = rec.total(lambda: gm.generate_initial_n(**kw), 'init.generate', '')
    rec.eq(list(init), list(d['name']), 'init.keys')
    rec.check(all(type(v) is float for v in init.values()), 'init.plain_floats', str(init))
    a = [vals[k] for k in ('ionisation_degree', 'neg_ion_fraction', 'non_feed_sp_fraction')]
    check_n(rec, list(init.values()), d, p, n_tot, *a, where='generate_initial_n')
    rec.total(lambda: gm.validate_initial_n(init), 'init.generated_is_valid', '')
    # the pygmol model builds the same
    te = rng.choice([1., 3, .5])
    if not kw:
        got = captured_y0(rng, gm.model, d, rec, init_el_temp=te)
        rec.close(got['y0'][:-1], list(init.values()), 'init.model_same', '')
        rec.close(got['y0'][-1], 1.5 * 1e-15 * n_tot * te, 'init.energy_density', '', rtol=1e-6)
        rec.eq(tuple(float(x) for x in got['t']), (0., float(p['t_end'])), 'init.time_domain')
    else:
        y0 = rec.total(lambda: gm.model._build_y0(el_temp=te, **kw), 'init.generate', '')
        rec.close(y0[:-1], list(init.values()), 'init.model_same', '')
        rec.close(y0[-1], 1.5 * vals['ionisation_degree'] * n_tot * te, 'init.energy_density', '', rtol=1e-9)
    return d['charge'], sorted(p['feeds'])


def fam_given(rng, rec):
    d, p, n_tot = setup(rng)
    gm = GlobalModel(mdl.chem(d), p)
    n = list(eqref.gen_y(rng, d)[:-1])
    q = d['charge']
    n_e = sum(a * b for a, b in zip(n, q))
    if not n_e > 0:
        raise Skip
    items = list(zip(d['name'], n))
    rng.shuffle(items)
    init, te = dict(items), rng.choice([1., 2, .3, 4.5])
    before = dict(init)
    if rng.random() < .5:
        got = captured_y0(rng, gm.model, d, rec, init_el_temp=te, init_n=init)
    else:
        got = captured_y0(rng, gm, d, rec, init_el_temp=te, init_n=init, log_results=False, verbose=False)
    rec.close(got['y0'][:-1], n, 'init.given_order', '')
    rec.close(got['y0'][-1], 1.5 * n_e * te, 'init.given_energy', '', rtol=1e-9)
    rec.eq(init, before, 'init.given_untouched')
    # rejected
    bad, kind = dict(init), rng.choice(['missing', 'extra', 'charge', 'rename', 'te'])
    if kind == 'missing':
        del bad[rng.choice(list(bad))]
    elif kind == 'extra':
        bad[rng.choice(['e', 'M', 'Q', 'NotHere'])] = 1e10
    elif kind == 'rename':
        bad['S0x'] = bad.pop(rng.choice(list(bad)))
    elif kind == 'charge':
        f = rng.choice([0., 0., 1.])
        for s, c in zip(d['name'], q):
            if c > 0:
                bad[s] = 0. if f == 0. or not any(x < 0 for x in q) else bad[s] * 1e-12
            if c < 0:
                bad[s] = max(bad[s], 1.)
        if sum(bad[s] * c for s, c in zip(d['name'], q)) > 0:
            raise Skip

    def never(*a, **k):
        raise AssertionError('the solver was run')
    with mdl.solver(never):
        if kind == 'te':
            t = rng.choice([0, 0., -1.])
            rec.raises(GlobalModelInitialGuessError, lambda: gm.run(init_el_temp=t, init_n=init, log_results=False, verbose=False),
                       'init.reject', 'electron temperature {}'.format(t))
            return kind
        rec.raises(GlobalModelInitialGuessError, lambda: gm.validate_initial_n(bad), 'init.reject', '{} {}'.format(kind, bad))
        rec.raises(GlobalModelInitialGuessError, lambda: gm.run(init_n=bad, log_results=False, verbose=False), 'init.reject', kind)
        rec.check(gm.last_run_success is False, 'init.reject_no_success', '')
        rec.raises(InitialSolutionError, lambda: gm.model.run(init_n=bad), 'init.reject', '{} {}'.format(kind, bad))
    return kind, d['charge']


def fam_validate(rng, rec):
    d, p, n_tot = setup(rng)
    m = Model(mdl.chem(d), p)
    wrong = dict(p, feeds=dict(p['feeds'], NotHere=12.))
    rec.raises(EquationsParametersConsistencyError, lambda: Model(mdl.chem(d), wrong), 'init.reject', 'unknown feed')
    y = eqref.gen_y(rng, d)
    if sum(a * b for a, b in zip(y, d['charge'])) > 0:
        rec.total(lambda: m._validate_y0(y), 'init.validate', '')
    rec.raises(InitialSolutionError, lambda: m._validate_y0(y[:-1]), 'init.reject', 'dimension')
    rec.raises(InitialSolutionError, lambda: m._validate_y0(np.r_[y, 1.]), 'init.reject', 'dimension')
    z = y.copy()
    z[:-1][np.array(d['charge']) > 0] = 0.
    rec.raises(InitialSolutionError, lambda: m._validate_y0(z), 'init.reject', 'no positive charge')
    rec.eq(m.dimension(), len(d['name']) + 1, 'init.dimension')


def fam_neutral(rng, rec):
    d, p, n_tot = setup(rng, neutral=True)
    m = NeutralModel(mdl.chem(d), p)
    got = captured_y0(rng, m, d, rec, neutral=True)
    check_n(rec, got['y0'][:-1], d, p, n_tot, 0., 0., 1e-15, 'neutral') if feeds_of(p, d).sum() == 0 else neutral_feeds(rec, got, d, p, n_tot)
    rec.eq(float(got['y0'][-1]), 0., 'init.neutral_energy')
    n = list(eqref.gen_y(rng, d, True)[:-1])
    items = list(zip(d['name'], n))
    rng.shuffle(items)
    got = captured_y0(rng, m, d, rec, neutral=True, init_n=dict(items))
    rec.close(got['y0'], n + [0.], 'init.given_order', 'neutral')
    bad = dict(items)
    bad.pop(rng.choice(list(bad)))
    rec.raises(InitialSolutionError, lambda: m.run(init_n=bad), 'init.reject', 'neutral: missing')
    bad = dict(items)
    bad['X9'] = 1.
    rec.raises(InitialSolutionError, lambda: m.run(init_n=bad), 'init.reject', 'neutral: extra')
    return d['name'], sorted(p['feeds'])


def neutral_feeds(rec, got, d, p, n_tot):
    n, feeds = got['y0'][:-1], feeds_of(p, d)
    rec.close(n.sum(), n_tot, 'init.total_density', 'neutral', rtol=1e-9)
    rec.close(n[feeds == 0], np.full((feeds == 0).sum(), 1e-15 * n_tot), 'init.non_feed', 'neutral')
    i = np.flatnonzero(feeds > 0)
    rec.close(n[i] * feeds[i[0]], n[i[0]] * feeds[i], 'init.feeds_proportional', 'neutral', rtol=1e-9)


FAMILIES = [('generate', fam_generate, 1), ('given', fam_given, 1), ('validate', fam_validate, 5), ('neutral', fam_neutral, 2)]
