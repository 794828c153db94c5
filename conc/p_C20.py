"""C20: Morris sensitivity analysis: trajectories, mapping of the factors to parameters, bookkeeping of the runs, elementary effects,
statistics and ranking."""
import math
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
import yaml
import gen
import mdl
from p_C05 import rnd_disable
from p_C06 import state
from p_C07 import effective
from p_C17 import lin
from harness import Skip
from plaschem.chemistry import Chemistry
from pygmo_fwork.global_model import GlobalModel
from pygmo_fwork.optichem.morris import MorrisMethod
from pygmo_fwork.optichem.exceptions import MorrisInputsError, MorrisLogError, MorrisCoherenceError
from pygmo_fwork.pygmol.exceptions import ModelSolutionError

GRID = [.05, .15, .25, .35, .45, .55, .65, .75, .85, .95]
MP = {'feeds': {}, 'Tg': 300., 'r': .1, 'z': .1, 'p': 10., 'P': (100., 100.), 't_P': (0., 2.), 't_end': 1.}


def on_grid(x):
    return any(abs(x - g) < 1e-9 for g in GRID)


def fam_traj(rng, rec):
    mm = MorrisMethod(None, MP)
    n = rng.choice([2, 2, 3, 5, 12, 40])
    np.random.seed(rng.randrange(2 ** 31))
    x0 = mm._get_seed_x_random(n)
    rec.eq(len(x0), n, 'seed.length')
    rec.check(all(on_grid(v) for v in x0), 'seed.on_grid', str(x0))
    if rng.random() < .5:
        cont = [rng.choice([rng.random(), rng.choice(GRID), 0., 1.]) for _ in range(n)]
        x0 = mm._get_seed_x(rng.choice([list, tuple, np.array])(cont))
        rec.eq(len(x0), n, 'seed.length')
        for c, v in zip(cont, x0):
            rec.check(on_grid(v), 'seed.on_grid', '{} -> {}'.format(c, v))
            rec.check(abs(c - v) <= min(abs(c - g) for g in GRID) + 1e-9, 'seed.closest', '{} -> {}'.format(c, v))
    keep = np.array(x0).copy()
    seen, prev = [], keep
    for i, delta, x in mm._trajectory(rng.choice([x0, list(x0)])):
        x = np.array(x)
        seen.append(int(i))
        where = '{} step {} {} -> {}'.format(keep.tolist(), (i, delta), list(prev), x.tolist())
        rec.check(abs(abs(delta) - .5) < 1e-9, 'traj.delta', where)
        rec.check(all(on_grid(v) and 0 < v < 1 for v in x), 'traj.in_space', where)
        rec.check(all(abs(x[k] - prev[k] - (delta if k == i else 0)) < 1e-9 for k in range(n)), 'traj.one_factor_at_a_time', where)
        prev = x.copy()
    rec.eq(sorted(seen), list(range(n)), 'traj.each_factor_once', str(seen))
    rec.eq(np.array(x0), keep, 'traj.seed_untouched')
    rec.raises(MorrisInputsError, lambda: list(mm._trajectory(x0[:1])), 'traj.two_factors', '')
    bad = list(x0)
    bad[rng.randrange(n)] = rng.choice([0., 1., .5, .051, 1.05, -.05])
    rec.raises(MorrisInputsError, lambda: list(mm._trajectory(bad)), 'traj.off_grid', str(bad))
    return n, seen[:4]


def make(rng, **kw):
    spec = gen.chem_spec(rng, max_species=6, max_reactions=6, **kw)
    for r in spec['reactions']:
        if not float(r['attributes'].get('arrh_a') or 0):
            r['attributes']['arrh_a'] = rng.choice([1., 2.5e-10])
            n = len(r['lhs'])
            r['units']['arrh_a'] = rng.choice({1: ['s-1'], 2: ['m3.s-1', 'cm3.s-1'], 3: ['m6.s-1', 'cm6.s-1']}[n])
    return spec


def product(spec, ids_r, ids_s, x, nominal):
    by = {r['id']: r for r in spec['reactions']}
    out = []
    for rid, k in zip(ids_r, nominal):
        inv = {spec['species'][i]['id'] for i in by[rid]['lhs'] + by[rid]['rhs']}
        for sid, v in zip(ids_s, x):
            if sid in inv:
                k = k * 2 * v
        out.append(k)
    return out


def fam_map(rng, rec):
    spec = make(rng)
    base = gen.build(spec)[0]
    ch = base.copy()
    rnd_disable(rng, ch, spec)
    mm = MorrisMethod(base, MP)
    ids_r, ids_s = [int(i) for i in ch.get_reactions_id()], [int(i) for i in ch.get_species_id()]
    if not ids_r or not ids_s:
        raise Skip
    obs = [ch.get_reactions_arrh_a().tolist(), ids_r, ids_s]
    nom = [rng.choice([0., 1., 10 ** rng.uniform(-20, 20)]) for _ in ids_r]
    # reactions
    x = [rng.choice([0., .5, 1., rng.random()]) for _ in ids_r]
    mk = lambda v, ix, s: pd.Series(v, index=ix) if s else np.array(v)
    sx, sk = rng.random() < .5, rng.random() < .5
    ak, ax = mk(nom, ids_r, sk), mk(x, ids_r, sx)
    k = rec.total(lambda: mm._map_reactions_factors_to_k(ax, ak), 'map.total')
    rec.close(k, [2 * a * b for a, b in zip(nom, x)], 'map.reactions', '', rtol=1e-12)
    rec.eq((np.array(ak).tolist(), np.array(ax).tolist()), (nom, x), 'map.untouched')
    if sk:
        rec.eq(list(k.index), ids_r, 'map.index')
    rec.raises(MorrisInputsError, lambda: mm._map_reactions_factors_to_k(mk(x + [.5], ids_r + [-1], sx), ak), 'map.length')
    rec.raises(TypeError, lambda: mm._map_reactions_factors_to_k(rng.choice([list, tuple])(x), ak), 'map.types')
    rec.raises(TypeError, lambda: mm._map_reactions_factors_to_k(ax, rng.choice([list, tuple])(nom)), 'map.types')
    if len(ids_r) > 1:
        rec.raises(MorrisInputsError, lambda: mm._map_reactions_factors_to_k(mk(x, ids_r[1:] + ids_r[:1], True), mk(nom, ids_r, True)), 'map.index_mismatch')
    # species
    x = [rng.choice([0., .5, 1., rng.random()]) for _ in ids_s]
    ax = mk(x, ids_s, sx)
    k = rec.total(lambda: mm._map_species_factors_to_k(ax, ak, ch), 'map.total', str((x, nom)))
    rec.close(k, product(spec, ids_r, ids_s, x, nom), 'map.species', lambda: '{} {} {}'.format(gen.short(spec), x, nom), rtol=1e-12)
    rec.eq((np.array(ak).tolist(), np.array(ax).tolist()), (nom, x), 'map.untouched')
    if sk:
        rec.eq(list(k.index), ids_r, 'map.index')
    rec.raises(MorrisInputsError, lambda: mm._map_species_factors_to_k(mk(x + [.5], ids_s + [-1], sx), ak, ch), 'map.length')
    rec.raises(MorrisInputsError, lambda: mm._map_species_factors_to_k(ax, mk(nom + [1.], ids_r + [-1], sk), ch), 'map.length')
    rec.raises(TypeError, lambda: mm._map_species_factors_to_k(list(x), ak, ch), 'map.types')
    rec.raises(TypeError, lambda: mm._map_species_factors_to_k(ax, list(nom), ch), 'map.types')
    if len(ids_s) > 1:
        rec.raises(MorrisInputsError, lambda: mm._map_species_factors_to_k(mk(x, ids_s[::-1], True), ak, ch), 'map.index_mismatch')
    if len(ids_r) > 1:
        rec.raises(MorrisInputsError, lambda: mm._map_species_factors_to_k(ax, mk(nom, ids_r[::-1], True), ch), 'map.index_mismatch')
    rec.eq([ch.get_reactions_arrh_a().tolist(), [int(i) for i in ch.get_reactions_id()], [int(i) for i in ch.get_species_id()]], obs,
           'map.chemistry_untouched')
    return gen.short(spec), len(ids_r)


def with_returns(rng, spec, ch):
    """pairs (stuck, returned) whose return coefficient can be a factor; the overrides are set."""
    en_sp, en_r, prot = state(ch)
    heavy = [s for s in spec['species'] if not gen.special(s) and s['id'] in en_sp]
    if len(heavy) < 2:
        raise Skip
    pairs = []
    for s in rng.sample(heavy, rng.randint(1, min(3, len(heavy)))):
        others = rng.sample([q for q in heavy if q is not s], rng.randint(1, min(2, len(heavy) - 1)))
        co = {q['name']: gen.num(rng, round(rng.uniform(.02, .15), 3), np_ok=False) for q in others}
        co = {k: float(v) for k, v in co.items()}
        co[s['name']] = round(rng.uniform(.6, 1.), 3)
        ch.set_adhoc_species_attributes('stick_coef', s['id'], round(rng.uniform(.1, 1.), 2))
        ch.set_adhoc_species_attributes('ret_coefs', s['id'], co)
        pairs += [(s['name'], q['name']) for q in others if rng.random() < .8]
    rng.shuffle(pairs)
    return pairs


def fam_ret(rng, rec):
    spec = make(rng)
    base = gen.build(spec)[0]
    rnd_disable(rng, base, spec) if rng.random() < .4 else None
    pairs = with_returns(rng, spec, base)
    mm = MorrisMethod(base, MP)
    ch = base.copy()
    by = {s['name']: s['id'] for s in spec['species']}
    for a, b in pairs:
        nominal = rng.choice([float(base.get_return_matrix().at[by[b], by[a]]), .05])
        m0 = ch.get_return_matrix()
        x, rr = rng.choice([0., .5, 1., rng.random()]), rng.choice([1.0001, 1.5, 2.])
        want = nominal * rr ** (2 * x - 1)
        key = lambda n: rng.choice([n, by[n]])
        new_self = m0.at[by[a], by[a]] - (want - m0.at[by[b], by[a]])
        where = str((gen.short(spec), a, b, x, rr, nominal))
        if abs(new_self) < 1e-9:
            raise Skip
        if new_self < 0:
            rec.raises(MorrisInputsError, lambda: mm._map_a_factor_to_ret_coef(x, key(a), key(b), nominal, ch, rr), 'ret.negative', where)
            rec.eq(ch.get_return_matrix().values, m0.values, 'ret.untouched_on_error', where)
            continue
        out = rec.total(lambda: mm._map_a_factor_to_ret_coef(x, key(a), key(b), nominal, ch, rr), 'ret.total', where)
        m1 = ch.get_return_matrix()
        exp = m0.copy()
        exp.at[by[b], by[a]] = want
        exp.at[by[a], by[a]] = new_self
        rec.close(m1.values.astype(float), exp.values.astype(float), 'ret.mapping', where, rtol=1e-9, atol=1e-12)
        rec.close(m1.values.astype(float).sum(axis=0), m0.values.astype(float).sum(axis=0), 'ret.total_conserved', where)
        rec.eq(set(out), {a}, 'ret.returned')
        rec.eq(set(out[a]), {a, b}, 'ret.returned')
        rec.close([out[a][b], out[a][a]], [want, new_self], 'ret.returned', where)
        for args in ((x, a, a, nominal, 2.), (x, a, b, 0., 2.), (x, a, b, -1., 2.), (x, a, b, nominal, 1.), (x, a, b, nominal, .5)):
            rec.raises(MorrisInputsError, lambda: mm._map_a_factor_to_ret_coef(*args[:4], ch, args[4]), 'ret.validated', str(args))
        for nm in ('e', 'M'):
            if nm in by:
                rec.raises(MorrisInputsError, lambda: mm._map_a_factor_to_ret_coef(x, *rng.choice([(nm, b), (a, nm)]), nominal, ch, 2.), 'ret.special', nm)
        c2 = ch.copy()
        c2.set_adhoc_species_attributes('stick_coef', by[a], 0.)
        rec.raises(MorrisInputsError, lambda: mm._map_a_factor_to_ret_coef(x, a, b, nominal, c2, 2.), 'ret.no_stick', '')
    if pairs:
        m = base.get_return_matrix()
        rec.check(True, 'ret.done')
        rec.eq(base.get_species_ret_coefs().map(repr).tolist(), base.copy().get_species_ret_coefs().map(repr).tolist(), 'ret.base_untouched')
    return gen.short(spec), pairs


class Spy(Chemistry):
    made = None

    def copy(self):
        c = super().copy()
        if Spy.made is not None:
            Spy.made.append(c)
        return c


def top_dir():
    return tempfile.mkdtemp(dir=os.environ.get('CONC_SCRATCH'))


def whole_state(ch):
    return [ch.get_reactions_arrh_a(si_units=False).tolist(), ch.get_reactions_id().tolist(), ch.get_species_id().tolist(),
            ch.get_species_ret_coefs().map(repr).tolist()]


def fam_run(rng, rec):
    spec = make(rng)
    base = gen.build(spec, cls=Spy)[0]
    rnd_disable(rng, base, spec) if rng.random() < .4 else None
    kind = rng.choice(['species', 'reactions', 'return_coefficients'])
    kw = {}
    if kind == 'return_coefficients':
        pairs = with_returns(rng, spec, base)
        if len(pairs) < 2:
            raise Skip
        rr = rng.choice([1.5, 2, [round(rng.uniform(1.1, 2), 2) for _ in pairs]])
        kw = dict(ret_species=pairs, rel_ranges=rr)
        ranges = rr if isinstance(rr, list) else [rr] * len(pairs)
    ids_r, names = [int(i) for i in base.get_reactions_id()], list(base.get_species_name())
    ids_s = [int(i) for i in base.get_species_id()]
    charges = base.get_species_charge().tolist()
    if not (any(c > 0 for c in charges) and any(c == 0 for c in charges)):
        raise Skip
    factors = {'species': names, 'reactions': ids_r}.get(kind) or ['r({}>{})'.format(*p) for p in kw['ret_species']]
    if len(factors) < 2:
        raise Skip
    nominal = base.get_reactions_arrh_a(si_units=False).tolist()
    nom_ret = base.get_return_matrix().values.astype(float)
    mp = dict(MP)
    backend = rng.choice(['pygmol', 'pygmol', 'PyGMol'])
    mm = MorrisMethod(base, mp, model_backend=backend)
    before = whole_state(base)
    Spy.made = []
    runs = []

    def solve(*a, **k):
        c = mdl.call_args(a, k)
        y0 = np.array(c['y0'], float)
        ch = Spy.made[-1]
        y = np.array([y0, y0 * 1.5, y0 * rng.uniform(.5, 3)]).T
        runs.append((ch.get_reactions_arrh_a(si_units=False).tolist(), ch.get_return_matrix().values.astype(float), y))
        return mdl.Raw(np.array([0., .5, 1.]), y)

    top = top_dir()
    try:
        full = rng.random() < .4
        comp = rng.random() < .5
        with mdl.solver(solve):
            call = dict(morris_run_id='mr', traj_type=kind, morris_results_dir=top, verbosity=0, **kw)
            rec.total(lambda: mm.run_trajectory(full_log=full, compress_solution=comp, **call), 'run.total', str((gen.short(spec), kind, kw)))
            rec.eq(whole_state(base), before, 'run.base_chemistry_untouched', kind)
            rec.eq(mp, MP, 'run.params_untouched')
            tr = os.path.join(top, 'mr', 'logs', 'traj001')
            meta = yaml.safe_load(open(os.path.join(tr, 'meta.yaml')))
            rec.eq(set(meta), {'base_run_id', 'run_ids', 'factors_ids', 'deltas'}, 'run.meta')
            rec.eq(sorted(map(repr, meta['factors_ids'])), sorted(map(repr, factors)), 'run.each_factor_once')
            rec.eq((len(meta['run_ids']), len(set(meta['run_ids'])), len(meta['deltas']), len(runs)),
                   (len(factors), len(factors), len(factors), len(factors) + 1), 'run.one_model_run_per_factor')
            rec.check(meta['base_run_id'] not in meta['run_ids'], 'run.meta', '')
            rec.eq(set(os.listdir(tr)), set(meta['run_ids']) | {meta['base_run_id'], 'meta.yaml'}, 'run.logged')
            # the parameters in force in each run
            check_runs(rec, kind, spec, ids_r, ids_s, names, factors, nominal, nom_ret, runs, meta,
                       kw.get('ret_species'), kw and ranges, '{} {} {}'.format(gen.short(spec), kind, kw))
            for (a, r, y), rid in zip(runs, [meta['base_run_id']] + meta['run_ids']):
                sol = pd.read_csv(os.path.join(tr, rid, 'solution.csv'), index_col=0)
                n = len(names)
                rec.eq(list(sol.columns)[1:n + 1], names, 'run.log_columns')
                rec.close([sol['t'].iloc[0], sol['t'].iloc[-1]], [0, 1.], 'run.log_time')
                rec.close(sol[names].iloc[-1].values, y[:n, -1], 'run.log_belongs_to_run', rid, rtol=1e-8)
            # a second trajectory of the same run is coherent and gets the next identifier
            rec.total(lambda: mm.run_trajectory(**call), 'run.second_coherent', str((kind, backend)))
            rec.eq(sorted(os.listdir(os.path.join(top, 'mr', 'logs'))), ['traj001', 'traj002'], 'run.next_trajectory')
            rec.raises(MorrisLogError, lambda: mm.run_trajectory(traj_id='traj001', **call), 'run.never_overwritten', '')
            rec.eq(yaml.safe_load(open(os.path.join(tr, 'meta.yaml'))), meta, 'run.never_overwritten')
            # incoherent ones are refused
            k = len(runs)
            other = rng.choice(['params', 'chem', 'kind'])
            if other == 'params':
                mm2 = MorrisMethod(base, dict(MP, p=11.), model_backend=backend)
                rec.raises(MorrisCoherenceError, lambda: mm2.run_trajectory(**call), 'run.coherence', other)
            elif other == 'chem':
                b2 = base.copy()
                b2.set_adhoc_reactions_attributes('arrh_a', ids_r[0], 123.)
                mm2 = MorrisMethod(b2, dict(MP), model_backend=backend)
                rec.raises(MorrisCoherenceError, lambda: mm2.run_trajectory(**call), 'run.coherence', other)
            elif kind != 'return_coefficients':
                o = {'species': 'reactions', 'reactions': 'species'}[kind]
                rec.raises(MorrisCoherenceError, lambda: mm.run_trajectory(**dict(call, traj_type=o)), 'run.coherence', other)
            rec.eq(len(runs), k, 'run.coherence_before_running', other)
        if not full and not comp:
            compare_effects(rng, rec, tr, meta, factors)
    finally:
        Spy.made = None
        shutil.rmtree(top)
    return gen.short(spec), kind, factors


def check_runs(rec, kind, spec, ids_r, ids_s, names, factors, nominal, nom_ret, runs, meta, pairs, ranges, where):
    n = len(factors)
    if kind == 'return_coefficients':
        pos = {p: (names.index(p[1]), names.index(p[0])) for p in pairs}
        vec = []
        for a, r, y in runs:
            rec.eq(a, nominal, 'run.only_factors_change', where)
            vec.append([.5 * (1 + math.log(r[pos[p]] / nom_ret[pos[p]]) / math.log(q)) for p, q in zip(pairs, ranges)])
            exp = nom_ret.copy()
            for p in pairs:
                exp[pos[p]] = r[pos[p]]
                j = names.index(p[0])
                exp[j, j] -= r[pos[p]] - nom_ret[pos[p]]
            rec.close(r, exp, 'run.only_factors_change', where, atol=1e-9)
    elif kind == 'reactions':
        vec = []
        for a, r, y in runs:
            vec.append([.5 * k / m for k, m in zip(a, nominal)])
            rec.eq(r, nom_ret, 'run.only_factors_change', where)
    else:
        for (a, r, y), (a2, r2, y2), f, d in zip(runs, runs[1:], meta['factors_ids'], meta['deltas']):
            rec.eq(r2, nom_ret, 'run.only_factors_change', where)
            by = {q['id']: q for q in spec['reactions']}
            sid = ids_s[names.index(f)]
            ratios = []
            for rid, u, v in zip(ids_r, a, a2):
                if sid in {spec['species'][i]['id'] for i in by[rid]['lhs'] + by[rid]['rhs']}:
                    ratios += [v / u] if u else []
                else:
                    rec.close(v, u, 'run.only_factors_change', where, rtol=1e-9)
            for q in ratios:
                x = d / (q - 1)
                rec.check(on_grid(x) and on_grid(x + d), 'run.factors_in_space', '{} {} {} {}'.format(where, f, d, ratios))
                rec.close(q, ratios[0], 'run.species_factor', where)
        return
    for v in vec:
        rec.check(all(any(abs(x - g) < 1e-6 for g in GRID) for x in v), 'run.factors_in_space', '{} {}'.format(where, v))
    for v, w, f, d in zip(vec, vec[1:], meta['factors_ids'], meta['deltas']):
        i = factors.index(f)
        rec.check(all(abs(w[k] - v[k] - (d if k == i else 0)) < 1e-6 for k in range(n)), 'run.one_factor_at_a_time',
                  '{} {} {}: {} -> {}'.format(where, f, d, v, w))


def write_traj(rng, path, cols, factors, nums=False):
    """a logged trajectory with arbitrary solutions."""
    os.makedirs(path)
    ids = ['0_initial_run'] + ['{}_elem_effect_of_{}'.format(j + 1, f) for j, f in enumerate(factors)]
    sols = []
    for r in ids:
        os.mkdir(os.path.join(path, r))
        t = [0.] + sorted(rng.uniform(0, 1) for _ in range(rng.randint(0, 3))) + [1.]
        df = pd.DataFrame(dict([('t', t)] + [(c, [10 ** rng.uniform(-1, 3) * rng.choice([1, 1, 1, -1]) for _ in t]) for c in cols]))
        df.to_csv(os.path.join(path, r, 'solution.csv'))
        sols.append(df)
    meta = dict(base_run_id=ids[0], run_ids=ids[1:], factors_ids=factors, deltas=[rng.choice([.5, -.5]) for _ in factors])
    yaml.dump(meta, open(os.path.join(path, 'meta.yaml'), 'w'))
    return sols, meta


def effects(sols, meta, cols, times):
    ee = [[[(lin(b, c, t) - lin(a, c, t)) / d for c in cols] for a, b, d in zip(sols, sols[1:], meta['deltas'])] for t in times]
    mean = [[sum(lin(s, c, t) for s in sols) / len(sols) for c in cols] for t in times]
    return np.array(ee), np.array(mean)


def compare_effects(rng, rec, tr, meta, factors):
    sols = [pd.read_csv(os.path.join(tr, r, 'solution.csv'), index_col=0) for r in [meta['base_run_id']] + meta['run_ids']]
    ts = [rng.uniform(0, 1), 1.]
    st = rec.total(lambda: MorrisMethod.evaluate_trajectory(tr, ts), 'effects.total')
    cols = list(sols[0].columns)[1:]
    ok = [c for c in cols if np.isfinite(np.array([s[c].values for s in sols], float)).all()]
    ee, mean = effects(sols, meta, ok, ts)
    for i in range(len(ts)):
        rec.eq(list(st.elementary_effects[i].index), list(meta['factors_ids']), 'effects.factors')
        sc = np.abs(mean[i]).max() or 1.
        rec.close(st.elementary_effects[i][ok].values / sc, ee[i] / sc, 'effects.values', rtol=1e-6, atol=1e-9)


def fam_stats(rng, rec):
    cols = rng.sample(['Ar', 'Ar+', 'e', 'Te', 'p', 'x'], rng.randint(1, 4))
    nf = rng.randint(2, 5)
    factors = rng.choice([rng.sample(['Ar', 'Ar+', 'O2', 'N', 'He*', 'Cl'], nf), rng.sample(range(1, 900), nf),
                          rng.sample(['r(a>b)', 'r(b>c)', 'r(a>c)', 'r(d>a)', 'r(d>b)'], nf)])
    times = [rng.choice([0., 1., rng.uniform(0, 1)]) for _ in range(rng.randint(1, 3))]
    top = top_dir()
    try:
        data = []
        nt = rng.randint(2, 3)
        for k in range(nt):
            p = os.path.join(top, 'run1', 'logs', 'traj{:03d}'.format(k + 1))
            fs = rng.sample(factors, nf)
            sols, meta = write_traj(rng, p, cols, fs)
            st = rec.total(lambda: MorrisMethod.evaluate_trajectory(p, times), 'effects.total')
            ee, mean = effects(sols, meta, cols, times)
            rec.eq(tuple(st.times), tuple(times), 'effects.times')
            rec.eq((len(st.elementary_effects), len(st.mean_outputs)), (len(times),) * 2, 'effects.times')
            for i in range(len(times)):
                df = st.elementary_effects[i]
                rec.eq((list(df.index), [c for c in df.columns if c != 't']), (fs, cols), 'effects.labels')
                rec.close(df[cols].values, ee[i], 'effects.values', '', rtol=1e-7, atol=1e-7)
                rec.close(st.mean_outputs[i][cols].values, mean[i], 'effects.means', '', rtol=1e-7, atol=1e-9)
            data.append((fs, ee, mean))
        logs = os.path.join(top, 'run1', 'logs')
        ms = rec.total(lambda: MorrisMethod.get_morris_stats(logs_dir=logs, times=times), 'stats.total')
        mu_r, sg_r = [], []
        for i in range(len(times)):
            mo = np.mean([m[i] for _, _, m in data], axis=0)
            rec.close(ms.mean_outputs[i][cols].values, mo, 'stats.mean_outputs', '', rtol=1e-7, atol=1e-9)
            E = np.array([[e[i][fs.index(f)] for f in factors] for fs, e, _ in data])  # trajectory, factor, output
            mu, sg = E.mean(axis=0), E.std(axis=0, ddof=1)
            for name, want, got in (('mu', mu, ms.mu[i]), ('sigma', sg, ms.sigma[i]), ('mu_rel', mu / mo, ms.mu_rel[i]), ('sigma_rel', sg / mo, ms.sigma_rel[i])):
                rec.check(set(got.index) == set(factors) and len(got) == nf, 'stats.factors', name)
                w = want
                rec.close(got.loc[factors, cols].values / (np.abs(w).max() or 1.), w / (np.abs(w).max() or 1.), 'stats.' + name, '', rtol=1e-6, atol=1e-9)
            mu_r.append(np.abs(mu / mo)), sg_r.append(sg / mo)
        imp = rng.sample(cols, rng.randint(1, len(cols)))
        ix = [cols.index(c) for c in imp]
        for method in ('mean', 'max', None):
            rk = rec.total(lambda: MorrisMethod.get_ranking(imp, times, logs_dir=logs, **({'method': method} if method else {})), 'ranking.total')
            if method == 'mean':
                sc = sum(m[:, ix].sum(axis=1) + s[:, ix].sum(axis=1) for m, s in zip(mu_r, sg_r)) / len(times) / len(imp)
            else:
                sc = np.max([m[:, ix].max(axis=1) + s[:, ix].max(axis=1) for m, s in zip(mu_r, sg_r)], axis=0)
            rec.eq(sorted(map(repr, rk.index)), sorted(map(repr, factors)), 'ranking.factors')
            rec.close([rk[f] for f in factors], sc, 'ranking.scores', str(method), rtol=1e-6, atol=1e-9)
            v = [float(q) for q in rk.values]
            rec.eq(v, sorted(v), 'ranking.ascending')
        rec.raises(ValueError, lambda: MorrisMethod.get_ranking(imp + ['nope'], times, logs_dir=logs), 'ranking.validated')
        rec.raises(ValueError, lambda: MorrisMethod.get_ranking(imp, times, logs_dir=logs, method='min'), 'ranking.validated')
        rec.raises(ValueError, lambda: MorrisMethod.get_morris_stats(times=times), 'stats.validated')
        rec.raises(ValueError, lambda: MorrisMethod.get_morris_stats(morris_run_id='a', logs_dir=logs, times=times), 'stats.validated')
        rec.raises(ValueError, lambda: MorrisMethod.get_morris_stats(logs_dir=logs), 'stats.validated')
    finally:
        shutil.rmtree(top)
    return cols, factors, len(times)


FAMILIES = [('traj', fam_traj, 1), ('map', fam_map, 1), ('ret', fam_ret, 1), ('run', fam_run, 4), ('stats', fam_stats, 3)]
