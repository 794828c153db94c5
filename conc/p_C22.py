"""C22: analysis of saved results: values at given times, compressed solutions, per-species process rates."""
import io
import math
import contextlib
import numpy as np
import pandas as pd
import gen
from p_C05 import rnd_disable
from p_C07 import effective
from p_C06 import state
from harness import Skip
from p_C17 import gen_sol, lin
from pygmo_fwork.results import ResultsParser as RP_


def fam_frames(rng, rec):
    cols = rng.sample(['Ar', 'Ar+', 'e', 'Te', 'p', 7, 42], rng.randint(1, 5))
    t0, t1 = rng.choice([0., .5]), rng.choice([1., 3.])
    df = gen_sol(rng, cols, t0, t1)
    if rng.random() < .3:
        df = df.astype(object)
    keep = df.copy()
    times = [rng.choice([rng.uniform(t0, t1), t0, t1, float(rng.choice(list(df['t'])))]) for _ in range(rng.randint(1, 5))]
    if rng.random() < .5:
        times.sort()
    tt = rng.choice([list, tuple, np.array])(times)
    fr = rec.total(lambda: RP_.get_results_frames(df, tt), 'frames.total', '')
    rec.eq(list(fr.columns), list(df.columns), 'frames.columns')
    rec.close(fr['t'].values.astype(float), times, 'frames.times', '')
    for c in cols:
        rec.close(fr[c].values.astype(float), [lin(df, c, t) for t in times], 'frames.interpolated', str(c), rtol=1e-7, atol=1e-12)
    rec.check(df.equals(keep), 'frames.untouched', '')
    t = rng.choice([t0 - 1e-6, t1 + 1e-6, t1 * 2, -t1])
    where = rng.randrange(len(times) + 1)
    rec.raises(AssertionError, lambda: RP_.get_results_frames(df, times[:where] + [t] + times[where:]), 'frames.no_extrapolation', str(t))
    return cols, len(times)


def fam_compress(rng, rec):
    cols = rng.sample(['Ar', 'Ar+', 'e', 'Te', 3], rng.randint(1, 4))
    n = rng.randint(2, 14)
    t_end = rng.choice([1., 100.])
    t = [0.]
    for _ in range(n - 1):
        t.append(t[-1] + rng.choice([1e-4, 5e-4, .02, .3]) * rng.random())
    t = [x * t_end / t[-1] for x in t]
    d = {'t': t}
    for c in cols:
        v = 10 ** rng.uniform(-2, 18) * rng.choice([1, 1, -1])
        d[c] = []
        for _ in t:
            d[c].append(v)
            v *= 1 + rng.choice([0, .01, .04, .3, 2.]) * rng.choice([1, -.5])
    df = pd.DataFrame(d)
    keep = df.copy()
    kw, thr, mst = {}, .05, .001
    if rng.random() < .5:
        kw['diff_threshold'] = thr = rng.choice([.02, .2, 1.1])
    if rng.random() < .5:
        kw['min_timestep'] = mst = rng.choice([0., .01, .1])
    out = rec.total(lambda: RP_.compress_solution(df, **kw), 'compress.total', str(df.values.tolist()))
    rec.check(df.equals(keep), 'compress.untouched', '')
    rec.eq(list(out.columns), list(df.columns), 'compress.columns')
    rows = list(out.index)
    where = '{} {} -> {}'.format(kw, df.values.tolist(), rows)
    rec.check(all(i in df.index for i in rows) and rows == sorted(set(rows)), 'compress.subset_in_order', where)
    rec.eq(out.values, df.loc[rows].values, 'compress.rows_as_they_were', where)
    rec.check(rows[0] == 0 and rows[-1] == n - 1, 'compress.keeps_both_ends', where)

    def similar(a, b):
        """frame b may go after frame a (None: too close to the threshold to tell)"""
        dt = df['t'][b] - df['t'][a]
        if abs(dt - mst * t_end) < 1e-9 * t_end:
            return None
        if dt < mst * t_end:
            return True
        rel = [abs(df[c][b] - df[c][a]) / abs(df[c][a]) for c in cols]
        if any(abs(r - thr) < 1e-9 for r in rel):
            return None
        return all(r < thr for r in rel)
    for i in range(n):
        if i in rows:
            if 0 < i < n - 1:
                prev = max(r for r in rows if r < i)
                rec.check(similar(prev, i) is not True, 'compress.drops_similar', where + ' row {}'.format(i))
        else:
            prev = max(r for r in rows if r < i)
            rec.check(similar(prev, i) is not False, 'compress.keeps_different', where + ' row {}'.format(i))
    return n, cols, kw


def fam_rates(rng, rec):
    spec = gen.chem_spec(rng, max_species=7, max_reactions=9)
    ch, sps, rs = gen.build(spec)
    rnd_disable(rng, ch, spec)
    en_sp, en_r, prot = state(ch)
    heavy = [s for s in spec['species'] if not gen.special(s) and s['id'] in en_sp]
    if not heavy or not en_r:
        raise Skip
    rate = {i: 10 ** rng.uniform(10, 24) for i in sorted(en_r)}
    flux = {s['id']: -rng.choice([0., 10 ** rng.uniform(5, 20)]) for s in heavy}
    mp = {'radius': rng.uniform(.01, 2), 'length': rng.uniform(.01, 2)}
    av = 2 * (mp['radius'] + mp['length']) / (mp['radius'] * mp['length'])
    ids = [r['id'] for r in spec['reactions'] if r['id'] in en_r]
    rf = pd.Series([rate[i] for i in ids], index=ids)
    rf = rf if rng.random() < .5 else pd.concat([pd.Series({'t': .5}), rf])
    wf = pd.Series([flux[s['id']] for s in heavy], index=[s['name'] for s in heavy])
    wf = wf if rng.random() < .5 else pd.concat([pd.Series({'t': .5}), wf])
    keep = rf.copy(), wf.copy()
    stick = {s['id']: float(ch.get_species_stick_coef(disabled=True).get(s['id'], 0.)) for s in heavy}
    eff = effective(spec, en_sp, {}, {})
    by_i = {i: s for i, s in enumerate(spec['species'])}
    for s in spec['species']:
        if s['id'] not in en_sp:
            continue
        key = rng.choice([s['name'], s['id'], ch.get_rp(s['id'])])
        want = {}
        for r in spec['reactions']:
            if r['id'] not in en_r:
                continue
            net = sum(by_i[i]['id'] == s['id'] for i in r['rhs']) - sum(by_i[i]['id'] == s['id'] for i in r['lhs'])
            if net:
                want[r['id']] = net * rate[r['id']]
        got = rec.total(lambda: RP_.get_volumetric_rates(key, ch, rf), 'volumetric.total', s['name'])
        compare(rec, got, want, 'volumetric', s['name'])
        ann = RP_.get_volumetric_rates(key, ch, rf, annotate=True)
        rec.close(ann.values.astype(float), got.values.astype(float), 'volumetric.annotated', s['name'])
        rec.check(all(('R%s' % i) in a and str(ch.get_reaction(i)) in a for i, a in zip(got.index, ann.index)), 'volumetric.annotated',
                  str(list(ann.index)))
        if gen.special(s):
            got = rec.total(lambda: RP_.get_surface_rates(key, ch, mp, wf), 'surface.total', s['name'])
            rec.eq(len(got), 0, 'surface.special_empty', s['name'])
            surface = {}
        else:
            surface = {}
            for o in heavy:
                v = (flux[o['id']] * av if o is s else 0.) - eff[o['id']].get(s['name'], 0.) * flux[o['id']] * av
                if v != 0:
                    surface[o['id']] = v
            got = rec.total(lambda: RP_.get_surface_rates(key, ch, mp, wf), 'surface.total', s['name'])
            compare(rec, got, surface, 'surface', s['name'])
            ann = RP_.get_surface_rates(key, ch, mp, wf, annotate=True)
            rec.close(ann.values.astype(float), got.values.astype(float), 'surface.annotated', s['name'])
        # printing shows the largest processes, in order and in the requested unit
        unit = rng.choice(['m-3/s', 'cm-3/s'])
        n = rng.choice([None, 1, 2, 50])
        f = 1e-6 if unit[0] == 'c' else 1
        for fn, sg in ((RP_.print_production_processes, 1), (RP_.print_consumption_processes, -1)):
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                rec.total(lambda: fn(s['name'], ch, mp, rf, wf, n=n, unit=unit), 'print.total', s['name'])
            vals = sorted([v * f for v in list(want.values()) + list(surface.values()) if v * sg > 0], key=lambda v: -abs(v))
            lines = [l for l in out.getvalue().split('\n') if l[:1] in 'RS' and l[1:2].isdigit()]
            cap = len(vals) if n is None else min(n, len(vals))
            rec.eq(len(lines), cap, 'print.number', out.getvalue())
            got = [float(l.split()[-1]) for l in lines]
            rec.check(all(abs(a - b) <= 1e-3 * abs(b) + 1e-5 * max(map(abs, vals)) for a, b in zip(got, vals[:cap])), 'print.values', lambda: '{} {}'.format(out.getvalue(), vals))
    rec.check(rf.equals(keep[0]) and wf.equals(keep[1]), 'rates.untouched', '')
    # inconsistent inputs
    bad = rf.drop(ids[0])
    rec.raises(AssertionError, lambda: RP_.get_volumetric_rates(heavy[0]['name'], ch, bad), 'rates.reject', '')
    badw = wf.drop(heavy[0]['name'])
    rec.raises(AssertionError, lambda: RP_.get_surface_rates(heavy[-1]['name'], ch, mp, badw), 'rates.reject', '')
    return gen.short(spec), sorted(en_r)


def compare(rec, got, want, name, where):
    rec.eq(sorted(int(i) for i in got.index), sorted(want), name + '.processes', where)
    rec.close([got[i] for i in sorted(want)], [want[i] for i in sorted(want)], name + '.values', where)
    v = list(got.values)
    rec.check(v == sorted(v, reverse=True), name + '.sorted', '{} {}'.format(where, v))


FAMILIES = [('frames', fam_frames, 2), ('compress', fam_compress, 1), ('rates', fam_rates, 2)]
