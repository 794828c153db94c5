"""C18: the weights of the species coupling graphs."""
import numpy as np
import pandas as pd
import gen
from p_C05 import rnd_disable
from p_C06 import state
from p_C07 import effective
from harness import Skip
from pygmo_fwork.optichem.graph import ChemistryGraph
from pygmo_fwork.optichem.exceptions import GraphInitError


def setup(rng, times=None):
    spec = gen.chem_spec(rng, max_species=7, max_reactions=8)
    ch, sps, rs = gen.build(spec)
    if rng.random() < .6:
        rnd_disable(rng, ch, spec)
    en_sp, en_r, prot = state(ch)
    heavy = [s for s in spec['species'] if not gen.special(s) and s['id'] in en_sp]
    if not heavy or not en_r:
        raise Skip
    # the order of species and reactions is that of the chemistry
    ids = [int(i) for i in ch.get_reactions_id()]
    names = list(ch.get_species_name())
    ts = times or sorted(rng.uniform(0, 1) for _ in range(rng.randint(1, 3)))
    if rng.random() < .2:  # times hardly different
        ts = [ts[0] * (1 + 1e-6 * k) for k in range(len(ts))]
    scale = 10 ** rng.uniform(0, 20)
    nice = rng.random() < .5  # exact cancellations
    R = [[float(rng.randint(0, 4)) if nice else rng.choice([0., scale * rng.random(), scale * 10 ** rng.uniform(-8, 0)]) for _ in ids] for _ in ts]
    W = [[-float(rng.randint(0, 4)) if nice else -rng.choice([0., scale * rng.random()]) for _ in names] for _ in ts]
    rf = pd.DataFrame([[t] + r for t, r in zip(ts, R)], columns=['t'] + ids)
    wf = pd.DataFrame([[t] + r for t, r in zip(ts, W)], columns=['t'] + names)
    rf.columns = ['t'] + ids
    mp = {'radius': rng.choice([2., rng.uniform(.01, 2)]), 'length': rng.choice([2., rng.uniform(.01, 2)])}
    return spec, ch, mp, ts, ids, names, rf, wf


def oracle(spec, ch, mp, ids, names, R, W, method, surface):
    """{(b, a): weight or None (cannot tell)} of one time."""
    en_sp, en_r, prot = state(ch)
    by_i = dict(enumerate(spec['species']))
    rx = {r['id']: r for r in spec['reactions']}
    sp = [s for s in spec['species'] if s['id'] in en_sp]
    av = 2 * (mp['radius'] + mp['length']) / (mp['radius'] * mp['length'])
    eff = effective(spec, en_sp, {}, {})
    surf = {}
    for b in sp:
        for a in sp:
            v = 0.
            if surface and b['name'] in names:
                stick = W[names.index(b['name'])] * av
                if a is b:
                    v += stick
                if a['name'] in names:
                    v -= eff[b['id']].get(a['name'], 0.) * stick
            surf[b['name'], a['name']] = v
    out = {}
    count = lambda lst, s: sum(by_i[i]['id'] == s['id'] for i in lst)
    for a in sp:
        A = a['name']
        nu = {j: count(rx[j]['rhs'], a) - count(rx[j]['lhs'], a) for j in ids}
        gross = sum(abs(nu[j]) * R[k] for k, j in enumerate(ids)) + sum(abs(surf[b['name'], A]) for b in sp)
        net = sum(nu[j] * R[k] for k, j in enumerate(ids)) + sum(surf[b['name'], A] for b in sp)
        prod = sum(max(nu[j], 0) * R[k] for k, j in enumerate(ids)) + sum(max(surf[b['name'], A], 0) for b in sp)
        cons = sum(max(-nu[j], 0) * R[k] for k, j in enumerate(ids)) + sum(max(-surf[b['name'], A], 0) for b in sp)
        for b in sp:
            if a is b:
                continue
            inv = {j: count(rx[j]['rhs'], b) + count(rx[j]['lhs'], b) > 0 for j in ids}
            if method in ('DRG', 'DRG1'):
                num = sum(abs(nu[j]) * R[k] for k, j in enumerate(ids) if inv[j]) + abs(surf[b['name'], A])
            else:
                num = abs(sum(nu[j] * R[k] for k, j in enumerate(ids) if inv[j]) + surf[b['name'], A])
            den = {'DRG': gross, 'DRG1': abs(net), 'DRG2': abs(net), 'DRGEP': max(prod, cons)}[method]
            if (num != 0 and num < 1e-9 * gross and method in ('DRG2', 'DRGEP')) or (den != 0 and den < 1e-9 * gross):
                out[b['name'], A] = None
            elif num == 0 and method in ('DRG2', 'DRGEP') and any(inv[j] and nu[j] and R[k] % 1 for k, j in enumerate(ids)):
                out[b['name'], A] = None
            elif den == 0 and gross and any(x % 1 for x in list(R) + list(W) + [av]):
                out[b['name'], A] = None
            elif num != 0 and den != 0:
                out[b['name'], A] = num / den
    return out


def check_graph(rec, g, want, where):
    edges = set(g.get_edges())
    for e in edges | set(want):
        w = want.get(e, 0.)
        if w is None:
            continue
        rec.check((e in edges) == (w != 0.), 'weight.edges', lambda: '{} edge {}: {} expected weight {}'.format(where, e, e in edges, w))
        if w:
            rec.check(g.has_edge(*e), 'weight.edges', where)
            rec.close(g.get_edge_attributes(*e)['weight'], w, 'weight.value', '{} {}'.format(where, e), rtol=1e-6)


def fam_weights(rng, rec):
    spec, ch, mp, ts, ids, names, rf, wf = setup(rng)
    keep = rf.copy(), wf.copy()
    cg = rec.total(lambda: ChemistryGraph(ch, mp, rf, wf), 'graph.init', '')
    rec.raises(ValueError, lambda: cg.get_ranking([names[0]]), 'graph.weights_first', '')
    for _ in range(3):
        method, surface = rng.choice(['DRG', 'DRG1', 'DRG2', 'DRGEP']), rng.random() < .7
        rec.total(lambda: cg.distribute_weights(weighting_method=method, surface=surface), 'graph.distribute', '')
        rec.eq(len(cg.graphs), len(ts), 'graph.times')
        for k, g in enumerate(cg.graphs):
            want = oracle(spec, ch, mp, ids, names, list(rf.iloc[k])[1:], list(wf.iloc[k])[1:], method, surface)
            check_graph(rec, g, want, '{} surface={} {} {} {} {}'.format(method, surface, gen.short(spec), mp, rf.values.tolist(), wf.values.tolist()))
            if method in ('DRG', 'DRGEP'):
                rec.check(all(0 < g.get_edge_attributes(*e)['weight'] <= 1 + 1e-12 for e in g.get_edges()), 'weight.at_most_one', method)
    rec.raises(NotImplementedError, lambda: cg.distribute_weights(weighting_method=rng.choice(['drg', 'DRG3', ''])), 'graph.unknown_method', '')
    cg.distribute_weights()
    want = oracle(spec, ch, mp, ids, names, list(rf.iloc[0])[1:], list(wf.iloc[0])[1:], 'DRG', True)
    check_graph(rec, cg.graphs[0], want, 'defaults')
    rec.check(rf.equals(keep[0]) and wf.equals(keep[1]), 'graph.frames_untouched', '')
    # inconsistent frames
    bad = [(rf.assign(t=[t + 1 for t in ts]), wf), (rf.drop(columns=ids[0]), wf), (rf, wf.drop(columns=names[0])),
           (rf[['t'] + ids[1:] + ids[:1]], wf) if len(ids) > 1 else (rf.drop(columns='t').assign(x=0), wf),
           (rf, wf[['t'] + names[1:] + names[:1]]) if len(names) > 1 else (rf, wf.assign(x=1.))]
    for a, b in bad:
        try:
            ChemistryGraph(ch, mp, a, b)
        except (GraphInitError, KeyError):
            pass
        else:
            rec.check(False, 'graph.reject', '{} {}'.format(list(a.columns), list(b.columns)))
    return gen.short(spec), len(ts)


FAMILIES = [('weights', fam_weights, 1)]
