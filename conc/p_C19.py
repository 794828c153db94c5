"""C19: path and flow searches in weighted graphs, and the species ranking built on them."""
import itertools
import math
import numpy as np
import gen
from harness import Skip
from pygmo_fwork.optichem.graph import Graph, ChemistryGraph
import p_C18

INF = float('inf')


def rnd_graph(rng):
    nodes = rng.sample(['A', 'B', 'C', 'D', 'E', 'F'], rng.randint(2, 6))
    w = {}
    dens = rng.choice([.2, .4, .8])
    ints = rng.random() < .5
    for u in nodes:
        for v in nodes:
            if u != v and rng.random() < dens:
                w[u, v] = float(rng.randint(1, 4)) if ints else 10 ** rng.uniform(-4, 1)
    if not w:
        raise Skip
    return nodes, w


def make(rng, rec, w, attr):
    g = Graph()
    items = list(w.items())
    rng.shuffle(items)
    for (u, v), x in items:
        g.add_edge(u, v)
        if rng.random() < .2:
            g.add_edge(u, v)  # again: no effect
        g.update_edge_attributes(u, v, **{attr: x})
        if attr != 'weight':
            g.update_edge_attributes(u, v, weight=1.23)
    rec.eq(set(g.get_edges()), set(w), 'graph.edges')
    rec.eq(set(g.get_nodes()), {x for e in w for x in e}, 'graph.nodes')
    for e in w:
        rec.check(g.has_edge(*e) and g.get_edge_attributes(*e)[attr] == w[e], 'graph.attributes', str(e))
    return g


def simple_paths(nodes, w, s, t):
    out, stack = [], [[s]]
    while stack:
        p = stack.pop()
        if p[-1] == t:
            out.append(p)
            continue
        for v in nodes:
            if (p[-1], v) in w and v not in p:
                stack.append(p + [v])
    return out


def min_cut(nodes, w, s, t):
    rest = [x for x in nodes if x not in (s, t)]
    best = INF
    for k in range(len(rest) + 1):
        for sub in itertools.combinations(rest, k):
            S = {s} | set(sub)
            best = min(best, sum(x for (u, v), x in w.items() if u in S and v not in S))
    return best


FUNCS = [(None, None, lambda x: x, lambda x: x), (lambda x: 1 / x, lambda x: 1 / x if x else INF) * 2,
         (lambda x: 2 * x + 1, lambda x: (x - 1) / 2) * 2, (lambda x: x ** 2, lambda x: math.sqrt(x)) * 2]


def fam_paths(rng, rec):
    nodes, w = rnd_graph(rng)
    attr = rng.choice(['weight', 'weight', 'foo'])
    g = make(rng, rec, w, attr)
    nodes = sorted(g.get_nodes())
    t = rng.choice(nodes)
    where = '{} -> {}'.format(w, t)
    for f in (g.find_max_bottleneck_paths, g.find_shortest_paths):
        rec.raises(AssertionError, lambda: f(t, edge_attribute=attr), 'graph.weights_first', '')
    g.weights_distributed = True
    fn, inv, F, I = rng.choice(FUNCS)
    kw = dict(weighting_func=fn, inverse=inv) if fn else {}
    W = {e: F(x) for e, x in w.items()}
    paths, widths = rec.total(lambda: g.find_max_bottleneck_paths(t, edge_attribute=attr, **kw), 'widest.total', where)
    rec.eq((set(paths), set(widths)), (set(nodes), set(nodes)), 'widest.nodes', where)
    for s in nodes:
        best = max((min(W[e] for e in zip(p, p[1:])) if len(p) > 1 else INF for p in simple_paths(nodes, w, s, t)), default=0.)
        if s != t:
            rec.close(widths[s], I(best), 'widest.value', '{} from {}'.format(where, s))
        check_path(rec, paths[s], s, t, w, best > 0, 'widest', where)
        if s != t and best > 0:
            rec.close(min(W[e] for e in zip(paths[s], paths[s][1:])), best, 'widest.path_attains', '{} from {}'.format(where, s))
    paths, lengths = rec.total(lambda: g.find_shortest_paths(t, edge_attribute=attr, **kw), 'shortest.total', where)
    rec.eq((set(paths), set(lengths)), (set(nodes), set(nodes)), 'shortest.nodes', where)
    for s in nodes:
        best = min((sum(W[e] for e in zip(p, p[1:])) for p in simple_paths(nodes, w, s, t)), default=INF)
        if s == t:
            rec.check(math.isnan(lengths[s]), 'shortest.target', where)
        else:
            rec.close(lengths[s], I(best), 'shortest.value', '{} from {}'.format(where, s))
            if best < INF:
                rec.close(sum(W[e] for e in zip(paths[s], paths[s][1:])), best, 'shortest.path_attains', '{} from {}'.format(where, s))
        check_path(rec, paths[s], s, t, w, best < INF, 'shortest', where)
    for bad in (dict(weighting_func=lambda x: x), dict(inverse=lambda x: x)):
        for f in (g.find_max_bottleneck_paths, g.find_shortest_paths):
            rec.raises(AssertionError, lambda: f(t, edge_attribute=attr, **bad), 'graph.both_functions', '')
    rec.raises(AssertionError, lambda: g.find_shortest_paths(t, edge_attribute=attr, weighting_func=lambda x: -x, inverse=lambda x: x),
               'graph.non_negative', where) if any(v == t for _, v in w) else None
    for x in (0, -1., 0.):
        rec.raises(AssertionError, lambda: g.update_edge_attributes(*rng.choice(sorted(w)), weight=x), 'graph.positive_weight', '')
    rec.eq({e: g.get_edge_attributes(*e)[attr] for e in w}, w, 'graph.untouched', where)
    return sorted(w.items()), t


def check_path(rec, p, s, t, w, reachable, name, where):
    rec.check(p[0] == s, name + '.path_start', where)
    if reachable:
        rec.check(p[-1] == t and all(e in w for e in zip(p, p[1:])) and len(set(p)) == len(p), name + '.path_valid',
                  '{} {} {}'.format(where, s, p))
    else:
        rec.check(t not in p, name + '.path_unreachable', '{} {} {}'.format(where, s, p))


def fam_flow(rng, rec):
    nodes, w = rnd_graph(rng)
    attr = rng.choice(['weight', 'weight', 'foo'])
    g = make(rng, rec, w, attr)
    nodes = sorted(g.get_nodes())
    rec.raises(AssertionError, lambda: g.get_max_flow(nodes[0], nodes[1], edge_attribute=attr), 'graph.weights_first', '')
    g.weights_distributed = True
    for _ in range(2):
        s, t = rng.sample(nodes, 2)
        fn, inv, F, I = rng.choice(FUNCS)
        kw = dict(weighting_func=fn, inverse=inv) if fn else {}
        W = {e: F(x) for e, x in w.items()}
        got = rec.total(lambda: g.get_max_flow(s, t, edge_attribute=attr, **kw), 'flow.total', '')
        rec.close(got, I(min_cut(nodes, W, s, t)), 'flow.min_cut', '{} {}>{}'.format(W, s, t), rtol=1e-7)
    rec.eq({e: g.get_edge_attributes(*e)[attr] for e in w}, w, 'graph.untouched', '')
    return sorted(w.items())


def score(nodes, w, s, t, method):
    if s not in nodes or t not in nodes:
        return 0.
    if method == 'max_flow':
        return min_cut(nodes, w, s, t)
    ps = simple_paths(nodes, w, s, t)
    if not ps:
        return 0.
    if method == 'max_bottleneck':
        return max(min(w[e] for e in zip(p, p[1:])) for p in ps)
    if method == 'shortest_path':
        return 1 / min(sum(1 / w[e] for e in zip(p, p[1:])) for p in ps)
    return max(math.prod(w[e] for e in zip(p, p[1:])) for p in ps)


def fam_ranking(rng, rec):
    spec, ch, mp, ts, ids, names, rf, wf = p_C18.setup(rng)
    cg = ChemistryGraph(ch, mp, rf, wf)
    sm = rng.choice(['shortest_path', 'max_bottleneck', 'max_product', 'max_flow', None])
    wm = rng.choice(['DRG', 'DRGEP'] if sm == 'max_product' else ['DRG', 'DRG1', 'DRG2', 'DRGEP'])
    cg.distribute_weights(wm, surface=rng.random() < .7)
    special = [str(n) for n in ch.get_species_name(special=True) if n not in names]
    imp = rng.sample(names + special, rng.randint(1, min(3, len(names))))
    got = rec.total(lambda: cg.get_ranking(imp, **({'search_method': sm} if sm else {})), 'ranking.total', '{} {}'.format(imp, gen.short(spec)))
    assessed = sorted(n for n in names if n not in imp)
    where = '{} {} {} {}'.format(sm, wm, imp, gen.short(spec))
    rec.eq(sorted(got.index), assessed, 'ranking.species', where)
    ambiguous = False
    for n in assessed:
        best = 0.
        for g in cg.graphs:
            w = {e: g.get_edge_attributes(*e)['weight'] for e in g.get_edges()}
            nodes = sorted(g.get_nodes())
            for t in imp:
                v = score(nodes, w, n, t, sm or 'shortest_path')
                if sm == 'max_product' and v > 1 - 1e-9:
                    ambiguous = True  # documented limitation
                best = max(best, v)
        if not ambiguous:
            rec.close(float(got[n]), best, 'ranking.value', '{} {}'.format(where, n), rtol=1e-7, atol=1e-12 * best)
    if not ambiguous:
        v = [float(x) for x in got.values]
        rec.check(all(a <= b for a, b in zip(v, v[1:])), 'ranking.ascending', where)
    rec.raises(ValueError, lambda: cg.get_ranking(imp, search_method='nope'), 'ranking.unknown_method', '')
    return gen.short(spec), imp, sm, wm


FAMILIES = [('paths', fam_paths, 1), ('flow', fam_flow, 1), ('ranking', fam_ranking, 2)]
