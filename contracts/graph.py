"""Contracts of ChemistryGraph (C18): the weights of the edges at every time for every method, refusals, frame.

Times, species and reactions are axes of any size; rates and wall fluxes are arbitrary non-negative numbers and the matrices those of an arbitrary
chemistry. Graph is used by contract: per time a set of edges with a weight each (the text of the node stands for the position of the species)."""
from terms import *
from values import *
import terms as tm
import interp as ip
import lib
import numeval
import pandas_ as pdm
from lib import Stub, Native, force
from rx import excname

FILE = 'pygmo_fwork/optichem/graph.py'
MOD = 'pygmo_fwork.optichem.graph'
TM, SP, RX = Axis('gtimes'), Axis('gsp'), Axis('grx')
NAME = 'gname'
METHODS = ('DRG', 'DRG1', 'DRG2', 'DRGEP')


class GraphAt:
    """the graph of a time: ghost state of the ChemistryGraph"""

    def __init__(self, store, t):
        self.store, self.t = store, t

    def pos(self, it, x):
        x = force(it, x)
        if isinstance(x, T) and x.op == 'app' and x.args[0] == NAME:
            return x.args[1]
        raise Unsupported('node')

    def sym_getattr(self, it, name):
        s = self.store
        if name == 'add_edge':
            def add(it_, u, v):
                lib.setitem(it_, s.edge, (self.t, self.pos(it_, u), self.pos(it_, v)), TRUE)
            return Native(add, name)
        if name == 'update_edge_attributes':
            def upd(it_, u, v, **kw):
                if set(kw) != {'weight'}:
                    raise Unsupported('attributes of an edge')
                w = lift(kw['weight'])
                it_.prove_now(not_(lib.nan_of(w)), 'the weight is a number')
                lib.setitem(it_, s.weight, (self.t, self.pos(it_, u), self.pos(it_, v)), lib.not_nan(w))
            return Native(upd, name)
        raise Unsupported('Graph.' + name)

    def sym_setattr(self, it, name, v):
        if name != 'weights_distributed':
            raise Unsupported('Graph.' + name)
        lib.setitem(it, self.store.flag, (self.t,), lift(v))

    def sym_subst(self, m):
        return GraphAt(self.store, subst(self.t, m))


class Graphs:
    def __init__(self, it, made, old=''):
        self.edge = it.new(Arr([TM, SP, SP], lambda *i: app('old_edge', i, 'B') if old else FALSE, dtype='B'))
        self.weight = it.new(Arr([TM, SP, SP], lambda *i: app(old + 'no_weight', i)))
        self.flag = it.new(Arr([TM], lambda i: app('old_flag', (i,), 'B') if old else FALSE, dtype='B'))

    def sym_getitem(self, it, k):
        k = force(it, k)
        if isinstance(k, T):
            return GraphAt(self, k)
        raise Unsupported('graph')

    def sym_truth(self, it):
        return lt(num(0), tm.length(TM)) if hasattr(tm, 'length') else const('any_time', 'B')

    def sym_iter(self, it):
        return TM, lambda i: GraphAt(self, i)


class Weights:
    def __init__(self, s):
        self.s = s

    def state(self, it, surface):
        o = it.new(ip.SObj(it.cls(MOD, 'ChemistryGraph')))
        a = lambda dims, f, **k: it.new(Arr(dims, f, **k))
        o.attrs.update(vol=const('vol'), area=const('area'), r=const('radius'), z=const('zlength'),
                       species=a([SP], lambda i: app(NAME, (i,), 'S'), dtype='S'), reactions=a([RX], lambda j: app('rid', (j,))),
                       important_times=a([TM], lambda t: app('tval', (t,))), stick_coefs=a([SP], lambda i: app('stick', (i,))),
                       ret_matrix=a([SP, SP], lambda i, k: app('ret', (i, k))), rates=a([TM, RX], lambda t, j: app('rate', (t, j))),
                       wall_fluxes=a([TM, SP], lambda t, i: app('flux', (t, i))),
                       stoichiomatrix_lhs=a([RX, SP], lambda j, i: app('lhs', (j, i))), stoichiomatrix_rhs=a([RX, SP], lambda j, i: app('rhs', (j, i))),
                       stoichiomatrix_net=a([RX, SP], lambda j, i: app('rhs', (j, i)) - app('lhs', (j, i))),
                       delta_ji=a([RX, SP], lambda j, i: ite(lt(num(0), app('lhs', (j, i)) + app('rhs', (j, i))), num(1), num(0))),
                       special_species=a([Sub(SP, lambda i: app('special', (i,), 'B'))], lambda i: app(NAME, (i,), 'S'), dtype='S'), graphs=it.new(Graphs(it, None, 'old_')))   # those of an earlier call
        return o

    # the documented measures
    def surf(self, surface, t, b, a):
        """loss (b = a) and returns of a caused by b"""
        if not surface:
            return num(0)
        stick = app('flux', (t, b)) * const('area') / const('vol')
        return ite(eq(a, b), stick, num(0)) - app('ret', (a, b)) * stick

    def net(self, j, i):
        return app('rhs', (j, i)) - app('lhs', (j, i))

    def involved(self, j, b):
        return lt(num(0), app('lhs', (j, b)) + app('rhs', (j, b)))

    def spec(self, method, surface, t, b, a):
        """cases (condition, numerator, denominator) of the weight of b -> a"""
        ab = tm.abs_
        v = lambda j: app('rate', (t, j))
        S = lambda f: sum_(RX, f)
        sf = lambda b_: self.surf(surface, t, b_, a)
        pos = lambda x: ite(lt(x, num(0)), num(0), x)
        if method in ('DRG', 'DRG1'):
            top = S(lambda j: ite(self.involved(j, b), ab(self.net(j, a)) * v(j), num(0))) + ab(sf(b))
        else:
            top = ab(S(lambda j: ite(self.involved(j, b), self.net(j, a) * v(j), num(0))) + sf(b))
        if method == 'DRG':
            bottom = S(lambda j: ab(self.net(j, a)) * v(j)) + sum_(SP, lambda b_: ab(sf(b_)))
        elif method in ('DRG1', 'DRG2'):
            bottom = ab(S(lambda j: self.net(j, a) * v(j)) + sum_(SP, sf))
        else:
            prod = S(lambda j: pos(self.net(j, a)) * v(j)) + sum_(SP, lambda b_: pos(sf(b_)))
            cons = S(lambda j: pos(neg(self.net(j, a))) * v(j)) + sum_(SP, lambda b_: pos(neg(sf(b_))))
            return [(lt(prod, cons), top, cons), (not_(lt(prod, cons)), top, prod)]
        return [(TRUE, top, bottom)]

    def distribute(self):
        s = self.s
        for method in METHODS:
            for surface in (True, False):
                name = 'ChemistryGraph.distribute_weights[{},{}]'.format(method, 'surface' if surface else 'volume')
                if s.only and s.only not in name:
                    continue
                it = s.interp({'ChemistryGraph.init_graphs': lambda it_, o: it_.new(Graphs(it_, o))})
                it.target = 'ChemistryGraph.distribute_weights'
                pdm.install(it)
                pdm.injective(NAME, 'gpos', SP)

                def go():
                    o = self.state(it, surface)
                    before = {k: lib.copy_arr(it, x) if isinstance(x, Arr) else x for k, x in o.attrs.items()}
                    it.call(it.getattr(o, 'distribute_weights'), [], dict(weighting_method=method, surface=surface))
                    return o, before
                outs = s.explore(it, name, go, self.hyps())
                if outs is None:
                    continue
                s.under_contract(it.target)
                for n, (c, v) in enumerate(outs):
                    nm = '{}[{}]'.format(name, n)
                    if v[0] == 'raise':
                        s.check(nm + '#no exception', FALSE, c, FILE)
                        continue
                    o, before = v[1]
                    self.post(nm, c, o, before, method, surface)

    def hyps(self):
        return [lt(num(0), const('vol')), lt(num(0), const('area'))]

    def post(self, nm, c, o, before, method, surface):
        s = self.s
        g = o.attrs.get('graphs')
        if not isinstance(g, Graphs):
            return s.unsup(nm, 'another kind of graphs')
        t, a, b = TM.new('t'), SP.new('a'), SP.new('b')
        h = list(c) + [TM.member(t), SP.member(a), SP.member(b)]
        for k, x in before.items():
            if k != 'graphs':
                s.equal('{}#{} unchanged'.format(nm, k), o.attrs.get(k), x[1] if isinstance(x, tuple) and isinstance(x[0], Arr) else x, list(c), FILE)
        s.check(nm + '#ready', g.flag.at(t), h, FILE)
        for case, top, bottom in self.spec(method, surface, t, b, a):
            self.edge(nm, h + [case], g, t, b, a, top, bottom)

    def edge(self, nm, h, g, t, b, a, top, bottom):
        s = self.s
        there = and_(not_(eq(a, b)), not_(eq(top, num(0))), not_(eq(bottom, num(0))))
        e, w = g.edge.at(t, b, a), g.weight.at(t, b, a)
        s.check(nm + '#an edge exactly where the weight is defined and not zero', tm.iff(e, there) if hasattr(tm, 'iff') else eq(e, there), h, FILE)
        s.check(nm + '#the weight', eq(w, top / bottom), h + [there], FILE)

    def lemma(self):
        '''the documented DRG and DRGEP ratios never exceed one (a fact about the formulas, for the weights proved equal to them)'''
        s = self.s
        for surface in (True, False):
            nm = 'weights never exceed one[{}]'.format('surface' if surface else 'volume')
            if s.only and s.only not in nm:
                continue
            t, a, b = TM.new('t'), SP.new('a'), SP.new('b')
            h = [TM.member(t), SP.member(a), SP.member(b)] + self.hyps()
            v = lambda j: app('rate', (t, j))
            sf = lambda b_: self.surf(surface, t, b_, a)
            pos = lambda x: ite(lt(x, num(0)), num(0), x)
            for method, parts in (('DRG', [tm.abs_]), ('DRGEP', [pos, lambda x: pos(neg(x))])):
                rel = []
                for n, f in enumerate(parts):
                    inv = lambda j: ite(self.involved(j, b), f(self.net(j, a)) * v(j), num(0))
                    rest = lambda j: ite(self.involved(j, b), num(0), f(self.net(j, a)) * v(j))
                    tot = sum_(RX, lambda j: f(self.net(j, a)) * v(j))
                    I, R = sum_(RX, inv), sum_(RX, rest)
                    s_all = sum_(SP, lambda b_: f(sf(b_)))
                    s_rest = sum_(SP, lambda b_: ite(eq(b_, b), num(0), f(sf(b_))))
                    s_b = f(sf(b))
                    x = SP.new('x')
                    split = lambda x: ite(eq(x, b), s_b, num(0)) + ite(eq(x, b), num(0), f(sf(x)))
                    s.check('{}#{} part {} pointwise'.format(nm, method, n), eq(f(sf(x)), split(x)), h + [SP.member(x)], FILE)
                    one = eq(sum_(SP, lambda x: ite(eq(x, b), num(1), num(0))), num(1))
                    s.check('{}#{} part {} once'.format(nm, method, n), one, h, FILE)
                    same = eq(sum_(SP, split), s_rest + s_b * sum_(SP, lambda x: ite(eq(x, b), num(1), num(0))))
                    s.check('{}#{} part {} split'.format(nm, method, n), same, h, FILE)
                    # sums of equal terms are equal
                    rel += [g for g in (eq(s_all, sum_(SP, split)), one, same) if g is not TRUE]
                    facts = [(eq(tot, I + R), []), (not_(lt(I, num(0))), []), (not_(lt(R, num(0))), []), (not_(lt(s_rest, num(0))), [])]
                    for k, (g, _) in enumerate(facts):
                        s.check('{}#{} part {} step {}'.format(nm, method, n, k), g, h, FILE)
                    rel += [g for g, _ in facts if g is not TRUE]
                    if method == 'DRG':
                        top, bottom = I + f(sf(b)), tot + s_all
                        s.check(nm + '#DRG: part at most the total', not_(lt(bottom, top)), h + rel, FILE)
                if method == 'DRGEP':
                    P, C = [sum_(RX, lambda j, f=f: ite(self.involved(j, b), f(self.net(j, a)) * v(j), num(0))) + f(sf(b)) for f in parts]
                    N = sum_(RX, lambda j: ite(self.involved(j, b), self.net(j, a) * v(j), num(0))) + sf(b)
                    tp, tc = [sum_(RX, lambda j, f=f: f(self.net(j, a)) * v(j)) + sum_(SP, lambda b_, f=f: f(sf(b_))) for f in parts]
                    each = lambda j: ite(self.involved(j, b), self.net(j, a) * v(j), num(0))
                    two = lambda j: sum((sg * ite(self.involved(j, b), f(self.net(j, a)) * v(j), num(0)) for sg, f in zip((num(1), num(-1)), parts)), num(0))
                    j = RX.new('j')
                    s.check(nm + '#DRGEP: net = production - consumption, each reaction', eq(each(j), two(j)), h + [RX.member(j)], FILE)
                    s.check(nm + '#DRGEP: net = production - consumption', eq(N, P - C), h + [eq(sum_(RX, each), sum_(RX, two))] + [
                        eq(sum_(RX, two), sum_(RX, lambda j: ite(self.involved(j, b), parts[0](self.net(j, a)) * v(j), num(0))) -
                           sum_(RX, lambda j: ite(self.involved(j, b), parts[1](self.net(j, a)) * v(j), num(0))))], FILE)
                    s.check(nm + '#DRGEP: net = production - consumption, sums',
                            eq(sum_(RX, two), sum_(RX, lambda j: ite(self.involved(j, b), parts[0](self.net(j, a)) * v(j), num(0))) -
                               sum_(RX, lambda j: ite(self.involved(j, b), parts[1](self.net(j, a)) * v(j), num(0)))), h, FILE)
                    s.check(nm + '#DRGEP: part at most the total', not_(lt(tm.maximum(tp, tc), tm.abs_(N))), h + rel + [eq(N, P - C)], FILE)

    def other(self):
        '''an unknown method is refused; what is not the graphs stays as it is'''
        s = self.s
        name = 'ChemistryGraph.distribute_weights[unknown method]'
        if s.only and s.only not in name:
            return
        it = s.interp({'ChemistryGraph.init_graphs': lambda it_, o: it_.new(Graphs(it_, o))})
        it.target = 'ChemistryGraph.distribute_weights'
        pdm.install(it)
        pdm.injective(NAME, 'gpos', SP)
        m = const('othermethod', 'S')

        def go():
            o = self.state(it, True)
            it.call(it.getattr(o, 'distribute_weights'), [], dict(weighting_method=m, surface=const('with_surface', 'B')))
            return o
        outs = s.explore(it, name, go, self.hyps() + [not_(eq(m, lift(x))) for x in METHODS])
        if outs is None:
            return
        s.under_contract(it.target)
        for n, (c, v) in enumerate(outs):
            nm = '{}[{}]#refused'.format(name, n)
            s.check(nm, TRUE if v[0] == 'raise' and excname(v[1]) == 'NotImplementedError' else FALSE, c, FILE)


def generate(s):
    tm.FACTS['rate'] = [lambda a: [not_(lt(a, num(0)))]]
    numeval.HINTS['rate'] = lambda r: float(r.choice([0, 1, 2, .5, 1e-3]))
    numeval.HINTS['lhs'] = numeval.HINTS['rhs'] = lambda r: float(r.choice([0, 0, 1, 1, 2]))
    for k in ('lhs', 'rhs', 'flux'):
        tm.FACTS[k] = [lambda a: [not_(lt(a, num(0)))]]
    numeval.HINTS['flux'] = lambda r: float(r.choice([0, 1, 2, .5]))
    w = Weights(s)
    w.lemma()
    w.other()
    w.distribute()
