"""Contracts of MorrisMethod (C20): mapping of factors to parameters, first grid points.

Species and reactions are axes of any size; factors, nominal values and the chemistry are arbitrary. The chemistry is used by the contracts of its
getters (obligations of C05, C06, C07)."""
from terms import *
from values import *
import terms as tm
import interp as ip
import lib
import numeval
import pandas_ as pdm
from pandas_ import Ser, Frm
from lib import Stub, Native, force
from rx import excname

FILE = 'pygmo_fwork/optichem/morris.py'
MOD = 'pygmo_fwork.optichem.morris'
SP, RX = pdm.axis('msp'), pdm.axis('mrx')
OTHER = pdm.axis('mother')
GRID = Axis('mgrid', True)
lhs = lambda j, i: app('lhs', (j, i))
rhs = lambda j, i: app('rhs', (j, i))


class Morris:
    def __init__(self, s):
        self.s = s

    def start(self, target):
        it = self.s.interp({})
        it.target = target
        it.arrays_are_arrays = True   # arrays do not stand for Series here
        pdm.install(it)
        return it

    def method(self, it, own):
        o = it.new(ip.SObj(it.cls(MOD, 'MorrisMethod')))
        o.attrs.update(chemistry=own, model_params=Stub('ModelParameters', {}), grid=it.new(Arr([GRID], lambda g: app('grid', (g,)))),
                       delta_magnitude=num(Fraction(1, 2)), grid_density=num(10))
        return o

    def chemistry(self, it):
        def matrix(it_, disabled=False, special=False, method='net'):
            if disabled or special or method not in ('lhs', 'rhs', 'net'):
                raise Unsupported('stoichiomatrix of others')
            f = {'lhs': lhs, 'rhs': rhs, 'net': lambda j, i: rhs(j, i) - lhs(j, i)}[method]
            return it_.new(Frm(it_.new(Arr([RX, SP], f))))
        return Stub('Chemistry', dict(get_stoichiomatrix=Native(matrix, 'get_stoichiomatrix'),
                                      num_species=Native(lambda it_: SP.length, 'num_species'),
                                      num_reactions=Native(lambda it_: RX.length, 'num_reactions')))

    def vector(self, it, kind, ax, f):
        a = it.new(Arr([ax], f))
        return it.new(Ser(ax, a)) if kind == 'series' else a

    def values(self, v):
        return v.arr if isinstance(v, Ser) else v

    def reactions(self):
        s = self.s
        t = 'MorrisMethod._map_reactions_factors_to_k'
        for kx in ('array', 'series'):
            for kk in ('array', 'series'):
                name = '{}[{},{}]'.format(t, kx, kk)
                if s.only and s.only not in name:
                    continue
                it = self.start(t)

                def go():
                    o = self.method(it, self.chemistry(it))
                    x, k = self.vector(it, kx, RX, lambda j: app('x', (j,))), self.vector(it, kk, RX, lambda j: app('k', (j,)))
                    return it.call(it.getattr(o, '_map_reactions_factors_to_k'), [x, k], {}), x, k
                outs = s.explore(it, name, go, [])
                self.vector_post(name, t, outs, RX, lambda j: num(2) * app('k', (j,)) * app('x', (j,)), RX, kk)

    def species(self):
        s = self.s
        t = 'MorrisMethod._map_species_factors_to_k'
        for kx in ('array', 'series'):
            for kk in ('array', 'series'):
                name = '{}[{},{}]'.format(t, kx, kk)
                if s.only and s.only not in name:
                    continue
                it = self.start(t)

                def go():
                    o = self.method(it, self.chemistry(it))
                    x, k = self.vector(it, kx, SP, lambda i: app('x', (i,))), self.vector(it, kk, RX, lambda j: app('k', (j,)))
                    return it.call(it.getattr(o, '_map_species_factors_to_k'), [x, k, self.chemistry(it)], {}), x, k
                outs = s.explore(it, name, go, [])
                inv = lambda j, i: not_(eq(lhs(j, i) + rhs(j, i), num(0)))
                self.vector_post(name, t, outs, RX, lambda j: app('k', (j,)) * prod_(SP, lambda i: ite(inv(j, i), num(2) * app('x', (i,)), num(1))), SP, kk)

    def vector_post(self, name, t, outs, ax, want, xax, kk):
        s = self.s
        if outs is None:
            return
        s.under_contract(t)
        for n, (c, v) in enumerate(outs):
            nm = '{}[{}]'.format(name, n)
            c = list(c)
            if v[0] == 'raise':
                s.check(nm + '#no exception', FALSE, c, FILE)
                continue
            r, x, k = v[1]
            a = self.values(r)
            if not isinstance(a, Arr) or len(a.dims) != 1 :
                s.unsup(nm, 'result of another kind')
                continue
            if kk == 'series':
                s.check(nm + '#the index is kept', TRUE if isinstance(r, Ser) else FALSE, c, FILE)
            j, i = ax.new('j'), xax.new('i')
            if a.dims[0] is not ax:
                s.unsup(nm, 'result of another length')
                continue
            s.check(nm + '#values', eq(a.at(j), want(j)), c + [ax.member(j)], FILE)
            s.check(nm + '#factors untouched', eq(self.values(x).at(i), app('x', (i,))), c + [xax.member(i)], FILE)
            s.check(nm + '#nominal values untouched', eq(self.values(k).at(j), app('k', (j,))), c + [ax.member(j)], FILE)

    def refused(self):
        '''vectors of another length are refused'''
        s = self.s
        for meth, kinds in (('_map_reactions_factors_to_k', ('x', 'k')), ('_map_species_factors_to_k', ('x', 'k'))):
            for bad in kinds:
                t = 'MorrisMethod.' + meth
                name = '{}[length of {}]'.format(t, bad)
                if s.only and s.only not in name:
                    continue
                it = self.start(t)
                right = {'x': SP if 'species' in meth else RX, 'k': RX}

                def go():
                    o = self.method(it, self.chemistry(it))
                    x, k = [it.new(Arr([OTHER if bad == q else right[q]], lambda j, q=q: app(q, (j,)))) for q in 'xk']
                    return it.call(it.getattr(o, meth), [x, k] + ([self.chemistry(it)] if 'species' in meth else []), {})
                outs = s.explore(it, name, go, [not_(eq(OTHER.length, right[bad].length))])
                for n, (c, v) in enumerate(outs or []):
                    s.check('{}[{}]#refused'.format(name, n), TRUE if v[0] == 'raise' and excname(v[1]) == 'MorrisInputsError' else FALSE, list(c), FILE)

    def seed(self):
        s = self.s
        t = 'MorrisMethod._get_seed_x'
        if s.only and s.only not in t:
            return
        it = self.start(t)
        X = Axis('xcont')

        def go():
            o = self.method(it, self.chemistry(it))
            x = it.new(Arr([X], lambda i: app('x', (i,))))
            return it.call(it.getattr(o, '_get_seed_x'), [x], {}), x, o
        outs = s.explore(it, t, go, [any_(GRID, lambda q: TRUE)])
        if outs is None:
            return
        s.under_contract(t)
        ab = tm.abs_
        for n, (c, v) in enumerate(outs):
            nm = '{}[{}]'.format(t, n)
            c = list(c)
            if v[0] == 'raise':
                s.check(nm + '#no exception', FALSE, c, FILE)
                continue
            r, x, o = v[1]
            if not isinstance(r, Arr) or len(r.dims) != 1 or r.dims[0] is not X:
                s.unsup(nm, 'result of another kind')
                continue
            i, g = X.new('i'), GRID.new('g')
            h = c + [X.member(i)]
            s.check(nm + '#a point of the grid', any_(GRID, lambda q: eq(app('grid', (q,)), r.at(i))), h, FILE)
            s.check(nm + '#the closest one', not_(lt(ab(app('grid', (g,)) - app('x', (i,))), ab(r.at(i) - app('x', (i,))))), h + [GRID.member(g)], FILE)

    # ------------------------------------------------------------------ return coefficients
    def ret_coef(self):
        s = self.s
        t = 'MorrisMethod._map_a_factor_to_ret_coef'
        if s.only and s.only not in t:
            return
        it = self.start(t)
        a, b = const('stuck', 'I'), const('returned', 'I')
        nm_ = lambda i: app('name', (i,), 'S')
        pdm.injective('name', 'mspof', SP)
        special = lambda i: app('special', (i,), 'B')
        x, r, rng, stick = const('x_i'), const('nominal'), const('rel_range'), lambda i: app('stick', (i,))
        ret = lambda i, k: app('ret', (i, k))
        old = lambda it_: it_.new(pdm.Named(SP, 'name', FALSE, lambda k: app('has_ret', (a, k), 'B'), lambda k: app('ret', (k, a))))
        log = []

        def go():
            del log[:]
            o = self.method(it, self.chemistry(it))

            def rp(i):
                return Stub('RP', dict(id=i, is_special=Native(lambda it_: special(i), 'is_special'), get_name=Native(lambda it_: nm_(i), 'get_name')))

            def coefs(it_):
                class One:
                    def sym_getitem(self, it2, k):
                        if force(it2, k) is not a:
                            raise Unsupported('coefficients of another species')
                        return old(it2)
                return One()

            def put(it_, attrib, sp, val):
                log.append((attrib, sp, val))
            sa, sb = rp(a), rp(b)
            given = {'given_a': sa, 'given_b': sb}
            ch = Stub('Chemistry', dict(
                get_rp=Native(lambda it_, q: given.get(q) or (_ for _ in ()).throw(Unsupported('another species')), 'get_rp'),
                get_species_stick_coef=Native(lambda it_: it_.new(Ser(SP, it_.new(Arr([SP], stick)))), 'stick'),
                get_return_matrix=Native(lambda it_: it_.new(Frm(it_.new(Arr([SP, SP], ret)))), 'ret'),
                get_species_ret_coefs=Native(coefs, 'ret_coefs'), set_adhoc_species_attributes=Native(put, 'set')))
            res = None
            try:
                res = it.call(it.getattr(o, '_map_a_factor_to_ret_coef'), [], dict(x_i=x, stuck_sp='given_a', ret_sp='given_b', nominal_ret_coef=r, chemistry=ch, rel_range=rng))
            except ip.PyExc as e:
                return e, list(log), sa
            return res, list(log), sa
        hyps = [SP.member(a), SP.member(b), not_(lt(x, num(0))), not_(lt(num(1), x))]
        outs = s.explore(it, t, go, hyps)
        if outs is None:
            return
        s.under_contract(t)
        new = r * rng ** (num(2) * x - num(1))
        selfnew = ret(a, a) - (new - ret(b, a))
        ok = and_(lt(num(1), rng), not_(special(a)), not_(special(b)), lt(num(0), r), not_(eq(a, b)), lt(num(0), stick(a)), not_(lt(selfnew, num(0))))
        for n, (c, v) in enumerate(outs):
            nm = '{}[{}]'.format(t, n)
            c = list(c)
            res, sets, sa = v[1]
            if isinstance(res, ip.PyExc):
                s.check(nm + '#refused only if it is not a factor', and_(not_(ok), TRUE if excname(res) == 'MorrisInputsError' else FALSE), c, FILE)
                s.check(nm + '#refused: nothing set', TRUE if not sets else FALSE, c, FILE)
                continue
            s.check(nm + '#accepted only if it is a factor', ok, c, FILE)
            if len(sets) != 1 or sets[0][0] != 'ret_coefs' or sets[0][1] is not sa:
                s.unsup(nm, 'how the coefficients are set')
                continue
            m = sets[0][2]
            if not isinstance(m, pdm.Named):
                s.unsup(nm, 'coefficients of another kind')
                continue
            k = SP.new('k')
            h = c + [SP.member(k)]
            s.check(nm + '#the others keep their coefficients', eq(m.dom(k), or_(eq(k, a), eq(k, b), app('has_ret', (a, k), 'B'))), h, FILE)
            s.check(nm + '#the others keep their values', eq(m.val(k), ret(k, a)), h + [not_(eq(k, a)), not_(eq(k, b)), m.dom(k)], FILE)
            s.check(nm + '#new coefficient', eq(m.val(b), new), c, FILE)
            s.check(nm + '#compensated', eq(m.val(a), selfnew), c, FILE)
            s.check(nm + '#total conserved', eq(m.val(a) + m.val(b), ret(a, a) + ret(b, a)), c, FILE)
            self.result(nm, res, nm_, a, b, new, selfnew, c)

    def result(self, nm, res, nm_, a, b, new, selfnew, c):
        s = self.s
        keys = lambda d: {k.args[1]: v for k, v in d.items() if isinstance(k, T) and k.op == 'app' and k.args[0] == 'name'} if isinstance(d, dict) else {}
        d = keys(res)
        if len(d) != 1 or set(d) != {a} or not isinstance(res, dict) or len(res) != 1:
            return s.unsup(nm, 'result of another form')
        e = keys(d[a])
        if set(e) != {a, b} or len(d[a]) != 2:
            return s.unsup(nm, 'result of another form')
        s.check(nm + '#returned coefficient', eq(lift(e[b]), new), c, FILE)
        s.check(nm + '#returned compensation', eq(lift(e[a]), selfnew), c, FILE)


def generate(s):
    tm.FACTS['lhs'] = tm.FACTS['rhs'] = [lambda a: [not_(lt(a, num(0)))]]
    numeval.HINTS['lhs'] = numeval.HINTS['rhs'] = lambda r: float(r.choice([0, 0, 1, 1, 2]))
    for k, v in (('stick', [0, .5, 1]), ('nominal', [0, .5, 1, 2]), ('ret', [0, .5, 1, .25]), ('x_i', [0, .5, 1, .25]), ('rel_range', [1, 2, 4, .5])):
        numeval.HINTS[k] = lambda r, v=v: float(r.choice(v))
    m = Morris(s)
    m.reactions()
    m.species()
    m.refused()
    m.seed()
    m.ret_coef()
