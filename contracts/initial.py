"""Contracts of the initial state: GlobalModel.generate_initial_n, validate_initial_n; Model and NeutralModel: the initial vector (C15).

The species are the positions of an axis of any size with arbitrary names and charges; the feeds any mapping from texts to positive numbers of
which those that name species name neutral ones; all the parameters are arbitrary positive numbers."""
from terms import *
from values import *
import terms as tm
import interp as ip
import lib
import numeval
from lib import Stub, Native
from rx import excname
from chem import SP, pos_of
import pandas_ as pdm
from pandas_ import Named, Texts, NamedSer

GM = 'pygmo_fwork/global_model.py'
K = const('c_k')
KINDS = ('is_feed', 'is_cation', 'is_anion')
POS = ('feed', 'cation', 'anion')
for n_ in POS + ('Tg', 'pressure'):
    numeval.HINTS[n_] = lambda r: r.uniform(0.3, 3.0)


def kind(m, a):
    if ('kind', a) not in m.tab:
        m.tab['kind', a] = m.r.choice(KINDS + ('is_cation', 'other'))
    return m.tab['kind', a]


def sign(t):
    """+1, -1, 0 where it is known"""
    if t.op == 'num':
        return (t.args[0] > 0) - (t.args[0] < 0)
    if t.op == 'app' and t.args[0] in POS:
        return 1
    if t.op == 'mul':
        r = 1
        for x in t.args:
            s = sign(x)
            if s is None:
                return None
            r *= s
        return r
    return None


def compare(op, a, b):
    """comparisons with zero of the charges and feeds, decided case by case"""
    for x, y, flip in ((a, b, False), (b, a, True)):
        if y.op == 'num' and y.args[0] == 0:
            if x.op == 'ite':
                f = lambda t: (tm.eq(t, y) if op == 'eq' else tm.lt(y, t) if flip else tm.lt(t, y))
                return ite(x.args[0], f(x.args[1]), f(x.args[2]))
            s = sign(x)
            if s is not None and x.op != 'num':
                return TRUE if (s == 0 if op == 'eq' else s > 0 if flip else s < 0) else FALSE
    return None


class World:
    def __init__(self, neutral=False):
        self.sp = SP
        self.name = lambda i: app('name', (i,), 'S')
        at = lambda k: k.args[1] if k.op == 'app' and k.args[0] == 'name' else pos_of(k)
        # a feed that names no species is an error (EquationsParametersConsistencyError): only positions are asked for
        self.fed = lambda i: app('is_feed', (i,), 'B')
        self.feeds = SymDict('feeds', lambda k: self.fed(at(k)), lambda k: app('feed', (at(k),)))
        self.feed = lambda i: ite(self.fed(i), app('feed', (i,)), num(0))
        # exclusive: positive, negative, and feed (a neutral one)
        self.pos = (lambda i: FALSE) if neutral else (lambda i: app('is_cation', (i,), 'B'))
        self.neg = (lambda i: FALSE) if neutral else (lambda i: app('is_anion', (i,), 'B'))
        self.q = lambda i: ite(self.pos(i), app('cation', (i,)), ite(self.neg(i), neg(app('anion', (i,))), num(0)))
        self.Tg, self.p = const('Tg'), const('pressure')
        self.nt = self.p / (K * self.Tg)
        self.ion, self.negf, self.nonf, self.te = (const(x) for x in ('ionisation_degree', 'neg_ion_fraction', 'non_feed_sp_fraction', 'el_temp'))
        self.hyps = [lt(num(0), x) for x in (self.Tg, self.p, K, self.ion, self.negf, self.nonf, self.te)]

    def S(self, f):
        return sum_(self.sp, f)

    def chemistry(self):
        m = lambda fn: Native(lambda it, *a, **k: fn(*a, **k), 'chemistry')
        return Stub('Chemistry', dict(get_species_name=m(lambda: Arr([self.sp], self.name, dtype='S')), get_species_charge=m(lambda: Arr([self.sp], self.q)),
                                      num_species=m(lambda: self.sp.length)))

    def params(self):
        vals = {'feeds': self.feeds, 'Tg': self.Tg, 'p': self.p}
        syn = {'temp_gas': 'Tg', 'gas_temp': 'Tg', 'T_g': 'Tg', 'pressure': 'p', 'feed_flows': 'feeds'}

        def items(it, key):
            k = syn.get(key, key)
            if k == 't_end':
                return const('t_end')
            if k not in vals:
                raise Unsupported('parameter ' + str(key))
            return vals[k]
        return Stub('ModelParameters', {}, items)


class Init:
    def __init__(self, s):
        self.s = s

    def skip(self, w):
        return self.s.only and self.s.only not in w

    # what the property says of the densities
    def physical(self, nm, w, n, conds, ion, negf, nonf, neutral=False):
        s = self.s
        c = list(conds) + w.hyps
        i, j = w.sp.new('i'), w.sp.new('j')
        ci = c + [w.sp.member(i)]
        s.check(nm + '#they add up to pressure/(k Tg)', eq(w.S(n), w.nt), c, GM)
        if not neutral:
            s.check(nm + '#room for the electrons asked for', eq(w.S(lambda i: w.q(i) * n(i)), ion * w.nt), c, GM)
            s.check(nm + '#negative ions', eq(n(i), negf * w.nt), ci + [w.neg(i)], GM)
            s.check(nm + '#positive ions equal', eq(n(i), n(j)), ci + [w.sp.member(j), w.pos(i), w.pos(j)], GM)
        neutral_ = lambda i: eq(w.q(i), num(0))
        anyfeed = any_(w.sp, w.fed)
        s.check(nm + '#in proportion to the feeds', eq(n(i) * w.feed(j), n(j) * w.feed(i)), ci + [w.sp.member(j), w.fed(i), w.fed(j)], GM)
        s.check(nm + '#non-feed neutrals', eq(n(i), nonf * w.nt), ci + [anyfeed, not_(w.fed(i)), neutral_(i)], GM)
        s.check(nm + '#the neutrals equal without feeds', eq(n(i), n(j)), ci + [w.sp.member(j), not_(anyfeed), neutral_(i), neutral_(j)], GM)
        # positive: where something is left for the bulk. By cases, each a lemma (the closed form) and its sign
        filled = lambda i: ite(anyfeed, w.fed(i), neutral_(i))
        left = w.nt - w.S(lambda i: ite(filled(i), num(0), n(i)))
        S = lambda f, g=lambda i: num(1): w.S(lambda i: ite(f(i), g(i), num(0)))
        share = w.nt * (negf * S(w.neg, lambda i: neg(w.q(i))) + ion)
        cases = (('positive ions', w.pos(i), share / S(w.pos, w.q)), ('negative ions', w.neg(i), negf * w.nt),
                 ('feeds', and_(w.fed(i), anyfeed), w.feed(i) * left / S(w.fed, w.feed)), ('non-feed neutrals', and_(anyfeed, not_(w.fed(i)), neutral_(i)), nonf * w.nt),
                 ('neutrals without feeds', and_(not_(anyfeed), neutral_(i)), left / S(neutral_)))
        a, b, d, e, f, g = (const('sgn_' + x) for x in 'abdefg')
        signs = {'positive ions': (w.nt * (negf * a + ion) / b, [not_(lt(a, num(0))), lt(num(0), b)]), 'negative ions': (negf * w.nt, []),
                 'feeds': (e * d / f, [lt(num(0), x) for x in (d, e, f)]), 'non-feed neutrals': (nonf * w.nt, []),
                 'neutrals without feeds': (d / g, [lt(num(0), x) for x in (d, g)])}
        for what, cond, form in cases:
            s.check('{}#{}: closed form'.format(nm, what), eq(n(i), form), ci + [cond], GM)
            t, h = signs[what]
            s.check('{}#{}: positive where something is left'.format(nm, what), lt(num(0), t), w.hyps + h, GM)
        # the sums named above: sums of non-negative terms one of which is positive
        for what, f_, g_ in (('anions', w.neg, lambda i: neg(w.q(i))), ('cations', w.pos, w.q), ('feeds', w.fed, w.feed), ('neutrals', neutral_, lambda i: num(1))):
            s.check('{}#{}: the terms are positive'.format(nm, what), lt(num(0), g_(i)), ci + [f_(i)], GM)
        s.check(nm + '#every species is one of these', or_(*[c_ for _, c_, _ in cases]), ci, GM)

    def generate(self):
        s = self.s
        name = 'GlobalModel.generate_initial_n'
        if self.skip(name):
            return
        w = World()
        it = s.interp({'GlobalModel.validate_initial_n': lambda it_, o, d: calls.append(d)})
        it.target = name
        calls = []
        cls = it.cls('pygmo_fwork.global_model', 'GlobalModel')

        def go():
            del calls[:]
            o = it.new(ip.SObj(cls))
            o.attrs['model'] = Stub('Model', {'chemistry': w.chemistry(), 'model_params': w.params()})
            r = it.call(it.getattr(o, 'generate_initial_n'), [], dict(ionisation_degree=w.ion, neg_ion_fraction=w.negf, non_feed_sp_fraction=w.nonf))
            return r, list(calls)
        outs = s.explore(it, name, go, w.hyps + [any_(w.sp, w.pos), any_(w.sp, lambda i: eq(w.q(i), num(0)))])
        if outs is None:
            return
        s.under_contract(name)
        for n, (c, v) in enumerate(outs):
            nm = '{}[{}]'.format(name, n)
            if v[0] == 'raise':
                s.check(nm + '#no exception', FALSE, c, GM)
                continue
            r, ds = v[1]
            if not isinstance(r, Named) or r.axis is not w.sp:
                s.unsup(nm, 'another kind of result')
                continue
            i = w.sp.new('i')
            s.check(nm + '#a density for every species', r.dom(i), c + [w.sp.member(i)], GM)
            s.check(nm + '#validated', TRUE if len(ds) == 1 and ds[0] is r else FALSE, c, GM)
            self.physical(nm, w, r.val, c, w.ion, w.negf, w.nonf)


    # ------------------------------------------------------------------------------------------------ the initial vector
    def model(self, it, w, cls, **extra):
        o = it.new(ip.SObj(cls))
        o.attrs.update({'chemistry': w.chemistry(), 'model_params': w.params()}, **extra)
        return o

    def vector(self, nm, w, v, c):
        """shape [densities in the order of the chemistry, energy]: (n, rho)"""
        if not (isinstance(v, Arr) and len(v.dims) == 1 and isinstance(v.dims[0], Cat) and len(v.dims[0].parts) == 2
                and v.dims[0].parts[0] is w.sp and v.dims[0].parts[1] is ONE):
            self.s.unsup(nm, 'vector of another shape {}'.format(v))
            return None
        f = v.frozen()
        return (lambda i: f((0, i))), f((1, None))

    def build(self, neutral):
        s = self.s
        mod, cn = NEUTRAL if neutral else BASE
        name = cn + '._build_y0'
        if self.skip(name):
            return
        w = World(neutral)
        it = s.interp()
        it.target = name
        cls = it.cls(*((mod, cn)))
        kw = {} if neutral else dict(el_temp=w.te, ionisation_degree=w.ion, neg_ion_fraction=w.negf, non_feed_sp_fraction=w.nonf)
        conds = w.hyps + [any_(w.sp, lambda i: TRUE)] + ([] if neutral else [any_(w.sp, w.pos), any_(w.sp, lambda i: eq(w.q(i), num(0)))])
        outs = s.explore(it, name, lambda: it.call(it.getattr(self.model(it, w, cls), '_build_y0'), [], kw), conds)
        if outs is None:
            return
        s.under_contract(name)
        for n, (c, v) in enumerate(outs):
            nm = '{}[{}]'.format(name, n)
            if v[0] == 'raise':
                s.check(nm + '#no exception', FALSE, c, MODEL)
                continue
            nr = self.vector(nm, w, v[1], c)
            if nr is None:
                continue
            y, rho = nr
            if not neutral:
                self.physical(nm, w, y, c, w.ion, w.negf, w.nonf)
                s.check(nm + '#energy density', eq(rho, num(Fraction(3, 2)) * w.S(lambda i: w.q(i) * y(i)) * w.te), c, MODEL)
                continue
            # neutral: the unfed species share one density below the rest; without feeds all are equal
            i, j = w.sp.new('i'), w.sp.new('j')
            ci = list(c) + [w.sp.member(i), w.sp.member(j)]
            anyfeed = any_(w.sp, w.fed)
            # the densities seeded are 1e-15 of the total: taken from the feeds before they are known to be fed, they are missing there
            # (a relative difference of 1e-15 for each feed, below the rounding): the total is met up to that
            left = w.nt - w.S(lambda i: ite(w.fed(i), num(0), y(i)))
            missing = num(Fraction(1, 10 ** 15)) * w.nt * w.S(lambda i: ite(w.fed(i), num(1), num(0)))
            slack = num(0)
            if tm.nf_equal(w.S(y), w.nt - missing, list(c)):
                slack = missing
            s.check(nm + '#they add up to pressure/(k Tg)', eq(w.S(y), w.nt - slack), c, MODEL)
            s.check(nm + '#in proportion to the feeds', eq(y(i) * w.feed(j), y(j) * w.feed(i)), ci + [w.fed(i), w.fed(j)], MODEL)
            s.check(nm + '#the others equal', eq(y(i), y(j)), ci + [not_(w.fed(i)), not_(w.fed(j))], MODEL)
            s.check(nm + '#equal without feeds', eq(y(i), y(j)), ci + [not_(anyfeed)], MODEL)
            s.check(nm + '#the others positive', lt(num(0), y(i)), ci + [not_(w.fed(i)), anyfeed], MODEL)
            s.check(nm + '#feeds: closed form', eq(y(i), w.feed(i) * (left - slack) / w.S(w.feed)), ci + [anyfeed, w.fed(i)], MODEL)
            s.check(nm + '#no electron energy', eq(rho, num(0)), c, MODEL)

    def run(self, neutral):
        """Model.run: the vector handed to the solver, or the documented error before"""
        s = self.s
        mod, cn = NEUTRAL if neutral else BASE
        w = World(neutral)
        te = w.te
        given = lambda i: app('given_n', (i,))
        has = lambda i: app('given_key', (i,), 'B')
        extra = const('given_other_keys', 'B')
        built = lambda i: app('built_n', (i,))
        rho0 = const('built_rho')
        charge = lambda n: w.S(lambda i: w.q(i) * n(i))
        for what in ('given', 'default'):
            name = '{}.run[{}]'.format(cn, what)
            if self.skip(name):
                continue
            asked = []

            def build(it_, o, *a, **d):
                asked.append(a[0] if a else d.get('el_temp'))
                return it_.new(Arr([Cat([w.sp, ONE])], lambda i: built(i[1]) if i[0] == 0 else rho0))
            it = s.interp({cn + '._build_y0': build, cn + '._build_equations': lambda it_, o: None, BASE[1] + '._build_equations': lambda it_, o: None})
            it.target = cn + '.run'
            pdm.install(it)

            def solve(it_, fun, t_span, y0, *a, **k):
                raise Solved(t_span, y0, list(asked))
            it.libs['scipy.integrate'] = lib.Lib('scipy.integrate', {'solve_ivp': Native(solve, 'solve_ivp')})
            cls = it.cls(mod, cn)

            def go():
                del asked[:]
                m = lambda fn: Native(lambda it, *a, **k: fn(), 'equations')
                o = self.model(it, w, cls, equations=Stub('Equations', dict(get_objective_functions=m(lambda: (const('func', 'S'), const('jac', 'S'))))))
                init = Given(w, has, given, extra) if what == 'given' else None
                try:
                    it.call(it.getattr(o, 'run'), [], dict(init_el_temp=te, init_n=it.new(init) if init is not None else None))
                except Solved as e:
                    return e
            outs = s.explore(it, name, go, w.hyps + [any_(w.sp, lambda i: TRUE)])
            if outs is None:
                continue
            s.under_contract(cn + '.run')
            keys = and_(not_(extra), all_(w.sp, has))
            valid = TRUE if neutral else lt(num(0), charge(given if what == 'given' else built))
            if what == 'given':
                valid = and_(keys, valid)
            for n, (c, v) in enumerate(outs):
                nm = '{}[{}]'.format(name, n)
                if v[0] == 'raise':
                    s.check(nm + '#refused only if inconsistent', not_(valid), c, MODEL)
                    if excname(v[1]) != 'InitialSolutionError':
                        s.check(nm + '#documented error', FALSE, c, MODEL)
                    continue
                if not isinstance(v[1], Solved):
                    s.unsup(nm, 'no call of the solver')
                    continue
                s.check(nm + '#solved only if consistent', valid, c, MODEL)
                span, y0, temps = v[1].args
                nr = self.vector(nm, w, y0, c)
                if nr is None:
                    continue
                y, rho = nr
                i = w.sp.new('i')
                s.check(nm + '#from zero to the end time', and_(eq(lift(span[0]), num(0)), eq(lift(span[1]), const('t_end'))), c, MODEL)
                s.check(nm + '#the densities', eq(y(i), (given if what == 'given' else built)(i)), list(c) + [w.sp.member(i)], MODEL)
                if what == 'default':
                    s.check(nm + '#the energy density', eq(rho, rho0), c, MODEL)
                    if not neutral:
                        s.check(nm + '#built once, at the electron temperature asked for', eq(temps[0], te) if len(temps) == 1 and temps[0] is not None else FALSE, c, MODEL)
                else:
                    s.check(nm + '#the energy density', eq(rho, num(0) if neutral else num(Fraction(3, 2)) * charge(given) * te), c, MODEL)

    # ------------------------------------------------------------------------------------------------ the wrapper
    def wrapper(self):
        s = self.s
        w = World()
        given = lambda i: app('given_n', (i,))
        has = lambda i: app('given_key', (i,), 'B')
        extra = const('given_other_keys', 'B')
        te = const('given_te')
        valid_n = and_(not_(extra), all_(w.sp, has), lt(num(0), w.S(lambda i: w.q(i) * given(i))))
        for name in ('GlobalModel.validate_initial_n', 'GlobalModel.run[given]', 'GlobalModel.run[default]'):
            if self.skip(name):
                continue
            made = []
            it = s.interp({'GlobalModel.generate_initial_n': lambda it_, o: made.append(it_.new(Given(w, lambda i: TRUE, given, FALSE))) or made[-1]}
                          if 'default' in name else None)
            it.target = name.split('[')[0]
            pdm.install(it)
            clock = lambda n: Native(lambda it_, *a, **k: const('junk_time', 'R' if n == 'time' else 'S'), n)
            it.libs['time'] = lib.Lib('time', {n: clock(n) for n in ('time', 'strftime', 'perf_counter')})
            cls = it.cls('pygmo_fwork.global_model', 'GlobalModel')

            def go():
                del made[:]
                o = it.new(ip.SObj(cls))

                def run(it_, *a, **k):
                    raise Solved(a, k, init)
                o.attrs['model'] = Stub('Model', {'chemistry': w.chemistry(), 'model_params': w.params(), 'run': Native(run, 'Model.run')})
                o.attrs['last_run_success'] = None
                init = None if 'default' in name else it.new(Given(w, has, given, extra))
                if 'validate' in name:
                    return it.call(it.getattr(o, 'validate_initial_n'), [init], {})
                try:
                    it.call(it.getattr(o, 'run'), [], dict(init_el_temp=te, init_n=init, log_results=False, verbose=False))
                except Solved as e:
                    return Solved(e.args[0], e.args[1], made[0] if made else e.args[2])
            outs = s.explore(it, name, go, w.hyps)
            if outs is None:
                continue
            s.under_contract(it.target)
            valid = valid_n if 'validate' in name else and_(lt(num(0), te), TRUE if 'default' in name else valid_n)
            for n, (c, v) in enumerate(outs):
                nm = '{}[{}]'.format(name, n)
                if v[0] == 'raise':
                    s.check(nm + '#refused only if inconsistent', not_(valid), c, GM)
                    if excname(v[1]) != 'GlobalModelInitialGuessError':
                        s.check(nm + '#documented error', FALSE, c, GM)
                    continue
                s.check(nm + '#passes only if consistent', valid, c, GM)
                if 'validate' in name:
                    continue
                if not isinstance(v[1], Solved):
                    s.unsup(nm, 'no run of the model')
                    continue
                a, k, init = v[1].args
                k = dict(zip(('init_el_temp', 'init_n'), a), **k)
                s.check(nm + '#the model runs from the electron temperature', eq(lift(k.get('init_el_temp')), te), c, GM)
                s.check(nm + '#and from these densities', TRUE if k.get('init_n') is init and init is not None else FALSE, c, GM)


class Solved(Exception):
    """the end of the path: the solver is called"""


class Given(Named):
    """a mapping from texts to numbers: of some species, and of other texts if `extra`"""

    def __init__(self, w, dom, val, extra):
        Named.__init__(self, w.sp, 'name', FALSE, dom, val)
        self.extra, self.w = extra, w

    def copy(self):
        return Given(self.w, self.f[1], self.f[2], self.extra)

    def texts(self):
        t = Named.texts(self)
        return Texts(t.axis, t.text, t.pred, self.extra)

    def unknown(self, *a):
        raise Unsupported('the keys of an arbitrary mapping')

    sym_iter = sym_len = keys = unknown

    def sym_set(self, it):
        return self.texts()


MODEL = 'pygmo_fwork/pygmol/model.py'
BASE = ('pygmo_fwork.pygmol.model', 'Model')
NEUTRAL = ('pygmo_fwork.pygmol.neutral_model', 'NeutralModel')


def generate(s):
    tm.COMPARE = compare
    tm.EXCLUSIVE |= set(KINDS)
    for k in KINDS:
        numeval.DEFS[k] = lambda m, a, k=k: kind(m, a) == k
        tm.FACTS[k] = [lambda a: [not_(and_(a, app(o, a.args[1:], 'B'))) for o in KINDS if o != a.args[0]]]
    for k in POS:
        tm.FACTS[k] = [lambda a: [mk('lt', (num(0), a), 'B')]]
    s.assumptions |= {'the feed gases are neutral species of the chemistry (feeds naming no species are refused: checked concretely)'}
    k = Init(s)
    k.generate()
    k.build(False)
    k.build(True)
    k.run(False)
    k.run(True)
    k.wrapper()
