"""Contracts of SolutionsDiff (C17): the differences of two solutions, their extrema and RMS, refusals.

A solution is a table with any columns and any number of rows; the outputs and times asked for are axes of any size with arbitrary entries.
scipy's interp1d is an assumed contract: a function of the column of times, the column of values and the time, which refuses the times outside."""
import ast
from terms import *
from values import *
import terms as tm
import interp as ip
import lib
import numeval
import pandas_ as pdm
from lib import Stub, Native, force
from rx import excname

FILE = 'pygmo_fwork/optichem/errors.py'
MOD, CLS = 'pygmo_fwork.optichem.errors', 'SolutionsDiff'
K = Axis('times')
J = Axis('outputs')
time = lambda k: app('time', (k,))
out_ = lambda j: app('out', (j,), 'S')


def define(t_):
    """names the columns of a solution, and their interpolation"""
    numeval.HINTS[t_ + '_has'] = lambda r: r.random() < 0.9
    numeval.HINTS[t_ + '_at_first'] = lambda r: r.choice((0.1, 0.1, 0.1, 1.3))
    numeval.HINTS[t_ + '_at_last'] = lambda r: r.choice((4.0, 4.0, 4.0, 1.7))
    def interp_(m, a, t_=t_):
        x, y, t = a
        at = lambda w, c: m.ev(app('{}_at_{}'.format(t_, w), (lift(c),)), {})
        for w in ('first', 'last'):
            if numeval.close(at(w, x), t):
                return numeval.D(at(w, y))
        k = (t_ + '_interp', a)
        if k not in m.tab:
            m.tab[k] = m.sample(t_ + '_interp', 'R')
        return m.tab[k]

    def ends_(a, t_=t_):
        _, x, y, t = a.args
        at = lambda w, c: app('{}_at_{}'.format(t_, w), (c,))
        return [implies(eq(t, at(w, x)), eq(a, at(w, y))) for w in ('first', 'last')]
    numeval.DEFS[t_ + '_interp'] = interp_
    tm.FACTS[t_ + '_interp'] = [ends_]


for t_ in ('full', 'red', 'full2'):
    define(t_)
numeval.HINTS['time'] = lambda r: r.uniform(0.5, 3)
numeval.HINTS['accepted'] = lambda r: r.random() < 0.9


class Sol:
    libtype = 'pandas.DataFrame'

    def __init__(self, tag):
        self.tag = tag

    def has(self, text):
        return or_(eq(text, lift('t')), app(self.tag + '_has', (text,), 'B'))

    def first(self):
        return app(self.tag + '_at_first', (lift('t'),))

    def last(self):
        return app(self.tag + '_at_last', (lift('t'),))

    def inside(self, t):
        return and_(not_(lt(t, self.first())), not_(lt(self.last(), t)))

    def at(self, out, t):
        return app(self.tag + '_interp', (lift('t'), out, t))

    # the table in the program
    def sym_isinstance(self, it, cls):
        return cls is object

    def sym_getattr(self, it, name):
        if name == 'columns':
            return Cols(self)
        raise Unsupported('solution.' + name)

    def sym_getitem(self, it, k):
        k = force(it, k)
        k = lift(k) if isinstance(k, str) else k
        if not (isinstance(k, T) and k.sort == 'S'):
            raise Unsupported('item of a solution')
        if not it.branch(self.has(k)):
            it.raise_(KeyError, k)
        return Col(self, k)

    def sym_contains(self, it, k):
        return Cols(self).sym_contains(it, k)


class Cols:
    def __init__(self, sol):
        self.sol = sol

    def sym_contains(self, it, k):
        k = force(it, k)
        return it.unbool(self.sol.has(lift(k)))


class Col:
    def __init__(self, sol, text):
        self.sol, self.text = sol, text

    def sym_getattr(self, it, name):
        if name == 'iloc':
            return Ends(self)
        if name in ('values',):
            return self
        if name == 'astype':
            def astype(it_, t, **k):
                if getattr(t, 'pytype', None) is not float and getattr(t, 'name', '') not in ('float', 'numpy.float64'):
                    raise Unsupported('type of a column')
                return self
            return Native(astype, name)
        if name in ('min', 'max', 'to_numpy') and self.text is lift('t'):
            # times ascend
            return Native(lambda it_: self if name == 'to_numpy' else self.sol.first() if name == 'min' else self.sol.last(), name)
        raise Unsupported('column.' + name)


class Ends:
    def __init__(self, col):
        self.col = col

    def sym_getitem(self, it, k):
        k = force(it, k)
        if k in (0, -1) and not isinstance(k, T):
            return app('{}_at_{}'.format(self.col.sol.tag, 'first' if k == 0 else 'last'), (self.col.text,))
        raise Unsupported('row of a solution')


def column(x):
    if not isinstance(x, Col):
        raise Unsupported('interpolation of something else')
    return x


def interp1d(it, x, y, **kw):
    x, y = column(x), column(y)
    if x.sol is not y.sol or (set(kw) - {'kind'}) or kw.get('kind', 'linear') != 'linear':
        raise Unsupported('interpolation')
    s = x.sol

    def f(it_, t):
        t = force(it_, t)
        if isinstance(t, Arr) and len(t.dims) == 1:
            g = t.frozen()
            if not it_.branch(all_(t.dims[0].base, lambda i: implies(t.dims[0].member(i), and_(
                    not_(lt(lift(g(i)), app(s.tag + '_at_first', (x.text,)))), not_(lt(app(s.tag + '_at_last', (x.text,)), lift(g(i)))))))):
                it_.raise_(ValueError)
            return it_.new(Arr(t.dims, lambda i: app(s.tag + '_interp', (x.text, y.text, lift(g(i))))))
        t = lift(t)
        if not it_.branch(and_(not_(lt(t, app(s.tag + '_at_first', (x.text,)))), not_(lt(app(s.tag + '_at_last', (x.text,)), t)))):
            it_.raise_(ValueError)
        return app(s.tag + '_interp', (x.text, y.text, t))
    return Native(f, 'interpolant')


def np_interp(it, t, x, y, left=None, right=None):
    x, y = column(x), column(y)
    if x.sol is not y.sol or left is not None or right is not None:
        raise Unsupported('interpolation')
    s, t = x.sol, force(it, t)
    if isinstance(t, Arr) and len(t.dims) == 1:
        g = t.frozen()
        return it.new(Arr(t.dims, lambda i: np_interp(it, g(i), x, y)))
    t = lift(t)
    at = lambda w, c: app('{}_at_{}'.format(s.tag, w), (c,))
    return ite(lt(t, at('first', x.text)), at('first', y.text), ite(lt(at('last', x.text), t), at('last', y.text), app(s.tag + '_interp', (x.text, y.text, t))))


class Errors:
    def __init__(self, s):
        self.s = s

    def interp(self, contracts=None):
        it = self.s.interp(contracts)
        pdm.install(it)
        for k in ('numpy', 'np'):
            it.libs[k] = ip.Lib('numpy', dict(it.libs[k].ns, interp=Native(np_interp, 'numpy.interp')))
        it.libs['scipy.interpolate'] = ip.Lib('scipy.interpolate', {'interp1d': Native(interp1d, 'interp1d')})
        return it

    def delta(self, red, full, out, k, biggest):
        f, r = full.at(out, time(k)), red.at(out, time(k))
        return num(2) * (r - f) / (f + biggest)

    def valid(self, sols, out):
        return and_(*[and_(x.has(out), all_(K, lambda k, x=x: x.inside(time(k)))) for x in sols])

    def times(self, it):
        return it.new(Arr([K], time, kind='list'))

    def diff(self, it, full):
        return it.call(it.cls(MOD, CLS), [full], {})

    def results(self, name, run, full, red, post, out=None, contracts=None, conds=()):
        """run(it, o, red): the result of a method on a new object; post(nm, c, value)"""
        s = self.s
        if s.only and s.only not in name:
            return
        it = self.interp(contracts)
        it.target = name.split('[')[0]
        outs = s.explore(it, name, lambda: run(it), [any_(K, lambda k: TRUE), any_(J, lambda k: TRUE)] + list(conds))
        if outs is None:
            return
        s.under_contract(name.split('[')[0])
        for n, (c, v) in enumerate(outs):
            nm = '{}[{}]'.format(name, n)
            ok = self.valid((full, red), out) if out is not None else and_(*[all_(J, lambda j: x.has(out_(j))) for x in (full, red)],
                                                                         *[all_(K, lambda k, x=x: x.inside(time(k))) for x in (full, red)])
            if v[0] == 'raise':
                s.check(nm + '#refused only if missing or outside', not_(ok), c, FILE)
                if excname(v[1]) not in ('AssertionError', 'ValueError', 'KeyError'):
                    s.check(nm + '#kind of refusal', FALSE, c, FILE)
                continue
            s.check(nm + '#refuses what is missing or outside', ok, c, FILE)
            post(nm, c, v[1])

    def generate(self):
        s = self.s
        full, red, full2 = Sol('full'), Sol('red'), Sol('full2')
        o = const('output', 'S')
        big = lambda f, out: lib.extremum_of('max', K, lambda k: f.at(out, time(k)))[0]
        facts = lambda f, out: lib.bounds('max', K, lambda k: f.at(out, time(k)))[1]

        def array(f, r):
            def post(nm, c, v):
                if not (isinstance(v, Arr) and len(v.dims) == 1 and v.dims[0] is K):
                    return s.unsup(nm, 'another kind of result')
                k = K.new('k')
                s.check(nm + '#the documented difference', eq(v.at(k), self.delta(r, f, o, k, big(f, o))), list(c) + facts(f, o) + [K.member(k)], FILE)
                if r is f:
                    s.check(nm + '#zero against itself', eq(v.at(k), num(0)), list(c) + [K.member(k)], FILE)
            return post
        call = lambda it, obj, m, *a: it.call(it.getattr(obj, m), list(a), {})
        name = CLS + '.get_output_errors'
        self.results(name, lambda it: call(it, self.diff(it, full), 'get_output_errors', red, o, self.times(it)), full, red, array(full, red), o)
        self.results(name + '[itself]', lambda it: call(it, self.diff(it, full), 'get_output_errors', full, o, self.times(it)), full, full, array(full, full), o)

        def switched(it):
            d = self.diff(it, full2)
            try:
                call(it, d, 'get_output_errors', red, o, self.times(it))
            except ip.PyExc:
                pass
            call(it, d, 'reset', full)
            return call(it, d, 'get_output_errors', red, o, self.times(it))
        self.results(CLS + '.reset[after another]', switched, full, red, array(full, red), o)

        def value(want):
            return lambda nm, c, v: s.equal(nm + '#post', v, want, c, FILE)
        rms = lambda axis, f: tm.sqrt(sum_(axis, lambda k: f(k) * f(k)) / axis.length)
        # of an output, by the contract of get_output_errors (whose refusals are those of the first contract)
        d_ = lambda out, k: app('delta', (out, k))
        ok_ = lambda out: app('accepted', (out,), 'B')

        def errors(it, obj, sol, out, times):
            if sol is not red or not (isinstance(times, Arr) and times.dims[0] is K):
                raise Unsupported('other arguments')
            if not it.branch(ok_(lift(out))):
                it.raise_(AssertionError)
            return it.new(Arr([K], lambda k: d_(lift(out), k)))
        for m, want in (('get_output_error_max', lambda: lib.extremum_of('max', K, lambda k: tm.abs_(d_(o, k)))[0]), ('get_output_error_rms', lambda: rms(K, lambda k: d_(o, k)))):
            self.by_contract(CLS + '.' + m, {CLS + '.get_output_errors': errors},
                             lambda it, m=m: call(it, self.diff(it, full), m, red, o, self.times(it)), ok_(o), want)
        # of several outputs, by the contract of these
        e_ = {q: (lambda out, q=q: app('error_' + q, (out,))) for q in ('max', 'rms')}

        def one(q):
            def f(it, obj, sol, out, times):
                if sol is not red or not (isinstance(times, Arr) and times.dims[0] is K):
                    raise Unsupported('other arguments')
                if not it.branch(ok_(lift(out))):
                    it.raise_(AssertionError)
                return e_[q](lift(out))
            return f
        for q, want in (('max', lambda: lib.extremum_of('max', J, lambda j: e_['max'](out_(j)))[0]), ('rms', lambda: rms(J, lambda j: e_['rms'](out_(j))))):
            m = 'get_error_' + q
            self.by_contract(CLS + '.' + m, {CLS + '.get_output_error_' + q: one(q)},
                             lambda it, m=m: call(it, self.diff(it, full), m, red, it.new(Arr([J], out_, kind='list', dtype='S')), self.times(it)),
                             all_(J, lambda j: ok_(out_(j))), want)

    def by_contract(self, name, contracts, run, ok, want):
        s = self.s
        if s.only and s.only not in name:
            return
        it = self.interp(contracts)
        it.target = name
        outs = s.explore(it, name, lambda: run(it), [any_(K, lambda k: TRUE), any_(J, lambda k: TRUE)])
        if outs is None:
            return
        s.under_contract(name)
        for n, (c, v) in enumerate(outs):
            nm = '{}[{}]'.format(name, n)
            if v[0] == 'raise':
                s.check(nm + '#refused only if the differences are', not_(ok), c, FILE)
                continue
            s.check(nm + '#refuses what the differences refuse', ok, c, FILE)
            s.equal(nm + '#post', v[1], want(), c, FILE)


def generate(s):
    s.assumptions |= {'scipy.interpolate.interp1d is piecewise linear interpolation, and refuses values outside of the range of its table',
                      'the columns of a solution are numbers, its times ascend'}
    Errors(s).generate()
