"""Contracts of pygmo_fwork/pygmol/model_parameters.py: C11.

The parameters are Python values of any type (the type is a symbolic choice); power and time series are collections of any length with elements
of any type, the feeds a dictionary with any number of keys and values of any type. The classes are verified one after the other, each against
the contracts of those it uses: TypeCheck, the feeds, the power and time series, ModelParameters. No private state is named: an object in an
arbitrary state is made by its real constructor and its real setters, and is observed by its getters."""
import itertools
from terms import *
from values import *
import terms as tm
import interp as ip
import lib
from lib import NAN, Native
from rx import excname, same_dict
from maps import SymMap

MOD = 'pygmo_fwork.pygmol.model_parameters'
F = 'pygmo_fwork/pygmol/model_parameters.py'
ERRS = ('ModelParametersError', 'ModelParametersConsistencyError', 'ModelParametersTypeError')
KINDS = ('None', 'bool', 'int', 'float', 'np.float64', 'nan', 'str', 'other')
NUMS = ('int', 'float', 'np.float64')
NAMES = {'radius': ('radius', 'r', 'R'), 'length': ('length', 'z', 'Z'), 'pressure': ('pressure', 'p'), 'power': ('power', 'P'),
         't_power': ('t_power', 't_P', 'time_P', 'time_power'), 'temp_gas': ('temp_gas', 'Tg', 'T_g', 'gas_temp'),
         'feeds': ('feeds', 'feed_flows'), 't_end': ('t_end', 'time_end', 'end_time')}
NUMERIC = ('radius', 'length', 'pressure', 'temp_gas', 't_end')


def value(name, kinds, args=(), extra=None):
    """a Python value of one of the kinds; with args: the element at a position"""
    mk_ = (lambda n, sort: app(n, args, sort)) if args else (lambda n, sort: const(n, sort))
    cases, d, prev = [], Dyn(name, None), []
    d.by, d.is_, d.conds = {}, {}, []
    for k in kinds:
        b = mk_('type_{}_{}'.format(name, k), 'B')
        d.is_[k] = and_(*([b] if k != kinds[-1] else []), *[not_(x) for x in prev])
        prev.append(b)
        if k == 'None':
            v = None
        elif k == 'bool':
            v = mk_('v_{}_bool'.format(name), 'B')
        elif k in NUMS:
            n = 'v_{}_{}'.format(name, k.split('.')[-1])
            v = mk_(n, 'R')
            ty = {'int': (int,), 'float': (float,), 'np.float64': (FLOAT64, float)}[k]
            if args:
                TYPES_FN[n] = ty
            else:
                TYPES[v] = ty
        elif k == 'nan':
            v = NAN
        elif k == 'str':
            v = mk_('v_{}_str'.format(name), 'S')
            d.conds.append(not_(eq(v, NONE)))
        elif k == 'other':
            v = Other(name)
        else:
            v = (extra or {})[k]
        d.by[k] = v
        cases.append((b, v))
    d.cases = cases
    return d


def is_number(d):
    return or_(*[c for k, c in d.is_.items() if k in NUMS])


def number(d):
    t = None
    for k, c in d.is_.items():
        if k in NUMS:
            t = d.by[k] if t is None else ite(c, d.by[k], t)
    return t


def positive(d):
    return and_(is_number(d), lt(num(0), number(d)))


def nonneg(d):
    return and_(is_number(d), not_(lt(number(d), num(0))))


class Coll:
    """a collection of unknown length with elements of any type: list, tuple or array; its elements may be replaced later"""

    def __init__(self, name, axis=None, el=None, kinds=KINDS, pos=None):
        self.name = name
        self.axis = axis or Axis('c_' + name)
        self.el = el or (lambda i: value('e_' + name, kinds, (i,)))
        self.pos = pos or {0: const('first_' + name, 'I'), -1: const('last_' + name, 'I')}

    def facts(self):
        return [implies(lt(num(0), self.axis.length), and_(*[self.axis.member(p) for p in self.pos.values()]))]

    def sym_len(self, it):
        return self.axis.length

    def sym_iter(self, it):
        return self.axis, self.el

    def sym_list(self, it):
        return it.new(Coll(self.name, self.axis, self.el, pos=self.pos))

    def sym_getitem(self, it, k):
        n = lib.concrete_int(k)
        if n not in self.pos:
            raise Unsupported('item of a collection')
        if not it.branch(lt(num(0), self.axis.length)):
            it.raise_(IndexError)
        return self.el(self.pos[n])

    def sym_getattr(self, it, name):
        if name == '__iter__':
            return Native(lambda it_: self, name)
        if name == 'copy':
            return Native(lambda it_: self.sym_list(it_), name)
        raise Unsupported('{} of a collection'.format(name))

    def sym_isinstance(self, it, cls):
        cls = getattr(cls, 'pytype', cls)
        if cls in (str, bytes, bytearray, dict, int, float, bool, set) or getattr(cls, 'name', '').startswith('numbers.'):
            return False
        raise Unsupported('type of a collection')

    def same(self, o):
        return isinstance(o, Coll) and o.axis is self.axis and o.el is self.el

    def all(self, f):
        return all_(self.axis, lambda i: f(self.el(i)))

    def poison(self):
        """someone changes the elements of this collection"""
        self.el = lambda i: value('changed_' + self.name, ('str', 'other'), (i,))


class Feeds:
    """a dictionary with any number of keys and values of any type"""

    def __init__(self, name, axis=None, el=None):
        self.name = name
        self.axis = axis or Axis('f_' + name)
        self.el = el or (lambda i: (value('k_' + name, ('None', 'int', 'float', 'str', 'other'), (i,)), value('v_' + name, KINDS, (i,))))

    def sym_getattr(self, it, name):
        if name == 'items':
            return Native(lambda it_: Pairs(self), name)
        if name == 'copy':
            return Native(lambda it_: self.sym_dict(it_), name)
        if name in ('keys', 'values'):
            return Native(lambda it_: Pairs(self, 0 if name == 'keys' else 1), name)
        raise Unsupported('{} of a dictionary'.format(name))

    def sym_iter(self, it):
        return self.axis, (lambda i: self.el(i)[0])

    def sym_getitem(self, it, k):
        raise Unsupported('item of the feeds')

    def sym_len(self, it):
        return self.axis.length

    def sym_dict(self, it):
        return Feeds(self.name, self.axis, self.el)

    def sym_isinstance(self, it, cls):
        cls = getattr(cls, 'pytype', cls)
        if cls is dict:
            return True
        if cls in (str, bytes, bytearray, int, float, bool, set, list, tuple) or getattr(cls, 'name', '').startswith('numbers.'):
            return False
        raise Unsupported('type of a dictionary')

    def same(self, o):
        return isinstance(o, Feeds) and o.axis is self.axis and o.el is self.el

    def valid(self):
        return all_(self.axis, lambda i: and_(self.el(i)[0].is_['str'], positive(self.el(i)[1])))

    def poison(self):
        self.el = lambda i: (value('ck_' + self.name, ('str', 'other'), (i,)), value('cv_' + self.name, ('str', 'other'), (i,)))


class Pairs:
    def __init__(self, d, k=None):
        self.d, self.k = d, k

    def sym_iter(self, it):
        return self.d.axis, (self.d.el if self.k is None else lambda i: self.d.el(i)[self.k])


class ParamsKit:
    def __init__(self, s):
        self.s = s
        s.assumptions |= {
            'numbers are int, float or numpy.float64 values that are finite and compared as mathematical numbers, or NaN; an object of a type unknown '
            'to the program is neither a number nor a text nor a collection',
            'a collection (list, tuple, array) has the same elements each time that it is looked at, until someone changes it; list() of it is a new '
            'list with the same elements'}

    def skip(self, what):
        return self.s.only and self.s.only not in what

    def run(self, it, label, fn, conds):
        return self.s.explore(it, label, fn, conds)

    def decide(self, label, outs, valid, post=None, exceptions=ERRS):
        """accepted exactly if valid, refused with the documented errors; post(result, conds, label) on acceptance.
        Every path returns ('ok', result) or ('raise', exception, result)"""
        s = self.s
        for n, (c, v) in enumerate(outs):
            if v[0] == 'raise':
                s.check('{}#setup[{}]'.format(label, n), FALSE, c, F)
                continue
            r = v[1]
            if r[0] == 'raise':
                s.check('{}#refused only if invalid[{}]'.format(label, n), not_(valid), c, F)
                if excname(r[1]) not in exceptions:
                    s.check('{}#documented error[{}]'.format(label, n), FALSE, c, F)
            else:
                s.check('{}#accepted only if valid[{}]'.format(label, n), valid, c, F)
            if post:
                post(r, c, '{}[{}]'.format(label, n))

    def attempt(self, it, f, *rest):
        try:
            r = f()
        except ip.PyExc as e:
            return ('raise', e) + tuple(x() for x in rest)
        return ('ok', r) + tuple(x() for x in rest)

    # ---------------------------------------------------------------- TypeCheck
    def typecheck(self):
        s = self.s
        allk = KINDS + ('coll', 'dict')
        cases = [('assert_is_number', ('positive',), positive), ('assert_is_number', ('non-negative',), nonneg), ('assert_is_number', ('any',), is_number),
                 ('assert_is_number', (), positive), ('assert_is_string', (), lambda d: d.is_['str']), ('assert_is_dict', (), lambda d: d.is_['dict']),
                 ('assert_is_collection', (), lambda d: or_(d.is_['coll'], d.is_['dict']))]
        for fn, args, spec in cases:
            name = 'TypeCheck.' + fn
            if self.skip(name):
                continue
            d = value('x', allk, extra={'coll': Coll('xs'), 'dict': Feeds('xd')})
            it = s.interp()
            it.target = name
            label = '{}[{}]'.format(name, ','.join(args))
            outs = self.run(it, label, lambda: self.attempt(it, lambda: it.call(it.getattr(it.instantiate(it.cls(MOD, 'TypeCheck'), [], {}), fn),
                                                                                [d] + list(args), {})), d.conds)
            if outs is None:
                continue
            s.under_contract(name)
            self.decide(label, outs, spec(d), exceptions=('ModelParametersTypeError',))
        name = 'TypeCheck.is_collection'
        if not self.skip(name):
            d = value('x', allk, extra={'coll': Coll('xs'), 'dict': Feeds('xd')})
            it = s.interp()
            it.target = name
            outs = self.run(it, name, lambda: it.call(it.getattr(it.instantiate(it.cls(MOD, 'TypeCheck'), [], {}), 'is_collection'), [d], {}), d.conds)
            if outs is not None:
                s.under_contract(name)
                for n, (c, v) in enumerate(outs):
                    if v[0] == 'raise':
                        s.check('{}#total[{}]'.format(name, n), FALSE, c, F)
                    else:
                        s.equal('{}#post[{}]'.format(name, n), v[1], or_(d.is_['coll'], d.is_['dict']), c, F)

    # contracts of TypeCheck, as verified above
    def type_contracts(self):
        def err(it):
            it.raise_(it.cls('pygmo_fwork.pygmol.exceptions', 'ModelParametersTypeError'))

        def is_num(it, *a, **k):
            a = [x for x in a if not (isinstance(x, SObj) and '@dict' not in x.attrs)]
            item = k.get('item', a[0] if a else None)
            ty = k.get('number_type', a[1] if len(a) > 1 else 'positive')
            spec = {'positive': positive, 'non-negative': nonneg, 'any': is_number}.get(ty)
            if isinstance(item, Other):
                err(it)
            if not isinstance(item, Dyn) or spec is None:
                raise Unsupported('assert_is_number of {}'.format(item))
            if not it.branch(spec(item)):
                err(it)

        def is_str(it, *a, **k):
            item = k.get('item', a[-1] if a else None)
            if isinstance(item, Other):
                err(it)
            if not isinstance(item, Dyn):
                raise Unsupported('assert_is_string')
            if not it.branch(item.is_['str']):
                err(it)
        return {'TypeCheck.assert_is_number': is_num, 'TypeCheck.assert_is_string': is_str}

    # ---------------------------------------------------------------- feeds
    def feeds(self):
        s = self.s
        name = '_ModelParametersFeeds.__init__'
        if not self.skip(name):
            it = s.interp(self.type_contracts())
            it.target = name
            d = Feeds('feeds')
            el0 = d.el

            def go():
                d.el = el0
                r = self.attempt(it, lambda: it.instantiate(it.cls(MOD, '_ModelParametersFeeds'), [d], {}), lambda: d.el is el0)
                if r[0] == 'ok':
                    d.poison()
                    r = r + (lib.b_dict(it, r[1]),)
                d.el = el0
                return r
            outs = self.run(it, name, go, [])
            if outs is not None:
                s.under_contract(name)

                def post(r, c, label):
                    s.check(label + '#argument untouched', TRUE if r[2] else FALSE, c, F)
                    if r[0] == 'ok':
                        s.check(label + '#reads back as passed, whatever happens to the argument', TRUE if d.same(r[3]) and r[3] is not d else FALSE, c, F)
                self.decide(name, outs, d.valid(), post, ('ModelParametersTypeError',))
        name = '_ModelParametersFeeds.__setitem__'
        if not self.skip(name):
            it = s.interp(self.type_contracts())
            it.target = name
            k, v = value('key', ('None', 'int', 'float', 'str', 'other')), value('val', KINDS)
            o = {}

            def go2():
                o['f'] = it.instantiate(it.cls(MOD, '_ModelParametersFeeds'), [{}], {})
                return self.attempt(it, lambda: it.call(it.getattr(o['f'], '__setitem__'), [k, v], {}))
            outs = self.run(it, name, go2, k.conds + v.conds)
            if outs is not None:
                s.under_contract(name)
                self.decide(name, outs, and_(k.is_['str'], positive(v)), None, ('ModelParametersTypeError',))

    # ---------------------------------------------------------------- power and time series
    def power(self):
        s = self.s
        cls = '_ModelParametersPower'
        specs = {'power': nonneg, 'time': is_number}
        for what, other in (('power', 'time'), ('time', 'power')):
            for pre in ((), (other,), (what,), (other, what), (what, other)):
                name = '{}.set_{}'.format(cls, what)
                label = '{}[{}]'.format(name, '+'.join(pre) or 'fresh')
                if self.skip(name):
                    continue
                it = s.interp(self.type_contracts())
                it.target = name
                A, old = Coll('new'), {k: Coll('old_' + k) for k in pre}
                els = {c: c.el for c in [A] + list(old.values())}

                def go():
                    for c, e in els.items():
                        c.el = e
                    o = it.instantiate(it.cls(MOD, cls), [], {})
                    for k in pre:
                        try:
                            it.call(it.getattr(o, 'set_' + k), [old[k]], {})
                        except ip.PyExc:
                            raise ip.Infeasible()
                    r = self.attempt(it, lambda: it.call(it.getattr(o, 'set_' + what), [A], {}), lambda: A.el is els[A])
                    for c in els:
                        c.poison()  # later changes of the collections passed
                    g = {k: it.call(it.getattr(o, 'get_' + k), [], {}) for k in ('power', 'time')}
                    for k in g:
                        if isinstance(g[k], Coll):
                            g[k].poisoned = g[k].el
                            e = g[k].el
                            g[k].poison()  # and of those returned
                            g[k].el, g[k].mine = e, True
                    again = {k: it.call(it.getattr(o, 'get_' + k), [], {}) for k in ('power', 'time')}
                    for c, e in els.items():
                        c.el = e
                    return r + (g, again)
                outs = self.run(it, label, go, [])
                if outs is None:
                    continue
                s.under_contract(name)
                s.under_contract(cls + '.get_power')
                s.under_contract(cls + '.get_time')
                L = A.axis.length
                valid = and_(not_(lt(L, num(2))), A.all(specs[what]), *([eq(L, old[other].axis.length)] if other in pre else []))

                def post(r, c, lb):
                    s.check(lb + '#argument untouched', TRUE if r[-3] else FALSE, c, F)
                    want = dict(old)
                    if r[0] == 'ok':
                        want[what] = A
                    g, again = r[-2:]
                    for k in ('power', 'time'):
                        w = want.get(k)
                        for q, x in (('', g[k]), (' again', again[k])):
                            good = x is None if w is None else w.same(x) and x is not w
                            s.check('{}#{} reads back as set{}'.format(lb, k, q), TRUE if good else FALSE, c, F)
                        if isinstance(g[k], Coll):
                            s.check('{}#{} is returned in a container of its own'.format(lb, k), TRUE if g[k] is not again[k] else FALSE, c, F)
                self.decide(label, outs, valid, post, ('ModelParametersConsistencyError', 'ModelParametersTypeError'))
        name = cls + '.assert_consistency'
        if self.skip(name):
            return
        for pre in ((), ('power',), ('time',), ('power', 'time')):
            label = '{}[{}]'.format(name, '+'.join(pre) or 'fresh')
            it = s.interp(self.type_contracts())
            it.target = name
            old = {k: Coll('old_' + k) for k in pre}
            te = value('t_end', NUMS)

            def go3():
                o = it.instantiate(it.cls(MOD, cls), [], {})
                for k in pre:
                    try:
                        it.call(it.getattr(o, 'set_' + k), [old[k]], {})
                    except ip.PyExc:
                        raise ip.Infeasible()
                return self.attempt(it, lambda: it.call(it.getattr(o, 'assert_consistency'), [], {'t_end': te}))
            outs = self.run(it, label, go3, [lt(num(0), number(te))] + [f for c in old.values() for f in c.facts()])
            if outs is None:
                continue
            s.under_contract(name)
            if len(pre) == 2:
                t = old['time']
                first, last = number(t.el(t.pos[0])), number(t.el(t.pos[-1]))
                valid = and_(not_(lt(num(0), first)), not_(lt(last, mul(num(1.1), number(te)))))
            else:
                valid = FALSE
            self.decide(label, outs, valid, None, ('ModelParametersConsistencyError',))

    # ---------------------------------------------------------------- ModelParameters
    def params(self):
        s = self.s
        name = 'ModelParameters.__init__'
        nominal = list(NAMES)
        orders = [nominal, nominal[::-1], ['t_end', 't_power', 'power', 'feeds'] + list(NUMERIC[:4])]
        cases = []
        for o in orders:
            for how in ('dict', 'keywords', 'split', 'override'):
                cases.append((list(o), {}, how))
        for q, (k, names) in enumerate((k, n) for k, ns in NAMES.items() for n in ns[1:]):
            cases.append((nominal, {k: names}, ('dict', 'keywords', 'split', 'override')[q % 4]))
        cases.append((nominal, {k: ns[-1] for k, ns in NAMES.items()}, 'split'))
        for k in nominal:
            cases.append(([x for x in nominal if x != k], {}, 'dict'))
        cases.append(([], {}, 'dict'))
        cases.append(([], {}, 'none'))
        for bad in ('foo', 'Pressure', 'feed', '', 'T'):
            cases.append((nominal + [bad], {}, 'dict'))
        cases.append((nominal + ['foo'], {}, 'keywords'))
        cases.append((nominal[1:] + ['foo'], {}, 'keywords'))
        s.bounded.append('ModelParameters: the names under which the parameters are passed: all the nominal ones in three orders and as dictionary, keywords, '
                         'half and half, and with a keyword overriding the dictionary; each alternative name alone, all the last ones; each parameter '
                         'missing, none at all; six unknown names (values of any type, series and feeds of any size)')
        for keys, alias, how in cases:
            self.params1(name, keys, alias, how)

    def params1(self, name, keys, alias, how):
        s = self.s
        label = '{}[{} as {}]'.format(name, '+'.join(alias.get(k, k) for k in keys) if len(keys) != 8 or alias else '-'.join(k[:5] for k in keys), how)
        if self.skip(label):
            return
        ok = {k: const('ok_' + k, 'B') for k in ('power', 't_power', 'lengths', 'span', 'feeds')}
        power, time, feeds = Coll('power'), Coll('time'), Feeds('feeds')
        els = {c: c.el for c in (power, time, feeds)}
        coll = ('coll', 'None', 'str', 'int', 'other')
        vals = {k: value(k, KINDS + ('dict',), extra={'dict': {}}) for k in NUMERIC}
        vals['power'] = value('power', coll, extra={'coll': power})
        vals['t_power'] = value('t_power', coll, extra={'coll': time})
        vals['feeds'] = value('feeds', ('dict', 'None', 'str', 'int', 'other', 'coll'), extra={'dict': feeds, 'coll': Coll('nofeeds')})
        vals['bad'] = Other('bad')
        cons = dict(self.type_contracts())
        E = 'pygmo_fwork.pygmol.exceptions'

        def setter(mine, others, cond):
            def f(it, o, arr):
                arr = lib.force(it, arr)
                if not isinstance(arr, Coll):
                    raise Unsupported('series')
                if not it.branch(ok[cond]):
                    it.raise_(it.cls(E, 'ModelParametersTypeError'))
                if ('@' + others) in o.attrs and not it.branch(ok['lengths']):
                    it.raise_(it.cls(E, 'ModelParametersConsistencyError'))
                o.attrs['@' + mine] = arr.sym_list(it)
            return f

        def getter(mine):
            return lambda it, o: o.attrs['@' + mine].sym_list(it) if '@' + mine in o.attrs else None

        def consistent(it, o, t_end):
            if t_end is not vals['t_end'] and t_end not in vals['t_end'].by.values():
                raise Unsupported('another t_end')
            if '@power' not in o.attrs or '@time' not in o.attrs or not it.branch(ok['span']):
                it.raise_(it.cls(E, 'ModelParametersConsistencyError'))

        def mkfeeds(it, d):
            d = lib.force(it, d)
            if not isinstance(d, Feeds):
                raise Unsupported('feeds')
            if not it.branch(ok['feeds']):
                it.raise_(it.cls(E, 'ModelParametersTypeError'))
            o = it.new(SObj(it.cls(MOD, '_ModelParametersFeeds')))
            o.attrs['@dict'] = d.sym_dict(it)
            return o
        P = '_ModelParametersPower.'
        cons.update({P + 'set_power': setter('power', 'time', 'power'), P + 'set_time': setter('time', 'power', 't_power'),
                     P + 'get_power': getter('power'), P + 'get_time': getter('time'), P + 'assert_consistency': consistent,
                     '_ModelParametersFeeds': mkfeeds})
        it = s.interp(cons)
        it.target = name

        def read(o):
            out = {}
            for k, ns in NAMES.items():
                for n in ns:
                    out[n] = lib.getitem(it, o, n)
            return out

        def go():
            for c, e in els.items():
                c.el = e
            passed = {alias.get(k, k): vals.get(k, vals['bad']) for k in keys}
            if how in ('dict', 'none'):
                base, kw = (passed, {}) if how == 'dict' else (None, {})
            elif how == 'keywords':
                base, kw = None, passed
            elif how == 'split':
                base, kw = ({k: v for q, (k, v) in enumerate(passed.items()) if q % 2}, {k: v for q, (k, v) in enumerate(passed.items()) if not q % 2})
            else:
                base = {k: (v if q % 2 else Other('overridden')) for q, (k, v) in enumerate(passed.items())}
                kw = {k: v for q, (k, v) in enumerate(passed.items()) if not q % 2}
            b0, k0 = dict(base) if base is not None else None, dict(kw)
            r = self.attempt(it, lambda: it.instantiate(it.cls(MOD, 'ModelParameters'), [base] if base is not None else [], dict(kw)),
                             lambda: base is None or same_dict(base, b0), lambda: all(c.el is e for c, e in els.items()))
            if r[0] == 'raise':
                return r
            o = r[1]
            for c in els:
                c.poison()
            if base is not None:
                base.clear()
            first = read(o)
            for x in first.values():
                if isinstance(x, (Coll, Feeds)):
                    e = x.el
                    x.poison()
                    x.kept = e
            second = read(o)
            unknown = {}
            for k in ('foo', 'Pressure', '', 'T'):
                unknown[k] = self.attempt(it, lambda: lib.getitem(it, o, k))
            frozen = [self.attempt(it, lambda: it.call(it.getattr(o, '__setitem__'), [k, vals['t_end']], {})) for k in ('radius', 'p', 'new')]
            frozen += [self.attempt(it, lambda: it.call(it.getattr(o, '__delitem__'), [k], {})) for k in ('radius', 'p', 'new')]
            third = read(o)
            sizes = it.call(it.getattr(o, '__len__'), [], {}), list(it.call(it.getattr(o, 'keys'), [], {}))
            for c, e in els.items():
                c.el = e
            return r + (first, second, third, unknown, frozen, sizes)
        hyps = [c for d in vals.values() if isinstance(d, Dyn) for c in d.conds]
        outs = self.run(it, label, go, hyps)
        if outs is None:
            return
        for q in ('__init__', '__getitem__', '__setitem__', '__delitem__', '__len__', 'keys'):
            s.under_contract('ModelParameters.' + q if q not in ('__setitem__', '__delitem__') else '_ModelParametersBase.' + q)
        complete = set(keys) == set(NAMES)
        valid = and_(*ok.values(), vals['power'].is_['coll'], vals['t_power'].is_['coll'], vals['feeds'].is_['dict'],
                     *[positive(vals[k]) for k in NUMERIC]) if complete else FALSE

        def good(k, x, n, seen):
            if k in NUMERIC:
                return x is vals[k] or isinstance(x, T) and x in vals[k].by.values()
            w = {'power': power, 't_power': time, 'feeds': feeds}[k]
            el = getattr(x, 'kept', getattr(x, 'el', None))
            fresh = all(x is not y for y in seen)
            return type(x) is type(w) and x.axis is w.axis and el is els[w] and x is not w and fresh

        def post(r, c, lb):
            s.check(lb + '#the arguments are not modified', TRUE if r[2] and r[3] else FALSE, c, F)
            if r[0] != 'ok':
                return
            seen = []
            for q, got in enumerate(r[4:7]):
                for k, ns in NAMES.items():
                    g = all(good(k, got[n], n, seen) for n in ns)
                    if k not in NUMERIC:
                        seen += [got[n] for n in ns]
                    s.check('{}#{} reads back under all its names{}'.format(lb, k, ('', ' after the containers returned before were changed',
                                                                                     ' after attempts to set and delete')[q]), TRUE if g else FALSE, c, F)
            for k, v in r[7].items():
                s.check('{}#unknown name {!r} is refused'.format(lb, k), TRUE if v[0] == 'raise' and excname(v[1]) == 'ModelParametersError' else FALSE, c, F)
            s.check(lb + '#cannot be set or deleted', TRUE if all(v[0] == 'raise' and excname(v[1]) == 'TypeError' for v in r[8]) else FALSE, c, F)
            n, ks = r[9]
            s.check(lb + '#keys', TRUE if n == 8 and sorted(ks) == sorted(NAMES) else FALSE, c, F)
        self.decide(label, outs, valid, post)


def generate(s):
    k = ParamsKit(s)
    k.typecheck()
    k.feeds()
    k.power()
    k.params()
