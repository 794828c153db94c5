"""Contracts of plaschem/species.py (RP) and plaschem/reactions.py (Reaction): C02, C03, C04.

Values given by the user are Python values of any type: the type is a symbolic choice which the execution makes only when the program looks
at it. The private state of an object is never named here: an object in an arbitrary valid state is produced by the real constructor and the
real setter, whose effect is extracted by executing it (its contract: it stores the value and the unit of one attribute, or refuses and
changes nothing; all the other attributes stay). So the getters, verified on such an object, are verified for all histories of updates."""
import itertools
from terms import *
from values import *
import terms as tm
import interp as ip
import lib
import loops
import numeval
from lib import Stub, Native, SetOf
from maps import SymMap

numeval.HINTS['atoms_of'] = lambda r: float(r.choice([1, 1, 2, 3]))
numeval.HINTS['charge_r'] = numeval.HINTS['charge_p'] = lambda r: float(r.choice([-1, 0, 0, 1, 2]))

RX = 'plaschem/reactions.py'
SPF = 'plaschem/species.py'
NUMK = ('None', 'int', 'float', 'np.float64', 'str')
INTK = ('None', 'int', 'str')
STRK = ('None', 'str')
ALLK = ('None', 'bool', 'int', 'float', 'np.float64', 'str', 'dict', 'other')


def dyn_unit(name, literals):
    """an arbitrary unit: None, one of the units that are known, or another text"""
    cases, d = [], Dyn(name, None)
    d.by, d.is_, d.conds, prev = {}, {}, [], []
    opts = [None] + sorted(literals) + ['?']
    for k in opts:
        b = const('unit_{}_{}'.format(name, k), 'B')
        d.is_[k] = and_(*([b] if k != '?' else []), *[not_(x) for x in prev])
        prev.append(b)
        v = k
        if k == '?':
            v = text('u_{}'.format(name))
            d.conds += [not_(eq(v, lift(x))) for x in opts[:-1]]
        d.by[k] = v
        cases.append((b, v))
    d.cases = cases
    return d


def number(d):
    """the number that a value (number or numeric text) stands for"""
    t = None
    for k, c in d.is_.items():
        v = {'int': d.by.get('int'), 'float': d.by.get('float'), 'np.float64': d.by.get('np.float64')}.get(k)
        if k == 'str':
            v = app('float_of', (d.by['str'],), 'R')
        if v is not None:
            t = v if t is None else ite(c, v, t)
    return t


def integer(d):
    return ite(d.is_['str'], app('int_of', (d.by['str'],), 'R'), d.by['int'])


def numeric(d):
    return implies(d.is_['str'], app('is_numeric', (d.by['str'],), 'B'))


def integral(d):
    return implies(d.is_['str'], app('is_intstr', (d.by['str'],), 'B'))


def excname(e):
    return getattr(e.cls, 'name', getattr(e.cls, '__name__', '?'))


def snapshot(o):
    """contents of an object, two levels deep"""
    return {k: (v, dict(v) if isinstance(v, dict) else None) for k, v in o.attrs.items()}


def delta(before, o):
    """what changed: {(name,) or (name, key): value}"""
    out = {}
    for k, v in o.attrs.items():
        if k not in before:
            out[(k,)] = v
        elif before[k][0] is not v:
            out[(k,)] = v
        elif isinstance(v, dict):
            for q in set(v) | set(before[k][1]):
                if q not in before[k][1] or q not in v or before[k][1][q] is not v[q]:
                    out[(k, q)] = v.get(q, '<removed>')
    for k in before:
        if k not in o.attrs:
            out[(k,)] = '<removed>'
    return out


def apply_delta(o, d):
    for k, v in d.items():
        if len(k) == 1:
            o.attrs[k[0]] = v
        else:
            o.attrs[k[0]][k[1]] = v


class Kit:
    """what RP and Reaction have in common"""

    def run(self, it, name, fn, conds=()):
        return self.s.explore(it, name, fn, conds)

    def values(self, it, name, outs, want, where):
        """every path returns the wanted value: [(condition, value)] exhaustive; value ... or ('raise', classes)"""
        for n, (c, v) in enumerate(outs):
            for m, (wc, wv) in enumerate(want):
                nm = '{}#post[{},{}]'.format(name, n, m)
                raising = isinstance(wv, tuple) and wv and wv[0] == 'raise'
                if (v[0] == 'raise') != raising:
                    self.s.check(nm if not raising else nm + '#raises', not_(wc), c, where)
                elif raising:
                    if excname(v[1]) not in wv[1]:
                        self.s.check(nm + '#exception', not_(wc), c, where)
                    else:
                        self.s.check(nm + '#raises', TRUE, c, where)
                elif wv is None or v[1] is None:
                    if not (wv is None and v[1] is None):
                        self.s.check(nm, not_(wc), c, where)
                    else:
                        self.s.check(nm, TRUE, c, where)
                else:
                    self.s.equal(nm, v[1], wv, list(c) + [wc], where)

    def attempts(self, name, label, it, run, hyps, want, where):
        """with the facts about the attributes that matter; if this is not enough, with all the facts"""
        s = self.s
        for q, h in enumerate(hyps):
            mark, mark2 = len(s.obs), len(s.unsupported)
            outs = self.run(it, label, run, h)
            if outs is not None:
                self.values(it, label, outs, want, where)
            if q < len(hyps) - 1 and (outs is None or any(o['status'] != 'proved' for o in s.obs[mark:])):
                del s.obs[mark:], s.unsupported[mark2:]
                continue
            if outs is not None:
                s.under_contract(name)
            return

    def setter(self, s, cls, attr, base_object, value, unit, valid, refused, where, extra=(), tag=''):
        """accepted exactly if valid; refused with the documented error; the frame. Returns the effect {path: value} or None"""
        name = '{}.{}'.format(cls, self.SET)
        label = '{}[{}{}]'.format(name, attr, tag)
        it = self.interp(target=name)
        box = {}

        def run():
            o = base_object(it)
            before = snapshot(o)
            box['o'], box['before'] = o, before
            try:
                it.call(it.getattr(o, self.SET), [attr, value], {'unit': unit})
            except ip.PyExc as e:
                return 'raise', e, delta(before, o)
            return 'ok', None, delta(before, o)
        outs = self.run(it, label, run, list(value.conds) + list(unit.conds) + list(extra))
        if outs is None:
            return None
        s.under_contract(name)
        effects = []
        for n, (c, v) in enumerate(outs):
            if v[0] == 'raise':
                s.check('{}#setup[{}]'.format(label, n), FALSE, c, where)
                continue
            kind, e, d = v[1]
            if kind == 'raise':
                s.check('{}#refused only if invalid[{}]'.format(label, n), not_(valid), c, where)
                if excname(e) not in self.ERRS:
                    s.check('{}#documented error[{}]'.format(label, n), refused, c, where)
                if d:
                    s.check('{}#a refused update changes nothing[{}]'.format(label, n), FALSE, c, where)
            else:
                s.check('{}#accepted only if valid[{}]'.format(label, n), valid, c, where)
                effects.append((c, d))
        if not effects:
            return None
        d0 = effects[0][1]
        for c, d in effects[1:]:
            if set(d) != set(d0) or any(d[k] is not d0[k] for k in d):
                s.unsup(label, 'the effect depends on the type of the value: the getters are verified on the paths of the setter')
                return effects
        return [((), d0)]

    def distinct_effects(self, s, effects, where):
        """different attributes are stored in different places"""
        seen = {}
        for attr, eff in effects.items():
            for _, d in eff or []:
                for k in d:
                    if k in seen and seen[k] != attr:
                        # two attributes share a cell
                        s.check('{}.{}#frame: {} and {} are stored apart'.format(self.CLS, self.SET, seen[k], attr), FALSE, (), where)
                    seen[k] = attr

    def state(self, it, base_object, effects, path=True):
        o = base_object(it)
        for attr, eff in effects.items():
            if eff is None:
                raise Unsupported('effect of the setter for ' + attr)
            if len(eff) == 1:
                apply_delta(o, eff[0][1])
            else:
                for c, d in eff[:-1]:
                    if it.branch(and_(*c)):
                        apply_delta(o, d)
                        break
                else:
                    it.path.assume(and_(*eff[-1][0]))
                    apply_delta(o, eff[-1][1])
        return o


# ---------------------------------------------------------------------------------------------------------------- reactions
A_UNITS = {1: ['s-1'], 2: ['cm3.s-1', 'm3.s-1'], 3: ['cm6.s-1', 'm6.s-1']}
ALL_UNITS = ['s-1', 'cm3.s-1', 'm3.s-1', 'cm6.s-1', 'm6.s-1', 'eV', 'K']
FACTOR = {'s-1': num(1), 'm3.s-1': num(1), 'm6.s-1': num(1), 'cm3.s-1': num(1e-6), 'cm6.s-1': num(1e-12)}
R_TYPES = dict(arrh_a=NUMK, arrh_b=NUMK, arrh_c=NUMK, el_en_loss=NUMK, gas_heat_contrib=NUMK, special_number=INTK, qdb_r_id=INTK,
               qdb_ds_id=INTK, doi=STRK, comments=STRK, elastic=('None', 'bool', 'str'), latex=STRK)
FLAGS = ['true', 'True', 'TRUE', 'false', 'False', 'FALSE']
R_UNITS = ['arrh_a', 'arrh_c', 'el_en_loss', 'gas_heat_contrib']


class ReactionKit(Kit):
    CLS, SET = 'Reaction', 'set_reaction_attribute'
    ERRS = ('ReactionAttributeError', 'ReactionInitError', 'ReactionValueError')

    def __init__(self, s):
        self.s = s
        self.pr = Axis('product', True)
        self.atoms = Axis('atom')

    # ---- the species of a reaction: any objects that satisfy the interface of RP
    def rp(self, it, tag, i=None):
        f = (lambda n, sort='R': const(n + '_' + tag, sort)) if i is None else (lambda n, sort='R': app(n + '_' + tag, (i,), sort))
        k = None if i is None else i
        g = (lambda n, q, sort: app(n + '_' + tag, (q,) if i is None else (i, q), sort))
        o = SObj(it.cls('plaschem.species', 'RP'), {'id': f('id')})
        o.name, o.charge = f('name', 'S'), f('charge_' + tag[0])
        TYPES[o.attrs['id']] = (int,)
        isM, isE = eq(o.name, lift('M')), eq(o.name, lift('e'))
        o.atoms = SymMap(self.atoms, lambda q: g('atoms', q, 'B'), lambda q: g('atoms_of', q, 'R'), 'atoms')
        o.sym_subst = None
        return o

    def rp_contracts(self):
        def get_charge(it, o):
            if it.branch(eq(o.name, lift('M'))):
                return None
            return o.charge
        return {
            'RP.get_name': lambda it, o: o.name,
            'RP.get_charge': get_charge,
            'RP.get_atoms': lambda it, o: it.new(o.atoms.copy()),
            'RP.is_special': lambda it, o: it.unbool(or_(eq(o.name, lift('e')), eq(o.name, lift('M')))),
        }

    def sides(self, it, n, m=None):
        """n reactants and m products (None: any number of them)"""
        L = [self.rp(it, 'r{}'.format(k)) for k in range(n)]
        if m is None:
            j0 = self.pr
            P = Arr([j0], lambda i: self.rp(it, 'p', i), kind='list', dtype='O')
        else:
            P = [self.rp(it, 'p{}'.format(k)) for k in range(m)]
        return L, P

    def interp(self, contracts=None, target=None, more=True):
        c = dict(self.rp_contracts())
        if more:
            c['Reaction.assert_consistency'] = lambda it, o: None
            c['Reaction.is_electron_process'] = lambda it, o: it.unbool(self.electron)
            c['Reaction.get_rp_names_set'] = self.names_contract
        c.update(contracts or {})
        it = self.s.interp(c)
        it.target = target
        return it

    electron = None

    def names_contract(self, it, o, method='all'):
        if method not in ('lhs', 'rhs', 'all'):
            it.raise_(it.cls('plaschem.exceptions', 'ReactionValueError'))
        L = [x.name for x in self.L]
        if method == 'lhs':
            return Names(it, L, None)
        return Names(it, L if method == 'all' else [], self.P)

    def base(self, n):
        """a reaction with n reactants and any products, without data"""
        def make(it):
            self.L, self.P = self.sides(it, n)
            self.electron = or_(*[eq(x.name, lift('e')) for x in self.L])
            cls = it.cls('plaschem.reactions', 'Reaction')
            rid = typed('r_id', 'int')
            it.path.assume(lt(num(0), rid))
            return it.instantiate(cls, [rid, self.L, self.P], {'special_number': None})
        return make

    def data(self):
        D, U = {}, {}
        for k, kinds in R_TYPES.items():
            D[k] = dyn(k, kinds)
        return D

    # ---- C03
    def valid(self, attr, d, u, n):
        if attr not in R_TYPES:
            return FALSE
        ok = or_(*[d.is_[k] for k in R_TYPES[attr]])
        none = d.is_['None']
        if attr == 'arrh_a':
            ut = or_(*[u.is_[x] for x in A_UNITS[n]])
        elif attr == 'arrh_c':
            ut = ite(self.electron, u.is_['eV'], u.is_['K'])
        elif attr in R_UNITS:
            ut = or_(u.is_[None], u.is_['eV'])
        else:
            ut = u.is_[None]
        c = [ok, or_(none, ut)]
        if attr == 'arrh_a':
            c.append(or_(none, and_(numeric(d), not_(lt(number(d), num(0))))))
        if attr == 'elastic':
            c.append(implies(d.is_['str'], or_(*[eq(d.by['str'], lift(x)) for x in FLAGS])))
        return and_(*c)

    def c03(self):
        s = self.s
        for n in (1, 2, 3):
            effects, D, U, facts = {}, {}, {}, {}
            # the electron condition is a term over the names: fixed once the sides are known
            it0 = self.interp()
            self.L, self.P = self.sides(it0, n)
            self.electron = or_(*[eq(x.name, lift('e')) for x in self.L])
            for attr in list(R_TYPES) + ['unknown_attribute']:
                d, u = dyn(attr, ALLK if attr != 'elastic' else [k for k in ALLK if k != 'dict']), dyn_unit(attr, ALL_UNITS)
                if s.only and s.only not in 'set_reaction_attribute' and s.only not in attr and attr not in ('arrh_a', 'arrh_b', 'arrh_c'):
                    pass
                ok = self.valid(attr, d, u, n)
                # a text that is not a number is refused by float()
                refused = and_(d.is_['str'], not_(numeric(d))) if attr == 'arrh_a' else FALSE
                # a unit given together with None is left open
                extra = [or_(not_(d.is_['None']), u.is_[None])]
                eff = self.setter(s, 'Reaction', attr, self.base(n), d, u, ok, refused, RX, extra, ',{} reactants'.format(n))
                if attr in R_TYPES:
                    effects[attr] = eff
                    D[attr], U[attr] = d, u
                    facts[attr] = [ok, extra[0]] + d.conds + u.conds
            self.distinct_effects(s, effects, RX)
            self.getters(n, effects, D, U, facts)
            self.init(n)

    def getters(self, n, effects, D, U, facts):
        s = self.s
        none = lambda k: D[k].is_['None']
        a = number(D['arrh_a'])
        fac = num(0)
        for x in ALL_UNITS[:5]:
            fac = ite(U['arrh_a'].is_[x], FACTOR[x], fac)
        A = [(none('arrh_a'), None)]
        plain = lambda k, conv, default: [(none(k), default), (not_(none(k)), conv(D[k]))]
        bc = lambda k: [(and_(none(k), none('arrh_a')), None), (and_(none(k), not_(none('arrh_a'))), num(0)), (not_(none(k)), number(D[k]))]
        txt = lambda k: [(none(k), None), (not_(none(k)), D[k].by['str'])]
        names_l = [x.name for x in self.L]
        pname = lambda i: app('name_p', (i,), 'S')
        same = and_(*[any_(self.pr, lambda i, x=x: eq(pname(i), x)) for x in names_l], all_(self.pr, lambda i: or_(*[eq(pname(i), x) for x in names_l])))
        e = D['elastic']
        true = or_(and_(e.is_['bool'], e.by['bool']), and_(e.is_['str'], or_(*[eq(e.by['str'], lift(x)) for x in FLAGS[:3]])))
        el = [(none('elastic'), same), (not_(none('elastic')), true)]
        sn = D['special_number']
        cases = [
            ('get_arrh_a', {}, [(none('arrh_a'), None), (not_(none('arrh_a')), a * fac)]),
            ('get_arrh_a', {'si_units': True}, [(none('arrh_a'), None), (not_(none('arrh_a')), a * fac)]),
            ('get_arrh_a', {'si_units': False}, [(none('arrh_a'), None), (not_(none('arrh_a')), a)]),
            ('get_arrh_b', {}, bc('arrh_b')), ('get_arrh_c', {}, bc('arrh_c')),
            ('get_el_en_loss', {}, plain('el_en_loss', number, num(0))), ('get_gas_heat_contrib', {}, plain('gas_heat_contrib', number, num(0))),
            ('get_special_number', {}, [(and_(none('special_number'), self.electron), num(10)), (and_(none('special_number'), not_(self.electron)), num(20)),
                                        (not_(none('special_number')), integer(sn))]),
            ('get_qdb_r_id', {}, plain('qdb_r_id', integer, None)), ('get_qdb_ds_id', {}, plain('qdb_ds_id', integer, None)),
            ('get_doi', {}, txt('doi')), ('get_comments', {}, txt('comments')),
            ('get_elastic', {}, el), ('is_elastic_process', {}, el),
        ]
        for k in R_UNITS:
            d = None if k.startswith('arrh') else 'eV'
            want = [(U[k].is_[x], lift(x)) for x in ALL_UNITS] + [(U[k].is_[None], None if d is None else lift(d))]
            cases.append(('get_unit', {'attribute': k}, want))
        cases.append(('get_unit', {'attribute': 'arrh_b'}, [(TRUE, ('raise', self.ERRS))]))
        for k in R_TYPES:
            facts[k] = facts[k] + ([numeric(D[k])] if R_TYPES[k] is NUMK else [integral(D[k])] if R_TYPES[k] is INTK else [])
        every = [x for k in facts for x in facts[k]]
        for g, kw, want in cases:
            if s.only and s.only not in g:
                continue
            name = 'Reaction.' + g
            it = self.interp(target=name)

            def run():
                o = self.state(it, self.base(n), effects)
                before = snapshot(o)
                r = lib.force(it, it.call(it.getattr(o, g), [], dict(kw)))
                if delta(before, o):
                    raise Unsupported('a getter changes the object')
                return r
            label = name + '({})[{} reactants]'.format(','.join('{}={}'.format(*q) for q in kw.items()), n)
            near = [k for k in R_TYPES if k == kw.get('attribute') or k in g or k == 'arrh_a' and 'arrh' in g]
            self.attempts(name, label, it, run, [[x for k in near for x in facts[k]], every], want, RX)
        if not s.only or s.only in 'get_rate_coefficient':
            self.rate(n)

    def rate(self, n):
        """the rate coefficient, by the contracts of the getters of the Arrhenius data"""
        s = self.s
        Asi, Anom, B, C, T = const('A_si'), const('A_nominal'), const('B'), const('C'), const('temp')
        none = const('no_arrhenius_data', 'B')

        def get_a(it, o, si_units=True):
            if it.branch(none):
                return None
            return Asi if it.truth(si_units) else Anom
        c = {'Reaction.get_arrh_a': get_a, 'Reaction.get_arrh_b': lambda it, o: B, 'Reaction.get_arrh_c': lambda it, o: C}
        name = 'Reaction.get_rate_coefficient'
        for kw, A in (({}, Asi), ({'si_units': True}, Asi), ({'si_units': False}, Anom)):
            it = self.interp(c, target=name)
            outs = self.run(it, name, lambda: it.call(it.getattr(self.base(n)(it), 'get_rate_coefficient'), [T], dict(kw)), [lt(num(0), T), not_(lt(A, num(0)))])
            if outs is None:
                return
            s.under_contract(name)
            el = and_(not_(none), self.electron)
            he = and_(not_(none), not_(self.electron))
            self.values(it, name + '({})[{} reactants]'.format(kw, n), outs, [
                (none, ('raise', self.ERRS)), (el, A * power(T, B) * tm.exp(neg(C) / T)), (he, A * power(T / 300, B) * tm.exp(neg(C) / T))], RX)

    def init(self, n):
        """the constructor stores what the setter stores, refuses what the setter refuses (by the contract of the setter)"""
        s = self.s
        if s.only and s.only not in '__init__':
            return
        name = 'Reaction.__init__'
        keys = list(R_TYPES)
        combos = [()] + [(k,) for k in keys] + [('arrh_a', k) for k in keys if k != 'arrh_a'] + [('special_number', 'arrh_c'), tuple(keys),
                 ('foo', 'arrh_a')]
        s.bounded.append('Reaction.__init__: sets of given attributes: none, each alone, each with arrh_a, all, an unknown one; units for any subset of up to 4 of them')
        good = {k: const('valid_{}'.format(k), 'B') for k in keys}
        for given in combos:
            unitful = [k for k in R_UNITS if k in given]
            usets = [list(c) for r in range(len(unitful) + 1) for c in itertools.combinations(unitful, r)]
            if len(given) == len(keys):
                usets = [unitful, unitful[:2]]
            usets = usets + [unitful + ['doi'], unitful + [k for k in ('el_en_loss',) if k not in given]] if len(given) <= 2 else usets
            for us in usets:
                for how in ('attributes', 'keywords', 'both') if len(given) > 1 else ('attributes', 'keywords'):
                    self.init1(n, name, given, us, how, good)

    def init1(self, n, name, given, us, how, good):
        s = self.s
        vals = {k: Other('value of ' + k) for k in given}
        units = {k: Other('unit of ' + k) for k in us}
        log = []

        def set_contract(it, o, attribute, value, unit=None):
            g = good.get(attribute, FALSE) if attribute in R_TYPES else FALSE
            if value is not None and not it.branch(g):
                it.raise_(it.cls('plaschem.exceptions', 'ReactionAttributeError'))
            log.append((attribute, value, unit))
        it = self.interp({'Reaction.set_reaction_attribute': set_contract}, target=name)
        rid = typed('r_id', 'int')

        def run():
            del log[:]
            self.L, self.P = self.sides(it, n)
            cls = it.cls('plaschem.reactions', 'Reaction')
            base = dict(vals) if how == 'attributes' else ({} if how == 'keywords' else {k: (vals[k] if q else Other('overridden')) for q, k in enumerate(given)})
            kw = {} if how == 'attributes' else dict(vals) if how == 'keywords' else {given[0]: vals[given[0]]}
            b0, u0 = dict(base), dict(units)
            args = dict(units=units) if us else {}
            if how != 'keywords' or not given:
                args['attributes'] = base
            o = it.instantiate(cls, [rid, self.L, self.P], dict(args, **kw))
            return o, list(log), (base == b0 and units == u0)
        label = '{}[{} reactants, {} as {}, units {}]'.format(name, n, '+'.join(given), how, '+'.join(us))
        outs = self.run(it, label, run, [])
        if outs is None:
            return
        s.under_contract(name)
        need = 'special_number' in given or 'arrh_a' in given
        static = need and set(given) <= set(R_TYPES) and set(us) <= set(R_UNITS) & set(given) and {'arrh_a', 'arrh_c'} & set(given) <= set(us)
        valid = and_(TRUE if static else FALSE, lt(num(0), rid), *[good.get(k, FALSE) for k in given])
        for q, (c, v) in enumerate(outs):
            if v[0] == 'raise':
                s.check(label + '#refused only if invalid[{}]'.format(q), not_(valid), c, RX)
                if excname(v[1]) not in self.ERRS:
                    s.check(label + '#documented error[{}]'.format(q), FALSE, c, RX)
                continue
            s.check(label + '#accepted only if valid[{}]'.format(q), valid, c, RX)
            o, lg, unchanged = v[1]
            s.check(label + '#arguments not modified[{}]'.format(q), TRUE if unchanged else FALSE, c, RX)
            last = {}
            for k, val, u in lg:
                last[k] = (val, u)
            okv = all(last.get(k, (None, None)) == (vals.get(k), units.get(k)) for k in R_TYPES) and set(last) == set(R_TYPES)
            s.check(label + '#every attribute is set to the given value and unit[{}]'.format(q), TRUE if okv else FALSE, c, RX)
            s.equal(label + '#id[{}]'.format(q), o.attrs.get('id'), rid, c, RX)

    # ---- C02
    def balance(self, L, P):
        """the charges of both sides are equal, and so are the numbers of every atom"""
        q = lambda x: ite(eq(x.name, lift('M')), num(0), x.charge)
        pi = lambda i: self.rp(self.it0, 'p', i)
        E = lambda x, k: ite(x.atoms.dom(k), x.atoms.val(k), num(0))
        if isinstance(P, list):
            rq = add(num(0), *[q(x) for x in P])
            ra = lambda k: add(num(0), *[E(x, k) for x in P])
        else:
            rq = sum_(self.pr, lambda i: q(pi(i)))
            ra = lambda k: sum_(self.pr, lambda i: E(pi(i), k))
        lq = add(num(0), *[q(x) for x in L])
        return eq(lq, rq), all_(self.atoms, lambda k: eq(add(num(0), *[E(x, k) for x in L]), ra(k))), E, pi, ra

    def c02(self):
        s = self.s
        self.it0 = self.interp(more=False)
        if not s.only or s.only in 'assert_consistency':
            for n in (1, 2, 3):
                self.consistency(n)
        if not s.only or s.only in '__init__':
            self.construct()
        self.views()

    def lemma(self, L, E, pi, ra):
        """numbers of atoms are positive; a sum of terms that are not negative is positive iff one of them is"""
        pos = [all_(self.atoms, lambda k, x=x: implies(x.atoms.dom(k), lt(num(0), x.atoms.val(k)))) for x in L]
        f = lambda k: and_(eq(any_(self.pr, lambda i: pi(i).atoms.dom(k)), lt(num(0), ra(k))), not_(lt(ra(k), num(0))))
        return pos, f

    def consistency(self, n):
        s = self.s
        name = 'Reaction.assert_consistency'
        it = self.interp(more=False, target=None)

        def run():
            it.empty_dict, it.target = None, None
            self.L, self.P = self.sides(it, n)
            it.contracts['Reaction.assert_consistency'] = lambda it_, o: None
            o = it.instantiate(it.cls('plaschem.reactions', 'Reaction'), [7, self.L, self.P], {'special_number': 1})
            del it.contracts['Reaction.assert_consistency']
            it.empty_dict, it.target = (lambda: SymMap(self.atoms)), name
            try:
                it.call(it.getattr(o, 'assert_consistency'), [], {})
            finally:
                it.empty_dict = None
        label = name + '[{} reactants]'.format(n)
        it.target = name
        outs = self.run(it, label, run, [])
        if outs is None:
            return
        s.under_contract(name)
        s.assumptions.add('numbers of atoms are positive (contract of RP.get_atoms); the sum of these over the products is positive exactly if one of the products holds the atom')
        L, P = self.sides(it, n)
        qok, aok, E, pi, ra = self.balance(L, P)
        pos, f = self.lemma(L, E, pi, ra)
        for q, (c, v) in enumerate(outs):
            if v[0] == 'raise' and excname(v[1]) not in self.ERRS:
                s.check(label + '#documented error[{}]'.format(q), FALSE, list(c), RX)
            if v[0] == 'raise':
                # some atom k (or the charge) is out of balance: for every k where the two dictionaries differ, so do the numbers
                self.split(label + '#refused only if out of balance[{}]'.format(q), c, and_(qok, aok), True, L, E, f)
            else:
                s.check(label + '#accepted only if the charges balance[{}]'.format(q), qok, c, RX)
                self.split(label + '#accepted only if the atoms balance[{}]'.format(q), c, aok, False, L, E, f)

    def split(self, label, c, goal, refused, L, E, f):
        """the comparisons of dictionaries in the path condition, at one arbitrary atom"""
        s = self.s
        k = const('atom_k', 'I')
        inst = lambda t: t if t.op != 'all' or t.args[0] is not self.atoms else None
        c = list(c)
        posk = [implies(x.atoms.dom(k), lt(num(0), x.atoms.val(k))) for x in L]
        if not refused:
            # every dictionary equality holds at k
            h = []
            for t in c:
                h.append(at_key(t, self.atoms, k))
            g = at_key(goal, self.atoms, k)
            s.check(label, g, h + posk + [f(k)], RX)
            return
        # not all_k eq(k): there is an atom k where it fails (Skolem), and the balance holds at this k too
        h, neg_ = [], []
        for t in c:
            if t.op == 'not' and t.args[0].op == 'all' and t.args[0].args[0] is self.atoms:
                h.append(not_(at_key(t.args[0], self.atoms, k)))
            else:
                h.append(t)
        parts = list(goal.args) if goal.op == 'and' else [goal]
        g = and_(*[at_key(p, self.atoms, k) for p in parts])
        s.check(label, not_(g), h + posk + [f(k)], RX)

    def construct(self):
        s = self.s
        name = 'Reaction.__init__'
        bal = const('balanced', 'B')

        def consistent(it, o):
            if not it.branch(bal):
                it.raise_(it.cls('plaschem.exceptions', 'ReactionValueError'))
        for n in range(0, 6):
            for nonempty in (True, False):
                it = self.interp({'Reaction.assert_consistency': consistent, 'Reaction.set_reaction_attribute': lambda it_, *a, **k: None}, target=name)
                rid = dyn('r_id', [k for k in ALLK if k != 'dict'])

                def run():
                    L, P = self.sides(it, n, None if nonempty else 0)
                    l2 = list(L)
                    o = it.instantiate(it.cls('plaschem.reactions', 'Reaction'), [rid, L, P], {'special_number': 1})
                    self.lp = (L, P)
                    r, p = it.call(it.getattr(o, 'get_reactants'), [], {}), it.call(it.getattr(o, 'get_products'), [], {})
                    return o, L, P, r, p, L == l2
                label = '{}[{} reactants, {} products]'.format(name, n, 'any' if nonempty else 'no')
                outs = self.run(it, label, run, rid.conds)
                if outs is None:
                    continue
                s.under_contract(name)
                s.under_contract('Reaction.get_reactants')
                s.under_contract('Reaction.get_products')
                idok = and_(rid.is_['int'], lt(num(0), rid.by['int']))
                valid = and_(idok, bal) if 1 <= n <= 3 and nonempty else FALSE
                for q, (c, v) in enumerate(outs):
                    if v[0] == 'raise':
                        s.check(label + '#refused only if invalid[{}]'.format(q), not_(valid), c, RX)
                        if excname(v[1]) not in self.ERRS:
                            s.check(label + '#documented error[{}]'.format(q), FALSE, c, RX)
                        continue
                    s.check(label + '#accepted only if valid[{}]'.format(q), valid, c, RX)
                    o, L, P, r, p, same = v[1]
                    ok = isinstance(r, (list, tuple)) and len(r) == len(L) and all(a is b for a, b in zip(r, L))
                    s.check(label + '#the reactants are those given[{}]'.format(q), TRUE if ok else FALSE, c, RX)
                    if isinstance(p, Arr) and p.dims[0] is self.pr:
                        i = self.pr.new('i')
                        s.equal(label + '#the products are those given[{}]'.format(q), p.at(i).name, self.rp(it, 'p', i).name, c, RX)
                    else:
                        s.unsup(label, 'products')
                    idv = lib.force  # the id is the one given
                    got = o.attrs.get('id')
                    s.check(label + '#id[{}]'.format(q), TRUE if got is rid or got is rid.by['int'] else FALSE, c, RX)

    def views(self):
        """names, ids and coefficients of the species; all the patterns of equal species"""
        s = self.s
        NM = 3
        s.bounded.append('Reaction.get_rp_names_set, get_rp_ids_set, get_stoich_coefs, get_rp: 1 to 3 reactants (all there are) and 1 to 3 products, every pattern of equal species')
        for n in (1, 2, 3):
            for m in (1, 2, 3):
                it = self.interp(more=False)
                it.contracts['Reaction.assert_consistency'] = lambda it_, o: None

                def make():
                    L, P = self.sides(it, n, m)
                    o = it.instantiate(it.cls('plaschem.reactions', 'Reaction'), [7, L, P], {'special_number': 1})
                    # species with one name are one species: same id, and the other way round
                    al = L + P
                    return o, L, P
                for meth in ('lhs', 'rhs', 'all', 'net'):
                    if (meth == 'lhs' and m > 1) or (meth == 'rhs' and n > 1):
                        continue
                    if meth in ('all', 'net') and n + m > 5:
                        continue
                    for g in ('get_rp_names_set', 'get_rp_ids_set', 'get_stoich_coefs'):
                        if (g == 'get_stoich_coefs') == (meth == 'all') or meth == 'net' and g != 'get_stoich_coefs':
                            continue
                        if s.only and s.only not in g:
                            continue
                        name = 'Reaction.' + g
                        it.target = name

                        def run():
                            o, L, P = make()
                            side = L if meth == 'lhs' else P if meth == 'rhs' else L + P
                            r = it.call(it.getattr(o, g), [meth], {})
                            items = [x.name if 'names' in g else x.attrs['id'] for x in side]
                            return r, items, [x.attrs['id'] for x in L], [x.attrs['id'] for x in P]
                        label = '{}({})[{} reactants, {} products]'.format(name, meth, n, m)
                        outs = self.run(it, label, run, [])
                        if outs is None:
                            continue
                        s.under_contract(name)
                        for q, (c, v) in enumerate(outs):
                            if v[0] == 'raise':
                                s.check(label + '#accepted[{}]'.format(q), FALSE, c, RX)
                                continue
                            self.view_ok(s, label + '[{}]'.format(q), g, meth, v[1], c)
                if n == 1 and m == 1:
                    for g in ('get_rp_names_set', 'get_rp_ids_set', 'get_stoich_coefs'):
                        it.target = 'Reaction.' + g
                        outs = self.run(it, 'Reaction.' + g, lambda: it.call(it.getattr(make()[0], g), ['foo'], {}), [])
                        if outs is not None:
                            self.values(it, 'Reaction.{}(unknown method)'.format(g), outs, [(TRUE, ('raise', self.ERRS))], RX)
            # predicates of the reactants
            for g in ('is_electron_process', 'is_ion_process', 'get_electron_collision_partner'):
                if s.only and s.only not in g:
                    continue
                name = 'Reaction.' + g
                it = self.interp(more=False, target=name)
                it.contracts['Reaction.assert_consistency'] = lambda it_, o: None
                box = {}

                def run2():
                    L, P = self.sides(it, n)
                    box['L'] = L
                    o = it.instantiate(it.cls('plaschem.reactions', 'Reaction'), [7, L, P], {'special_number': 1})
                    r = it.call(it.getattr(o, g), [], {})
                    return [q for q, x in enumerate(L) if x is r][0] if isinstance(r, SObj) and any(x is r for x in L) else r
                label = '{}[{} reactants]'.format(name, n)
                outs = self.run(it, label, run2, [])
                if outs is None:
                    continue
                s.under_contract(name)
                L = box['L']
                el = or_(*[eq(x.name, lift('e')) for x in L])
                heavy = [and_(not_(eq(x.name, lift('e'))), not_(eq(x.name, lift('M')))) for x in L]
                if g == 'is_electron_process':
                    want = [(TRUE, el)]
                elif g == 'is_ion_process':
                    want = [(TRUE, or_(*[and_(h, not_(eq(x.charge, num(0)))) for h, x in zip(heavy, L)]))]
                else:
                    want = [(and_(el, h, *[not_(b) for b in heavy[:q]]), num(q)) for q, h in enumerate(heavy)]
                    want.append((or_(not_(el), not_(or_(*heavy))), ('raise', self.ERRS)))
                self.values(it, label, outs, want, RX)

    def view_ok(self, s, label, g, meth, v, c):
        r, items, L, P = v
        if g != 'get_stoich_coefs':
            if not isinstance(r, (list, tuple)):
                return s.unsup(label, 'result')
            # in the order of first appearance, every item exactly once: position p of the result is the item number firsts[p]
            firsts = [not_(or_(*[eq(x, y) for y in items[:k]])) for k, x in enumerate(items)]
            count = add(num(0), *[as_real(f) for f in firsts])
            s.check(label + '#number', eq(count, num(len(r))), c, RX)
            for k, x in enumerate(items):
                rank = add(num(0), *[as_real(f) for f in firsts[:k]])
                for p, y in enumerate(r):
                    s.check(label + '#order[{},{}]'.format(k, p), implies(and_(firsts[k], eq(rank, num(p))), eq(x, y)), c, RX)
            return
        if not isinstance(r, dict):
            return s.unsup(label, 'result')
        sides = [(P, 1)] if meth == 'rhs' else [(L, 1)] if meth == 'lhs' else [(P, 1), (L, -1)]
        for k, x in r.items():
            want = add(num(0), *[ite(eq(y, lift(k)), num(f), num(0)) for side, f in sides for y in side])
            s.check(label + '#coefficient', eq(lift(x), want), c, RX)
            s.check(label + '#a species of the reaction', or_(*[eq(y, lift(k)) for y in items]), c, RX)
        for y in items:
            s.check(label + '#all the species', or_(*[eq(y, lift(k)) for k in r]), c, RX)


def at_key(t, axis, k):
    """an instance of the universally quantified statement t (over the axis) for the element k"""
    if t.op == 'all' and t.args[0] is axis:
        return subst(t.args[2], {t.args[1]: k})
    if t.op == 'and':
        return and_(*[at_key(x, axis, k) for x in t.args])
    return t


class Names:
    """a collection of the names of the species of a side (order and repetitions not known)"""

    def __init__(self, it, lst, arr):
        self.lst, self.arr = lst, arr

    def any_(self, f):
        a = or_(*[f(x) for x in self.lst])
        if self.arr is not None:
            a = or_(a, any_(self.arr.dims[0].base, lambda i: f(self.arr.at(i).name)))
        return a

    def all_(self, f):
        return not_(self.any_(lambda x: not_(f(x))))

    def sym_contains(self, it, x):
        return it.unbool(self.any_(lambda y: eq(y, lift(x))))

    def sym_set(self, it):
        return self

    def sym_getattr(self, it, name):
        if name == 'issubset':
            return Native(lambda it_, o: it_.unbool(self.all_(lambda x: o.any_(lambda y: eq(x, y)))), name)
        raise Unsupported('names.' + name)

    def sym_compare(self, it, op, other, refl):
        import ast
        if isinstance(other, Names) and isinstance(op, (ast.Eq, ast.NotEq)):
            r = and_(self.all_(lambda x: other.any_(lambda y: eq(x, y))), other.all_(lambda x: self.any_(lambda y: eq(x, y))))
            return it.unbool(r if isinstance(op, ast.Eq) else not_(r))
        raise Unsupported('comparison of names')


# ---------------------------------------------------------------------------------------------------------------- species
P_TYPES = dict(name=STRK, stateless=STRK, state=STRK, mass=NUMK, charge=INTK, h_form=NUMK, lj_epsilon=NUMK, lj_sigma=NUMK, hpem_name=STRK,
               qdb_id=INTK, stick_coef=NUMK, ret_coefs=('None', 'dict'), comments=STRK, latex=STRK)
P_UNITS = dict(mass='amu', charge='e', h_form='eV', lj_epsilon='K', lj_sigma='A')


class SpeciesKit(Kit):
    CLS, SET = 'RP', 'set_species_attribute'
    ERRS = ('RPAttributeError', 'RPInitError')

    def __init__(self, s):
        self.s = s
        self.ret = Axis('returned')
        self.ret_given = SymMap(self.ret, lambda k: app('is_returned', (k,), 'B'), lambda k: app('given_ret', (k,), 'R'), 'ret_coefs')

    def interp(self, contracts=None, target=None):
        c = {
            # contracts on text functions: see the bounded layer
            'RP.strip_charge': lambda it, *a, **k: app('neutral_of', (lift(lib.force(it, (list(a) + list(k.values()))[-1])),), 'S'),
            'Texify.texify_species': lambda it, *a, **k: app('tex_of', (lift(lib.force(it, (list(a) + list(k.values()))[-1])),), 'S'),
        }
        c.update(contracts or {})
        it = self.s.interp(c)
        it.target = target
        form = lambda it_, x: Stub('Formula', {'atom_stoich': {'@atoms': app('atoms_of_formula', (lift(x),), 'S')}})
        it.libs['pyvalem.formula'] = ip.Lib('pyvalem.formula', {'Formula': Native(form, 'Formula')})
        return it

    def base(self, it):
        return it.instantiate(it.cls('plaschem.species', 'RP'), [7], {'name': 'x', 'mass': None})

    def valid(self, attr, d, u):
        if attr not in P_TYPES:
            return FALSE
        return and_(or_(*[d.is_[k] for k in P_TYPES[attr]]), or_(d.is_['None'], u.is_[None], *([u.is_[P_UNITS[attr]]] if attr in P_UNITS else [])))

    def c04(self):
        s = self.s
        effects, D, U, facts = {}, {}, {}, {}
        for attr in list(P_TYPES) + ['unknown_attribute']:
            d, u = dyn(attr, ALLK, self.ret_given), dyn_unit(attr, sorted(set(P_UNITS.values())))
            extra = [or_(not_(d.is_['None']), u.is_[None])]
            ok = self.valid(attr, d, u)
            eff = self.setter(s, 'RP', attr, self.base, d, u, ok, FALSE, SPF, extra)
            if attr in P_TYPES:
                effects[attr], D[attr], U[attr] = eff, d, u
                facts[attr] = [ok, extra[0]] + d.conds + u.conds
                facts[attr] += [numeric(d)] if P_TYPES[attr] is NUMK else [integral(d)] if P_TYPES[attr] is INTK else []
        self.distinct_effects(s, effects, SPF)
        self.getters(effects, D, U, facts)
        self.init()

    def getters(self, effects, D, U, facts):
        s = self.s
        none = lambda k: D[k].is_['None']
        name = D['name'].by['str']
        isM = eq(name, lift('M'))
        special = or_(isM, eq(name, lift('e')))
        named = not_(none('name'))
        nostate = or_(special, none('state'))
        sl_given = and_(not_(special), not_(none('stateless')))
        sl_name = or_(special, and_(none('stateless'), none('state')))
        sl_bad = and_(not_(special), none('stateless'), not_(none('state')))
        sl = D['stateless'].by['str']
        chg = ite(none('charge'), num(0), integer(D['charge']))
        ground = and_(none('state'), eq(chg, num(0)))
        NS = not_(special)
        BAD = ('raise', self.ERRS)

        def unless(cond, k, conv, default):
            return [(cond, None), (and_(not_(cond), none(k)), default), (and_(not_(cond), not_(none(k))), conv(D[k]))]
        own = lambda k, default=None: [(none(k), default), (not_(none(k)), D[k].by['str'])]
        neutral = lambda x: app('neutral_of', (x,), 'S')
        rg = none('ret_coefs')
        cases = [
            ('get_name', {}, [(none('name'), BAD), (named, name)], True),
            ('is_special', {}, [(TRUE, special)]),
            ('is_stateless', {}, [(TRUE, nostate)]),
            ('get_state', {}, [(nostate, None), (not_(nostate), D['state'].by['str'])]),
            ('get_stateless', {}, [(sl_bad, BAD), (sl_given, sl), (sl_name, name)]),
            ('get_mass', {}, [(isM, None), (and_(not_(isM), none('mass')), BAD), (and_(not_(isM), not_(none('mass'))), number(D['mass']))]),
            ('get_charge', {}, [(isM, None), (not_(isM), chg)]),
            ('get_h_form', {}, unless(special, 'h_form', number, num(0))),
            ('get_lj_epsilon', {}, unless(special, 'lj_epsilon', number, num(0))),
            ('get_lj_sigma', {}, unless(special, 'lj_sigma', number, num(3))),
            ('get_hpem_name', {}, own('hpem_name')), ('get_comments', {}, own('comments')),
            ('get_qdb_id', {}, [(none('qdb_id'), None), (not_(none('qdb_id')), integer(D['qdb_id']))]),
            ('get_latex', {}, own('latex', app('tex_of', (name,), 'S'))),
            ('get_stick_coef', {}, [(special, None), (and_(NS, not_(none('stick_coef'))), number(D['stick_coef'])),
                                    (and_(NS, none('stick_coef'), ground), num(0)), (and_(NS, none('stick_coef'), not_(ground)), num(1))]),
            ('get_ret_coefs', {}, [(special, None), (and_(NS, not_(rg)), self.ret_given), (and_(NS, rg, ground), {}),
                                   (and_(NS, rg, not_(ground), sl_given), {neutral(sl): num(1)}),
                                   (and_(NS, rg, not_(ground), sl_name), {neutral(name): num(1)}), (and_(NS, rg, not_(ground), sl_bad), BAD)]),
            ('get_atoms', {}, [(eq(name, lift('e')), {}), (isM, {'M': num(1)}),
                               (and_(NS, sl_given), {'@atoms': app('atoms_of_formula', (neutral(sl),), 'S')}),
                               (and_(NS, sl_name), {'@atoms': app('atoms_of_formula', (neutral(name),), 'S')}), (sl_bad, BAD)]),
            ('__str__', {}, [(TRUE, name)]),
        ]
        units = sorted(set(P_UNITS.values()))
        for k in P_UNITS:
            cases.append(('get_unit', {'attribute': k}, [(U[k].is_[x], lift(x)) for x in units] + [(U[k].is_[None], lift(P_UNITS[k]))]))
        cases.append(('get_unit', {'attribute': 'stick_coef'}, [(TRUE, BAD)]))
        s.assumptions.add('the values of a ret_coefs dictionary stand for numbers (numeric texts: bounded layer)')
        every = [x for k in facts for x in facts[k]]
        for case in cases:
            g, kw, want = case[:3]
            if s.only and s.only not in g:
                continue
            q = 'RP.' + g
            it = self.interp(target=q)

            def run():
                o = self.state(it, self.base, effects)
                before = snapshot(o)
                r = lib.force(it, it.call(it.getattr(o, g), [], dict(kw)))
                if isinstance(r, (dict, SymMap)) and any(r is v or r is w for v in o.attrs.values() for w in (v.values() if isinstance(v, dict) else [v])):
                    raise Unsupported('returns its own container')
                if delta(before, o):
                    raise Unsupported('a getter changes the object')
                return r
            label = q + '({})'.format(','.join('{}={}'.format(*z) for z in kw.items()))
            near = [k for k in P_TYPES if k == kw.get('attribute') or k == g[4:] or k in ('name', 'state', 'stateless', 'charge')]
            base = [] if len(case) > 3 else [named]
            self.attempts(q, label, it, run, [base + [x for k in near for x in facts[k]], base + every], want, SPF)

    def init(self):
        """the constructor: what it refuses itself, and that it stores the rest by the setter (by the contract of the setter)"""
        s = self.s
        if s.only and s.only not in '__init__':
            return
        keys = list(P_TYPES)
        rest = [k for k in keys if k not in ('name', 'mass')]
        sets = [(), ('name',), ('mass',), ('name', 'mass')] + [('name', 'mass', k) for k in rest] + [('name', k) for k in rest] + [
            ('name', 'mass', 'state', 'stateless'), ('name', 'state', 'stateless'), ('name', 'mass', 'foo'), tuple(keys)]
        s.bounded.append('RP.__init__: sets of given attributes: none, name and / or mass, these with any other one, state and stateless, all, an '
                         'unknown one; units for any subset of them')
        self.good = {k: const('valid_{}'.format(k), 'B') for k in keys}
        for given in sets:
            un = [k for k in P_UNITS if k in given]
            us = [list(c) for r in range(len(un) + 1) for c in itertools.combinations(un, r)] if len(un) < 3 else [un, un[:2]]
            us += [un + ['doi']] + [un + [k] for k in P_UNITS if k not in given][:1]
            for u in us:
                for how in ('attributes', 'keywords', 'both'):
                    self.init1(given, u, how)

    def init1(self, given, us, how):
        s = self.s
        name = 'RP.__init__'
        vals = {k: Other('value of ' + k) for k in given}
        for k in ('name', 'state'):
            if k in vals:
                vals[k] = text('given_' + k)
        units = {k: Other('unit of ' + k) for k in us}
        log = []

        def set_contract(it, o, attribute, value, unit=None):
            g = self.good.get(attribute, FALSE)
            if value is not None and not it.branch(g):
                it.raise_(it.cls('plaschem.exceptions', 'RPAttributeError'))
            log.append((attribute, value, unit))
        it = self.interp({'RP.set_species_attribute': set_contract}, target=name)
        rid = dyn('rp_id', [k for k in ALLK if k != 'dict'])

        def run():
            del log[:]
            base = dict(vals) if how == 'attributes' else {} if how == 'keywords' else {k: (vals[k] if q else 'overridden') for q, k in enumerate(given)}
            kw = {} if how == 'attributes' else dict(vals) if how == 'keywords' else {k: vals[k] for k in given[:1]}
            b0, u0 = dict(base), dict(units)
            args = dict(units=units) if us else {}
            if how != 'keywords':
                args['attributes'] = base
            o = it.instantiate(it.cls('plaschem.species', 'RP'), [rid], dict(args, **kw))
            return o, list(log), (same_dict(base, b0) and same_dict(units, u0))
        hyps = rid.conds + [not_(eq(vals[k], NONE)) for k in ('name', 'state') if k in vals]
        # the text 'M' has no other character
        hyps += [implies(eq(vals['name'], lift('M')), not_(app('has_char', (vals['name'], lift(c)), 'B'))) for c in '<>' if 'name' in vals]
        label = '{}[{} as {}, units {}]'.format(name, '+'.join(given), how, '+'.join(us))
        outs = self.run(it, label, run, hyps)
        if outs is None:
            return
        s.under_contract(name)
        static = 'name' in given and set(given) <= set(P_TYPES) and set(us) <= set(P_UNITS) & set(given)
        if static:
            nm = vals['name']
            clean = and_(*[not_(app('has_char', (nm, lift(c)), 'B')) for c in '<>'])
            stateful = not_(eq(vals['state'], lift(''))) if 'state' in vals else FALSE
            valid = and_(rid.is_['int'], not_(lt(rid.by['int'], num(0))), clean, or_(TRUE if 'mass' in given else FALSE, eq(nm, lift('M'))),
                         or_(TRUE if 'stateless' in given else FALSE, not_(stateful)), *[self.good[k] for k in given])
        else:
            valid = FALSE
        for q, (c, v) in enumerate(outs):
            if v[0] == 'raise':
                s.check(label + '#refused only if invalid[{}]'.format(q), not_(valid), c, SPF)
                if excname(v[1]) not in self.ERRS:
                    s.check(label + '#documented error[{}]'.format(q), FALSE, c, SPF)
                continue
            s.check(label + '#accepted only if valid[{}]'.format(q), valid, c, SPF)
            o, lg, unchanged = v[1]
            s.check(label + '#arguments not modified[{}]'.format(q), TRUE if unchanged else FALSE, c, SPF)
            last = {}
            for k, val, u in lg:
                last[k] = (val, u)
            okv = set(last) == set(P_TYPES) and all(last[k][0] is vals.get(k) and last[k][1] is units.get(k) for k in P_TYPES)
            s.check(label + '#every attribute is set to the given value and unit[{}]'.format(q), TRUE if okv else FALSE, c, SPF)
            got = o.attrs.get('id')
            s.check(label + '#id[{}]'.format(q), TRUE if got is rid or got is rid.by['int'] else FALSE, c, SPF)


def same_dict(a, b):
    return set(a) == set(b) and all(a[k] is b[k] for k in a)


def generate(s):
    if s.prop == 'C03':
        ReactionKit(s).c03()
    elif s.prop == 'C02':
        ReactionKit(s).c02()
    elif s.prop == 'C04':
        SpeciesKit(s).c04()
