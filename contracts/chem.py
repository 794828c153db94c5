"""Contracts of plaschem/chemistry.py (Chemistry): C05, C06, C07 (C01, C08 in chemstate.py).

Species and reactions are the positions of two axes of unknown size; the objects answer by the contracts of RP and Reaction (proved in rx.py).
The private state is never named: the real constructor builds the object; every mask that some other method assigns gets arbitrary contents
(so the object is in an arbitrary state, a superset of the reachable ones), and the public observers say what this state is."""
import ast
import itertools
from terms import *
from values import *
import terms as tm
import interp as ip
import lib
import numeval
import pandas_ as pdm
from lib import Native, NAN, SetOf
from maps import SymMap
from pandas_ import Ent, Ser, Part, Named, DictSer, PosSet, Index, Frm, ents, isnan, strip_nan

CH = 'plaschem/chemistry.py'
CONV = {'s-1': 1, 'm3.s-1': 1, 'm6.s-1': 1, 'cm3.s-1': Fraction(1, 10**6), 'cm6.s-1': Fraction(1, 10**12)}

SP = pdm.axis('sp', nonempty=True)
RE = pdm.axis('re')
NM = pdm.axis('nm')
pdm.injective('anytext', 'nmof', NM, ())
pdm.injective('name', 'spof', SP, ('e', 'M'))
numeval.HINTS['lhs'] = numeval.HINTS['rhs'] = lambda r: float(r.choice([0, 0, 1, 1, 2]))
numeval.HINTS['charge'] = lambda r: float(r.choice([-1, 0, 0, 1, 1, 2]))
numeval.HINTS['stick'] = numeval.HINTS['o_stick_v'] = lambda r: float(r.choice([0, 0, 1, .3]))
tm.FACTS['lhs'] = [lambda a: [not_(lt(a, num(0)))]]
tm.FACTS['rhs'] = [lambda a: [not_(lt(a, num(0)))]]

lhs = lambda r, s: app('lhs', (r, s))
rhs = lambda r, s: app('rhs', (r, s))
name = lambda i: app('name', (i,), 'S')
charge = lambda i: app('charge', (i,))
special = lambda i: app('special', (i,), 'B')
pos_of = lambda t: app('spof', (lift(t),), 'I')
present = lambda t: and_(SP.member(pos_of(t)), eq(name(pos_of(t)), lift(t)))
maybe = lambda a, i: ite(app('none_' + a, (i,), 'B'), NAN, app('a_' + a, (i,)))

SPECIES_NUMBERS = ('mass', 'h_form', 'lj_epsilon', 'lj_sigma')
REACTION_NUMBERS = {'arrh_b': 'get_reactions_arrh_b', 'arrh_c': 'get_reactions_arrh_c', 'el_en_loss': 'get_reactions_el_en_loss',
                    'gas_heat_contrib': 'get_reactions_ges_heat_contrib'}


def stick0(i):
    return ite(special(i), NAN, app('stick', (i,)))


def ret0(i):
    return Named(SP, 'name', special(i), lambda k: and_(SP.member(k), app('ret_has', (i, k), 'B')), lambda k: app('ret', (i, k)))


def coef(method, r, s):
    return {'lhs': lhs(r, s), 'rhs': rhs(r, s), 'net': add(rhs(r, s), neg(lhs(r, s)))}[method]


def unit(r):
    return app('unit_arrh_a', (r,), 'S')


def unit_none(r):
    return app('unit_none_arrh_a', (r,), 'B')


def factor(r):
    f = num(1)
    for u, c in CONV.items():
        f = ite(eq(unit(r), lift(u)), num(c), f)
    return f


tm.FACTS['unit_arrh_a'] = [lambda a: [or_(*[eq(a, lift(u)) for u in CONV])]]
numeval.HINTS['unit_arrh_a'] = lambda r: r.choice(list(CONV))


class Kit:
    def __init__(self, s, cls='Chemistry'):
        self.s = s
        it = self.it = s.interp({})
        pdm.install(it)
        it.libs['yaml'] = ip.Lib('yaml', {})
        self.RP = it.cls('plaschem.species', 'RP')
        self.RX = it.cls('plaschem.reactions', 'Reaction')
        self.CH = it.cls('plaschem.chemistry', 'Chemistry')
        self.cls = self.CH if cls == 'Chemistry' else it.cls('pygmo_fwork.pygmol.neutral_model', cls)
        self.EX = it.import_module('plaschem.exceptions')
        c = it.contracts
        pos = lambda f: (lambda it_, o: f(self.ent(o)))
        c['RP.get_name'] = pos(name)
        c['RP.get_charge'] = pos(charge)
        c['RP.is_special'] = pos(special)
        for a in SPECIES_NUMBERS:
            c['RP.get_' + a] = pos(lambda i, a=a: maybe(a, i))
        c['RP.get_stick_coef'] = pos(stick0)
        c['RP.get_ret_coefs'] = pos(ret0)
        c['Reaction.get_stoich_coefs'] = self.stoich
        for a in REACTION_NUMBERS:
            c['Reaction.get_' + a] = pos(lambda i, a=a: maybe(a, i))
        c['Reaction.get_elastic'] = pos(lambda i: app('elastic', (i,), 'B'))
        c['Reaction.get_arrh_a'] = self.arrh
        c['Reaction.get_unit'] = self.get_unit
        c['Chemistry.get_rp'] = self.get_rp
        c['Chemistry.get_reaction'] = self.get_reaction
        c['Chemistry.assert_consistency'] = lambda it_, o: None
        s.trusted.add('contracts of RP and Reaction getters used by Chemistry (obligations of C02, C03, C04)')
        s.trusted.add('pandas Series / Index / DataFrame rules (pyvc/pandas_.py)')
        s.trusted.add('numpy, builtins, copy rules (pyvc/lib.py)')
        s.assumptions.add('identifiers of species and of reactions are distinct (the constructor refuses anything else); an identifier is '
                          'represented by the position of its item')
        s.assumptions.add('None in a column of numbers is a missing value (NaN), which compares unequal to everything')
        s.assumptions.add('names of the species are distinct, return coefficients name species of the chemistry (assert_consistency, called by '
                          'the constructor and the setters, is an assumed contract here; checked by the concrete layer)')
        self.template = None

    def no(self, what):
        raise Unsupported(what)

    def ent(self, o):
        if not isinstance(o, Ent):
            raise Unsupported('object that is not in the chemistry')
        return o.pos

    def exc(self, n):
        return self.EX.lookup(n)

    # ------------------------------------------------------------------ contracts of the callees
    def stoich(self, it, o, method='net'):
        r = self.ent(o)
        method = lib.force(it, method)
        for m in ('lhs', 'rhs', 'net'):
            if it.truth(lib.compare(it, ast.Eq(), method, m)):
                dom = {'lhs': lambda k: lt(num(0), lhs(r, k)), 'rhs': lambda k: lt(num(0), rhs(r, k)),
                       'net': lambda k: or_(lt(num(0), lhs(r, k)), lt(num(0), rhs(r, k)))}[m]
                return it.new(SymMap(SP, dom, lambda k: coef(m, r, k), 'stoich'))
        it.raise_(self.exc('ReactionValueError'))

    def arrh(self, it, o, si_units=True):
        r = self.ent(o)
        v = app('arrh', (r,))
        isn = app('none_arrh', (r,), 'B')
        if it.truth(si_units):
            return ite(isn, NAN, mul(v, factor(r)))
        return ite(isn, NAN, v)

    def get_unit(self, it, o, a):
        r = self.ent(o)
        if a != 'arrh_a':
            raise Unsupported('unit of ' + str(a))
        return None if it.branch(unit_none(r)) else unit(r)

    def get_rp(self, it, o, rp):
        rp = lib.force(it, rp)
        if isinstance(rp, Ent):
            if it.branch(SP.member(rp.pos)):
                return rp
            it.raise_(self.exc('ChemistrySpeciesNotPresentError'), rp)
        if isinstance(rp, str):
            rp = lift(rp)
        if isinstance(rp, T) and rp.sort == 'I':
            if it.branch(SP.member(rp)):
                return Ent(self.RP, SP, rp)
            it.raise_(self.exc('ChemistrySpeciesNotPresentError'), rp)
        if isinstance(rp, T) and rp.sort == 'S':
            if rp.op == 'app' and rp.args[0] == 'name':
                k, c = rp.args[1], SP.member(rp.args[1])
            else:
                k, c = pos_of(rp), present(rp)
            if it.branch(c):
                return Ent(self.RP, SP, k)
            it.raise_(self.exc('ChemistrySpeciesNotPresentError'), rp)
        it.raise_(self.exc('ChemistrySpeciesNotPresentError'), rp)

    def get_reaction(self, it, o, r):
        r = lib.force(it, r)
        if isinstance(r, T) and r.sort == 'I':
            if it.branch(RE.member(r)):
                return Ent(self.RX, RE, r)
        it.raise_(self.exc('ChemistryReactionNotPresentError'), r)

    # ------------------------------------------------------------------ an object in an arbitrary state
    def build(self):
        """the real constructor, on an arbitrary chemistry"""
        it = self.it
        ch = it.instantiate(self.cls, [], {'species': ents(self.RP, SP), 'reactions': ents(self.RX, RE)})
        return ch

    def assigned(self):
        """attributes which some method other than the constructor stores into"""
        out = set()

        def root(t):
            while isinstance(t, ast.Subscript) or isinstance(t, ast.Attribute) and isinstance(t.value, (ast.Subscript, ast.Attribute)):
                t = t.value
            return t
        for f in self.CH.node.body:
            if isinstance(f, ast.FunctionDef) and f.name != '__init__':
                for n in ast.walk(f):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                    for t in ts:
                        for u in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                            u = root(u)
                            if isinstance(u, ast.Attribute):
                                out.add(u.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                        u = root(n.func)
                        if isinstance(n.func.value, ast.Attribute) and n.func.attr in ('update', 'append', 'add', 'remove', 'discard', 'clear', 'pop',
                                                                                        'insert', 'extend', 'setdefault'):
                            out.add(root(n.func.value).attr if isinstance(root(n.func.value), ast.Attribute) else '')
        return out

    def prepare(self):
        if self.template is None:
            outs = self.it.explore(self.build)
            good = [v[1] for c, v in outs if v[0] == 'return']
            if not good:
                raise Unsupported('the constructor refuses everything')
            self.template = good[0]
            self.mutable = self.assigned()
            for k, v in self.template.attrs.items():
                if k in self.mutable and not (isinstance(v, Ser) and not isinstance(v, DictSer) or isinstance(v, dict) and all(isinstance(x, Part) for x in v.values())
                                              or isinstance(v, (str, type(None), bool, int))):
                    raise Unsupported('state attribute of type ' + type(v).__name__)
                if k not in self.mutable and isinstance(v, (set, list)):
                    raise Unsupported('state attribute of type ' + type(v).__name__)
            for d in ('adhoc_species_attributes', 'adhoc_reactions_attributes'):
                if not isinstance(self.template.attrs.get(d), dict) or not all(isinstance(x, Part) for x in self.template.attrs[d].values()):
                    raise Unsupported('override tables of another kind')

    def part(self, k, attr, pre='o'):
        """an override table with arbitrary contents"""
        it = self.it
        p = Part()
        if k == 'adhoc_species_attributes' and attr == 'ret_coefs':
            p.axis, p.kind = SP, 'dict'
            p.dom = Arr([SP], lambda i: app(pre + '_ret_has', (i,), 'B'), dtype='B')
            p.val = DictSer(SP, SP, 'name', Arr([SP], lambda i: app(pre + '_ret_none', (i,), 'B'), dtype='B'),
                            Arr([SP, SP], lambda i, q: and_(SP.member(q), app(pre + '_ret_k', (i, q), 'B')), dtype='B'), Arr([SP, SP], lambda i, q: app(pre + '_ret_v', (i, q))))
            return p
        ax = SP if k == 'adhoc_species_attributes' else RE
        t = {'stick_coef': 'stick', 'arrh_a': 'arrh'}.get(attr)
        if t is None:
            raise Unsupported('another override table: ' + attr)
        p.axis, p.kind = ax, 'num'
        p.dom = Arr([ax], lambda i: app(pre + '_{}_has'.format(t), (i,), 'B'), dtype='B')
        p.val = Ser(ax, Arr([ax], lambda i: ite(app(pre + '_{}_none'.format(t), (i,), 'B'), NAN, app(pre + '_{}_v'.format(t), (i,)))))
        return p

    def state(self, overrides=True, tag='st', pre='o'):
        """a new object in an arbitrary state"""
        it = self.it
        # class invariant: only reactions with a unit have an overridden rate (set_adhoc_reactions_attributes refuses others)
        it.path.assume(all_(RE, lambda r: implies(and_(app(pre + '_arrh_has', (r,), 'B'), not_(app(pre + '_arrh_none', (r,), 'B'))), not_(unit_none(r)))))
        o = it.new(SObj_(self.cls))
        for k, v in self.template.attrs.items():
            if isinstance(v, Ser) and not isinstance(v, DictSer):
                f = v.arr.frozen()
                if k in self.mutable:
                    if v.arr.dtype != 'B' or not isinstance(v.dim, Axis):
                        raise Unsupported('state series of another kind')
                    a = Arr([v.dim], lambda i, k=k: app('{}_{}'.format(tag, k), (i,), 'B'), dtype='B')
                else:
                    a = Arr([v.dim], f, dtype=v.arr.dtype)
                o.attrs[k] = it.new(Ser(v.dim, it.new(a)))
            elif isinstance(v, dict) and v and all(isinstance(x, Part) for x in v.values()):
                o.attrs[k] = it.new({q: (it.new(self.part(k, q, pre)) if overrides else it.new(Part())) for q in v})
                for p in o.attrs[k].values():
                    if p.axis is not None:
                        it.new(p.dom)
                        for a in ((p.val.arr,) if p.kind == 'num' else (p.val.none, p.val.dom2, p.val.val2)):
                            it.new(a)
            else:
                o.attrs[k] = v
        return o

    def charged(self):
        """is this a class of chemistries with charged species?"""
        return self.it.truth(self.cls.find('requires_charge'))

    def m(self, o, meth, *a, **k):
        return self.it.call(self.it.getattr(o, meth), list(a), k)

    def observe(self, o):
        """the state, by the public observers"""
        class St:
            pass
        st = St()
        st.dis_sp = self.pred(self.m(o, 'get_disabled_species'), SP)
        st.dis_r = self.pred(self.m(o, 'get_disabled_reactions'), RE)
        st.prot = self.pred(self.m(o, 'get_protected_species'), SP)
        st.spec = self.pred(self.m(o, 'get_special_species'), SP)
        return st

    def pred(self, ser, ax):
        if not isinstance(ser, Ser) or ser.dim.base is not ax:
            raise Unsupported('observer of another kind')
        return ser.dim.pred

    # ------------------------------------------------------------------ comparing
    def series(self, nm, got, dim_pred, ax, value, hyps):
        """got: Series over the positions with dim_pred, with the values value(i)"""
        s = self.s
        if not isinstance(got, Ser):
            return s.unsup(nm, 'result of type ' + type(got).__name__)
        if got.dim.base is not ax:
            return s.check(nm + '.index', FALSE, hyps, CH)
        i = ax.new('v')
        h = list(hyps) + [ax.member(i)]
        s.check(nm + '.index', eq(got.dim.pred(i), dim_pred(i)), h, CH)
        if value is not None:
            self.value(nm + '.value', got.arr.at(i), value(i), h + [dim_pred(i)])

    def value(self, nm, got, want, h):
        s = self.s
        if isinstance(want, Ent):
            return s.check(nm, got.same(want) if isinstance(got, Ent) else FALSE, h, CH)
        if isinstance(want, Named):
            if not isinstance(got, Named):
                return s.unsup(nm, 'value of type ' + type(got).__name__)
            s.check(nm + '.none', eq(got.isnone(), want.isnone()), h, CH)
            k = SP.new('k')
            h2 = h + [not_(want.isnone()), SP.member(k)]
            s.check(nm + '.keys', eq(got.dom(k), want.dom(k)), h2, CH)
            return s.check(nm + '.values', eq(got.val(k), want.val(k)), h2 + [want.dom(k)], CH)
        got, want = lift(got), lift(want)
        if got.sort == 'R' and (NAN in tm.walk(got) or NAN in tm.walk(want)):
            s.check(nm + '.missing', eq(isnan(got), isnan(want)), h, CH)
            return s.check(nm, eq(strip_nan(got), strip_nan(want)), h + [not_(isnan(want))], CH)
        return s.check(nm, eq(got, want), h, CH)

    def run(self, nm, fn, target, conds=(), overrides=True):
        """paths of a method on an arbitrary state: [(conditions, outcome, observed state)]"""
        it = self.it
        self.s.under_contract(target)
        it.target = target
        box = {}

        def body():
            o = self.state(overrides)
            st = self.observe(o)
            r = fn(o, st)
            return (r, st, o)
        try:
            outs = self.s.explore(it, nm, body, conds)
        finally:
            it.target = None
        return outs or []


def SObj_(cls):
    return ip.SObj(cls)


def flags():
    return [const('arg_disabled', 'B'), const('arg_special', 'B'), const('arg_protected', 'B')]


def selected(st, d, sp, p=TRUE):
    return lambda i: and_(or_(d, not_(st.dis_sp(i))), or_(sp, not_(special(i))), or_(p, not_(st.prot(i))))


def selected_r(st, d):
    return lambda i: or_(d, not_(st.dis_r(i)))


def method_dyn():
    b1, b2, b3 = (const('method_' + x, 'B') for x in ('lhs', 'rhs', 'net'))
    t = text('method_text')
    d = Dyn('method', [(b1, 'lhs'), (and_(not_(b1), b2), 'rhs'), (and_(not_(b1), not_(b2), b3), 'net'), (and_(not_(b1), not_(b2), not_(b3)), t)])
    other = [not_(eq(t, lift(x))) for x in ('lhs', 'rhs', 'net')]
    return d, {'lhs': b1, 'rhs': and_(not_(b1), b2), 'net': and_(not_(b1), not_(b2), b3), '?': d.cases[-1][0]}, other


# ------------------------------------------------------------------------------------------------ C05
def c05(s):
    k = Kit(s)
    k.prepare()
    for given in (True, False):
        stoich(s, k, given)


def stoich(s, k, given):
    """given: all arguments are passed; otherwise none (the defaults)"""
    d, sp, p = flags() if given else (FALSE, FALSE, TRUE)
    meth, cases, facts = method_dyn()
    if not given:
        facts = [cases['net']]
    kw = dict(disabled=d, special=sp, method=meth) if given else {}
    tag = '' if given else '()'
    # the matrix
    outs = k.run('get_stoichiomatrix' + tag, lambda o, st: k.m(o, 'get_stoichiomatrix', **kw), 'Chemistry.get_stoichiomatrix', facts)
    for n, (c, v) in enumerate(outs):
        nm = 'Chemistry.get_stoichiomatrix{}#post[{}]'.format(tag, n)
        if v[0] == 'raise':
            s.check(nm + '.no_exception', cases['?'], list(c), CH)
            continue
        r, st, o = v[1]
        if not isinstance(r, Frm) or r.dims[0].base is not RE or r.dims[1].base is not SP:
            s.unsup(nm, 'result of another kind')
            continue
        i, j = RE.new('r'), SP.new('s')
        h = list(c) + [RE.member(i), SP.member(j)]
        rows, cols = selected_r(st, d), selected(st, d, sp)
        s.check(nm + '.rows', eq(r.dims[0].pred(i), rows(i)), list(c) + [RE.member(i)], CH)
        s.check(nm + '.columns', eq(r.dims[1].pred(j), cols(j)), list(c) + [SP.member(j)], CH)
        for m in ('lhs', 'rhs', 'net'):
            s.check(nm + '.entries_' + m, eq(r.arr.at(i, j), coef(m, i, j)), h + [rows(i), cols(j), cases[m]], CH)
    # the vectors
    for q, tgt in (('e', 'get_reactions_stoich_coefs_electron'), ('M', 'get_reactions_stoich_coefs_arbitrary')):
        kw = dict(disabled=d, method=meth) if given else {}
        outs = k.run(tgt + tag, lambda o, st: k.m(o, tgt, **kw), 'Chemistry.' + tgt, facts + ([present('e')] if q == 'e' else []))
        for n, (c, v) in enumerate(outs):
            nm = 'Chemistry.{}{}#post[{}]'.format(tgt, tag, n)
            if v[0] == 'raise':
                s.check(nm + '.no_exception', cases['?'], list(c), CH)
                continue
            r, st, o = v[1]
            for m in ('lhs', 'rhs', 'net'):
                pe = pos_of(q)
                k.series(nm + '_' + m, r, selected_r(st, d), RE, lambda i: ite(present(q), coef(m, i, pe), num(0)), list(c) + [cases[m]])


# ------------------------------------------------------------------------------------------------ C06
def stick_eff(i):
    """override unless there is none"""
    return ite(and_(app('o_stick_has', (i,), 'B'), not_(app('o_stick_none', (i,), 'B'))), app('o_stick_v', (i,)), stick0(i))


def arrh_eff(r, si):
    has = and_(app('o_arrh_has', (r,), 'B'), not_(app('o_arrh_none', (r,), 'B')))
    v, v0 = app('o_arrh_v', (r,)), app('arrh', (r,))
    f = factor(r)
    return ite(has, ite(si, mul(v, f), v), ite(app('none_arrh', (r,), 'B'), NAN, ite(si, mul(v0, f), v0)))


def c06(s):
    k = Kit(s)
    k.prepare()
    for given in (True, False):
        views(s, k, given)
        counts(s, k, given)
    lookups(s, k)
    protection(s, k)
    resets(s, k)
    overrides(s, k)


def views(s, k, given):
    d, sp, p = flags() if given else (FALSE, FALSE, TRUE)
    kw = dict(disabled=d, special=sp, protected=p) if given else {}
    tag = '' if given else '()'
    table = {'get_species': lambda i: Ent(k.RP, SP, i), 'get_species_name': name, 'get_species_charge': charge, 'get_species_stick_coef': stick_eff}
    for a in SPECIES_NUMBERS:
        table['get_species_' + a] = lambda i, a=a: maybe(a, i)
    for m, val in table.items():
        for n, (c, v) in enumerate(k.run(m + tag, lambda o, st: k.m(o, m, **kw), 'Chemistry.' + m)):
            nm = 'Chemistry.{}{}#post[{}]'.format(m, tag, n)
            if v[0] == 'raise':
                s.check(nm + '.no_exception', FALSE, list(c), CH)
                continue
            r, st, o = v[1]
            k.series(nm, r, selected(st, d, sp, p), SP, val, list(c))
    si = const('arg_si', 'B') if given else TRUE
    rtable = {'get_reactions': lambda i: Ent(k.RX, RE, i), 'get_reactions_elastic': lambda i: app('elastic', (i,), 'B'), 'get_reactions_arrh_a': lambda i: arrh_eff(i, si)}
    for a, m in REACTION_NUMBERS.items():
        rtable[m] = lambda i, a=a: maybe(a, i)
    for m, val in rtable.items():
        kw2 = {} if not given else dict(disabled=d, si_units=si) if m == 'get_reactions_arrh_a' else dict(disabled=d)
        for n, (c, v) in enumerate(k.run(m + tag, lambda o, st: k.m(o, m, **kw2), 'Chemistry.' + m)):
            nm = 'Chemistry.{}{}#post[{}]'.format(m, tag, n)
            if v[0] == 'raise':
                s.check(nm + '.no_exception', FALSE, list(c), CH)
                continue
            r, st, o = v[1]
            k.series(nm, r, selected_r(st, d), RE, val, list(c))


def excname(e):
    return e.cls if isinstance(e.cls, str) else getattr(e.cls, '__name__', None) or e.cls.name


def tables(o):
    """the overrides: attribute -> (which items, value)"""
    out = {}
    for t, ax in (('adhoc_species_attributes', SP), ('adhoc_reactions_attributes', RE)):
        for a, p in o.attrs[t].items():
            if not isinstance(p, Part):
                raise Unsupported('override table of another kind')
            if p.axis is None:
                out[a] = (ax, lambda i: FALSE, None)
            elif p.axis is not ax:
                raise Unsupported('override table of another axis')
            else:
                out[a] = (ax, p.dom.frozen(), p.val.arr.frozen())
    return out


def keep_tables(k, nm, t0, t1, c, but=()):
    """the overrides are the same as before"""
    s = k.s
    for a in t0:
        if a in but:
            continue
        ax, d0, v0 = t0[a]
        _, d1, v1 = t1[a]
        i = ax.new('i')
        h = list(c) + [ax.member(i)]
        s.check('{}.keeps_{}'.format(nm, a), eq(d0(i), d1(i)), h, CH)
        if v1 is not None and v0 is not None:
            k.value('{}.keeps_{}_values'.format(nm, a), v1(i), v0(i), h + [d0(i)])


def keep_state(k, nm, st0, st1, c, but=()):
    for a, ax in (('dis_sp', SP), ('dis_r', RE), ('prot', SP), ('spec', SP)):
        if a in but:
            continue
        i = ax.new('i')
        k.s.check('{}.keeps_{}'.format(nm, a), eq(getattr(st0, a)(i), getattr(st1, a)(i)), list(c) + [ax.member(i)], CH)


def species_id():
    """any way to name a species: (Dyn, condition of being in the chemistry, position)"""
    n, t = const('arg_id', 'I'), text('arg_name')
    e = const('arg_pos', 'I')
    b1, b2, b3 = (const('arg_is_' + x, 'B') for x in ('id', 'name', 'object'))
    d = Dyn('rp', [(b1, n), (and_(not_(b1), b2), t), (and_(not_(b1), not_(b2), b3), 'object'), (and_(not_(b1), not_(b2), not_(b3)), Other('arg'))])
    return d, n, t, e, (b1, and_(not_(b1), b2), and_(not_(b1), not_(b2), b3))


def lookups(s, k):
    d, n, t, e, (is_id, is_name, is_obj) = species_id()
    d.cases[2] = (d.cases[2][0], Ent(k.RP, SP, e))
    real = k.it.contracts.pop('Chemistry.get_rp')
    for q, (c, v) in enumerate(k.run('get_rp', lambda o, st: k.m(o, 'get_rp', d), 'Chemistry.get_rp', [SP.member(e)])):
        nm = 'Chemistry.get_rp#post[{}]'.format(q)
        c = list(c)
        known = or_(and_(is_id, SP.member(n)), and_(is_name, present(t)), is_obj)
        if v[0] == 'raise':
            s.check(nm + '.raises_only_if_absent', not_(known), c, CH)
            s.check(nm + '.documented_error', TRUE if excname(v[1]) == 'ChemistrySpeciesNotPresentError' else FALSE, c, CH)
            continue
        s.check(nm + '.present', known, c, CH)
        r = v[1][0]
        if not isinstance(r, Ent) or r.axis is not SP:
            s.check(nm + '.is_the_species', FALSE, c, CH)
            continue
        s.check(nm + '.is_the_species', eq(r.pos, ite(is_id, n, ite(is_name, pos_of(t), e))), c, CH)
    k.it.contracts['Chemistry.get_rp'] = real
    # reactions
    real = k.it.contracts.pop('Chemistry.get_reaction')
    b1, b2 = const('arg_is_rid', 'B'), const('arg_is_text', 'B')
    rid = const('arg_rid', 'I')
    d = Dyn('r', [(b1, rid), (and_(not_(b1), b2), text('arg_rtext')), (and_(not_(b1), not_(b2)), None)])
    for q, (c, v) in enumerate(k.run('get_reaction', lambda o, st: k.m(o, 'get_reaction', d), 'Chemistry.get_reaction')):
        nm = 'Chemistry.get_reaction#post[{}]'.format(q)
        c = list(c)
        known = and_(b1, RE.member(rid))
        if v[0] == 'raise':
            s.check(nm + '.raises_only_if_absent', not_(known), c, CH)
            s.check(nm + '.documented_error', TRUE if excname(v[1]) == 'ChemistryReactionNotPresentError' else FALSE, c, CH)
            continue
        s.check(nm + '.present', known, c, CH)
        r = v[1][0]
        s.check(nm + '.is_the_reaction', eq(r.pos, rid) if isinstance(r, Ent) and r.axis is RE else FALSE, c, CH)
    k.it.contracts['Chemistry.get_reaction'] = real


def counts(s, k, given):
    d, sp, p = flags() if given else (FALSE, FALSE, TRUE)
    kw0 = dict(disabled=d, special=sp, protected=p) if given else {}
    tag = '' if given else '()'
    for q, (c, v) in enumerate(k.run('num_species' + tag, lambda o, st: k.m(o, 'num_species', **kw0), 'Chemistry.num_species')):
        nm = 'Chemistry.num_species{}#post[{}]'.format(tag, q)
        if v[0] == 'raise':
            s.check(nm + '.no_exception', FALSE, list(c), CH)
            continue
        r, st, o = v[1]
        s.check(nm, eq(lift(r), Sub(SP, selected(st, d, sp, p)).length), list(c), CH)
    for q, (c, v) in enumerate(k.run('num_reactions', lambda o, st: k.m(o, 'num_reactions'), 'Chemistry.num_reactions')):
        nm = 'Chemistry.num_reactions#post[{}]'.format(q)
        if v[0] == 'raise':
            s.check(nm + '.no_exception', FALSE, list(c), CH)
            continue
        r, st, o = v[1]
        s.check(nm, eq(lift(r), Sub(RE, selected_r(st, FALSE)).length), list(c), CH)
    for m, ax, sel, kw in (('get_species_id', SP, lambda st: selected(st, d, sp, p), kw0),
                           ('get_reactions_id', RE, lambda st: selected_r(st, d), dict(disabled=d) if given else {})):
        for q, (c, v) in enumerate(k.run(m + tag, lambda o, st: k.m(o, m, **kw), 'Chemistry.' + m)):
            nm = 'Chemistry.{}{}#post[{}]'.format(m, tag, q)
            if v[0] == 'raise':
                s.check(nm + '.no_exception', FALSE, list(c), CH)
                continue
            r, st, o = v[1]
            if not isinstance(r, Arr) or len(r.dims) != 1 or r.dims[0].base is not ax:
                s.unsup(nm, 'result of another kind')
                continue
            i = ax.new('i')
            h = list(c) + [ax.member(i)]
            s.check(nm + '.which', eq(r.dims[0].pred(i), sel(st)(i)), h, CH)
            s.check(nm + '.id', eq(r.at(i), i), h + [sel(st)(i)], CH)


def attempt(k, fn):
    """(result or exception, state before, state after, overrides before, overrides after)"""
    def body(o, st):
        t0 = tables(o)
        e = None
        try:
            fn(o)
        except ip.PyExc as x:
            e = x
        return e, st, k.observe(o), t0, tables(o)
    return body


def protection(s, k):
    """set_protected_species with up to two species, each named in any way"""
    for cnt in (0, 1, 2):
        args, facts, known, pos = [], [], [], []
        for a in range(cnt):
            d, n, t, e, (is_id, is_name, is_obj) = species_id()
            m = {x: const('{}_{}'.format(x.args[0], a), x.sort) for x in (n, t, e)}
            m.update({const('arg_is_' + x, 'B'): const('arg{}_is_{}'.format(a, x), 'B') for x in ('id', 'name', 'object')})
            n, t, e = m[n], m[t], m[e]
            cs = [subst(c, m) for c, _ in d.cases]
            args.append(Dyn('rp{}'.format(a), [(cs[0], n), (cs[1], t), (cs[2], Ent(k.RP, SP, e)), (cs[3], Other('arg{}'.format(a)))]))
            is_id, is_name, is_obj = cs[:3]
            facts.append(SP.member(e))
            known.append(or_(and_(is_id, SP.member(n)), and_(is_name, present(t)), is_obj))
            pos.append(ite(is_id, n, ite(is_name, pos_of(t), e)))
        for q, (c, v) in enumerate(k.run('set_protected_species/{}'.format(cnt), attempt(k, lambda o: k.m(o, 'set_protected_species', *args)),
                                         'Chemistry.set_protected_species', facts)):
            nm = 'Chemistry.set_protected_species/{}#post[{}]'.format(cnt, q)
            c = list(c)
            if v[0] == 'raise':
                s.check(nm + '.setup', FALSE, c, CH)
                continue
            e, st0, st1, t0, t1 = v[1][0]
            keep_tables(k, nm, t0, t1, c)
            keep_state(k, nm, st0, st1, c, ('prot',))
            i = SP.new('i')
            h = c + [SP.member(i)]
            if e is not None:
                s.check(nm + '.refused_only_if_absent', not_(and_(*known)), c, CH)
                s.check(nm + '.documented_error', TRUE if excname(e) == 'ChemistrySpeciesNotPresentError' else FALSE, c, CH)
                s.check(nm + '.refused_changes_nothing', eq(st0.prot(i), st1.prot(i)), h, CH)
            else:
                s.check(nm + '.all_present', and_(*known), c, CH)
                s.check(nm + '.protected', eq(st1.prot(i), or_(st0.prot(i), *[eq(i, x) for x in pos])), h, CH)


S_ATTRS, R_ATTRS = ('stick_coef', 'ret_coefs'), ('arrh_a',)
NUMK = ('float', 'np.float64', 'str', 'int', 'None')
ALLK = ('None', 'bool', 'int', 'float', 'np.float64', 'str', 'other')


def attrib_dyn(known):
    bs = [const('attrib_is_' + a, 'B') for a in known]
    t = text('attrib_text')
    cases, prev = [], []
    for a, b in zip(known, bs):
        cases.append((and_(b, *[not_(x) for x in prev]), a))
        prev.append(b)
    cases.append((and_(*[not_(x) for x in prev]), t))
    return Dyn('attrib', cases), {a: c for c, a in cases[:-1]}, cases[-1][0], [not_(eq(t, lift(a))) for a in known + ('all',)]


def overrides(s, k):
    """set_adhoc_*: validated like the original value; exactly this value is changed"""
    from rx import numeric
    for attr in S_ATTRS + ('other',):
        d, n, t, e, (is_id, is_name, is_obj) = species_id()
        d.cases[2] = (d.cases[2][0], Ent(k.RP, SP, e))
        known = or_(and_(is_id, SP.member(n)), and_(is_name, present(t)), is_obj)
        pos = ite(is_id, n, ite(is_name, pos_of(t), e))
        facts = [SP.member(e)]
        a = attr
        if attr == 'other':
            a = text('attrib_text')
            facts += [not_(eq(a, lift(x))) for x in S_ATTRS]
        val = dyn('value', ALLK)
        want = None
        if attr == 'ret_coefs':
            good = Named(SP, 'name', FALSE, lambda i: app('g_has', (i,), 'B'), lambda i: app('g_v', (i,)))
            val.cases = val.cases[:]
            b1, b2 = const('type_value_dict', 'B'), const('type_value_bad', 'B')
            bad = Named(NM, 'anytext', FALSE, lambda i: app('b_has', (i,), 'B'), lambda i: app('b_v', (i,)))
            val.cases = [(b1, good), (b2, bad)] + val.cases
            val.is_ = {kk: and_(not_(b1), not_(b2), x) for kk, x in val.is_.items()}
            val.is_['dict'], val.is_['bad'] = b1, and_(not_(b1), b2)
            val.by['dict'], val.by['bad'] = good, bad
        val.facts = []

        def body(o, st):
            if attr == 'ret_coefs':
                on = lambda i: and_(SP.member(i), not_(st.dis_sp(i)))
                k.it.path.assume(all_(SP, lambda i: implies(app('g_has', (i,), 'B'), on(i))))
                bn = lambda i: app('anytext', (i,), 'S')
                k.it.path.assume(any_(NM, lambda i: and_(app('b_has', (i,), 'B'), not_(and_(present(bn(i)), on(pos_of(bn(i))))))))
            return attempt(k, lambda o: k.m(o, 'set_adhoc_species_attributes', a, d, val))(o, st)
        label = 'set_adhoc_species_attributes[{}]'.format(attr)
        for q, (c, v) in enumerate(k.run(label, body, 'Chemistry.set_adhoc_species_attributes', facts + list(val.conds))):
            nm = 'Chemistry.{}#post[{}]'.format(label, q)
            c = list(c)
            if v[0] == 'raise':
                s.check(nm + '.setup', FALSE, c, CH)
                continue
            x, st0, st1, t0, t1 = v[1][0]
            keep_state(k, nm, st0, st1, c)
            if attr == 'other':
                valid = FALSE
            elif attr == 'stick_coef':
                valid = and_(known, or_(*[val.is_[kk] for kk in ('None', 'int', 'float', 'np.float64')], and_(val.is_['str'], numeric(val))))
            else:
                valid = and_(known, or_(val.is_['None'], val.is_['dict']))
            if x is not None:
                s.check(nm + '.refused_only_if_invalid', not_(valid), c, CH)
                keep_tables(k, nm, t0, t1, c)
                if excname(x) not in ('ChemistrySpeciesNotPresentError', 'RPAttributeError', 'ChemistryConsistencyError'):
                    # the text of a number that is not one
                    s.check(nm + '.documented_error', and_(val.is_['str'], not_(numeric(val))) if attr == 'stick_coef' else FALSE, c, CH)
                continue
            s.check(nm + '.accepted_only_if_valid', valid, c, CH)
            keep_tables(k, nm, t0, t1, c, (attr,))
            ax, d0, v0 = t0[attr]
            _, d1, v1 = t1[attr]
            i = SP.new('i')
            h = c + [SP.member(i)]
            s.check(nm + '.which', eq(d1(i), or_(d0(i), eq(i, pos))), h, CH)
            k.value(nm + '.others_kept', v1(i), v0(i), h + [d0(i), not_(eq(i, pos))])
            if attr == 'stick_coef':
                w = ite(val.is_['None'], NAN, as_number(val))
                k.value(nm + '.value', v1(pos), w, c)
            else:
                g = val.by['dict']
                k.value(nm + '.value', v1(pos), Named(SP, 'name', val.is_['None'], g.dom, g.val), c)
    # reactions
    for attr in R_ATTRS + ('other',):
        rid = const('arg_rid', 'I')
        b1 = const('arg_is_rid', 'B')
        d = Dyn('r', [(b1, rid), (not_(b1), text('arg_rtext'))])
        known = and_(b1, RE.member(rid))
        a, facts = attr, []
        if attr == 'other':
            a = text('attrib_text')
            facts = [not_(eq(a, lift(x))) for x in R_ATTRS]
        val = dyn('value', ALLK)
        label = 'set_adhoc_reactions_attributes[{}]'.format(attr)
        for q, (c, v) in enumerate(k.run(label, attempt(k, lambda o: k.m(o, 'set_adhoc_reactions_attributes', a, d, val)),
                                         'Chemistry.set_adhoc_reactions_attributes', facts + list(val.conds))):
            nm = 'Chemistry.{}#post[{}]'.format(label, q)
            c = list(c)
            if v[0] == 'raise':
                s.check(nm + '.setup', FALSE, c, CH)
                continue
            x, st0, st1, t0, t1 = v[1][0]
            keep_state(k, nm, st0, st1, c)
            w = as_number(val)
            isnum = or_(*[val.is_[kk] for kk in ('int', 'float', 'np.float64')], and_(val.is_['str'], numeric(val)))
            valid = FALSE if attr == 'other' else and_(known, or_(val.is_['None'], and_(isnum, not_(lt(w, num(0))), not_(unit_none(rid)))))
            if x is not None:
                s.check(nm + '.refused_only_if_invalid', not_(valid), c, CH)
                keep_tables(k, nm, t0, t1, c)
                if excname(x) not in ('ChemistryReactionNotPresentError', 'ReactionAttributeError'):
                    s.check(nm + '.documented_error', and_(val.is_['str'], not_(numeric(val))), c, CH)
                continue
            s.check(nm + '.accepted_only_if_valid', valid, c, CH)
            keep_tables(k, nm, t0, t1, c, (attr,))
            ax, d0, v0 = t0[attr]
            _, d1, v1 = t1[attr]
            i = RE.new('i')
            h = c + [RE.member(i)]
            s.check(nm + '.which', eq(d1(i), or_(d0(i), eq(i, rid))), h, CH)
            k.value(nm + '.others_kept', v1(i), v0(i), h + [d0(i), not_(eq(i, rid))])
            k.value(nm + '.value', v1(rid), ite(val.is_['None'], NAN, w), c)


def as_number(val):
    from rx import number
    return number(val)


def resets(s, k):
    for m, attrs in (('reset_adhoc_species_attributes', S_ATTRS), ('reset_adhoc_reactions_attributes', R_ATTRS)):
        for a in attrs + ('all', 'other'):
            arg, facts = a, []
            if a == 'other':
                arg = text('attrib_text')
                facts = [not_(eq(arg, lift(x))) for x in attrs + ('all',)]
            for q, (c, v) in enumerate(k.run('{}[{}]'.format(m, a), attempt(k, lambda o: k.m(o, m, arg)), 'Chemistry.' + m, facts)):
                nm = 'Chemistry.{}[{}]#post[{}]'.format(m, a, q)
                c = list(c)
                if v[0] == 'raise':
                    s.check(nm + '.setup', FALSE, c, CH)
                    continue
                x, st0, st1, t0, t1 = v[1][0]
                keep_state(k, nm, st0, st1, c)
                gone = attrs if a == 'all' else () if a == 'other' else (a,)
                keep_tables(k, nm, t0, t1, c, gone)
                if (x is not None) != (a == 'other'):
                    s.check(nm + '.outcome', FALSE, c, CH)
                    continue
                if x is not None:
                    s.check(nm + '.documented_error', TRUE if excname(x) in ('RPAttributeError', 'ReactionAttributeError') else FALSE, c, CH)
                for g in gone:
                    ax, d1, _ = t1[g]
                    i = ax.new('i')
                    s.check('{}.no_{}_left'.format(nm, g), not_(d1(i)), c + [ax.member(i)], CH)
    # enabling everything keeps the overrides
    for q, (c, v) in enumerate(k.run('reset', attempt(k, lambda o: k.m(o, 'reset')), 'Chemistry.reset')):
        nm = 'Chemistry.reset#post[{}]'.format(q)
        c = list(c)
        if v[0] == 'raise' or v[1][0][0] is not None:
            s.check(nm + '.no_exception', FALSE, c, CH)
            continue
        x, st0, st1, t0, t1 = v[1][0]
        keep_tables(k, nm, t0, t1, c)
        for a, ax in (('dis_sp', SP), ('dis_r', RE)):
            i = ax.new('i')
            s.check('{}.enabled_{}'.format(nm, a), not_(getattr(st1, a)(i)), c + [ax.member(i)], CH)


def ret_eff(st, i):
    """override or own coefficients; nothing for a species that does not stick; species that are enabled only"""
    has = and_(app('o_ret_has', (i,), 'B'), not_(app('o_ret_none', (i,), 'B')))
    own = ret0(i)
    none = and_(not_(has), own.isnone())
    e = stick_eff(i)
    no_stick = and_(not_(isnan(e)), eq(strip_nan(e), num(0)))
    dom = lambda k: and_(not_(no_stick), not_(st.dis_sp(k)), ite(has, app('o_ret_k', (i, k), 'B'), own.dom(k)))
    return Named(SP, 'name', and_(none, not_(no_stick)), dom, lambda k: ite(has, app('o_ret_v', (i, k)), own.val(k)))


def c07(s):
    k = Kit(s)
    k.prepare()
    for given in (True, False):
        k.it.contracts.pop('Chemistry.get_species_ret_coefs', None)
        ret(s, k, given)


def ret(s, k, given):
    d, sp, p = flags() if given else (FALSE, FALSE, TRUE)
    kw = dict(disabled=d, special=sp, protected=p) if given else {}
    tag = '' if given else '()'
    m = 'get_species_ret_coefs'
    for n, (c, v) in enumerate(k.run(m + tag, lambda o, st: k.m(o, m, **kw), 'Chemistry.' + m)):
        nm = 'Chemistry.{}{}#post[{}]'.format(m, tag, n)
        if v[0] == 'raise':
            s.check(nm + '.no_exception', FALSE, list(c), CH)
            continue
        r, st, o = v[1]
        k.series(nm, r, selected(st, d, sp, p), SP, lambda i: ret_eff(st, i), list(c))
    # the matrix, by the contract of the coefficients
    def ret_coefs(it, o, disabled=False, special=False, protected=True):
        st = k.observe(o)
        f = selected(st, as_flag(disabled), as_flag(special), as_flag(protected))
        return DictSer.of(it, Sub(SP, lambda i: f(i)), lambda i: ret_eff(st, i), ret0(SP.new('x')))
    k.it.contracts['Chemistry.get_species_ret_coefs'] = ret_coefs
    m = 'get_return_matrix'
    kw2 = dict(disabled=d, special=sp) if given else {}
    for n, (c, v) in enumerate(k.run(m + tag, lambda o, st: k.m(o, m, **kw2), 'Chemistry.' + m)):
        nm = 'Chemistry.{}{}#post[{}]'.format(m, tag, n)
        c = list(c)
        if v[0] == 'raise':
            s.check(nm + '.no_exception', FALSE, c, CH)
            continue
        r, st, o = v[1]
        if not isinstance(r, Frm) or r.dims[0].base is not SP or r.dims[1].base is not SP:
            s.unsup(nm, 'result of another kind')
            continue
        i, j = SP.new('i'), SP.new('j')
        sel = selected(st, d, sp)
        s.check(nm + '.rows', eq(r.dims[0].pred(i), sel(i)), c + [SP.member(i)], CH)
        s.check(nm + '.columns', eq(r.dims[1].pred(i), sel(i)), c + [SP.member(i)], CH)
        h = c + [SP.member(i), SP.member(j), sel(i), sel(j)]
        e = ret_eff(st, j)
        want = ite(or_(special(i), special(j)), NAN, ite(and_(not_(e.isnone()), e.dom(i)), e.val(i), num(0)))
        k.value(nm + '.entry', r.arr.at(i, j), want, h)


def as_flag(x):
    return x if isinstance(x, T) else TRUE if x else FALSE


def generate(s):
    {'C05': c05, 'C06': c06, 'C07': c07}[s.prop](s)
