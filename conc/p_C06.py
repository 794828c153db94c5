"""C06: per-species and per-reaction chemistry views: filters, ad-hoc overrides, resets, independence of copies."""
import math
import gen
from harness import Skip
from p_C05 import rnd_disable


def nn(x):
    """None and NaN both mean 'not defined' in a pandas column."""
    if x is None or (isinstance(x, float) and x != x):
        return None
    return x


def col(s):
    return [nn(x) if not isinstance(x, dict) else x for x in s.tolist()]


class Model:
    def __init__(self, spec):
        self.spec = spec
        self.stick, self.ret, self.arrh = {}, {}, {}

    def copy(self):
        m = Model(self.spec)
        m.stick, m.arrh = dict(self.stick), dict(self.arrh)
        m.ret = {k: dict(v) for k, v in self.ret.items()}
        return m

    def stick_of(self, s):
        return float(self.stick[s['id']]) if s['id'] in self.stick else gen.exp_stick(s)

    def arrh_of(self, r, si):
        v = r['attributes'].get('arrh_a')
        if r['id'] in self.arrh:
            v = self.arrh[r['id']]
        if v is None:
            return None
        return float(v) * gen.SI[r['units']['arrh_a']] if si else float(v)


def check_species(rng, rec, ch, mod, en_sp, prot, tag):
    spec = mod.spec
    for _ in range(3):
        d, s_, p = rng.random() < .5, rng.random() < .5, rng.random() < .7
        sel = [s for s in spec['species'] if (d or s['id'] in en_sp) and (s_ or not gen.special(s)) and
               (p or s['id'] not in prot)]
        kw = dict(disabled=d, special=s_, protected=p)
        t = tag + str(kw)
        at = lambda s, k, dflt: None if gen.special(s) else float(s['attributes'].get(k, dflt))
        want = {
            'name': [s['name'] for s in sel],
            'charge': [gen.exp_charge(s) for s in sel],
            'mass': [None if s['name'] == 'M' else float(s['attributes']['mass']) for s in sel],
            'h_form': [at(s, 'h_form', 0.) for s in sel],
            'lj_epsilon': [at(s, 'lj_epsilon', 0.) for s in sel],
            'lj_sigma': [at(s, 'lj_sigma', 3.) for s in sel],
            'stick_coef': [mod.stick_of(s) for s in sel],
        }
        for k, w in want.items():
            g = rec.total(lambda: getattr(ch, 'get_species_' + k)(**kw), 'species_view.total', t + k)
            rec.eq(list(g.index), [s['id'] for s in sel], 'species_view.index', t + k)
            rec.eq([x if isinstance(x, str) else None if x is None else float(x) for x in col(g)],
                   [x if isinstance(x, str) else None if x is None else float(x) for x in w], 'species_view.' + k, t + k)
        g = ch.get_species(**kw)
        rec.eq([x.id for x in g], [s['id'] for s in sel], 'species_view.instances', t)
        rec.eq(ch.get_species_id(**kw).tolist(), [s['id'] for s in sel], 'species_view.id', t)
        rec.eq(ch.num_species(**kw), len(sel), 'species_view.num', t)
    rec.eq(ch.get_species_id().tolist(), [s['id'] for s in spec['species'] if s['id'] in en_sp and not gen.special(s)],
           'species_view.default_filter', tag)
    rec.eq(list(ch.get_special_species().index), [s['id'] for s in spec['species'] if gen.special(s)],
           'species_view.special', tag)


def check_reactions(rng, rec, ch, mod, en_r, tag):
    spec = mod.spec
    for d in (False, True):
        sel = [r for r in spec['reactions'] if d or r['id'] in en_r]
        t = tag + 'disabled={} '.format(d)
        el = lambda r: any(spec['species'][i]['name'] == 'e' for i in r['lhs'])
        hasa = lambda r: r['attributes'].get('arrh_a') is not None
        f = lambda r, k, dd: float(r['attributes'][k]) if r['attributes'].get(k) is not None else dd
        want = {
            'arrh_b': [f(r, 'arrh_b', 0. if hasa(r) else None) for r in sel],
            'arrh_c': [f(r, 'arrh_c', 0. if hasa(r) else None) for r in sel],
            'el_en_loss': [f(r, 'el_en_loss', 0.) for r in sel],
            'ges_heat_contrib': [f(r, 'gas_heat_contrib', 0.) for r in sel],
            'elastic': [gen.exp_elastic(spec, r) for r in sel],
        }
        for k, w in want.items():
            g = getattr(ch, 'get_reactions_' + k)(disabled=d)
            rec.eq(list(g.index), [r['id'] for r in sel], 'reactions_view.index', t + k)
            rec.eq(col(g), w, 'reactions_view.' + k, t + k)
        for si in (True, False):
            g = rec.total(lambda: ch.get_reactions_arrh_a(disabled=d, si_units=si), 'reactions_view.total', t)
            rec.eq(list(g.index), [r['id'] for r in sel], 'reactions_view.index', t + 'arrh_a')
            rec.close([math.nan if x is None else float(x) for x in col(g)],
                      [math.nan if mod.arrh_of(r, si) is None else mod.arrh_of(r, si) for r in sel],
                      'reactions_view.arrh_a', t + 'arrh_a si={}'.format(si), rtol=1e-12)
        rec.eq([x.id for x in ch.get_reactions(disabled=d)], [r['id'] for r in sel], 'reactions_view.instances', t)
        rec.eq(ch.get_reactions_id(disabled=d).tolist(), [r['id'] for r in sel], 'reactions_view.id', t)
    rec.eq(ch.num_reactions(), len(en_r), 'reactions_view.num', tag)


def state(ch):
    return (set(ch.get_species_id(special=True).tolist()), set(ch.get_reactions_id().tolist()),
            set(ch.get_protected_species().index.tolist()))


def num(rng, x):
    import numpy as np
    return rng.choice([float(x), np.float64(x), float(x), repr(float(x))])


def history(rng, rec):
    from plaschem.exceptions import RPAttributeError, ReactionAttributeError, ChemistryConsistencyError, \
        ChemistrySpeciesNotPresentError, ChemistryReactionNotPresentError
    spec = gen.chem_spec(rng, max_species=6, max_reactions=7)
    if rng.random() < .3:
        r = rng.choice(spec['reactions'])
        r['attributes'] = {'special_number': 3}
        r['units'] = {}
    ch, sp, rs = gen.build(spec)
    raw = [(dict(vars(x)), dict(x._units)) for x in sp + rs] if all(hasattr(x, '_units') for x in sp + rs) else None
    from plaschem.exceptions import ChemistryConsistencyError
    chems = [(ch, Model(spec))]
    ordinary = [s for s in spec['species'] if not gen.special(s)]
    log = []
    for _ in range(rng.randint(1, 7)):
        c, m = rng.choice(chems)
        op = rng.choice(['stick', 'stick', 'ret', 'arrh', 'arrh', 'reset_sp', 'reset_r', 'copy', 'disable', 'bad', 'disable'])
        s = rng.choice(ordinary)
        arg = rng.choice([s['id'], s['name'], c.get_rp(s['id'])])
        if op == 'stick':
            v = rng.choice([0., 1., round(rng.random(), 3)])
            x = num(rng, v)
            log.append(('stick_coef', s['name'], x))
            rec.total(lambda: c.set_adhoc_species_attributes('stick_coef', arg, x), 'adhoc.accepts', str(log))
            m.stick[s['id']] = v
        elif op == 'ret':
            if rng.random() < .15:  # None: no override
                log.append(('ret_coefs', s['name'], None))
                rec.total(lambda: c.set_adhoc_species_attributes('ret_coefs', arg, None), 'adhoc.accepts', str(log))
                m.ret.pop(s['id'], None)
                continue
            v = {rng.choice(ordinary)['name']: num(rng, round(rng.random(), 3)) for _ in range(rng.randint(0, 2))}
            log.append(('ret_coefs', s['name'], v))
            if not set(v) <= set(c.get_species_name().tolist()):  # names a disabled return species
                rec.raises(ChemistryConsistencyError, lambda: c.set_adhoc_species_attributes('ret_coefs', arg, v),
                           'adhoc.rejects_disabled_return_species', str(log))
                continue
            rec.total(lambda: c.set_adhoc_species_attributes('ret_coefs', arg, v), 'adhoc.accepts', str(log))
            m.ret[s['id']] = {k: float(x) for k, x in v.items()}
            v['Ar'] = 99.  # the caller's dict is not aliased
        elif op == 'arrh':
            cand = [r for r in spec['reactions'] if 'arrh_a' in r['attributes']]
            if not cand:
                continue
            r = rng.choice(cand)
            if rng.random() < .15:
                log.append(('arrh_a', r['id'], None))
                rec.total(lambda: c.set_adhoc_reactions_attributes('arrh_a', r['id'], None), 'adhoc.accepts', str(log))
                m.arrh.pop(r['id'], None)
                continue
            v = rng.choice([0., gen.rnd_pos(rng, -20, 2)])
            x = num(rng, v)
            log.append(('arrh_a', r['id'], x))
            rec.total(lambda: c.set_adhoc_reactions_attributes('arrh_a', r['id'], x), 'adhoc.accepts', str(log))
            m.arrh[r['id']] = v
        elif op == 'reset_sp':
            k = rng.choice(['stick_coef', 'ret_coefs', 'all'])
            log.append(('reset', k))
            c.reset_adhoc_species_attributes(k)
            if k in ('stick_coef', 'all'):
                m.stick = {}
            if k in ('ret_coefs', 'all'):
                m.ret = {}
        elif op == 'reset_r':
            log.append(('reset', 'arrh_a'))
            c.reset_adhoc_reactions_attributes(rng.choice(['arrh_a', 'all']))
            m.arrh = {}
        elif op == 'copy' and len(chems) < 3:
            log.append('copy')
            c2 = rec.total(c.copy, 'copy.total')
            rec.eq(state(c2), state(c), 'copy.same_state', str(log))
            rec.check(type(c2) is type(c), 'copy.same_type', str(log))
            chems.append((c2, m.copy()))
        elif op == 'disable':
            log.append('disable')
            rnd_disable(rng, c, spec, 1)
        elif op == 'bad':
            k = rng.randrange(7)
            noa = [r for r in spec['reactions'] if 'arrh_a' not in r['attributes']]
            rec.raises(*[((RPAttributeError,), lambda: c.set_adhoc_species_attributes('mass', arg, 1.)),
                         ((RPAttributeError,), lambda: c.set_adhoc_species_attributes('stick_coef', arg, [1.])),
                         ((ChemistryConsistencyError,),
                          lambda: c.set_adhoc_species_attributes('ret_coefs', arg, {'nonexistent': 1.})),
                         ((ChemistrySpeciesNotPresentError,),
                          lambda: c.set_adhoc_species_attributes('stick_coef', 'nonexistent', 1.)),
                         ((ChemistryReactionNotPresentError,),
                          lambda: c.set_adhoc_reactions_attributes('arrh_a', 10 ** 6, 1.)),
                         ((ReactionAttributeError,), lambda: c.set_adhoc_reactions_attributes(
                             'arrh_a', rng.choice(spec['reactions'])['id'], -1e-16)),
                         ((ReactionAttributeError,), lambda: c.set_adhoc_reactions_attributes(
                             'arrh_a', rng.choice(noa)['id'], 1.)) if noa else
                         ((ReactionAttributeError,), lambda: c.set_adhoc_reactions_attributes(
                             'arrh_a', spec['reactions'][0]['id'], True))][k],
                       'adhoc.bad_request_rejected', str(k))
            rec.raises((ReactionAttributeError,), lambda: c.set_adhoc_reactions_attributes(
                'arrh_b', spec['reactions'][0]['id'], 1.), 'adhoc.bad_request_rejected')
        # every chemistry shows its own history only
        for j, (c3, m3) in enumerate(chems):
            en_sp, en_r, prot = state(c3)
            tag = '{} after {} (chemistry #{}): '.format(gen.short(spec), log, j)
            check_species(rng, rec, c3, m3, en_sp, prot, tag)
            check_reactions(rng, rec, c3, m3, en_r, tag)
            want = {i: d for i, d in m3.ret.items()}
            got = c3.get_species_ret_coefs(disabled=True)
            for s3 in ordinary:
                w = want.get(s3['id'], gen.exp_ret(s3)) if m3.stick_of(s3) != 0. else {}
                en_names = {x['name'] for x in spec['species'] if x['id'] in en_sp}
                w = {k: v for k, v in w.items() if k in en_names}
                rec.eq(got.at[s3['id']], w, 'adhoc.ret_coefs', tag + s3['name'])
    if raw is not None:
        rec.eq([(dict(vars(x)), dict(x._units)) for x in sp + rs], raw, 'adhoc.instances_untouched', str(log))
    return gen.short(spec), str(log)


def lookup(rng, rec):
    from plaschem.exceptions import ChemistrySpeciesNotPresentError, ChemistryReactionNotPresentError
    spec = gen.chem_spec(rng, max_species=6, max_reactions=7)
    ch, sp, rs = gen.build(spec)
    rnd_disable(rng, ch, spec)
    for x in sp:
        rec.check(ch.get_rp(x.id) is x and ch.get_rp(x.get_name()) is x and ch.get_rp(x) is x, 'lookup.species')
    for x in rs:
        rec.check(ch.get_reaction(x.id) is x, 'lookup.reaction')
    free = max(s['id'] for s in spec['species']) + 1
    rec.raises(ChemistrySpeciesNotPresentError, lambda: ch.get_rp(free), 'lookup.absent_species')
    rec.raises(ChemistrySpeciesNotPresentError, lambda: ch.get_rp('nope'), 'lookup.absent_species')
    rec.raises(ChemistryReactionNotPresentError, lambda: ch.get_reaction(max(r.id for r in rs) + 1), 'lookup.absent_reaction')
    return gen.short(spec)


def consistency(rng, rec):
    """The constructor accepts exactly the consistent sets of species and reactions."""
    from plaschem.chemistry import Chemistry
    from plaschem.species import RP
    from plaschem.reactions import Reaction
    from plaschem.exceptions import ChemistryConsistencyError, ChemistryInitError
    spec = gen.chem_spec(rng, max_species=6, max_reactions=6)
    ch, sp, rs = gen.build(spec)
    k = rng.randrange(8)
    bad = True
    kw = lambda s: dict(attributes=dict(s['attributes'], name=s['name']), units=dict(s['units']))
    free = max(s['id'] for s in spec['species']) + 1
    if k == 0:  # a species in no reaction
        sp = sp + [RP(free, name='Kr', mass=80.)]
    elif k == 1:  # a reaction using a look-alike instance
        i = rng.choice(spec['reactions'][0]['lhs'])
        sp[i] = RP(sp[i].id, **kw(spec['species'][i]))
    elif k == 2:  # duplicate reaction id
        r0 = rs[0]
        rs = rs + [Reaction(r0.id, r0.get_products()[:3], r0.get_products()[:3], special_number=1)]
    elif k == 3:  # no electron
        sp = [x for x in sp if x.get_name() != 'e']
        rs = [r for r in rs if 'e' not in r.get_rp_names_set()]
    elif k == 4:  # species missing
        i = rng.randrange(len(sp))
        sp = sp[:i] + sp[i + 1:]
    elif k == 5:  # duplicate species id or name
        x = RP(free if rng.random() < .5 else sp[0].id, name=sp[-1].get_name(), stateless='Kr', mass=1.)
        sp = sp + [x]
        rs = rs + [Reaction(10 ** 6, [x], [x], special_number=1)]
    elif k == 6:  # return species not in the chemistry
        x = RP(free, name='Kr', mass=80., stick_coef=1., ret_coefs={'Xe': 1.})
        sp = sp + [x]
        rs = rs + [Reaction(10 ** 6, [x], [x], special_number=1)]
    else:
        bad = False
    t = '{} case {}'.format(gen.short(spec), k)
    if bad:
        rec.raises(ChemistryConsistencyError, lambda: Chemistry(species=sp, reactions=rs), 'chemistry.inconsistent_rejected', t)
    else:
        rec.total(lambda: Chemistry(species=tuple(sp), reactions=tuple(rs)), 'chemistry.consistent_accepted', t)
        rec.raises(ChemistryInitError, lambda: Chemistry(species=sp), 'chemistry.bad_arguments', t)
        rec.raises(ChemistryInitError, lambda: Chemistry(reactions=rs), 'chemistry.bad_arguments', t)
        rec.raises(ChemistryInitError, lambda: Chemistry(), 'chemistry.bad_arguments', t)
    return t


FAMILIES = [('history', history, 1), ('lookup', lookup, 7), ('consistency', consistency, 3)]
