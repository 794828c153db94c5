"""C03: reaction data: units consistent with the process, typed attributes with documented defaults, SI rate coefficients."""
import math
import gen
from harness import Skip
from p_C02 import errs

A_UNITS = {1: ['s-1'], 2: ['cm3.s-1', 'm3.s-1'], 3: ['cm6.s-1', 'm6.s-1']}
SI = gen.SI
TYPES = dict(arrh_a='n', arrh_b='n', arrh_c='n', el_en_loss='n', gas_heat_contrib='n', special_number='i', qdb_r_id='i',
             qdb_ds_id='i', doi='s', comments='s', elastic='b', latex='s')
DEFAULT_UNITS = ['arrh_a', 'arrh_c', 'el_en_loss', 'gas_heat_contrib']


def type_ok(attr, v):
    import numpy as np
    t = TYPES[attr]
    if v is None:
        return True
    if t == 'n':
        return type(v) in (float, np.float64, str, int)
    if t == 'i':
        return type(v) in (int, str)
    if t == 's':
        return type(v) is str
    return v in ('true', 'True', 'TRUE', 'false', 'False', 'FALSE') if type(v) is str else type(v) is bool


def unit_ok(attr, unit, value, nreact, el):
    """The unit the attribute may carry for this reaction."""
    if value is None:
        return True
    if attr == 'arrh_a':
        return unit in A_UNITS[nreact]
    if attr == 'arrh_c':
        return unit == ('eV' if el else 'K')
    if attr in ('el_en_loss', 'gas_heat_contrib'):
        return unit in (None, 'eV')
    return unit is None


def valid_set(attr, value, unit, nreact, el):
    if attr not in TYPES or not type_ok(attr, value):
        return False
    if not unit_ok(attr, unit, value, nreact, el):
        return False
    if attr == 'arrh_a' and value is not None and float(value) < 0:
        return False
    return True


def valid_init(rid, attrs, units, nreact, el):
    if type(rid) is not int or rid <= 0:
        return False
    if 'special_number' not in attrs and 'arrh_a' not in attrs:
        return False
    if not set(attrs) <= set(TYPES):
        return False
    if not set(units) <= set(DEFAULT_UNITS) & set(attrs):
        return False
    if not {'arrh_a', 'arrh_c'} & set(attrs) <= set(units):
        return False
    return all(valid_set(k, v, units.get(k), nreact, el) for k, v in attrs.items())


def rnd_val(rng, attr):
    t = TYPES.get(attr, 's')
    if rng.random() < .06:
        return rng.choice([None, [1], True, 3, 2.5, '7', (1,), {}])
    if t == 'n':
        lo = 0 if attr == 'arrh_a' and rng.random() < .9 else -1
        x = rng.choice([0., 1., 2., float('%.4g' % rng.uniform(5 * lo, 5)), float('%.3g' % (10 ** rng.uniform(-20, 3)))])
        if attr == 'arrh_a' and lo < 0:
            x = -abs(x)
        return gen.num(rng, x)
    if t == 'i':
        return rng.choice([0, 1, -1, 158, '42', '-1165'])
    if t == 'b':
        return rng.choice([True, False, 'true', 'True', 'TRUE', 'false', 'False', 'FALSE', 'yes', 1, 0])
    return rng.choice(['foo', '', 'a b'])


def rnd_unit(rng, attr, nreact, el):
    if rng.random() < .8:
        if attr == 'arrh_a':
            return rng.choice(A_UNITS[nreact])
        if attr == 'arrh_c':
            return 'eV' if el else 'K'
        return 'eV'
    return rng.choice([None, 's-1', 'cm3.s-1', 'm3.s-1', 'cm6.s-1', 'm6.s-1', 'eV', 'K', 'J', '3.s-1', 'xm6.s-1', 'm3'])


def getters(rec, r, attrs, units, nreact, el, elastic_default, tag, rng):
    def f(k, d=None, conv=float):
        v = attrs.get(k)
        return d if v is None else conv(v)
    a = f('arrh_a')
    si = None if a is None else a * SI[units['arrh_a']]
    rec.eq(r.get_arrh_a(), si, 'reaction.arrh_a_si', tag)
    rec.eq(r.get_arrh_a(si_units=True), si, 'reaction.arrh_a_si', tag)
    rec.eq(r.get_arrh_a(si_units=False), a, 'reaction.arrh_a_nominal', tag)
    b, c = f('arrh_b', None if a is None else 0.), f('arrh_c', None if a is None else 0.)
    rec.eq(r.get_arrh_b(), b, 'reaction.arrh_b', tag)
    rec.eq(r.get_arrh_c(), c, 'reaction.arrh_c', tag)
    rec.eq(r.get_el_en_loss(), f('el_en_loss', 0.), 'reaction.el_en_loss', tag)
    rec.eq(r.get_gas_heat_contrib(), f('gas_heat_contrib', 0.), 'reaction.gas_heat_contrib', tag)
    rec.eq(r.get_special_number(), f('special_number', 10 if el else 20, int), 'reaction.special_number', tag)
    rec.eq(r.get_qdb_r_id(), f('qdb_r_id', None, int), 'reaction.qdb_r_id', tag)
    rec.eq(r.get_qdb_ds_id(), f('qdb_ds_id', None, int), 'reaction.qdb_ds_id', tag)
    rec.eq(r.get_doi(), f('doi', None, str), 'reaction.doi', tag)
    rec.eq(r.get_comments(), f('comments', None, str), 'reaction.comments', tag)
    e = attrs.get('elastic')
    ee = elastic_default if e is None else e in ('true', 'True', 'TRUE', True)
    rec.check(r.get_elastic() is ee and r.is_elastic_process() is ee, 'reaction.elastic', tag)
    rec.check(r.is_electron_process() is el, 'reaction.is_electron_process', tag)
    for k in DEFAULT_UNITS:
        d = None if k.startswith('arrh') else 'eV'
        rec.eq(r.get_unit(k), units.get(k) or d, 'reaction.unit', tag + k)
    rec.raises(errs(), lambda: r.get_unit('arrh_b'), 'reaction.unit_unsupported', tag)
    if a is None:
        rec.raises(errs(), lambda: r.get_rate_coefficient(300.), 'reaction.rate_coefficient_needs_data', tag)
    else:
        for t in (300., rng.uniform(.1, 20), rng.uniform(100, 3000)):
            base = t if el else t / 300.
            for flag, pre in ((True, si), (False, a)):
                want = pre * base ** b * math.exp(-c / t) if abs(c / t) < 600 and abs(b) < 20 else None
                if want is not None and want < 1e250:
                    rec.close(r.get_rate_coefficient(t, si_units=flag), want, 'reaction.rate_coefficient',
                              tag + ' T={}'.format(t))


def one(rng, rec):
    from plaschem.species import RP
    from plaschem.reactions import Reaction
    e = RP(1, name='e', mass=5e-4, charge=-1)
    m = RP(2, name='M')
    ar = RP(3, name='Ar', mass=40.)
    ars = RP(4, name='Ar*', state='*', stateless='Ar', mass=40., hpem_name='ARS')
    nreact = rng.randint(1, 3)
    lhs = [rng.choice([e, m, ar, ars]) for _ in range(nreact)]
    rhs = list(lhs)
    if rng.random() < .6:
        rhs = [rng.choice([ar, ars]) if x in (ar, ars) else x for x in rhs]
    rng.shuffle(rhs)
    el = e in lhs
    keys = [k for k in TYPES if rng.random() < .45]
    if rng.random() < .9 and 'arrh_a' not in keys and 'special_number' not in keys:
        keys.append(rng.choice(['arrh_a', 'arrh_a', 'special_number']))
    if rng.random() < .04:
        keys.append(rng.choice(['foo', 'name', 'id']))
    attrs = {k: rnd_val(rng, k) for k in keys}
    units = {}
    for k in DEFAULT_UNITS:
        if (k in attrs and (k.startswith('arrh') or rng.random() < .4) and rng.random() < .96) or rng.random() < .03:
            units[k] = rnd_unit(rng, k, nreact, el)
    rid = rng.choice([1, 5, 77]) if rng.random() < .95 else rng.choice([0, -1, '1', 1.0, True, None])
    split = [k for k in attrs if rng.random() < .3]
    over = {k: rnd_val(rng, k) for k in attrs if rng.random() < .1}
    kw = {k: attrs[k] for k in split}
    base = {k: attrs[k] for k in attrs if k not in split}
    base.update(over if rng.random() < .5 else {})
    eff = dict(base)
    eff.update(kw)  # keyword attributes win
    tag = '{} > {} attrs={} units={} id={!r}: '.format(lhs, rhs, eff, units, rid)
    base0, units0 = dict(base), dict(units)

    def make():
        return Reaction(rid, lhs, rhs, attributes=base if base or rng.random() < .5 else None,
                        units=units if units or rng.random() < .5 else None, **kw)
    ok = valid_init(rid, eff, units, nreact, el)
    if not ok:
        rec.raises(errs() + (TypeError,), make, 'reaction.invalid_data_rejected', tag)
        return tag, ok
    r = rec.total(make, 'reaction.valid_data_accepted', tag)
    rec.eq((base, units), (base0, units0), 'reaction.arguments_not_modified', tag)
    eld = {x.get_name() for x in lhs} == {x.get_name() for x in rhs}
    getters(rec, r, eff, units, nreact, el, eld, tag, rng)
    # history of attribute updates: a rejected update changes nothing, an accepted one only its attribute
    cur, curu = dict(eff), dict(units)
    for _ in range(rng.randint(0, 4)):
        k = rng.choice(list(TYPES)) if rng.random() < .96 else 'foo'
        v = rnd_val(rng, k)
        u = rnd_unit(rng, k, nreact, el) if k in DEFAULT_UNITS and rng.random() < .9 else None if rng.random() < .95 \
            else 'eV'
        if v is None and u is not None:
            u = None
        t2 = tag + ' set {}={!r} [{}]: '.format(k, v, u)
        if valid_set(k, v, u, nreact, el):
            rec.total(lambda: r.set_reaction_attribute(k, v, unit=u), 'reaction.valid_update_accepted', t2)
            cur[k], curu[k] = v, u
        else:
            rec.raises(errs() + (TypeError,), lambda: r.set_reaction_attribute(k, v, unit=u), 'reaction.invalid_update_rejected', t2)
        getters(rec, r, cur, curu, nreact, el, eld, t2, rng)
    return tag, ok


def views(rng, rec):
    """Lists of species, strings, identification keys."""
    from plaschem.reactions import Reaction
    spec = gen.chem_spec(rng, max_species=6, max_reactions=5)
    ch, sp, rs = gen.build(spec)
    for r, rr in zip(spec['reactions'], rs):
        L, R = [sp[i] for i in r['lhs']], [sp[i] for i in r['rhs']]
        for meth, side in (('lhs', L), ('rhs', R), ('all', L + R)):
            seen = []
            for x in side:
                if x not in seen:
                    seen.append(x)
            rec.eq(list(rr.get_rp_names_set(meth)), [x.get_name() for x in seen], 'reaction.names_set', str(rr))
            rec.eq(list(rr.get_rp_ids_set(meth)), [x.id for x in seen], 'reaction.ids_set', str(rr))
        for x in L + R:
            rec.check(rr.get_rp(x.id) is x and rr.get_rp(x.get_name()) is x, 'reaction.get_rp', str(rr))
        out = [x for x in sp if x not in L + R]
        for x in out:
            rec.raises(ValueError, lambda: rr.get_rp(x.get_name()), 'reaction.get_rp_absent', str(rr))
        s = ' + '.join(x.get_name() for x in L) + ' > ' + ' + '.join(x.get_name() for x in R)
        rec.eq(rr.get_string(), s, 'reaction.string')
        L2, R2 = list(L), list(R)
        rng.shuffle(L2), rng.shuffle(R2)
        s2 = ' + '.join(x.get_name() for x in L2) + ' > ' + ' + '.join(x.get_name() for x in R2)
        rec.eq(Reaction.unique_key(s2), Reaction.unique_key(s), 'reaction.unique_key_order_free', s)
        for r3 in rs:
            rec.eq(Reaction.unique_key(str(r3)) == Reaction.unique_key(s),
                   sorted(map(str, r3.get_reactants())) == sorted(map(str, L)) and
                   sorted(map(str, r3.get_products())) == sorted(map(str, R)), 'reaction.unique_key_separates', s)
        q = [x.get_charge() for x in L if not x.is_special()]
        rec.eq(bool(rr.is_ion_process()), any(q), 'reaction.is_ion_process', s)
        heavy = [x for x in L if not x.is_special()]
        if rr.is_electron_process() and heavy:
            rec.check(rr.get_electron_collision_partner() is heavy[0], 'reaction.collision_partner', s)
        else:
            rec.raises(errs(), rr.get_electron_collision_partner, 'reaction.collision_partner_absent', s)
    return gen.short(spec)


FAMILIES = [('one', one, 1), ('views', views, 9)]
