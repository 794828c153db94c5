"""C04: species data: mandatory/typed attributes, defaults derived from charge and state, atomic updates, units."""
import gen

TYPES = dict(name='s', stateless='s', state='s', mass='n', charge='i', h_form='n', lj_epsilon='n', lj_sigma='n',
             hpem_name='s', qdb_id='i', stick_coef='n', ret_coefs='d', comments='s', latex='s')
UNITS = dict(mass='amu', charge='e', h_form='eV', lj_epsilon='K', lj_sigma='A')


def errs():
    from plaschem.exceptions import RPInitError, RPAttributeError
    return RPInitError, RPAttributeError


def type_ok(attr, v):
    import numpy as np
    t = TYPES[attr]
    return v is None or (type(v) in (float, np.float64, str, int) if t == 'n' else type(v) in (int, str) if t == 'i'
                         else type(v) is str if t == 's' else type(v) is dict)


def valid_set(attr, v, unit):
    if attr not in TYPES or not type_ok(attr, v):
        return False
    return v is None or unit is None or (attr in UNITS and unit == UNITS[attr])


def rnd_val(rng, attr):
    if rng.random() < .05:
        return rng.choice([None, [1], True, 3, 2.5, '7', (1,), {}])
    t = TYPES.get(attr, 's')
    if t == 'n':
        return gen.num(rng, rng.choice([0., 1., float('%.4g' % rng.uniform(0, 100))]))
    if t == 'i':
        return rng.choice([0, 1, -1, 2, '0', '-2', '+1'])
    if t == 'd':
        return {k: gen.num(rng, rng.choice([0., 1., .25])) for k in rng.sample(['Ar', 'O2', 'O', 'foo'], rng.randint(0, 3))}
    return rng.choice(['foo', 'a b', 'X2+'])


CASES = [('Ar', 'Ar', 'Ar', 0), ('Ar+', 'Ar+', 'Ar', 1), ('Ar++', 'Ar++', 'Ar', 2), ('SF6-', 'SF6-', 'SF6', -1),
         ('O--', 'O--', 'O', -2), ('N2+2', 'N2+2', 'N2', 2), ('C2H5', 'C2H5', 'C2H5', 0), ('Xe-3', 'Xe-3', 'Xe', -3),
         ('O2', 'O2', 'O2', 0), ('H3O+', 'H3O+', 'H3O', 1), ('Ar+++', 'Ar+++', 'Ar', 3), ('O2+12', 'O2+12', 'O2', 12)]
ATOMS = {'Ar': {'Ar': 1}, 'SF6': {'S': 1, 'F': 6}, 'O': {'O': 1}, 'N2': {'N': 2}, 'C2H5': {'C': 2, 'H': 5},
         'Xe': {'Xe': 1}, 'O2': {'O': 2}, 'H3O': {'H': 3, 'O': 1}}


def strip(s):
    import re
    return re.sub(r'(?:[+-]+|[+-][0-9]+)$', '', s)


def getters(rec, r, cur, units, tag):
    def f(k, d=None, conv=float):
        v = cur.get(k)
        return d if v is None else conv(v)
    name = cur.get('name')
    if name is None:
        rec.raises(errs(), r.get_name, 'species.name_mandatory', tag)
        return
    special = name in ('e', 'M')
    rec.eq(r.get_name(), name, 'species.name', tag)
    rec.eq(str(r), name, 'species.str', tag)
    rec.check(r.is_special() is special, 'species.is_special', tag)
    state = None if special else cur.get('state')
    rec.eq(r.get_state(), state, 'species.state', tag)
    rec.check(r.is_stateless() is (state is None), 'species.is_stateless', tag)
    if special:
        sl = name
    else:
        sl = cur.get('stateless')
        if sl is None:
            sl = name if state is None else Exception
    if sl is Exception:
        rec.raises(errs(), r.get_stateless, 'species.stateless_mandatory_with_state', tag)
    else:
        rec.eq(r.get_stateless(), sl, 'species.stateless', tag)
    if name == 'M':
        rec.check(r.get_mass() is None and r.get_charge() is None, 'species.M_has_no_mass_or_charge', tag)
    else:
        if cur.get('mass') is None:
            rec.raises(errs(), r.get_mass, 'species.mass_mandatory', tag)
        else:
            rec.eq(r.get_mass(), float(cur['mass']), 'species.mass', tag)
        q = f('charge', 0, int)
        rec.eq(r.get_charge(), q, 'species.charge', tag)
    for k, d in (('h_form', 0.), ('lj_epsilon', 0.), ('lj_sigma', 3.)):
        rec.eq(getattr(r, 'get_' + k)(), None if special else f(k, d), 'species.' + k, tag)
    for k in ('hpem_name', 'comments'):
        rec.eq(getattr(r, 'get_' + k)(), f(k, None, str), 'species.' + k, tag)
    rec.eq(r.get_qdb_id(), f('qdb_id', None, int), 'species.qdb_id', tag)
    if cur.get('latex') is not None:
        rec.eq(r.get_latex(), cur['latex'], 'species.latex', tag)
    ground = not special and state is None and f('charge', 0, int) == 0
    rec.eq(r.get_stick_coef(), None if special else f('stick_coef', 0. if ground else 1.), 'species.stick_coef', tag)
    if special:
        rec.check(r.get_ret_coefs() is None, 'species.ret_coefs', tag)
    elif cur.get('ret_coefs') is not None:
        rec.eq(r.get_ret_coefs(), {k: float(v) for k, v in cur['ret_coefs'].items()}, 'species.ret_coefs', tag)
    elif ground:
        rec.eq(r.get_ret_coefs(), {}, 'species.ret_coefs', tag)
    elif sl is not Exception:
        rec.eq(r.get_ret_coefs(), {strip(sl): 1.}, 'species.ret_coefs_default', tag)
    # the returned containers are the caller's own
    own = r.get_ret_coefs() if special or cur.get('ret_coefs') is not None or ground or sl is not Exception else None
    if own is not None:
        kept = dict(own)
        own['Zz'] = 7.
        for k in kept:
            own[k] = -1.
        rec.eq(r.get_ret_coefs(), kept, 'species.returned_containers_are_copies', tag)
    for k, d in UNITS.items():
        rec.eq(r.get_unit(k), units.get(k) or d, 'species.unit', tag + k)
    rec.raises(errs(), lambda: r.get_unit('stick_coef'), 'species.unit_unsupported', tag)


def one(rng, rec):
    from plaschem.species import RP
    name, stateless, neutral, q = rng.choice(CASES)
    a = dict(name=name, mass=rnd_val(rng, 'mass'))
    if q:
        a['charge'] = rng.choice([q, str(q)])
    k = rng.randrange(6)
    if k in (0, 1):
        a.update(name=name + '(v={})'.format(k), state='v={}'.format(k), stateless=stateless)
        if rng.random() < .08:
            del a['stateless']
    elif k == 2:
        a['stateless'] = stateless
        a['name'] = 'n0'
    elif k == 3 and rng.random() < .5:
        a['name'] = rng.choice(['e', 'M'])
    for x in ('h_form', 'lj_epsilon', 'lj_sigma', 'hpem_name', 'qdb_id', 'stick_coef', 'ret_coefs', 'comments', 'latex'):
        if rng.random() < .3:
            a[x] = rnd_val(rng, x)
    if rng.random() < .04:
        a['bar'] = 1
    if rng.random() < .06:
        a.pop(rng.choice(['mass', 'mass', 'name']), None)
    if rng.random() < .04 and 'name' in a:
        a['name'] += rng.choice('<>')
    u = {x: UNITS[x] if rng.random() < .95 else rng.choice(['kg', 'm', 'J', 'eV', 'K']) for x in UNITS
         if (x in a and rng.random() < .5) or rng.random() < .02}
    rid = rng.choice([0, 5, 77]) if rng.random() < .95 else rng.choice([-1, '1', 1.0, True, None])
    kw = {x: a[x] for x in a if rng.random() < .3}
    base = {x: a[x] for x in a if x not in kw}
    need = {'name', 'mass'} | ({'stateless'} if a.get('state') else set())
    if a.get('name') == 'M':
        need.discard('mass')
    ok = (type(rid) is int and rid >= 0 and need <= set(a) and not set(a.get('name') or '') & set('<>')
          and set(a) <= set(TYPES) and set(u) <= set(UNITS) & set(a) and all(valid_set(x, v, u.get(x)) for x, v in a.items()))
    tag = 'RP({!r}, {}, units={}): '.format(rid, a, u)
    b0, u0 = dict(base), dict(u)
    mk = lambda: RP(rid, attributes=base if base or rng.random() < .5 else None, units=u if u or rng.random() < .5 else None,
                    **kw)
    if not ok:
        rec.raises(errs(), mk, 'species.invalid_data_rejected', tag)
        return tag
    r = rec.total(mk, 'species.valid_data_accepted', tag)
    rec.eq((base, u), (b0, u0), 'species.arguments_not_modified', tag)
    rec.eq(r.id, rid, 'species.id')
    getters(rec, r, a, u, tag)
    if a['name'] == 'e':
        rec.eq(r.get_atoms(), {}, 'species.atoms', tag)
    elif a['name'] == 'M':
        rec.eq(r.get_atoms(), {'M': 1}, 'species.atoms', tag)
    elif not (a['name'] == 'n0' and 'stateless' not in a):
        rec.eq(r.get_atoms(), ATOMS[neutral], 'species.atoms', tag)
    cur, cu = dict(a), dict(u)
    for _ in range(rng.randint(0, 4)):
        k = rng.choice([x for x in TYPES if x not in ('name', 'stateless')]) if rng.random() < .96 else 'bar'
        v = rnd_val(rng, k)
        un = None
        if rng.random() < .6 and k in UNITS:
            un = UNITS[k] if rng.random() < .9 else 'J'
        elif rng.random() < .03:
            un = 'eV'
        if v is None:
            un = None
        t2 = tag + 'set {}={!r} [{}]: '.format(k, v, un)
        if valid_set(k, v, un):
            rec.total(lambda: r.set_species_attribute(k, v, unit=un), 'species.valid_update_accepted', t2)
            cur[k], cu[k] = v, un
        else:
            rec.raises(errs(), lambda: r.set_species_attribute(k, v, unit=un), 'species.invalid_update_rejected', t2)
        getters(rec, r, cur, cu, t2)
    return tag


def charge_suffix(rng, rec):
    from plaschem.species import RP
    base = rng.choice(['Ar', 'O2', 'SF6', 'H3O', 'C2H5', 'CF2'])
    suf = rng.choice(['', '+', '-', '++', '--', '+2', '-3', '+12', '+++++', '-1'])
    rec.eq(RP.strip_charge(base + suf), base, 'species.strip_charge', base + suf)
    return base + suf


FAMILIES = [('one', one, 1), ('charge_suffix', charge_suffix, 40)]
