"""Random plasma chemistries as plain data (ChemSpec), and the real objects built from them."""
import itertools
import math

E_NAME, M_NAME = 'e', 'M'
MASS = {'Ar': 39.948, 'He': 4.0026, 'O': 15.999, 'N': 14.0067, 'H': 1.00794, 'F': 18.998403, 'C': 12.0107, 'S': 32.065,
        'Cl': 35.453}


def _sp(formula, atoms, charge=0, state=None, name=None):
    base = formula + ('+' * charge if charge > 0 else '-' * -charge)
    if name is None:
        name = base
        if state:
            name = base + (state if set(state) == {'*'} else '({})'.format(state))
    return dict(name=name, stateless=base if state else None, state=state, charge=charge, atoms=atoms,
                neutral=formula, mass=sum(MASS[a] * k for a, k in atoms.items()) - charge * 5.4858e-4)


def pool():
    p = []
    for a in ('Ar', 'He'):
        p += [_sp(a, {a: 1}), _sp(a, {a: 1}, state='*'), _sp(a, {a: 1}, state='**'), _sp(a, {a: 1}, 1),
              _sp(a, {a: 1}, 2), _sp(a + '2', {a: 2}), _sp(a + '2', {a: 2}, 1)]
    for a in ('O', 'N', 'H', 'F', 'Cl'):
        p += [_sp(a, {a: 1}), _sp(a, {a: 1}, 1), _sp(a, {a: 1}, -1), _sp(a, {a: 1}, state='1D'),
              _sp(a + '2', {a: 2}), _sp(a + '2', {a: 2}, 1), _sp(a + '2', {a: 2}, -1), _sp(a + '2', {a: 2}, state='v=1'),
              _sp(a + '3', {a: 3}), _sp(a + '2', {a: 2}, 1, state='X')]
    p += [_sp('NO', {'N': 1, 'O': 1}), _sp('NO', {'N': 1, 'O': 1}, 1), _sp('NO2', {'N': 1, 'O': 2}),
          _sp('N2O', {'N': 2, 'O': 1}), _sp('OH', {'O': 1, 'H': 1}), _sp('H2O', {'H': 2, 'O': 1}),
          _sp('H2O', {'H': 2, 'O': 1}, 1), _sp('H3', {'H': 3}, 1), _sp('CF4', {'C': 1, 'F': 4}),
          _sp('CF3', {'C': 1, 'F': 3}), _sp('CF3', {'C': 1, 'F': 3}, 1), _sp('CF2', {'C': 1, 'F': 2}),
          _sp('SF6', {'S': 1, 'F': 6}), _sp('SF6', {'S': 1, 'F': 6}, -1), _sp('SF5', {'S': 1, 'F': 5}),
          _sp('SF5', {'S': 1, 'F': 5}, 1), _sp('HCl', {'H': 1, 'Cl': 1})]
    return p


POOL = pool()


def _key(multiset, sp):
    atoms, q = {}, 0
    for i in multiset:
        if sp[i]['name'] == E_NAME:
            q -= 1
            continue
        for a, k in sp[i]['atoms'].items():
            atoms[a] = atoms.get(a, 0) + k
        q += sp[i]['charge']
    return tuple(sorted(atoms.items())), q


def num(rng, x, np_ok=True):
    """One of the accepted representations of the number x."""
    import numpy as np
    k = rng.randrange(6)
    if k == 0:
        return repr(float(x))
    if k == 1 and float(x) == int(x) and abs(x) < 1e15:
        return int(x)
    if k == 2 and np_ok:
        return np.float64(x)
    return float(x)


def rnd_pos(rng, lo=-3, hi=3):
    return float('%.4g' % (10 ** rng.uniform(lo, hi)))


def chem_spec(rng, max_species=9, max_reactions=14, with_m=None, min_ions=1, require_charge=True, explicit=True,
              plain_numbers=False, commas=False):
    """A consistent random chemistry: dict(species=[...], reactions=[...]); every species occurs in a reaction."""
    num_ = (lambda r, x, np_ok=True: float(x)) if plain_numbers else num
    for _ in range(60):
        fams = rng.sample(['Ar', 'He', 'O', 'N', 'H', 'F', 'Cl'], rng.choice([1, 1, 2, 2, 3]))
        cand = [s for s in POOL if set(s['atoms']) <= set(fams) | (
            {'C', 'S'} if rng.random() < .15 else set())]
        n = rng.randint(2, min(max_species, len(cand)))
        sp = [dict(s) for s in rng.sample(cand, n)]
        e = dict(name=E_NAME, stateless=None, state=None, charge=-1, atoms={}, neutral='e', mass=5.4858e-4)
        if require_charge and sum(s['charge'] > 0 for s in sp) < min_ions:
            ions = [s for s in cand if s['charge'] > 0 and s['name'] not in {x['name'] for x in sp}]
            rng.shuffle(ions)
            sp += [dict(s) for s in ions[:min_ions]]
        # neutral counterparts, so that default return species exist:
        names = {s['name'] for s in sp}
        for s in list(sp):
            if (s['charge'] or s['state']) and s['neutral'] not in names:
                nn = [x for x in POOL if x['name'] == s['neutral']]
                sp.append(dict(nn[0]) if nn else _sp(s['neutral'], s['atoms']))
                names.add(s['neutral'])
        if require_charge:
            sp.append(e)
        m = rng.random() < .5 if with_m is None else with_m
        if m:
            sp.append(dict(name=M_NAME, stateless=None, state=None, charge=None, atoms={'M': 1}, neutral='M', mass=None))
        rng.shuffle(sp)
        if rng.random() < .5:  # usual convention: electron first
            sp.sort(key=lambda s: {E_NAME: 0, M_NAME: 2}.get(s['name'], 1))
        ids = rng.sample(range(0, 3 * len(sp) + 3), len(sp))
        if rng.random() < .3:
            ids = sorted(ids)
        for s, i in zip(sp, ids):
            s['id'] = i
        heavy = [i for i, s in enumerate(sp) if s['name'] != M_NAME]
        e_i = [i for i, s in enumerate(sp) if s['name'] == E_NAME]
        m_i = [i for i, s in enumerate(sp) if s['name'] == M_NAME]
        buckets = {}
        for k in (1, 2, 3):
            for ms in itertools.combinations_with_replacement(heavy, k):
                if all(sp[i]['name'] == E_NAME for i in ms):
                    continue
                buckets.setdefault(_key(ms, sp), []).append(ms)
        pairs = []
        keys = list(buckets)
        used = set()
        target = rng.randint(min(max(2, len(sp) // 2), max_reactions), max_reactions)
        tries = 0
        while (len(pairs) < target or len(used) < len(sp)) and tries < 400:
            tries += 1
            missing = [i for i in heavy if i not in used]
            if m_i and m_i[0] not in used and not missing:
                missing = heavy
            if missing and rng.random() < .7:
                w = rng.choice(missing)
                ks = [k for k in keys if any(w in ms for ms in buckets[k]) and len(buckets[k]) > 1]
                if not ks:
                    if w in e_i or not any(w in ms for k in keys for ms in buckets[k]):
                        continue
                    ks = [k for k in keys if any(w in ms for ms in buckets[k])]
                k = rng.choice(ks)
                lhs = rng.choice([ms for ms in buckets[k] if w in ms])
            else:
                k = rng.choice(keys)
                lhs = rng.choice(buckets[k])
            rhs = rng.choice(buckets[k])
            if rng.random() < .5:
                lhs, rhs = rhs, lhs
            lhs, rhs = list(lhs), list(rhs)
            if m_i and len(lhs) < 3 and (rng.random() < .3 or (m_i[0] not in used and rng.random() < .6)):
                lhs.append(m_i[0]), rhs.append(m_i[0])
            elif e_i and len(lhs) < 3 and rng.random() < .35 and e_i[0] not in lhs:
                lhs.append(e_i[0]), rhs.append(e_i[0])
            rng.shuffle(lhs), rng.shuffle(rhs)
            if sorted(lhs) == sorted(rhs) and rng.random() < .6:
                continue
            if len(pairs) >= max_reactions and set(lhs + rhs) <= used:
                continue
            pairs.append((lhs, rhs))
            used |= set(lhs + rhs)
        if len(used) < len(sp):  # drop the unused species, if possible
            keep_names = {sp[i]['name'] for i in used}
            if require_charge and (E_NAME not in keep_names or not any(
                    sp[i]['charge'] and sp[i]['charge'] > 0 and sp[i]['name'] != E_NAME for i in used)):
                continue
            need = {sp[i]['neutral'] for i in used if (sp[i]['charge'] or sp[i]['state'])
                    and sp[i]['name'] not in (E_NAME, M_NAME)}
            if not need <= keep_names:
                # those need explicit return coefficients
                pass
            remap = {}
            new = []
            for i, s in enumerate(sp):
                if i in used:
                    remap[i] = len(new)
                    new.append(s)
            sp = new
            pairs = [([remap[i] for i in a], [remap[i] for i in b]) for a, b in pairs]
        if not pairs:
            continue
        if require_charge and not any((s['charge'] or 0) > 0 for s in sp if s['name'] != E_NAME):
            continue
        if len([s for s in sp if s['name'] not in (E_NAME, M_NAME)]) < 1:
            continue
        spec = dict(species=sp, reactions=[])
        all_names = {s['name'] for s in sp}
        ordinary = [s['name'] for s in sp if s['name'] not in (E_NAME, M_NAME)]
        for s in sp:
            a = {}
            if s['mass'] is not None:
                a['mass'] = num_(rng, float('%.6g' % s['mass']))
            if s['charge'] not in (None, 0) or (s['charge'] == 0 and rng.random() < .3):
                a['charge'] = rng.choice([s['charge'], str(s['charge'])])
            if s['state']:
                a['state'], a['stateless'] = s['state'], s['stateless']
            elif rng.random() < .1:
                a['stateless'] = s['name']
            if s['name'] not in (E_NAME, M_NAME):
                if rng.random() < .8:
                    a['lj_sigma'] = num_(rng, float('%.3g' % rng.uniform(2, 5)))
                if rng.random() < .5:
                    a['lj_epsilon'] = num_(rng, float('%.3g' % rng.uniform(10, 500)))
                if rng.random() < .5:
                    a['h_form'] = num_(rng, float('%.3g' % rng.uniform(-5, 15)))
                if explicit and rng.random() < .5:
                    a['stick_coef'] = num_(rng, rng.choice([0., 1., .5, .01, float('%.3g' % rng.random())]))
                default_ret = s['neutral'] if (s['charge'] or s['state']) else None
                if (default_ret and default_ret not in all_names) or (explicit and rng.random() < .4):
                    k = rng.randint(0, min(3, len(ordinary)))
                    a['ret_coefs'] = {x: num_(rng, rng.choice([1., .5, .25, float('%.3g' % rng.uniform(0, 2))]))
                                      for x in rng.sample(ordinary, k)}
            if rng.random() < .3:
                a['qdb_id'] = rng.choice([s['id'] + 100, str(s['id'] + 100)])
            if rng.random() < .3:
                a['hpem_name'] = s['name'].upper().replace('+', '^')
            if rng.random() < .2:
                a['comments'] = 'c & <{}> "q"'.format(s['id'])
            if rng.random() < .1:
                a['latex'] = 'L_{%d}' % s['id']
            s['attributes'] = a
            s['units'] = {k: u for k, u in (('mass', 'amu'), ('charge', 'e'), ('h_form', 'eV'), ('lj_epsilon', 'K'),
                                            ('lj_sigma', 'A')) if k in a and rng.random() < .4}
        rids = rng.sample(range(1, 3 * len(pairs) + 2), len(pairs))
        if rng.random() < .5:
            rids = sorted(rids)
        for (lhs, rhs), rid in zip(pairs, rids):
            spec['reactions'].append(dict(id=rid, lhs=lhs, rhs=rhs, **reaction_attrs(rng, spec, lhs, rhs, num_)))
        return spec
    raise RuntimeError('no chemistry generated')


def reaction_attrs(rng, spec, lhs, rhs, num_=num):
    sp = spec['species']
    el = any(sp[i]['name'] == E_NAME for i in lhs)
    a, u = {}, {}
    a['arrh_a'] = num_(rng, rng.choice([0., 1.]) if rng.random() < .08 else rnd_pos(
        rng, *({1: (0, 8), 2: (-16, -9), 3: (-34, -26)}[len(lhs)])))
    u['arrh_a'] = {1: 's-1', 2: rng.choice(['cm3.s-1', 'm3.s-1']), 3: rng.choice(['cm6.s-1', 'm6.s-1'])}[len(lhs)]
    if rng.random() < .6:
        a['arrh_b'] = num_(rng, float('%.3g' % rng.uniform(-2, 2)))
    if rng.random() < .6:
        a['arrh_c'] = num_(rng, float('%.3g' % (rng.uniform(-1, 20) if el else rng.uniform(-300, 3000))))
        u['arrh_c'] = 'eV' if el else 'K'
    if rng.random() < .25:
        a['elastic'] = rng.choice([True, False, 'true', 'True', 'FALSE', 'False'])
    if rng.random() < .5:
        a['el_en_loss'] = num_(rng, float('%.3g' % rng.uniform(-1, 15)))
        if rng.random() < .5:
            u['el_en_loss'] = 'eV'
    if rng.random() < .3:
        a['gas_heat_contrib'] = num_(rng, float('%.3g' % rng.uniform(-5, 5)))
    if rng.random() < .2:
        a['special_number'] = rng.choice([1, -1, '12', -1165])
    if rng.random() < .3:
        a['qdb_r_id'] = rng.choice([7, '158'])
    if rng.random() < .2:
        a['doi'] = '10.1/x'
    if rng.random() < .2:
        a['comments'] = 'foo & bar > < "'
    if rng.random() < .1:
        a['latex'] = 'xx'
    return dict(attributes=a, units=u)


class Built:
    pass


def build_species(spec):
    from plaschem.species import RP
    return [RP(s['id'], attributes=dict(s['attributes'], name=s['name']), units=dict(s['units']))
            for s in spec['species']]


def build(spec, cls=None, only=None):
    """Real objects for the spec: (chemistry, species list, reactions list)."""
    from plaschem.chemistry import Chemistry
    from plaschem.reactions import Reaction
    sp = build_species(spec)
    rs = [Reaction(r['id'], [sp[i] for i in r['lhs']], [sp[i] for i in r['rhs']], attributes=dict(r['attributes']),
                   units=dict(r['units'])) for r in spec['reactions']]
    ch = (cls or Chemistry)(species=sp, reactions=rs)
    return ch, sp, rs


def name_of(spec, i):
    return spec['species'][i]['name']


def show(spec):
    return {'species': [(s['id'], s['name'], s['attributes']) for s in spec['species']],
            'reactions': [(r['id'], ' + '.join(name_of(spec, i) for i in r['lhs']) + ' > ' +
                           ' + '.join(name_of(spec, i) for i in r['rhs']), r['attributes'], r['units'])
                          for r in spec['reactions']]}


def short(spec):
    return ([s['name'] for s in spec['species']],
            [' + '.join(name_of(spec, i) for i in r['lhs']) + ' > ' + ' + '.join(name_of(spec, i) for i in r['rhs'])
             for r in spec['reactions']])


# ---------------------------------------------------------------------------------------------------- oracles (data)

def special(s):
    return s['name'] in (E_NAME, M_NAME)


def exp_stick(s):
    if special(s):
        return None
    v = s['attributes'].get('stick_coef')
    if v is not None:
        return float(v)
    return 0. if (s['attributes'].get('state') is None and int(s['attributes'].get('charge') or 0) == 0) else 1.


def exp_ret(s):
    if special(s):
        return None
    v = s['attributes'].get('ret_coefs')
    if v is not None:
        return {k: float(x) for k, x in v.items()}
    if s['attributes'].get('state') is None and int(s['attributes'].get('charge') or 0) == 0:
        return {}
    return {s['neutral']: 1.}


def exp_charge(s):
    if s['name'] == M_NAME:
        return None
    return int(s['attributes'].get('charge') or 0)


SI = {'s-1': 1., 'm3.s-1': 1., 'm6.s-1': 1., 'cm3.s-1': 1e-6, 'cm6.s-1': 1e-12}


def exp_arrh_a(r, si=True):
    a = r['attributes'].get('arrh_a')
    if a is None:
        return None
    a = float(a)
    return a * SI[r['units']['arrh_a']] if si else a


def exp_elastic(spec, r):
    v = r['attributes'].get('elastic')
    if v is None:
        return {name_of(spec, i) for i in r['lhs']} == {name_of(spec, i) for i in r['rhs']}
    return v in ('true', 'True', 'TRUE', True)
