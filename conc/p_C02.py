"""C02: a reaction object exists only if charge and every atom count balance."""
import gen
from harness import Skip

ERR = None


def errs():
    from plaschem.exceptions import ReactionInitError, ReactionAttributeError, ReactionValueError
    return ReactionInitError, ReactionAttributeError, ReactionValueError


SUFFIX = [('', 0), ('+', 1), ('-', -1), ('++', 2), ('--', -2), ('+2', 2), ('-3', -3), ('+1', 1)]
FORMULAS = [('Ar', {'Ar': 1}), ('O2', {'O': 2}), ('O', {'O': 1}), ('NO', {'N': 1, 'O': 1}), ('N2O', {'N': 2, 'O': 1}),
            ('CF4', {'C': 1, 'F': 4}), ('H2O', {'H': 2, 'O': 1}), ('C2H5', {'C': 2, 'H': 5}), ('N', {'N': 1}),
            ('SiH4', {'Si': 1, 'H': 4}), ('He2', {'He': 2}), ('H', {'H': 1}), ('F', {'F': 1})]


def rnd_species(rng, i, used):
    """(RP kwargs, atoms, charge); the charge is whatever the attribute says, the atoms come from the stateless name."""
    f, atoms = rng.choice(FORMULAS)
    suf, q = rng.choice(SUFFIX + [('', 0)] * 4)
    k = rng.randrange(4)
    kw = dict(mass=1.)
    if k == 0:
        name, kw2 = f + suf, {}
    elif k == 1:
        name, kw2 = f + suf + '*', dict(state='*', stateless=f + suf)
    elif k == 2:
        name, kw2 = f + suf + '(v=%d)' % i, dict(state='v=%d' % i, stateless=f + suf)
    else:
        name, kw2 = 'name{}'.format(i), dict(stateless=f + suf)
    if rng.random() < .1:
        q = rng.choice([0, 1, -1])
    if q or rng.random() < .3:
        kw2['charge'] = rng.choice([q, str(q)])
    else:
        q = 0
    if name in used:
        return None
    used.add(name)
    return dict(name=name, **kw, **kw2), atoms, q


def one(rng, rec):
    from plaschem.species import RP
    from plaschem.reactions import Reaction
    used, sps = set(), []
    for i in range(rng.randint(1, 6)):
        x = rnd_species(rng, i, used)
        if x:
            sps.append(x)
    special = [(dict(name='e', mass=5e-4, charge=-1), {}, -1), (dict(name='M'), {'M': 1}, 0)]
    if rng.random() < .1:
        special[1] = (dict(name='M', charge=rng.choice([1, -1, 5])), {'M': 1}, 0)  # the charge of M never matters
    allsp = sps + special
    objs = [RP(i + 1, attributes=kw) for i, (kw, _, _) in enumerate(allsp)]
    for o, (kw, atoms, q) in zip(objs, allsp):
        rec.eq({k: v for k, v in o.get_atoms().items() if v}, atoms, 'species.atom_counts', kw['name'])
    idx = list(range(len(allsp)))

    def side(lo, hi):
        return [rng.choice(idx) for _ in range(rng.randint(lo, hi))]
    mode = rng.randrange(6)
    lhs = side(1, 3)
    if mode == 0:
        lhs = side(0, 5)
    rhs = side(1, 4) if rng.random() < .8 else side(0, 8)
    if mode in (1, 2, 3):  # balanced or nearly balanced
        rhs = list(lhs)
        rng.shuffle(rhs)
        if mode in (2, 3):
            same = [(i, j) for i in rhs for j in idx if allsp[i][1] == allsp[j][1] and i != j]
            if same:
                i, j = rng.choice(same)
                rhs[rhs.index(i)] = j
            k = sum(allsp[j][2] for j in rhs) - sum(allsp[i][2] for i in lhs)
            if 0 < k < 4 and mode == 2:
                rhs += [len(allsp) - 2] * k
            if mode == 3:
                rhs.append(rng.choice(idx)) if rng.random() < .5 else rhs.pop(rng.randrange(len(rhs)))
        if rng.random() < .15:
            big = side(1, 1) * rng.randint(1, 4)
            lhs, rhs = lhs + big, rhs + big
    if rng.random() < .3:
        lhs, rhs = rhs, lhs

    def tot(ms):
        at, q = {}, 0
        for i in ms:
            q += 0 if allsp[i][0]['name'] == 'M' else allsp[i][2]
            for a, k in allsp[i][1].items():
                at[a] = at.get(a, 0) + k
        return at, q
    valid = 1 <= len(lhs) <= 3 and len(rhs) >= 1 and tot(lhs) == tot(rhs)
    el = any(allsp[i][0]['name'] == 'e' for i in lhs)
    if rng.random() < .7:
        unit = {1: 's-1', 2: 'cm3.s-1'}.get(len(lhs), 'm6.s-1')
        kw = dict(attributes=dict(arrh_a=1.), units=dict(arrh_a=unit))
    else:
        kw = dict(special_number=3)
    s = ' + '.join(allsp[i][0]['name'] for i in lhs) + ' > ' + ' + '.join(allsp[i][0]['name'] for i in rhs)
    d = '{} charges {} vs {}, atoms {} vs {}'.format(s, tot(lhs)[1], tot(rhs)[1], tot(lhs)[0], tot(rhs)[0])

    def make():
        return Reaction(rng.randint(1, 99), [objs[i] for i in lhs], [objs[i] for i in rhs], **kw)
    if not valid:
        rec.raises(errs(), make, 'reaction.unbalanced_rejected', d)
    else:
        r = rec.total(make, 'reaction.balanced_accepted', d)
        rec.check(list(r.get_reactants()) == [objs[i] for i in lhs] and list(r.get_products()) == [objs[i] for i in rhs],
                  'reaction.sides_kept', d)
        rec.eq(str(r), s, 'reaction.string')
        net = r.get_stoich_coefs('net')
        by = {o.id: allsp[i] for i, o in enumerate(objs)}
        rec.eq(sum(v * by[k][2] for k, v in net.items() if by[k][0]['name'] != 'M'), 0, 'reaction.net_charge_zero', d)
        for a in {a for i in lhs + rhs for a in allsp[i][1]}:
            rec.eq(sum(v * by[k][1].get(a, 0) for k, v in net.items()), 0, 'reaction.net_atoms_zero', d)
    return s, valid


FAMILIES = [('one', one, 1)]
