"""C05: every stoichiometric view equals the multiplicities in the reactions, whatever is enabled, and conserves charge."""
import gen
from harness import Skip


def rnd_disable(rng, ch, spec, n=2):
    """Random history of disabling (failed attempts are fine); returns enabled species/reactions sets."""
    from plaschem.exceptions import ChemistryDisableError
    for _ in range(rng.randint(0, n)):
        try:
            if rng.random() < .5:
                ch.disable(species=[rng.choice(spec['species'])['id']])
            else:
                ch.disable(reactions=[rng.choice(spec['reactions'])['id'] for _ in range(rng.choice([1, 1, 2]))])
        except ChemistryDisableError:
            pass
    return (set(ch.get_species_id(special=True).tolist()), set(ch.get_reactions_id().tolist()))


def coef(spec, r, i, method):
    l, h = r['lhs'].count(i), r['rhs'].count(i)
    return {'lhs': l, 'rhs': h, 'net': h - l}[method]


def views(rng, rec):
    from plaschem.exceptions import ReactionValueError
    spec = gen.chem_spec(rng, explicit=False, plain_numbers=True)
    ch, sp, rs = gen.build(spec)
    en_sp, en_r = rnd_disable(rng, ch, spec)
    tag = '{} enabled species {} reactions {}: '.format(gen.short(spec), sorted(en_sp), sorted(en_r))
    ids = [s['id'] for s in spec['species']]
    for r, rr in zip(spec['reactions'], rs):
        for m in ('lhs', 'rhs', 'net'):
            side = {'lhs': r['lhs'], 'rhs': r['rhs'], 'net': r['lhs'] + r['rhs']}[m]
            got = rr.get_stoich_coefs(m) if rng.random() < .9 or m != 'net' else rr.get_stoich_coefs()
            rec.eq(dict(got), {ids[i]: coef(spec, r, i, m) for i in side}, 'reaction.stoich_coefs_' + m, str(rr))
            rec.eq(list(got), list(dict.fromkeys(ids[i] for i in side)), 'reaction.stoich_coefs_order', str(rr))
        rec.raises(ReactionValueError, lambda: rr.get_stoich_coefs('foo'), 'reaction.stoich_bad_method')
    for disabled in (False, True):
        rows = [r for r in spec['reactions'] if disabled or r['id'] in en_r]
        for special in (False, True):
            cols = [i for i, s in enumerate(spec['species'])
                    if (disabled or s['id'] in en_sp) and (special or not gen.special(s))]
            for m in ('lhs', 'rhs', 'net'):
                t = tag + 'matrix({}, disabled={}, special={})'.format(m, disabled, special)
                mat = rec.total(lambda: ch.get_stoichiomatrix(disabled=disabled, special=special, method=m),
                                'stoichiomatrix.total', t)
                rec.eq(list(mat.index), [r['id'] for r in rows], 'stoichiomatrix.rows', t)
                rec.eq(list(mat.columns), [ids[i] for i in cols], 'stoichiomatrix.columns', t)
                rec.eq(mat.values.tolist(), [[coef(spec, r, i, m) for i in cols] for r in rows],
                       'stoichiomatrix.entries', t)
        for name, get in (('e', ch.get_reactions_stoich_coefs_electron), ('M', ch.get_reactions_stoich_coefs_arbitrary)):
            i = [k for k, s in enumerate(spec['species']) if s['name'] == name]
            if name == 'e' and not i:
                continue
            for m in ('lhs', 'rhs', 'net'):
                t = tag + 'vector of {} ({}, disabled={})'.format(name, m, disabled)
                v = rec.total(lambda: get(disabled=disabled, method=m), 'stoichiovector.total', t)
                rec.eq(list(v.index), [r['id'] for r in rows], 'stoichiovector.rows', t)
                rec.eq([float(x) for x in v.values], [float(coef(spec, r, i[0], m)) if i else 0. for r in rows],
                       'stoichiovector.entries_' + name, t)
    # defaults
    rec.eq(ch.get_stoichiomatrix().values.tolist(), ch.get_stoichiomatrix(disabled=False, special=False, method='net')
           .values.tolist(), 'stoichiomatrix.defaults')
    # charge conservation over the matrix and vector views
    S = ch.get_stoichiomatrix(method='net')
    q = ch.get_species_charge()
    e = ch.get_reactions_stoich_coefs_electron(method='net')
    rec.check(all(abs(x) < 1e-9 for x in (S.values @ q.values.astype(float) - e.values)), 'lemma.charge_conserved', tag)
    return gen.short(spec), len(en_r)


FAMILIES = [('views', views, 1)]
