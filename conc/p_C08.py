"""C08: a saved chemistry state can be restored exactly; the coherence check tells equal from different states; copies."""
import os
import gen
from harness import Skip
from p_C05 import rnd_disable
from p_C06 import num, nn


def canon(x):
    # (the only value of the tables pandas may spell in two ways is None, which it turns into NaN among numbers)
    return repr(sorted(x.items())) if isinstance(x, dict) else repr(nn(x))


def observe(ch):
    """Everything the state consists of, through the public getters."""
    d = dict(
        enabled=ch.get_species_id(special=True).tolist(), enabled_r=ch.get_reactions_id().tolist(),
        disabled=list(ch.get_disabled_species().index), disabled_r=list(ch.get_disabled_reactions().index),
        protected=list(ch.get_protected_species().index),
        stick=[nn(x) for x in ch.get_species_stick_coef(disabled=True).tolist()],
        ret=[repr(sorted(x.items())) for x in ch.get_species_ret_coefs(disabled=True).tolist()],
        arrh=[nn(x) for x in ch.get_reactions_arrh_a(disabled=True).tolist()],
        arrh_n=[nn(x) for x in ch.get_reactions_arrh_a(disabled=True, si_units=False).tolist()],
        adhoc_sp={k: sorted((int(i), canon(v.at[i])) for i in v.index) for k, v in ch.adhoc_species_attributes.items()},
        adhoc_r={k: sorted((int(i), canon(v.at[i])) for i in v.index) for k, v in ch.adhoc_reactions_attributes.items()},
    )
    return d


def behave(ch):
    """The protections show in what can be disabled from here on (on a copy made by the caller)."""
    from plaschem.exceptions import ChemistryDisableError
    out = []
    ch.reset()
    out.append(list(ch.get_protected_species().index))  # the explicit protections survive, the automatic ones do not
    return out


def random_op(rng, ch, spec, log):
    ordinary = [s for s in spec['species'] if not gen.special(s)]
    op = rng.choice(['stick', 'ret', 'arrh', 'disable', 'disable', 'reset', 'reset_sp', 'reset_r', 'protect'])
    s = rng.choice(ordinary) if ordinary else None
    if op == 'stick':
        ch.set_adhoc_species_attributes('stick_coef', s['id'], None if rng.random() < .12 else num(rng, rng.choice([0., 1., round(rng.random(), 3)])))
    elif op == 'ret':
        en = set(ch.get_species_name().tolist())
        names = [q['name'] for q in ordinary if q['name'] in en] or [s['name']]
        if s['name'] not in en and len(en) == 0:
            return
        v = {rng.choice(names): num(rng, round(rng.random(), 3)) for _ in range(rng.randint(0, 2))}
        ch.set_adhoc_species_attributes('ret_coefs', s['name'], None if rng.random() < .12 else v)
    elif op == 'arrh':
        cand = [r for r in spec['reactions'] if 'arrh_a' in r['attributes']]
        if cand:
            ch.set_adhoc_reactions_attributes('arrh_a', rng.choice(cand)['id'], None if rng.random() < .12 else num(rng, gen.rnd_pos(rng, -20, 2)))
    elif op == 'disable':
        rnd_disable(rng, ch, spec, 1)
    elif op == 'reset':
        ch.reset()
    elif op == 'reset_sp':
        ch.reset_adhoc_species_attributes(rng.choice(['all', 'stick_coef', 'ret_coefs']))
    elif op == 'reset_r':
        ch.reset_adhoc_reactions_attributes('all')
    elif op == 'protect':
        ch.set_protected_species(s['name'])
    log.append(op)


def tmp(name):
    return os.path.join(os.environ.get('CONC_SCRATCH', '/tmp'), name)


def make(rng, neutral=False):
    if neutral:
        from pygmo_fwork.pygmol.neutral_model import NeutralChemistry
        for _ in range(300):
            spec = gen.chem_spec(rng, require_charge=False, max_species=6, max_reactions=6)
            if all(gen.exp_charge(s) in (0, None) for s in spec['species']):
                names = {s['name'] for s in spec['species']}
                return spec, (lambda: gen.build(spec, cls=NeutralChemistry)[0])
        raise Skip
    spec = gen.chem_spec(rng, max_species=6, max_reactions=7)
    return spec, (lambda: gen.build(spec)[0])


def to_xml(rng, ch):
    """The same chemistry, read from an xml file written for it."""
    from plaschem.xml_inputs import XmlBuilder
    b = XmlBuilder()
    b.add_chemistry_from_instance(ch)
    p = tmp('c08_{}.xml'.format(rng.randrange(10 ** 9)))
    b.dump_xml(p, overwrite=True)
    return p


def roundtrip(rng, rec, neutral=False):
    from plaschem.chemistry import Chemistry
    from plaschem.exceptions import ChemistryAttributeError
    spec, mk = make(rng, neutral)
    path = tmp('c08_{}.yaml'.format(rng.randrange(10 ** 9)))
    xml = None
    if not neutral and rng.random() < .25:
        xml = to_xml(rng, mk())
        mk = lambda: Chemistry(xml_path=xml)
    a, b = mk(), mk()
    log = []
    for _ in range(rng.randint(0, 5)):
        random_op(rng, a, spec, log)
    for _ in range(rng.randint(0, 3)):
        random_op(rng, b, spec, [])
    t = '{} after {}'.format(gen.short(spec), log)
    want = observe(a)
    rec.total(lambda: a.dump_chemistry_attributes(path), 'dump.total', t)
    try:
        rec.eq(observe(a), want, 'dump.pure', t)
        rec.check(a.check_coherence(path) is True, 'coherence.own_dump', t)
        c = rec.total(a.copy, 'copy.total', t)
        rec.check(type(c) is type(a), 'copy.same_type', t)
        rec.eq(observe(c), want, 'copy.same_state', t)
        rec.check(c.check_coherence(path) is True, 'coherence.of_a_copy', t)
        # the same state, reached in another order, is the same state
        for d, put, drop in ((c.adhoc_species_attributes, c.set_adhoc_species_attributes, c.reset_adhoc_species_attributes),
                             (c.adhoc_reactions_attributes, c.set_adhoc_reactions_attributes, c.reset_adhoc_reactions_attributes)):
            for attr in ('stick_coef', 'arrh_a'):
                if attr in d:
                    pairs = list(d[attr].items())
                    drop(attr)
                    for i, v in reversed(pairs):
                        put(attr, i, v)
        rec.eq(observe(c), want, 'overrides.any_order', t)
        rec.check(c.check_coherence(path) is True, 'coherence.in_any_order', t)
        # the copy has its own state
        lc = []
        for _ in range(rng.randint(1, 3)):
            random_op(rng, c, spec, lc)
        rec.eq(observe(a), want, 'copy.independent', t + ' copy then ' + str(lc))
        # protections: what reset() leaves protected is part of the state as well
        pa = behave(a.copy())
        if observe(c) != want:
            rec.check(c.check_coherence(path) is False, 'coherence.detects_change',
                      t + ' copy then {}: {} vs {}'.format(lc, want, observe(c)))
        rec.total(lambda: b.load_chemistry_attributes(path), 'load.total', t)
        rec.eq(observe(b), want, 'load.restores_state', t)
        rec.check(b.check_coherence(path) is True, 'coherence.after_load', t)
        rec.eq(behave(b.copy()), pa, 'load.restores_protections', t)
        # a second round trip through the restored instance
        path2 = path + '2'
        b.dump_chemistry_attributes(path2)
        rec.check(a.check_coherence(path2) is True, 'coherence.symmetric', t)
        os.remove(path2)
        if xml:
            with open(xml) as f:
                txt = f.read()
            with open(xml, 'w') as f:
                f.write(txt.replace('<chemistry>', '<chemistry> '))
            d = mk()
            rec.check(d.check_coherence(path) is False, 'coherence.xml_changed', t)
            rec.raises(ChemistryAttributeError, lambda: d.load_chemistry_attributes(path), 'load.xml_changed_rejected', t)
            d.load_chemistry_attributes(path, check_hash=False)
            w2 = dict(want)
            rec.eq(observe(d), w2, 'load.without_hash_check', t)
        rec.raises(ChemistryAttributeError, lambda: b.load_chemistry_attributes(path + '.none'), 'load.no_file', t)
    finally:
        for p in (path, xml):
            if p and os.path.exists(p):
                os.remove(p)
    return gen.short(spec), str(log), neutral, bool(xml)


def roundtrip_neutral(rng, rec):
    return roundtrip(rng, rec, neutral=True)


FAMILIES = [('roundtrip', roundtrip, 1), ('roundtrip_neutral', roundtrip_neutral, 4)]
