"""C10: writing a chemistry to an xml input file and reading it back gives the same chemistry; sorting and renumbering."""
import os
import re
import gen
from harness import Skip
from p_C08 import tmp
from p_C09 import sort_key, exp_class

SP_GET = ['name', 'stateless', 'state', 'mass', 'charge', 'h_form', 'lj_epsilon', 'lj_sigma', 'hpem_name', 'qdb_id',
          'stick_coef', 'ret_coefs', 'comments', 'latex']
R_GET = ['arrh_a', 'arrh_b', 'arrh_c', 'elastic', 'el_en_loss', 'gas_heat_contrib', 'special_number', 'qdb_r_id',
         'qdb_ds_id', 'doi', 'comments', 'latex']


def get(x, k):
    from plaschem.exceptions import RPAttributeError, ReactionAttributeError
    try:
        v = getattr(x, 'get_' + k)()
    except (RPAttributeError, ReactionAttributeError) as e:
        return type(e).__name__
    return (type(v).__name__, v)


def unit(x, k):
    from plaschem.exceptions import RPAttributeError, ReactionAttributeError
    try:
        return x.get_unit(k)
    except (RPAttributeError, ReactionAttributeError) as e:
        return type(e).__name__


def sp_image(s):
    return {k: get(s, k) for k in SP_GET}, {k: unit(s, k) for k in SP_GET}


def r_image(r):
    return {k: get(r, k) for k in R_GET}, {k: unit(r, k) for k in R_GET}, r.get_string(), \
        [q.get_name() for q in r.get_reactants()], [q.get_name() for q in r.get_products()]


def img(species, reactions, ids=True):
    return [((s.id if ids else None), sp_image(s)) for s in species], \
        [((r.id if ids else None), r_image(r)) for r in reactions]


def enrich(rng, spec):
    for s in spec['species']:
        if rng.random() < .25:
            s['attributes']['comments'] = rng.choice(['x < y & z > "q" \'p\'', 'půlnoc → µ', 'two\nlines', '  padded  ', '0'])
    for r in spec['reactions']:
        if rng.random() < .25:
            r['attributes']['comments'] = rng.choice(['x < y & z > "q" \'p\'', 'půlnoc → µ', 'two\nlines', 'a]]>b', '0'])
        if rng.random() < .1:
            r['attributes']['special_number'] = 42
            for k in ('arrh_a', 'arrh_b', 'arrh_c'):
                r['attributes'].pop(k, None), r['units'].pop(k, None)
    if rng.random() < .3:  # names of species with several quantum numbers
        for s in spec['species']:
            if s['state'] and set(s['state']) != {'*'} and rng.random() < .7:
                new = s['stateless'] + '({},J=2)'.format(s['state'])
                for t in spec['species']:
                    rc = t['attributes'].get('ret_coefs')
                    if rc and s['name'] in rc:
                        rc[new] = rc.pop(s['name'])
                s['name'] = new
                s['attributes']['state'] = s['state'] = s['state'] + ',J=2'


def roundtrip(rng, rec):
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    from plaschem.chemistry import Chemistry
    from plaschem.exceptions import XmlError
    spec = gen.chem_spec(rng, max_species=7, max_reactions=8)
    enrich(rng, spec)
    ch, sp, rs = gen.build(spec)
    want = img(sp, rs)
    t = str(gen.short(spec))
    path, path2 = tmp('c10_%d.xml' % rng.randrange(10 ** 9)), tmp('c10b_%d.xml' % rng.randrange(10 ** 9))
    try:
        b = XmlBuilder()
        if rng.random() < .7:
            rec.total(lambda: b.add_chemistry_from_instance(ch), 'build.total', t)
        else:  # by hand
            for s in sp:
                b.add_rp_from_instance(s)
            for r in rs:
                b.add_reaction_from_instance(r)
        rec.raises(XmlError, lambda: b.add_rp_from_instance(sp[0]), 'build.duplicate_rejected')
        rec.raises(XmlError, lambda: b.add_reaction_from_attributes(('nope',), (sp[0].get_name(),)), 'build.unknown_rejected')
        rec.eq(img(sp, rs), want, 'build.pure', t)
        b.dump_xml(path)
        rec.raises(XmlError, lambda: b.dump_xml(path), 'dump.no_silent_overwrite')
        s2, r2 = rec.total(lambda: XmlParser().get_species_and_reactions(path), 'parse.total', t)
        got = img(s2, r2)
        rec.eq([i for i, _ in got[0]], [i for i, _ in want[0]], 'roundtrip.species_ids', t)
        rec.eq([i for i, _ in got[1]], [i for i, _ in want[1]], 'roundtrip.reactions_ids', t)
        for (i, g), (_, w) in zip(got[0] + got[1], want[0] + want[1]):
            rec.eq(g, w, 'roundtrip.attributes', t)
        for r in r2:
            rec.check(all(any(q is s for s in s2) for q in r.get_reactants() + r.get_products()), 'roundtrip.shared_instances')
        ch2 = rec.total(lambda: Chemistry(xml_path=path), 'roundtrip.consistent', t)
        rec.eq(ch2.get_stoichiomatrix(special=True).values.tolist(), ch.get_stoichiomatrix(special=True).values.tolist(),
               'roundtrip.stoichiomatrix', t)
        c = XmlBuilder()
        c.add_chemistry_from_xml(path)
        n = rng.choice([1, 1, 2])
        if n == 2:
            c.add_chemistry_from_xml(path)  # a second time: the species are already there
            rec.eq(len(c.reactions), 2 * len(rs), 'merge.reactions_added')
        c.dump_xml(path2)
        s3, r3 = XmlParser().get_species_and_reactions(path2)
        rec.eq(img(s3, r3[:len(rs)]), want, 'xml_to_xml', t)
        if n == 2:
            rec.eq(img(s3, r3[len(rs):])[1], want[1], 'merge.second_copy', t)
        b.reset_chemistry()
        rec.eq((b.species_dict, b.species, b.reactions), ({}, [], []), 'build.reset')
    finally:
        for p in (path, path2):
            if os.path.exists(p):
                os.remove(p)
    return gen.short(spec)


def sorting(rng, rec):
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    spec = gen.chem_spec(rng, max_species=7, max_reactions=9)
    ch, sp, rs = gen.build(spec)
    b = XmlBuilder()
    order_s, order_r = list(range(len(sp))), list(range(len(rs)))
    rng.shuffle(order_s), rng.shuffle(order_r)
    default_ids, default_rids = rng.random() < .3, rng.random() < .3
    t = '{} {} {}'.format(gen.short(spec), default_ids, default_rids)
    for i in order_s:
        if default_ids:
            s = spec['species'][i]
            b.add_rp_from_attributes(rp_attributes=dict(s['attributes'], name=s['name'], foo=1), rp_units=s['units'])
        else:
            b.add_rp_from_instance(sp[i])
    for i in order_r:
        if default_rids:
            r = spec['reactions'][i]
            b.add_reaction_from_attributes(tuple(gen.name_of(spec, j) for j in r['lhs']),
                                           tuple(gen.name_of(spec, j) for j in r['rhs']),
                                           r_attributes=dict(r['attributes']), r_units=r['units'])
        else:
            b.add_reaction_from_instance(rs[i])
    do_sort = rng.random() < .7
    assign = rng.random() < .5
    if do_sort:
        rec.total(b.sort_elements, 'sort.total', t)
        so = sorted(order_s, key=lambda i: sort_key(spec['species'][i]))
        pos = {i: k for k, i in enumerate(so)}
        ro = sorted(order_r, key=lambda i: tuple(tuple(sorted(pos[j] for j in spec['reactions'][i][side]))
                                                 for side in ('lhs', 'rhs')))
        from plaschem.classification import ReactionClassifier
        scheme = [(a, c) for a, cs in ReactionClassifier.classification_scheme for c in cs]
        ro = sorted(ro, key=lambda i: scheme.index(exp_class(spec, spec['reactions'][i],
                                                             gen.exp_elastic(spec, spec['reactions'][i]))))
    else:
        so, ro = order_s, order_r
    if assign:
        b.assign_ids()
    path = tmp('c10_%d.xml' % rng.randrange(10 ** 9))
    b.dump_xml(path)
    try:
        s2, r2 = rec.total(lambda: XmlParser().get_species_and_reactions(path), 'sort.parse_total', t)
    finally:
        os.remove(path)
    rec.eq([s.get_name() for s in s2], [spec['species'][i]['name'] for i in so], 'sort.species_order', t)
    # (species sharing the default id are outside of the precondition of the reactions' latex)
    im = lambda r: [dict(x, latex=None) if k == 0 and default_ids else x for k, x in enumerate(r_image(r))]
    rec.eq([im(r) for r in r2], [im(rs[i]) for i in ro], 'sort.reactions_order', t)
    rec.eq([sp_image(s)[0] for s in s2], [sp_image(sp[i])[0] for i in so], 'sort.species_kept', t)
    exp_ids, k = [], 0
    for i in so:
        nm = spec['species'][i]['name']
        if nm not in ('e', 'M'):
            k += 1
        exp_ids.append({'e': 0, 'M': 999}.get(nm, k))
    if assign or (do_sort and default_ids and len(sp) > 1):
        rec.eq([s.id for s in s2], exp_ids, 'assign.species_ids', t)
    elif not default_ids:
        rec.eq([s.id for s in s2], [sp[i].id for i in so], 'sort.species_ids_kept', t)
    if assign or (do_sort and default_rids and len(rs) > 1):
        rec.eq([r.id for r in r2], list(range(1, len(rs) + 1)), 'assign.reactions_ids', t)
    elif not default_rids:
        rec.eq([r.id for r in r2], [rs[i].id for i in ro], 'sort.reactions_ids_kept', t)
    return t, do_sort, assign


def hpem(rng, rec):
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    for _ in range(12):
        spec = gen.chem_spec(rng, max_species=7, max_reactions=9, explicit=False, with_m=rng.random() < .2)
        if not any(s['state'] for s in spec['species']):
            break
    hn = lambda n: ('E' if n == 'e' else n.replace('+', '^'))
    if any(s['state'] for s in spec['species']):
        raise Skip  # documented: states are not recognised in this format
    names = [s['name'] for s in spec['species']]
    g = lambda: rng.choice([' ', '  ', ''])
    lines, want_sp, want_r = [], [], []
    used = set()
    skip = rng.random() < .6
    for r in spec['reactions']:
        r['sn'] = rng.choice([-1, 1, 1, 1, 12])
        r['skip'] = skip and r['sn'] not in (-1, 1)
        if not r['skip']:
            used |= set(r['lhs'] + r['rhs'])
    n_ord = [n for n in names if n not in ('e', 'M')]
    for i, s in enumerate(spec['species']):
        q = gen.exp_charge(s) or 0
        m = float('%.4g' % (s['mass'] or 1.))
        st = rng.choice([0., 1., .25])
        rcf, rsp = float('%.2g' % rng.random()), rng.choice(n_ord)
        lines.append('{} : {} ; {} & {} ] {} [ {} @ {} ! {}{}'.format(hn(s['name']), q, m, st, 3, rcf, hn(rsp),
                                                                     'comment here' if i % 2 else '', g()))
        if i in used:
            want_sp.append((s['name'], q, m, st, {rsp: rcf} if st else None, 'comment here' if i % 2 else None))
    lines.append('*')
    for r in spec['reactions']:
        a, bb, c = gen.rnd_pos(rng, -12, -6), float('%.2g' % rng.uniform(-1, 1)), float('%.3g' % rng.uniform(0, 20))
        gh = float('%.2g' % rng.random())
        l, h = [[names[i] for i in r[k]] for k in ('lhs', 'rhs')]
        lines.append('{} > {} : {} ; {} & {} ] {} [ {} ! {}'.format(' + '.join(map(hn, l)), ' + '.join(map(hn, h)), a, bb, c,
                                                                  gh, r['sn'], 'cc' if a > 1e-9 else ''))
        if not r['skip']:
            want_r.append((l, h, a, bb, c, gh, r['sn'], {1: 's-1', 2: 'cm3.s-1', 3: 'cm6.s-1'}[len(l)],
                           'eV' if 'e' in l else 'K', 'cc' if a > 1e-9 else None))
    path = tmp('c10_%d.dat' % rng.randrange(10 ** 9))
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    b = XmlBuilder()
    xml = path + '.xml'
    try:
        rec.total(lambda: b.add_chemistry_from_hpem(path, skip_special_numbers=skip), 'hpem.total', str(lines))
        b.assign_ids()
        b.dump_xml(xml)
        s2, r2 = rec.total(lambda: XmlParser().get_species_and_reactions(xml), 'hpem.parse', str(lines))
    finally:
        for p in (path, xml):
            if os.path.exists(p):
                os.remove(p)
    opt = lambda s, f: (get(s, f)[1] if isinstance(get(s, f), tuple) else None)
    rec.eq([s.get_name() for s in s2], [w[0] for w in want_sp], 'hpem.species', str(lines))
    for s, w in zip(s2, want_sp):
        q = s.get_charge() if w[0] != 'M' else 0
        rec.eq(q, w[1] if w[0] != 'M' else 0, 'hpem.charge', w[0])
        if w[0] not in ('e', 'M'):
            rec.eq((s.get_mass(), s.get_stick_coef(), s.get_comments()), (w[2], w[3], w[5]), 'hpem.species_data', w[0])
            if w[4] is not None:
                rec.eq(s.get_ret_coefs(), w[4], 'hpem.ret_coefs', w[0])
    rec.eq(len(r2), len(want_r), 'hpem.num_reactions', str(lines))
    for r, w in zip(r2, want_r):
        rec.eq(([q.get_name() for q in r.get_reactants()], [q.get_name() for q in r.get_products()],
                r.get_arrh_a(si_units=False), r.get_arrh_b(), r.get_arrh_c(), r.get_gas_heat_contrib(),
                r.get_special_number(), r.get_unit('arrh_a'), r.get_unit('arrh_c'), r.get_comments()),
               tuple(w), 'hpem.reaction_data', str(lines))
    return lines


FAMILIES = [('roundtrip', roundtrip, 1), ('sorting', sorting, 1), ('hpem', hpem, 2)]
