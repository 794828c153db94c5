"""C09: classification is total and a partition; sorting is the documented order and a permutation; aligned strings."""
import gen
from harness import Skip

ORDER = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb '
         'Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au '
         'Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf').split()


def sort_key(s):
    """Documented: M last; fewer elements first, lighter and fewer atoms first, ground state neutral before positive ion,
    before negative ion, before excited species."""
    q = gen.exp_charge(s)
    if s['name'] == 'M':
        return (1,)
    atoms = s['atoms']
    return (0, len(atoms), [x for a in atoms for x in (ORDER.index(a), atoms[a])], s['state'] is not None, -min(q, 0), max(q, 0))


def charge(s):
    return gen.exp_charge(s) or 0


def exp_type(L):
    if any(s['name'] == 'e' for s in L):
        return 'ELECTRON IMPACT COLLISIONS'
    if len(L) == 3:
        return 'THREE BODY COLLISIONS'
    q = [charge(s) for s in L]
    if len(L) == 1:
        return None
    if q == [0, 0]:
        return 'NEUTRAL - NEUTRAL COLLISIONS'
    if min(q) == 0:
        return 'POSITIVE ION - NEUTRAL COLLISIONS'
    if max(q) == 0:
        return 'NEGATIVE ION - NEUTRAL COLLISIONS'
    return None


def exp_class(spec, r, elastic):
    """Reference classification of the reaction by the meaning of the categories."""
    sp = spec['species']
    L, R = [sp[i] for i in r['lhs']], [sp[i] for i in r['rhs']]
    exc = lambda ss: sum(s['state'] is not None for s in ss)
    ground = lambda s: (s['stateless'] or s['name'])
    heavy = lambda ss: [s for s in ss if s['name'] != 'e']
    de = sum(s['name'] == 'e' for s in R) - sum(s['name'] == 'e' for s in L)
    t = exp_type(L)
    if t == 'ELECTRON IMPACT COLLISIONS':
        c = 'unclassified electron impact collisions'
        hl, hr = heavy(L), heavy(R)
        if not hl or len(L) < 2 or len(L) > 3:
            return t, c
        if len(L) == 3:
            ql, qr = sum(charge(s) for s in hl), sum(charge(s) for s in hr)
            cores = lambda ss: {ground(s).strip('+').strip('-') if s['name'] not in ('e', 'M') else s['name'] for s in ss}
            if cores(hl) <= cores(hr) and ql > qr:
                c = 'three body recombination' if ql > 0 else 'three body attachment' if qr < 0 else c
            return t, c
        p = hl[0]
        q = charge(p)
        same, more = len(hl) == len(hr), len(hl) < len(hr)
        if de > 0:
            if same:
                c = 'ionization' if q == 0 else 'detachment' if q < 0 else c
            elif more and q == 0:
                c = 'dissociative ionization'
        elif de == 0:
            if elastic:
                c = 'elastic and momentum transfer'
            elif same:
                p2 = hr[0]
                if p['state'] is None and p2['state'] is not None:
                    c = 'excitation'
                elif p['state'] is not None and p2['state'] is None:
                    c = 'deexcitation'
                elif p['state'] is not None:
                    c = 'excitation' if float(r['attributes'].get('el_en_loss') or 0.) > 0 else 'deexcitation'
                elif p is p2:
                    c = 'other electron energy loss channels'
            elif more:
                c = 'dissociative excitation' if exc(hr) else 'dissociation'
        else:
            if same:
                c = 'attachment' if q == 0 else 'recombination' if q > 0 else c
            elif more:
                c = 'dissociative attachment' if q == 0 else 'dissociative recombination' if q > 0 else c
        return t, c
    if t == 'THREE BODY COLLISIONS':
        return t, 'None'
    if len(L) == 1:
        return ('RADIATIVE DECAY' if len(R) == 1 else 'UNCLASSIFIED COLLISIONS'), 'None'
    names = lambda ss: [s['name'] for s in ss]
    if t == 'NEUTRAL - NEUTRAL COLLISIONS':
        c = 'unclassified neutral - neutral collisions'
        nl, nr, xl, xr = 2, len(R), exc(L), exc(R)
        if elastic:
            c = 'elastic scattering'
        elif nr < 2:
            c = 'association'
        elif de > 0:
            k = nr - de
            if k == 2:
                c = 'penning ionization' if xl > 0 and xr == 0 else 'ionization' if xl == xr == 0 else c
            else:
                c = 'dissociative ionization' if k > 2 else 'associative ionization'
        elif nr > 2:
            if de == 0 and set(names(L)) & set(names(R)) and not any(charge(s) for s in R):
                c = 'dissociation' if xl == xr else 'dissociative excitation' if xl < xr else 'dissociative quenching'
        elif xl < xr:
            c = 'excitation'
        elif xl > xr:
            c = 'collisional quenching'
        elif xl > 0:
            if {ground(s) for s in L} == {ground(s) for s in R}:
                c = 'excitation transfer'
        else:
            c = 'interchange'
        return t, c
    if t == 'POSITIVE ION - NEUTRAL COLLISIONS':
        c = 'unclassified positive ion - neutral collisions'
        ion = [s for s in L if charge(s) > 0][0]
        neu = [s for s in L if charge(s) == 0][0]
        if len(R) == 2:
            ip, np_ = [s for s in R if charge(s) > 0], [s for s in R if charge(s) == 0]
            if ip and np_ and ion['name'].strip('+') == np_[0]['name'] and neu['name'] == ip[0]['name'].strip('+'):
                c = 'resonant charge transfer' if neu is np_[0] and ion is ip[0] else 'charge transfer'
        elif len(R) > 2 and neu['name'] + '+' in names(R):
            c = 'dissociative charge transfer'
        return t, c
    if t == 'NEGATIVE ION - NEUTRAL COLLISIONS':
        c = 'unclassified negative ion - neutral collisions'
        ion = [s for s in L if charge(s) < 0][0]
        neu = [s for s in L if charge(s) == 0][0]
        if de > 0:
            k = len(R) - de
            c = 'detachment' if k == 2 else 'associative detachment' if k < 2 else c
        elif len(R) == 2:
            ip, np_ = [s for s in R if charge(s) < 0], [s for s in R if charge(s) == 0]
            if ip and np_ and ion['name'].strip('-') == np_[0]['name'] and neu['name'] == ip[0]['name'].strip('-'):
                c = 'resonant charge transfer' if neu is np_[0] and ion is ip[0] else 'charge transfer'
        return t, c
    q = [charge(s) for s in L]
    if min(q) < 0 < max(q) and not any(charge(s) for s in R):
        return 'ION - ION COLLISIONS', 'neutralization' if len(R) == 2 else \
            'dissociative neutralization' if len(R) > 2 else 'unclassified ion - ion collisions'
    return 'UNCLASSIFIED COLLISIONS', 'None'


def decorate(rng, spec):
    """Some species of rarer elements, some reactions the generator would not draw."""
    import itertools
    sp = spec['species']
    heavy = [i for i, s in enumerate(sp) if s['name'] != 'M']
    for _ in range(rng.randint(0, 4)):
        k = rng.choice([1, 2, 2, 2, 3])
        lhs = [rng.choice(heavy) for _ in range(k)]
        cands = [ms for n in (1, 2, 3, 4) for ms in itertools.combinations_with_replacement(heavy, n)
                 if gen._key(ms, sp) == gen._key(lhs, sp)]
        rhs = list(rng.choice(cands))
        rng.shuffle(rhs)
        rid = max(r['id'] for r in spec['reactions']) + 1
        spec['reactions'].append(dict(id=rid, lhs=lhs, rhs=rhs, **gen.reaction_attrs(rng, spec, lhs, rhs)))


def classify(rng, rec):
    from plaschem.classification import ReactionClassifier
    spec = gen.chem_spec(rng, explicit=False, max_species=8, max_reactions=12)
    decorate(rng, spec)
    ch, sp, rs = gen.build(spec)
    by_id = {r['id']: r for r in spec['reactions']}
    sp_by_id = {s['id']: s for s in spec['species']}
    order_r, order_s = list(rs), list(sp)
    rng.shuffle(order_r), rng.shuffle(order_s)
    cl = ReactionClassifier(species=order_s, reactions=order_r)
    scheme = [(t, list(c)) for t, c in ReactionClassifier.classification_scheme]
    log = []
    cur_s, cur_r = list(order_s), list(order_r)

    def chk():
        d = rec.total(cl.get_classified_reactions, 'classify.total', '{} after {}'.format(gen.short(spec), log))
        flat = [r for t in d for c in d[t] for r in d[t][c]]
        rec.eq(sorted(x.id for x in flat), sorted(by_id), 'classify.partition', str(log))
        rec.eq([t for t, c in scheme if t in d], list(d), 'classify.types_in_scheme_order')
        for t in d:
            rec.eq([c for c in dict(scheme)[t] if c in d[t]], list(d[t]), 'classify.categories_in_scheme_order', t)
            for c in d[t]:
                rec.check(len(d[t][c]) > 0, 'classify.no_empty_category')
                rec.eq([x.id for x in d[t][c]], [x.id for x in cur_r if x in d[t][c]], 'classify.order_kept', str(log))
                lens = set()
                for x in d[t][c]:
                    r = by_id[x.id]
                    rec.eq((t, c), exp_class(spec, r, gen.exp_elastic(spec, r)), 'classify.category',
                           lambda: '{} {}'.format(x, r['attributes']))
                    st = rec.total(lambda: cl.get_aligned_reaction_string(x), 'aligned.total', '{} {}'.format(x, log))
                    lens.add(len(st))
                    sides = st.split(' > ')
                    pos = {id(q): i for i, q in enumerate(cur_s)}
                    for side, idxs in zip(sides, (r['lhs'], r['rhs'])):
                        want = [q.get_name() for q in sorted([sp[i] for i in idxs], key=lambda q: pos[id(q)])]
                        got = [w.strip() for w in (' ' + side + ' ').split(' + ')]
                        rec.eq([w for w in got if w], want, 'aligned.content', '{!r} {}'.format(st, log))
                rec.check(len(lens) == 1, 'aligned.same_width', lambda: '{} {} {} {}'.format(t, c, gen.short(spec), log))

    for _ in range(rng.randint(1, 4)):
        op = rng.choice(['sort_species', 'sort_reactions', 'classify', 'new'])
        log.append(op)
        if op == 'sort_species':
            rec.total(cl.sort_species, 'sort_species.total', str(gen.short(spec)))
            cur_s = sorted(cur_s, key=lambda q: sort_key(sp_by_id[q.id]))
            rec.eq([q.id for q in cl.species], [q.id for q in cur_s], 'sort_species.order',
                   lambda: str([q.get_name() for q in cl.species]))
        elif op == 'sort_reactions':
            cl.sort_reactions()
            pos = {q.id: i for i, q in enumerate(cur_s)}
            ids = [s['id'] for s in spec['species']]
            cur_r = sorted(cur_r, key=lambda x: tuple(
                tuple(sorted(pos[ids[i]] for i in by_id[x.id][side])) for side in ('lhs', 'rhs')))
            rec.eq([x.id for x in cl.reactions], [x.id for x in cur_r], 'sort_reactions.order', str(gen.short(spec)))
        elif op == 'classify':
            chk()
        else:
            rng.shuffle(order_r), rng.shuffle(order_s)
            cur_s, cur_r = list(order_s), list(order_r)
            cl.set_new_chemistry(species=cur_s, reactions=cur_r)
    chk()
    return gen.short(spec), log


def elements(rng, rec):
    """Sorting species of arbitrary elements."""
    from plaschem.classification import ReactionClassifier
    from plaschem.species import RP
    ss = []
    names = set()
    for i in range(rng.randint(2, 8)):
        k = rng.choice([1, 1, 2, 3])
        atoms = {}
        for a in rng.sample(ORDER, k):
            atoms[a] = rng.choice([1, 1, 2, 3, 9])
        f = ''.join(a + (str(n) if n > 1 else '') for a, n in atoms.items())
        q = rng.choice([0, 0, 1, -1, 2, -2])
        nm = f + ('+' * q if q > 0 else '-' * -q)
        st = rng.random() < .3
        s = dict(id=i, name=nm + '*' if st else nm, stateless=nm if st else None, state='*' if st else None, atoms=atoms,
                 attributes=dict(charge=q))
        if s['name'] in names:
            continue
        names.add(s['name'])
        ss.append(s)
    sps = []
    for s in ss:
        kw = dict(state=s['state'], stateless=s['stateless']) if s['state'] else {}
        sps.append(RP(s['id'], name=s['name'], mass=1., charge=s['attributes']['charge'], **kw))
    cl = ReactionClassifier(species=sps, reactions=[])
    rec.total(cl.sort_species, 'sort_species.total', str([s['name'] for s in ss]))
    d = {s['id']: s for s in ss}
    rec.eq([q.get_name() for q in cl.species], [q.get_name() for q in sorted(sps, key=lambda q: sort_key(d[q.id]))],
           'sort_species.order')
    return [s['name'] for s in ss]


FAMILIES = [('classify', classify, 1), ('elements', elements, 3)]
