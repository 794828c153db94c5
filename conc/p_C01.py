"""C01: disabling leaves exactly the largest consistent sub-network, or nothing changes at all."""
import itertools
import gen
from harness import Skip


def state(ch):
    return (sorted(ch.get_species_id(special=True).tolist()), sorted(ch.get_reactions_id().tolist()),
            sorted(ch.get_disabled_species().index.tolist()), sorted(ch.get_disabled_reactions().index.tolist()),
            sorted(ch.get_protected_species().index.tolist()))


def oracle(spec, en_sp, en_r, prot, req_sp, req_r, requires_charge=True):
    """Greatest consistent sub-network of (en_sp, en_r) without the requested items; None if it would lose a protected
    species or the last positive ion."""
    ids = [s['id'] for s in spec['species']]
    members = {r['id']: {ids[i] for i in r['lhs'] + r['rhs']} for r in spec['reactions']}
    sp, rs = set(en_sp) - set(req_sp), set(en_r) - set(req_r)
    while True:
        rs2 = {r for r in rs if members[r] <= sp}
        sp2 = {s for s in sp if any(s in members[r] for r in rs2)}
        if (sp2, rs2) == (sp, rs):
            break
        sp, rs = sp2, rs2
    if (set(en_sp) - sp) & prot:
        return None
    if requires_charge and (sp, rs) != (set(en_sp), set(en_r)):
        if not any(s['id'] in sp and s['name'] not in ('e', 'M') and gen.exp_charge(s) > 0 for s in spec['species']):
            return None
    return sp, rs


def pos_ions(spec, sp):
    return [s['id'] for s in spec['species'] if s['id'] in sp and not gen.special(s) and gen.exp_charge(s) > 0]


def step(spec, ch, cur, req_sp, req_r, rng, rec, ids_by='id'):
    from plaschem.exceptions import ChemistryDisableError
    en_sp, en_r, prot = cur
    by_id = {s['id']: s for s in spec['species']}
    want = oracle(spec, en_sp, en_r, prot, req_sp, req_r)
    before = state(ch)
    args = []
    for i in req_sp:
        k = rng.randrange(3)
        args.append(i if k == 0 else by_id[i]['name'] if k == 1 else ch.get_rp(i))
    ctx = lambda: '{} disable(species={}, reactions={}) from enabled {} / {} protected {}'.format(
        gen.short(spec), [by_id[i]['name'] for i in req_sp], req_r, sorted(en_sp), sorted(en_r), sorted(prot))
    try:
        ch.disable(species=tuple(args), reactions=tuple(req_r))
        ok = True
    except ChemistryDisableError:
        ok = False
    after = state(ch)
    if want is None:
        rec.check(not ok, 'disable.refuses_protected', ctx)
        rec.check(after == before, 'disable.atomic_on_refusal', lambda: '{}: state {} became {}'.format(ctx(), before, after))
        return cur
    rec.check(ok, 'disable.succeeds_when_allowed', ctx)
    sp, rs = want
    rec.eq(set(after[0]), sp, 'disable.species_largest_subnetwork', ctx())
    rec.eq(set(after[1]), rs, 'disable.reactions_largest_subnetwork', ctx())
    rec.eq(set(after[2]), set(by_id) - sp, 'disable.disabled_species_listed', ctx())
    rec.eq(set(after[3]), {r['id'] for r in spec['reactions']} - rs, 'disable.disabled_reactions_listed', ctx())
    newp = set(prot)
    if (sp, rs) != (set(en_sp), set(en_r)) and len(pos_ions(spec, sp)) == 1:
        newp |= set(pos_ions(spec, sp))
    rec.eq(set(after[4]), newp, 'disable.last_positive_ion_protected', ctx())
    return sp, rs, newp


def fresh(spec):
    sp = {s['id'] for s in spec['species']}
    prot = {s['id'] for s in spec['species'] if s['name'] == 'e'}
    if len(pos_ions(spec, sp)) == 1:
        prot |= set(pos_ions(spec, sp))
    return sp, {r['id'] for r in spec['reactions']}, prot


def history(rng, rec):
    spec = gen.chem_spec(rng, explicit=False, plain_numbers=True, max_species=rng.choice([3, 5, 9]),
                         max_reactions=rng.choice([4, 8, 14]), min_ions=rng.choice([1, 1, 2, 3]))
    ch, sp, rs = gen.build(spec)
    cur = fresh(spec)
    explicit = set(cur[2])
    rec.eq((set(ch.get_species_id(special=True).tolist()), set(ch.get_reactions_id().tolist()),
            set(ch.get_protected_species().index)), cur, 'init.all_enabled')
    log = []
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(['disable'] * 6 + ['reset', 'protect'])
        log.append(op)
        if op == 'disable':
            allsp = sorted(s['id'] for s in spec['species'])
            pool = allsp if rng.random() < .3 else sorted(set(allsp) - cur[2]) or allsp
            req_sp = rng.sample(pool, min(len(pool), rng.choice([0, 1, 1, 2])))
            rids = sorted(r['id'] for r in spec['reactions'])
            req_r = rng.sample(rids, min(len(rids), rng.choice([0, 1, 1, 2, 4])))
            cur = step(spec, ch, cur, req_sp, req_r, rng, rec)
        elif op == 'reset':
            ch.reset()
            cur = (fresh(spec)[0], fresh(spec)[1], set(explicit))
            st = state(ch)
            rec.eq((set(st[0]), set(st[1]), set(st[4])), cur, 'reset.restores_everything', str(gen.short(spec)))
        else:
            cand = sorted(cur[0])
            x = rng.choice(cand)
            ch.set_protected_species(rng.choice([x, ch.get_rp(x), ch.get_rp(x).get_name()]))
            explicit = explicit | {x}
            cur = (cur[0], cur[1], cur[2] | {x})
            rec.eq(set(ch.get_protected_species().index), cur[2], 'protect.listed')
    return gen.short(spec), log


def exhaustive(rng, rec):
    """All subsets of species and (few) reactions of one small chemistry."""
    spec = gen.chem_spec(rng, explicit=False, plain_numbers=True, max_species=4, max_reactions=5, min_ions=2)
    if len(spec['reactions']) > 5 or len(spec['species']) > 6:
        raise Skip
    ch, sp, rs = gen.build(spec)
    f = fresh(spec)
    items = [('s', s['id']) for s in spec['species']] + [('r', r['id']) for r in spec['reactions']]
    subsets = [c for k in (1, 2) for c in itertools.combinations(items, k)]
    rng.shuffle(subsets)
    for c in subsets[:25]:
        ch.reset()
        explicit = set(f[2])
        step(spec, ch, (f[0], f[1], explicit), [i for t, i in c if t == 's'], [i for t, i in c if t == 'r'], rng, rec)
    return gen.short(spec), 'pairs'


def with_adhoc(rng, rec):
    """The same, on chemistries with explicit surface data and ad-hoc overrides (which must not get in the way)."""
    spec = gen.chem_spec(rng, max_species=6, max_reactions=8, min_ions=2)
    ch, sp, rs = gen.build(spec)
    cur = fresh(spec)
    ordinary = [s for s in spec['species'] if not gen.special(s)]
    for s in rng.sample(ordinary, min(2, len(ordinary))):
        ch.set_adhoc_species_attributes('stick_coef', s['id'], round(rng.random(), 3))
        ch.set_adhoc_species_attributes('ret_coefs', s['id'], {rng.choice(ordinary)['name']: 1.})
    for _ in range(3):
        pool = sorted({s['id'] for s in spec['species']} - cur[2]) or [0]
        req_sp = rng.sample(pool, 1) if pool != [0] else []
        rids = sorted(r['id'] for r in spec['reactions'])
        cur = step(spec, ch, cur, req_sp, rng.sample(rids, rng.choice([0, 1])), rng, rec)
    return gen.short(spec), 'adhoc'


FAMILIES = [('history', history, 1), ('exhaustive', exhaustive, 6), ('with_adhoc', with_adhoc, 3)]
