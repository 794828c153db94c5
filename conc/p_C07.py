"""C07: surface data: effective return coefficients and the return matrix (overrides, zero sticking, disabled products)."""
import math
import gen
from p_C05 import rnd_disable
from p_C06 import state, num


def effective(spec, en_sp, stick, ret):
    """id -> effective return coefficients (None for the special species)."""
    names = {x['name'] for x in spec['species'] if x['id'] in en_sp}
    out = {}
    for s in spec['species']:
        if gen.special(s):
            out[s['id']] = None
            continue
        st = stick.get(s['id'], gen.exp_stick(s))
        w = dict(ret.get(s['id'], gen.exp_ret(s)))
        if st == 0.:
            w = {}
        out[s['id']] = {k: v for k, v in w.items() if k in names}
    return out


def check(rng, rec, ch, spec, stick, ret, tag):
    en_sp, en_r, prot = state(ch)
    eff = effective(spec, en_sp, stick, ret)
    by_name = {s['name']: s for s in spec['species']}
    for d in (False, True):
        for sp_ in (False, True):
            for p in (True, False):
                sel = [s for s in spec['species'] if (d or s['id'] in en_sp) and (sp_ or not gen.special(s)) and
                       (p or s['id'] not in prot)]
                t = '{} disabled={} special={} protected={}'.format(tag, d, sp_, p)
                g = rec.total(lambda: ch.get_species_ret_coefs(disabled=d, special=sp_, protected=p), 'ret_coefs.total', t)
                rec.eq(list(g.index), [s['id'] for s in sel], 'ret_coefs.index', t)
                for s in sel:
                    v = g.at[s['id']]
                    rec.check((v is None or (isinstance(v, float) and v != v)) if eff[s['id']] is None else
                              v == eff[s['id']] and all(type(x) is float for x in v.values()), 'ret_coefs.value',
                              lambda: '{} {}: {!r} instead of {!r}'.format(t, s['name'], v, eff[s['id']]))
                    if isinstance(v, dict):  # the result is the caller's own
                        v['foo'] = 1.
                if not p:
                    continue
                m = rec.total(lambda: ch.get_return_matrix(disabled=d, special=sp_), 'return_matrix.total', t)
                ids = [s['id'] for s in sel]
                rec.eq(list(m.index), ids, 'return_matrix.index', t)
                rec.eq(list(m.columns), ids, 'return_matrix.columns', t)
                for a in sel:
                    for b in sel:
                        got = float(m.at[a['id'], b['id']])
                        want = math.nan if gen.special(a) or gen.special(b) else \
                            float(eff[b['id']].get(a['name'], 0.))
                        rec.check(got == want or (got != got and want != want), 'return_matrix.value',
                                  lambda: '{} row {} column {}: {!r} instead of {!r}'.format(t, a['name'], b['name'], got, want))


def history(rng, rec):
    spec = gen.chem_spec(rng, max_species=rng.choice([3, 5, 7]), max_reactions=8)
    ordinary = [s for s in spec['species'] if not gen.special(s)]
    if rng.random() < .15:  # a species returned as a special one (secondary electrons)
        s = rng.choice(ordinary)
        s['attributes']['ret_coefs'] = dict(s['attributes'].get('ret_coefs') or {}, e=.1)
    ch, sp, rs = gen.build(spec)
    stick, ret = {}, {}
    log = []
    for _ in range(rng.randint(0, 5)):
        op = rng.choice(['stick', 'ret', 'ret', 'disable', 'reset', 'reset_all', 'protect'])
        s = rng.choice(ordinary)
        if op == 'stick':
            v = rng.choice([0., 0., 1., .3])
            ch.set_adhoc_species_attributes('stick_coef', s['id'], num(rng, v))
            stick[s['id']] = v
            log.append((op, s['name'], v))
        elif op == 'ret':
            v = {rng.choice(ordinary)['name']: float('%.3g' % rng.random()) for _ in range(rng.randint(0, 3))}
            v = {k: x for k, x in v.items() if k in ch.get_species_name().values}
            ch.set_adhoc_species_attributes('ret_coefs', s['name'], {k: num(rng, x) for k, x in v.items()})
            ret[s['id']] = v
            log.append((op, s['name'], v))
        elif op == 'disable':
            rnd_disable(rng, ch, spec, 1)
            log.append(op)
        elif op == 'reset':
            ch.reset_adhoc_species_attributes('ret_coefs')
            ret = {}
            log.append(op)
        elif op == 'reset_all':
            ch.reset()
            log.append(op)
        else:
            ch.set_protected_species(s['id'])
            log.append(op)
    raw = [repr(sorted(vars(x).items(), key=lambda kv: kv[0])) for x in sp]
    check(rng, rec, ch, spec, stick, ret, '{} after {}:'.format(gen.short(spec), log))
    rec.eq([repr(sorted(vars(x).items(), key=lambda kv: kv[0])) for x in sp], raw, 'ret_coefs.instances_untouched')
    return gen.short(spec), str(log)


FAMILIES = [('history', history, 1)]
