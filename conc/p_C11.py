"""C11: model parameters are accepted exactly when complete and consistent, and read the same under every documented name."""
import copy
import numpy as np
from harness import Violation, Skip
from pygmo_fwork.pygmol.model_parameters import ModelParameters
from pygmo_fwork.pygmol.exceptions import ModelParametersError, ModelParametersConsistencyError, ModelParametersTypeError

NAMES = {'radius': ('radius', 'r', 'R'), 'length': ('length', 'z', 'Z'), 'pressure': ('pressure', 'p'), 'power': ('power', 'P'),
         't_power': ('t_power', 't_P', 'time_P', 'time_power'), 'temp_gas': ('temp_gas', 'Tg', 'T_g', 'gas_temp'),
         'feeds': ('feeds', 'feed_flows'), 't_end': ('t_end', 'time_end', 'end_time')}
NUMERIC = ('radius', 'length', 'pressure', 'temp_gas', 't_end')


def number(rng, lo=-6, hi=6):
    v = float('%.3g' % (10 ** rng.uniform(lo, hi)))
    return rng.choice([v, v, max(1, int(v)), np.float64(v), np.int64(max(1, int(v))), np.float64(v)])


def coll(rng, xs):
    k = rng.randrange(3)
    return list(xs) if k == 0 else tuple(xs) if k == 1 else np.array([float(x) for x in xs])


def valid(rng):
    d = {k: number(rng) for k in NUMERIC}
    n = rng.choice([2, 2, 3, 5])
    te = float(d['t_end'])
    t = sorted(rng.uniform(0, te) for _ in range(n - 2))
    first = rng.choice([0., 0, -te, -1e-9 * te])
    last = rng.choice([1.1 * d['t_end'], 2 * te, 1.11 * te, te * 1e3])
    d['t_power'] = coll(rng, [first] + t + [last])
    if isinstance(d['t_power'], np.ndarray) and d['t_power'][-1] < 1.1 * d['t_end']:
        d['t_power'][-1] = 2 * te
    d['power'] = coll(rng, [rng.choice([0, 0., number(rng, -2, 4)]) for _ in range(n)])
    d['feeds'] = {rng.choice(['O2', 'Ar', 'SF6', 'x', '', 'He*', 'N2']): number(rng, -2, 3) for _ in range(rng.randrange(4))}
    return d


def rename(rng, d):
    items = [(rng.choice(NAMES[k]), v) for k, v in d.items()]
    rng.shuffle(items)
    return dict(items)


def make(rng, d):
    """the same parameters by any of the documented ways of passing them."""
    k = rng.randrange(4)
    if k == 0:
        return ModelParameters(dict(d))
    if k == 1:
        return ModelParameters(**d)
    if k == 2:
        keys = [x for x in d if rng.random() < .5]
        return ModelParameters({x: d[x] for x in d if x not in keys}, **{x: d[x] for x in keys})
    # keyword overrides the dictionary under the same key
    some = rng.choice(list(d))
    base = dict(d)
    if some in NAMES['feeds']:
        base[some] = {'Other': 7.}
    elif some not in NAMES['power'] + NAMES['t_power']:
        base[some] = 123456.
    return ModelParameters(base, **{some: d[some]})


def fam_valid(rng, rec):
    d = valid(rng)
    passed = rename(rng, d)
    before = copy.deepcopy(passed)
    mp = rec.total(lambda: make(rng, passed), 'mp.accept', 'complete and consistent parameters {}'.format(passed))
    rec.eq({k: np.asarray(v).tolist() if k in NAMES['power'] + NAMES['t_power'] else v for k, v in passed.items()},
           {k: np.asarray(v).tolist() if k in NAMES['power'] + NAMES['t_power'] else v for k, v in before.items()},
           'mp.args_untouched', 'arguments')
    for nominal, names in NAMES.items():
        for name in names:
            got = rec.total(lambda: mp[name], 'mp.get', name)
            if nominal in ('power', 't_power'):
                rec.eq([float(x) for x in got], [float(x) for x in d[nominal]], 'mp.value', name)
            else:
                rec.eq(got, d[nominal], 'mp.value', name)
    rec.eq(set(iter(mp)), set(NAMES), 'mp.keys')
    rec.eq(set(mp.keys()), set(NAMES), 'mp.keys')
    rec.eq(len(mp), 8, 'mp.keys')
    for name in (rng.choice(['Pressure', 'T', 'rr', '', 'feed', 'temp', 'ti', 't']), 3):
        rec.raises(ModelParametersError, lambda: mp[name], 'mp.get_unknown', repr(name))
    # frozen
    key = rng.choice(rng.choice(list(NAMES.values())))
    rec.raises(TypeError, lambda: mp.__setitem__(key, d[[k for k in NAMES if key in NAMES[k]][0]]), 'mp.frozen', key)
    rec.raises(TypeError, lambda: mp.__delitem__(key), 'mp.frozen', key)
    # what is returned is a copy
    f = mp['feeds']
    f['Zz'] = 1.
    for k in list(f):
        f[k] = -1.
    for nm in ('power', 't_power'):
        p = mp[nm]
        if isinstance(p, list):
            p[0] = -5e9
            p.append(3)
    for nominal in ('feeds', 'power', 't_power'):
        got = mp[rng.choice(NAMES[nominal])]
        rec.check(got == d[nominal] if nominal == 'feeds' else [float(x) for x in got] == [float(x) for x in d[nominal]],
                  'mp.isolated', '{} changed through a returned value: {}'.format(nominal, got))
    # the caller's feeds dict is not aliased
    src = passed[[k for k in passed if k in NAMES['feeds']][0]]
    src['Later'] = 5.
    rec.check('Later' not in mp['feeds'], 'mp.isolated', 'feeds changed through the dictionary passed')
    del src['Later']
    for nm in ('power', 't_power'):
        src = passed[[k for k in passed if k in NAMES[nm]][0]]
        if not isinstance(src, tuple):
            want = list(mp[nm])
            keep, src[0] = src[0], -7e9
            rec.check(list(mp[nm]) == want, 'mp.isolated', '{} changed through the collection passed'.format(nm))
            src[0] = keep
    # numbers survive a round trip through their own dict
    again = rec.total(lambda: ModelParameters({k: mp[k] for k in mp}), 'mp.roundtrip', '')
    for k in NAMES:
        rec.eq(again[k], mp[k], 'mp.roundtrip', k)
    return sorted(passed)


BADNUM = [True, False, float('nan'), np.nan, 'abc', '1', None, [1.], {}, 0, 0., -1, -1e-300, float('-inf')]


def fam_invalid(rng, rec):
    d = valid(rng)
    kind = rng.choice(['missing', 'unknown', 'num', 'feeds_type', 'feed_key', 'feed_val', 'power_type', 'power_val', 'time_val', 'short',
                       'lengths', 'start', 'end'])
    exp, desc = ModelParametersTypeError, kind
    if kind == 'missing':
        k = rng.choice(list(NAMES))
        del d[k]
        exp, desc = ModelParametersError, 'missing ' + k
    elif kind == 'unknown':
        k = rng.choice(['foo', 'Power', 'temp', 'RR', '', 'n0'])
        d2 = rename(rng, d)
        d2[k] = 1.
        rec.raises(ModelParametersError, lambda: ModelParameters(d2), 'mp.reject', 'unknown ' + k)
        return kind, k
    elif kind == 'num':
        k = rng.choice(NUMERIC)
        v = rng.choice(BADNUM)
        d[k] = v
        desc = '{}={!r}'.format(k, v)
    elif kind == 'feeds_type':
        d['feeds'] = rng.choice([None, 1., 'O2', [('O2', 1.)], ('O2',)])
        desc = 'feeds={!r}'.format(d['feeds'])
    elif kind == 'feed_key':
        d['feeds'] = dict(d['feeds'])
        d['feeds'][rng.choice([1, None, 2.5, ('a',), b'O2'])] = 1.
        desc = 'feeds={!r}'.format(d['feeds'])
    elif kind == 'feed_val':
        d['feeds'] = dict(d['feeds'])
        d['feeds'][rng.choice(['O2', 'q'])] = rng.choice(BADNUM)
        desc = 'feeds={!r}'.format(d['feeds'])
    elif kind == 'power_type':
        k = rng.choice(['power', 't_power'])
        d[k] = rng.choice([None, 1., 'abc', b'ab', True, 5])
        desc = '{}={!r}'.format(k, d[k])
    elif kind == 'power_val':
        d['power'] = list(d['power'])
        d['power'][rng.randrange(len(d['power']))] = rng.choice([True, float('nan'), 'abc', None, [1.], -1, -1e-300, float('-inf')])
        desc = 'power={!r}'.format(d['power'])
    elif kind == 'time_val':
        d['t_power'] = list(d['t_power'])
        d['t_power'][rng.randrange(len(d['t_power']))] = rng.choice([True, float('nan'), 'abc', None, [1.], False])
        desc = 't_power={!r}'.format(d['t_power'])
    elif kind == 'short':
        n = rng.randrange(2)
        d['power'], d['t_power'] = list(d['power'])[:n], list(d['t_power'])[:n]
        exp, desc = ModelParametersConsistencyError, 'length {}'.format(n)
    elif kind == 'lengths':
        k = rng.choice(['power', 't_power'])
        d[k] = list(d[k]) + [d[k][-1]]
        exp, desc = ModelParametersConsistencyError, 'lengths {}'.format({k: d[k] for k in ('power', 't_power')})
    elif kind == 'start':
        d['t_power'] = list(d['t_power'])
        d['t_power'][0] = rng.choice([1e-300, 1e-9, 1., 5])
        exp, desc = ModelParametersConsistencyError, 't_power={!r}'.format(d['t_power'])
    elif kind == 'end':
        te = float(d['t_end'])
        d['t_end'] = te
        d['t_power'] = [0.] + [0.] * (len(d['power']) - 2) + [rng.choice([te, 1.0999 * te, 0., -te, .5 * te])]
        exp, desc = ModelParametersConsistencyError, 't_power={!r} t_end={!r}'.format(d['t_power'], te)
    passed = rename(rng, d)
    try:
        mp = make(rng, passed)
    except Exception as e:
        rec.check(type(e) is exp, 'mp.reject', 'raised {!r} for {}; documented: {}'.format(e, desc, exp.__name__))
    else:
        rec.check(False, 'mp.reject', 'accepted ' + desc)
    return kind, desc


FAMILIES = [('valid', fam_valid, 1), ('invalid', fam_invalid, 1)]
