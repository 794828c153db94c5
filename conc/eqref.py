"""An independent scalar reference of the global model equations (written from the documentation, plain Python floats) and a
generator of chemistries / parameters / state vectors for it."""
import math
import numpy as np
import pandas as pd
from scipy import constants as C

NAN = float('nan')


class FakeChemistry:
    """The documented interface a chemistry must have to be solved; values are arbitrary (no plaschem class involved)."""

    def __init__(self, d):
        self.d = d

    def _s(self, k, dtype=None):
        return pd.Series(self.d[k], index=self.d['idx_r'] if k in REACTION_KEYS else self.d['idx_s'], dtype=dtype)

    def get_species_name(self): return self._s('name', object)
    def get_species_charge(self): return self._s('charge', int)
    def get_species_mass(self): return self._s('mass', float)
    def get_species_lj_sigma(self): return self._s('lj_sigma', float)
    def get_species_stick_coef(self): return self._s('stick', float)
    def get_reactions_arrh_a(self): return self._s('a', float)
    def get_reactions_arrh_b(self): return self._s('b', float)
    def get_reactions_arrh_c(self): return self._s('c', float)
    def get_reactions_el_en_loss(self): return self._s('loss', float)
    def get_reactions_elastic(self): return self._s('elastic', bool)
    def get_reactions_id(self): return pd.Series(self.d['idx_r'], index=self.d['idx_r'])

    def get_reactions_stoich_coefs_electron(self, method='net'):
        l, r = np.array(self.d['el'], int), np.array(self.d['er'], int)
        return pd.Series({'lhs': l, 'rhs': r, 'net': r - l}[method], index=self.d['idx_r'])

    def get_reactions_stoich_coefs_arbitrary(self, method='net'):
        l, r = np.array(self.d['ml'], int), np.array(self.d['mr'], int)
        return pd.Series({'lhs': l, 'rhs': r, 'net': r - l}[method], index=self.d['idx_r'])

    def get_return_matrix(self):
        return pd.DataFrame(np.array(self.d['ret'], float).reshape(len(self.d['idx_s']), len(self.d['idx_s'])),
                            index=self.d['idx_s'], columns=self.d['idx_s'])

    def get_stoichiomatrix(self, method='net'):
        sh = len(self.d['idx_r']), len(self.d['idx_s'])
        l, r = np.array(self.d['sl'], int).reshape(sh), np.array(self.d['sr'], int).reshape(sh)
        return pd.DataFrame({'lhs': l, 'rhs': r, 'net': r - l}[method], index=self.d['idx_r'], columns=self.d['idx_s'])

    def num_species(self): return len(self.d['idx_s'])
    def num_reactions(self): return len(self.d['idx_r'])
    def get_species_id(self): return pd.Series(self.d['idx_s'], index=self.d['idx_s'])

    def __getattr__(self, name):
        from harness import MissingInterface
        if name.startswith('__'):
            raise AttributeError(name)
        raise MissingInterface(name)


REACTION_KEYS = {'a', 'b', 'c', 'loss', 'elastic'}


def r3(x):
    return float('%.4g' % x)


def gen_chem(rng, max_s=5, max_r=6, neutral=False):
    while True:
        ns, nr = rng.randint(1, max_s), rng.randint(1, max_r)
        ch = [0 if neutral else rng.choice([0, 0, 1, 1, -1, 2, -2]) for _ in range(ns)]
        if neutral or (any(c > 0 for c in ch) and any(c == 0 for c in ch)):
            break
    d = dict(idx_s=rng.sample(range(1, 400), ns), idx_r=rng.sample(range(1, 40000), nr))
    d['name'] = ['S%d' % i for i in d['idx_s']]
    d['charge'] = ch
    d['mass'] = [r3(rng.choice([rng.uniform(1, 60), rng.uniform(60, 300)])) for _ in range(ns)]
    d['lj_sigma'] = [r3(rng.uniform(1, 8)) for _ in range(ns)]
    d['stick'] = [rng.choice([0., 1., r3(rng.random())]) for _ in range(ns)]
    d['a'] = [rng.choice([0.] + 5 * [r3(10 ** rng.uniform(-20, -12))]) for _ in range(nr)]
    d['b'] = [rng.choice([0., r3(rng.uniform(-2, 2))]) for _ in range(nr)]
    sl, sr, el, er, ml, mr, c, loss, ela = [], [], [], [], [], [], [], [], []
    for j in range(nr):
        L, R, e = [0] * ns, [0] * ns, (0 if neutral else rng.choice([0, 1, 1, 2]))
        heavy = rng.randint(1, 2)
        for _ in range(heavy):
            L[rng.randrange(ns)] += 1
        for _ in range(rng.randint(0, 3)):
            R[rng.randrange(ns)] += 1
        x = rng.random() < .25 and e > 0
        if x:
            R = list(L)
        sl.append(L), sr.append(R), el.append(e), er.append(e if x else (0 if neutral else rng.randint(0, 3)))
        m = rng.choice([0, 0, 1])
        ml.append(m), mr.append(m)
        c.append(rng.choice([0., r3(rng.uniform(0, 20)) if e else r3(rng.uniform(0, 5000))]))
        loss.append(0. if x else rng.choice([0., r3(rng.uniform(0, 30))]))
        ela.append(x)
    d.update(sl=sl, sr=sr, el=el, er=er, ml=ml, mr=mr, c=c, loss=loss, elastic=ela)
    d['ret'] = [[rng.choice([0., 0., r3(rng.random())]) for _ in range(ns)] for _ in range(ns)]
    return d


def gen_params(rng, d, feeds=None):
    neu = [n for n, c in zip(d['name'], d['charge']) if c == 0]
    if feeds is None:
        feeds = {n: rng.choice([r3(rng.uniform(1, 500)), 100]) for n in neu if rng.random() < .5}
    t_end = rng.choice([1, .1, r3(10 ** rng.uniform(-4, 2))])
    n = rng.randint(2, 5)
    t = sorted(rng.choice([0, r3(rng.uniform(0, 1) * t_end), r3(rng.uniform(-1, 3) * t_end)]) for _ in range(n))
    # doubled points (steps of the power) are allowed, tripled are not
    u = []
    for x in t:
        if u.count(x) < 2:
            u.append(x)
    t = [min(0, u[0])] + ([rng.choice([0.5 * t_end, t_end])] * 2 if rng.random() < .4 else u[1:]) + [1.2 * t_end + max(u[-1], 0)]
    t = sorted(t)
    for x in set(t):
        while t.count(x) > 2:
            t.remove(x)
    if rng.random() < .2:  # integers only, with a step
        t_end = rng.choice([1, 2, 5])
        s = rng.randint(1, t_end)
        t = [rng.choice([-3, 0]), s, s, s + 7]
    p = [rng.choice([0, 100, r3(rng.uniform(0, 5000))]) for _ in t]
    return dict(radius=r3(rng.uniform(.01, .5)), length=r3(rng.uniform(.01, .5)), pressure=r3(10 ** rng.uniform(-2, 3)),
                power=p, t_power=t, temp_gas=rng.choice([300, 300., r3(rng.uniform(200, 2000))]), feeds=feeds, t_end=t_end)


def gen_y(rng, d, neutral=False):
    base = 10 ** rng.uniform(15, 23)
    while True:
        n = [base * 10 ** rng.uniform(-9, 0) for _ in d['charge']]
        for i in range(len(n)):
            q = rng.random()
            if q < .08:
                n[i] = rng.choice([0.3, 0.9999, 1., 1.0001])
        ne = sum(x * q for x, q in zip(n, d['charge']))
        if neutral:
            return np.array(n + [0.])
        if ne > 0 and ne > 1e-6 * max(n[i] for i in range(len(n)) if d['charge'][i]):
            break
        i = rng.choice([i for i, q in enumerate(d['charge']) if q > 0])
        d_ = -sum(x * q for x, q in zip(n, d['charge']) if q < 0)
        n[i] = (d_ * 2 + base * 1e-5) / d['charge'][i]
        break
    ne = sum(x * q for x, q in zip(n, d['charge']))
    te = rng.choice([r3(rng.uniform(.5, 10)), r3(rng.uniform(.001, .3))])
    return np.array(n + [1.5 * ne * te])


class Ref:
    """Scalar reference. All the quantities as functions of the state, straight from the documented formulas."""

    def __init__(self, d, p, diffusion_model=1):
        self.d, self.p, self.dm = d, p, diffusion_model
        self.ns, self.nr = len(d['name']), len(d['a'])
        self.m = [x * C.atomic_mass for x in d['mass']]
        self.sig = [x * 1e-10 for x in d['lj_sigma']]
        self.Tg, self.r, self.z, self.p0 = p['temp_gas'], p['radius'], p['length'], p['pressure']
        self.V = math.pi * self.r ** 2 * self.z
        self.A = 2 * math.pi * self.r ** 2 + 2 * math.pi * self.r * self.z
        self.L = 1 / math.sqrt((math.pi / self.z) ** 2 + (2.405 / self.r) ** 2)
        self.feed = [p['feeds'].get(n, 0.) for n in d['name']]
        pos = [m for m, q in zip(self.m, d['charge']) if q > 0]
        self.mi = sum(pos) / len(pos) if pos else NAN

    def state(self, y):
        d, S = self.d, {}
        n, rho = [float(x) for x in y[:-1]], float(y[-1])
        q = d['charge']
        S['density_vector'], S['electron_energy_density'] = n, rho
        S['total_density'] = nt = sum(n)
        S['total_pressure'] = p = C.k * self.Tg * nt
        mt = .133322
        hot = .5 * C.e / C.k
        S['ion_temperature'] = ti = (hot - self.Tg) / (p / mt) + self.Tg if p > mt else hot
        S['electron_density'] = ne = sum(a * b for a, b in zip(n, q))
        if any(q):
            S['electron_temperature'] = te = max(rho / ne * 2 / 3, self.Tg * C.k / C.e)
            S['debye_length'] = ld = math.sqrt(C.epsilon_0 * te / (C.e * ne))
        else:
            te = ld = NAN
        S['reaction_rate_coefficients'] = k = []
        for j in range(self.nr):
            if d['el'][j] > 0:
                k.append(d['a'][j] * te ** d['b'][j] * math.exp(-d['c'][j] / te))
            else:
                k.append(d['a'][j] * (self.Tg / 300) ** d['b'][j] * math.exp(-d['c'][j] / self.Tg))
        S['reaction_rates'] = R = []
        for j in range(self.nr):
            v = k[j]
            for _ in range(d['el'][j]):
                v *= ne
            for i in range(self.ns):
                for _ in range(d['sl'][j][i]):
                    v *= n[i]
            for _ in range(d['ml'][j]):
                v *= nt
            R.append(v)
        S['volumetric_source_rates'] = vol = [sum((d['sr'][j][i] - d['sl'][j][i]) * R[j] for j in range(self.nr))
                                              for i in range(self.ns)]
        neu = [i for i in range(self.ns) if q[i] == 0]
        inflow = [f * 4.485e17 / self.V for f in self.feed]
        nn = sum(n[i] for i in neu)
        S['flow_source_rates'] = flow = [
            inflow[i] - ((n[i] / 1e-3 * (p - self.p0) / self.p0 + sum(inflow) * n[i] / nn) if q[i] == 0 else 0.)
            for i in range(self.ns)]
        S['mean_speeds'] = v = [math.sqrt(8 * C.k * (self.Tg if q[i] == 0 else ti) / (math.pi * self.m[i]))
                                for i in range(self.ns)]
        S['sigma_sc'] = sg = [[0.] * self.ns for _ in range(self.ns)]
        for i in range(self.ns):
            for j in range(self.ns):
                if i == j:
                    continue
                if q[i] != 0 and q[j] != 0:
                    mu = self.m[i] * self.m[j] / (self.m[i] + self.m[j])
                    b0 = C.e ** 2 * abs(q[i] * q[j]) / (2 * math.pi * C.epsilon_0) / (mu * v[i] ** 2)
                    sg[i][j] = math.pi * b0 ** 2 * math.log(2 * ld / b0)
                else:
                    sg[i][j] = (self.sig[i] + self.sig[j]) ** 2
        den = [sum(n[j] * sg[i][j] for j in range(self.ns)) for i in range(self.ns)]
        S['mean_free_paths'] = mfp = [1 / x if x else math.inf for x in den]
        S['free_diffusivities'] = df = [math.pi / 8 * a * b for a, b in zip(mfp, v)]
        pos, neg = [i for i in range(self.ns) if q[i] > 0], [i for i in range(self.ns) if q[i] < 0]
        if pos:
            g = te * C.e / C.k / ti
            al = sum(n[i] for i in neg) / ne
            S['ambipolar_diffusivity_pos'] = da = sum(df[i] for i in pos) / len(pos) * (1 + g * (1 + 2 * al)) / (1 + al * g)
            S['ambipolar_diffusivity_neg'] = 0.
        S['diffusivities'] = D = [df[i] if q[i] == 0 else (da if q[i] > 0 else 0.) for i in range(self.ns)]
        s = d['stick']
        if self.dm == 0:
            w = [-D[i] * n[i] * s[i] / self.L ** 2 * self.V / self.A for i in range(self.ns)]
        else:
            w = []
            for i in range(self.ns):
                den_ = s[i] * self.L + 4 * D[i] / v[i]
                w.append(-D[i] * n[i] * s[i] / den_ if den_ else NAN)
        S['wall_fluxes'] = w
        S['diffusion_sinks'] = sk = [x * self.A / self.V for x in w]
        S['diffusion_sources'] = src = [sum(-sk[j] * d['ret'][i][j] for j in range(self.ns)) for i in range(self.ns)]
        S['diffusion_source_rates'] = dif = [a + b for a, b in zip(sk, src)]
        S['min_n_correction'] = mn = [(1. - x) / 1e-10 if x < 1. else 0. for x in n]
        S['dn_dt'] = [a + b + c_ + e for a, b, c_, e in zip(vol, flow, dif, mn)]
        if not any(q):
            return S
        S['el_en_losses'] = los = [
            3 * C.m_e / self.partner(j) * (te - self.Tg * C.k / C.e) if d['elastic'][j] and d['el'][j] else d['loss'][j]
            for j in range(self.nr)]
        S['drho_dt_el_inel'] = ei = sum(los[j] * R[j] for j in range(self.nr) if d['el'][j])
        S['drho_dt_gain_loss'] = gl = 1.5 * te * sum((d['er'][j] - d['el'][j]) * R[j] for j in range(self.nr))
        S['drho_dt_el_walls'] = ew = -2 * te * sum(q[i] * dif[i] for i in range(self.ns))
        S['sheath_voltage'] = sh = te * math.log(math.sqrt(self.mi / (2 * math.pi * C.m_e)))
        S['drho_dt_ions_walls'] = iw = -sum((.5 * te + sh * q[i]) * dif[i] for i in pos)
        S['min_rho_correction'] = mr = (1. - rho) / 1e-10 if rho < 1. else 0.
        self.rest = -ei - gl - ew - iw + mr
        return S

    def partner(self, j):
        return next(self.m[i] for i in range(self.ns) if self.d['sl'][j][i] > 0)

    def power(self, t):
        """Polygon through the (time, power) points; doubled times are steps, smeared over 2e-5 of t_end."""
        ts, ps, dt = [float(x) for x in self.p['t_power']], [float(x) for x in self.p['power']], 1e-5 * self.p['t_end']
        for i in range(len(ts) - 1):
            if ts[i] == ts[i + 1]:
                ts[i], ts[i + 1] = ts[i] - dt, ts[i + 1] + dt
        if t <= ts[0]:
            return ps[0]
        for i in range(len(ts) - 1):
            if t <= ts[i + 1]:
                return ps[i] + (ps[i + 1] - ps[i]) * (t - ts[i]) / (ts[i + 1] - ts[i])
        return ps[-1]

    def well_defined_power(self):
        ts, dt = [float(x) for x in self.p['t_power']], 1e-5 * self.p['t_end']
        for i in range(len(ts) - 1):
            if ts[i] == ts[i + 1]:
                ts[i], ts[i + 1] = ts[i] - dt, ts[i + 1] + dt
        return all(a < b for a, b in zip(ts, ts[1:])) and ts[0] <= 0 and ts[-1] >= self.p['t_end']

    def drho_dt(self, t, y):
        self.state(y)
        return self.power(t) / self.V / C.e + self.rest

    def dy_dt(self, t, y):
        S = self.state(y)
        if not any(self.d['charge']):
            return S['dn_dt'] + [0.]
        return S['dn_dt'] + [self.power(t) / self.V / C.e + self.rest]
