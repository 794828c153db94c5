"""Contracts of pygmo_fwork/pygmol/equations.py (Equations, NeutralEquations): C12, C13, C14.

Every getter G(y, optional...) has the functional postcondition result == FORMULA[G](state, optional values), where an optional value
that is not given is the value of the getter it is named after. G is verified for all the combinations of given / not given, for an
arbitrary state vector, chemistry and parameters; calls of other getters inside of G go by their contracts. Frame: the arguments and
everything in the instance are left as they were, except entries of internal buffers; which entries some getter may overwrite is inferred
first, and all the getters are verified for arbitrary contents of these (so that results cannot depend on earlier calls).
The state of the instance is obtained by executing the real __init__ symbolically: no attribute is named here (but diffusion_model)."""
import itertools
from terms import *
from values import *
import terms as tm
import interp as ip
import lib
import numeval
from lib import Stub, Native, fin

K = const('c_k')
E = const('c_e')
EPS = const('c_epsilon_0')
ME = const('c_m_e')
PI = const('c_pi')
AMU = const('c_atomic_mass')
half = num(Fraction(1, 2))

for n in ('charge',):
    numeval.HINTS[n] = lambda r: float(r.choice([-1, 0, 0, 1, 1, 2]))
for n in ('el_lhs', 'M_lhs', 'stoich_lhs'):
    numeval.HINTS[n] = lambda r: float(r.choice([0, 0, 1, 1, 2]))
numeval.HINTS['stick'] = lambda r: r.choice([0.0, 1.0, r.random()])
for n in ('get_mean_speeds()', 'get_debye_length()', 'arg_v_m', 'arg_debye_length', 'amu', 'lj_sigma', 'y_n', 'Tg', 'radius', 'length', 'pressure', 't_end'):
    numeval.HINTS[n] = lambda r: r.uniform(0.3, 3.0)


class World:
    """an arbitrary chemistry, parameters and state"""

    def __init__(self, neutral=False, K=2):
        self.sp, self.re, self.neutral = Axis('sp', True), Axis('re'), neutral
        f = lambda name, sort='R': (lambda *a: app(name, a, sort))
        self.name = f('name', 'S')
        self.q = (lambda i: num(0)) if neutral else f('charge')
        self.amu, self.lj, self.stick = f('amu'), f('lj_sigma'), f('stick')
        self.A, self.B, self.C, self.loss = f('arrh_a'), f('arrh_b'), f('arrh_c'), f('el_en_loss')
        self.elastic = f('elastic', 'B')
        zero = lambda j: num(0)
        self.el_net, self.el_lhs = (zero, zero) if neutral else (f('el_net'), f('el_lhs'))
        self.M = f('M_lhs')
        self.ret, self.snet, self.slhs = f('ret'), f('stoich_net'), f('stoich_lhs')
        self.feeds = SymDict('feeds', lambda k: app('feed_in', (k,), 'B'), lambda k: app('feed', (k,)))
        self.Tg, self.r, self.z, self.p0, self.t_end = (const(x) for x in ('Tg', 'radius', 'length', 'pressure', 't_end'))
        self.n_pow = K
        self.pow = [const('power{}'.format(k)) for k in range(K)]
        self.t_pow = [const('t_power{}'.format(k)) for k in range(K)]
        self.n = f('y_n')
        self.rho = const('y_rho')
        self.t = const('t')
        self.model = const('diffusion_model')
        # derived
        self.m = lambda i: self.amu(i) * AMU
        self.neu = lambda i: eq(self.q(i), num(0))
        self.pos = lambda i: lt(num(0), self.q(i))
        self.neg = lambda i: lt(self.q(i), num(0))
        self.elc = lambda j: lt(num(0), self.el_lhs(j))
        self.els = self.elastic
        self.V = PI * self.r * self.r * self.z
        self.area = 2 * PI * self.r * (self.r + self.z)
        self.diff_l = ((PI / self.z) ** 2 + (num(2.405) / self.r) ** 2) ** num(Fraction(-1, 2))
        self.mtorr = num(0.133322)
        self.feed = lambda i: ite(self.feeds.dom(self.name(i)), self.feeds.val(self.name(i)), num(0))

    def S(self, f):
        return sum_(self.sp, f)

    def S_where(self, p, f):
        return sum_(self.sp, lambda i: ite(p(i), as_real(f(i)), num(0)))

    def count(self, p):
        return sum_(self.sp, lambda i: ite(p(i), num(1), num(0)))

    def arr1(self, f, ax):
        return Arr([ax], f)

    def chemistry(self):
        sp, re = self.sp, self.re

        def meth(fn):
            return Native(lambda it, *a, **k: fn(*a, **k), 'chemistry')
        el = {'net': self.el_net, 'lhs': self.el_lhs, 'rhs': lambda j: self.el_net(j) + self.el_lhs(j)}
        M = {'lhs': self.M}
        st = {'net': self.snet, 'lhs': self.slhs, 'rhs': lambda j, i: self.snet(j, i) + self.slhs(j, i)}

        def by(table, dims):
            def g(method='net', **k):
                if k or method not in table:
                    raise Unsupported('chemistry query')
                return Arr(dims, table[method])
            return meth(g)
        ns = dict(
            get_species_name=meth(lambda: Arr([sp], self.name, dtype='S')), get_species_charge=meth(lambda: Arr([sp], self.q)),
            get_species_mass=meth(lambda: Arr([sp], self.amu)), get_species_lj_sigma=meth(lambda: Arr([sp], self.lj)),
            get_species_stick_coef=meth(lambda: Arr([sp], self.stick)), get_reactions_arrh_a=meth(lambda: Arr([re], self.A)),
            get_reactions_arrh_b=meth(lambda: Arr([re], self.B)), get_reactions_arrh_c=meth(lambda: Arr([re], self.C)),
            get_reactions_el_en_loss=meth(lambda: Arr([re], self.loss)), get_reactions_elastic=meth(lambda: Arr([re], self.elastic, dtype='B')),
            get_reactions_stoich_coefs_electron=by(el, [re]), get_reactions_stoich_coefs_arbitrary=by(M, [re]),
            get_return_matrix=meth(lambda: Arr([sp, sp], self.ret)), get_stoichiomatrix=by(st, [re, sp]))
        return Stub('Chemistry', ns)

    def params(self, it):
        cls = it.cls('pygmo_fwork.pygmol.model_parameters', 'ModelParameters')
        vals = {'feeds': self.feeds, 'Tg': self.Tg, 'r': self.r, 'z': self.z, 'p': self.p0, 't_end': self.t_end, 'P': list(self.pow), 't_P': list(self.t_pow)}
        syn = {'temp_gas': 'Tg', 'gas_temp': 'Tg', 'radius': 'r', 'length': 'z', 'pressure': 'p', 'power': 'P', 't_power': 't_P'}

        def items(it_, key):
            k = syn.get(key, key)
            if k not in vals:
                raise Unsupported('parameter ' + str(key))
            v = vals[k]
            return list(v) if isinstance(v, list) else v
        return Stub('ModelParameters', {}, items)

    def y(self):
        return Arr([Cat([self.sp, ONE])], lambda i: self.n(i[1]) if i[0] == 0 else self.rho)


# ------------------------------------------------------------------------------------------------ formulas
SP, RE, SC, SS = 'sp', 're', 'scalar', 'spsp'
# getter -> (kind of the result, {optional: getter it defaults to}, formula)
# formulas: (W, v) with v[getter] the value: a term, or a function of positions
DEFAULT = dict(n='get_density_vector', n_tot='get_total_density', p='get_total_pressure', n_e='get_electron_density',
               rho='get_electron_energy_density', temp_e='get_electron_temperature', temp_i='get_ion_temperature', k_r='get_reaction_rate_coefficients',
               rates='get_reaction_rates', reaction_rates='get_reaction_rates', v_m='get_mean_speeds', debye_length='get_debye_length',
               sigma_sc='get_sigma_sc', mfp='get_mean_free_paths', diff_c_free='get_free_diffusivities', diff_a_pos='get_ambipolar_diffusivity_pos',
               diff_a_neg='get_ambipolar_diffusivity_neg', diff_c='get_diffusivities', wall_fluxes='get_wall_fluxes', diff_sinks='get_diffusion_sinks',
               diff_sources='get_diffusion_sources', vol_source_rates='get_volumetric_source_rates', flow_source_rates='get_flow_source_rates',
               diff_source_rates='get_diffusion_source_rates', min_n_correction='get_min_n_correction', power_ext='get_power_ext',
               el_en_losses='get_el_en_losses', sh_pot='get_sheath_voltage', ext='get_drho_dt_ext', el_inel='get_drho_dt_el_inel',
               gain_loss='get_drho_dt_gain_loss', el_walls='get_drho_dt_el_walls', ions_walls='get_drho_dt_ions_walls',
               min_rho_correction='get_min_rho_correction', dn_dt='get_dn_dt', drho_dt='get_drho_dt')


def f_sigma(w, v):
    def g(i, k):
        b = E * E * tm.abs_(w.q(i) * w.q(k)) / (2 * PI * EPS) / (w.m(i) * w.m(k) / (w.m(i) + w.m(k)) * v['v_m'](i) * v['v_m'](i))
        ruther = PI * b * b * tm.log(2 * v['debye_length'] / b)
        hard = (w.lj(i) * num(1e-10) + w.lj(k) * num(1e-10)) ** 2
        if w.neutral:
            return ite(eq(i, k), num(0), hard)
        return ite(eq(i, k), num(0), ite(and_(not_(w.neu(i)), not_(w.neu(k))), ruther, hard))
    return g


def f_apos(w, v):
    gamma = v['temp_e'] * E / K / v['temp_i']
    alpha = w.S_where(w.neg, v['n']) / v['n_e']
    d = w.S_where(w.pos, v['diff_c_free']) / w.count(w.pos)
    return d * (1 + gamma * (1 + 2 * alpha)) / (1 + alpha * gamma)


def f_wall(w, v):
    D, n, vm = v['diff_c'], v['n'], v['v_m']

    def g(i):
        m0 = -D(i) * n(i) * w.stick(i) / (w.diff_l * w.diff_l) * w.V / w.area
        m1 = -D(i) * n(i) * w.stick(i) / (w.stick(i) * w.diff_l + 4 * D(i) / vm(i))
        return ite(eq(w.model, num(0)), m0, m1)
    return g


def f_flow(w, v):
    c = num(4.485E+17)
    n, p = v['n'], v['p']
    tot = w.S(w.feed)

    def g(i):
        reg = n(i) * (1 / num(1e-3)) * (p - w.p0) / w.p0
        out = tot * c / w.V * n(i) / w.S_where(w.neu, n)
        return w.feed(i) * c / w.V - ite(w.neu(i), reg + out, num(0))
    return g


def f_arrh(w, v):
    te = v['temp_e']
    return lambda j: ite(w.elc(j), w.A(j) * te ** w.B(j) * tm.exp(-w.C(j) / te),
                         w.A(j) * (w.Tg / 300) ** w.B(j) * tm.exp(-w.C(j) / w.Tg))


def f_rates(w, v):
    return lambda j: v['k_r'](j) * v['n_e'] ** w.el_lhs(j) * prod_(w.sp, lambda i: v['n'](i) ** w.slhs(j, i)) * v['n_tot'] ** w.M(j)


def f_sheath(w, v):
    mim = w.S_where(w.pos, w.m) / w.count(w.pos)
    return v['temp_e'] * tm.log((mim / (2 * PI * ME)) ** half)


def partner(w, j):
    """mass of the first heavy reactant of j"""
    d = Sub(w.sp, lambda i: lt(num(0), w.slhs(j, i)))
    return w.m(lib.first_position(None, d, 0))


def f_loss(w, v):
    return lambda j: ite(and_(w.elc(j), w.els(j)), 3 * ME / partner(w, j) * (v['temp_e'] - w.Tg * K / E), w.loss(j))


FORMULAS = {
    'get_density_vector': (SP, [], lambda w, v: w.n),
    'get_electron_energy_density': (SC, [], lambda w, v: w.rho),
    'get_total_density': (SC, ['n'], lambda w, v: w.S(v['n'])),
    'get_total_pressure': (SC, ['n_tot'], lambda w, v: K * w.Tg * v['n_tot']),
    'get_ion_temperature': (SC, ['p'], lambda w, v: ite(lt(w.mtorr, v['p']), (half * E / K - w.Tg) / (v['p'] / w.mtorr) + w.Tg, half * E / K)),
    'get_electron_density': (SC, ['n'], lambda w, v: w.S(lambda i: v['n'](i) * w.q(i))),
    'get_electron_temperature': (SC, ['n_e', 'rho'], lambda w, v: tm.maximum(v['rho'] / v['n_e'] * 2 / 3, w.Tg * K / E)),
    'get_debye_length': (SC, ['n_e', 'temp_e'], lambda w, v: (EPS * v['temp_e'] / E / v['n_e']) ** half),
    'get_reaction_rate_coefficients': (RE, ['temp_e'], f_arrh),
    'get_reaction_rates': (RE, ['n', 'n_e', 'n_tot', 'k_r'], f_rates),
    'get_volumetric_source_rates': (SP, ['rates'], lambda w, v: lambda i: sum_(w.re, lambda j: w.snet(j, i) * v['rates'](j))),
    'get_flow_source_rates': (SP, ['n', 'p'], f_flow),
    'get_mean_speeds': (SP, ['temp_i'], lambda w, v: lambda i: (8 * K * ite(w.neu(i), w.Tg, v['temp_i']) / (PI * w.m(i))) ** half if False else
                        ite(w.neu(i), (8 * K * w.Tg / (PI * w.m(i))) ** half, (8 * K * v['temp_i'] / (PI * w.m(i))) ** half)),
    'get_sigma_sc': (SS, ['v_m', 'debye_length'], f_sigma),
    'get_mean_free_paths': (SP, ['n', 'sigma_sc'], lambda w, v: lambda i: 1 / sum_(w.sp, lambda k: v['n'](k) * v['sigma_sc'](i, k))),
    'get_free_diffusivities': (SP, ['mfp', 'v_m'], lambda w, v: lambda i: PI / 8 * v['mfp'](i) * v['v_m'](i)),
    'get_ambipolar_diffusivity_pos': (SC, ['n', 'n_e', 'temp_i', 'temp_e', 'diff_c_free'], f_apos),
    'get_ambipolar_diffusivity_neg': (SC, [], lambda w, v: num(0)),
    'get_diffusivities': (SP, ['diff_c_free', 'diff_a_pos', 'diff_a_neg'], lambda w, v: lambda i: ite(
        w.neu(i), v['diff_c_free'](i), ite(w.pos(i), v['diff_a_pos'], v['diff_a_neg']))),
    'get_wall_fluxes': (SP, ['n', 'diff_c', 'v_m'], f_wall),
    'get_diffusion_sinks': (SP, ['wall_fluxes'], lambda w, v: lambda i: v['wall_fluxes'](i) * w.area / w.V),
    'get_diffusion_sources': (SP, ['diff_sinks'], lambda w, v: lambda i: sum_(w.sp, lambda k: -v['diff_sinks'](k) * w.ret(i, k))),
    'get_diffusion_source_rates': (SP, ['diff_sinks', 'diff_sources'], lambda w, v: lambda i: v['diff_sinks'](i) + v['diff_sources'](i)),
    'get_min_n_correction': (SP, ['n'], lambda w, v: lambda i: ite(lt(v['n'](i), num(1)), (1 - v['n'](i)) / num(1e-10), num(0))),
    'get_dn_dt': (SP, ['vol_source_rates', 'flow_source_rates', 'diff_source_rates', 'min_n_correction'],
                  lambda w, v: lambda i: v['vol_source_rates'](i) + v['flow_source_rates'](i) + v['diff_source_rates'](i) + v['min_n_correction'](i)),
    'get_power_ext': (SC, [], lambda w, v: app('interp', (w.t, const('content_t_pow', 'A'), const('content_pow', 'A')))),
    'get_drho_dt_ext': (SC, ['power_ext'], lambda w, v: v['power_ext'] / w.V / E),
    'get_el_en_losses': (RE, ['temp_e'], f_loss),
    'get_drho_dt_el_inel': (SC, ['el_en_losses', 'reaction_rates'], lambda w, v: sum_(w.re, lambda j: ite(
        w.elc(j), v['el_en_losses'](j) * v['reaction_rates'](j), num(0)))),
    'get_drho_dt_gain_loss': (SC, ['temp_e', 'reaction_rates'], lambda w, v: num(Fraction(3, 2)) * v['temp_e'] * sum_(w.re, lambda j: w.el_net(j) * v['reaction_rates'](j))),
    'get_drho_dt_el_walls': (SC, ['temp_e', 'diff_source_rates'], lambda w, v: -2 * v['temp_e'] * w.S(lambda i: w.q(i) * v['diff_source_rates'](i))),
    'get_sheath_voltage': (SC, ['temp_e'], f_sheath),
    'get_drho_dt_ions_walls': (SC, ['temp_e', 'sh_pot', 'diff_source_rates'], lambda w, v: w.S_where(w.pos, lambda i: -v['diff_source_rates'](i) * (
        half * v['temp_e'] + v['sh_pot'] * w.q(i)))),
    'get_min_rho_correction': (SC, ['rho'], lambda w, v: ite(lt(v['rho'], num(1)), (1 - v['rho']) / num(1e-10), num(0))),
    'get_drho_dt': (SC, ['ext', 'el_inel', 'gain_loss', 'el_walls', 'ions_walls', 'min_rho_correction'],
                    lambda w, v: v['ext'] - v['el_inel'] - v['gain_loss'] - v['el_walls'] - v['ions_walls'] + v['min_rho_correction']),
    'get_dy_dt': ('y', ['dn_dt', 'drho_dt'], lambda w, v: (lambda i: v['dn_dt'](i[1]) if i[0] == 0 else v['drho_dt'])),
}
NEUTRAL = dict(FORMULAS)
NEUTRAL.update({
    'get_electron_temperature': (SC, ['n_e', 'rho'], lambda w, v: lib.NAN),
    'get_electron_density': (SC, ['n'], lambda w, v: num(0)),
    'get_reaction_rate_coefficients': (RE, ['temp_e'], lambda w, v: lambda j: w.A(j) * (w.Tg / 300) ** w.B(j) * tm.exp(-w.C(j) / w.Tg)),
    'get_mean_speeds': (SP, ['temp_i'], lambda w, v: lambda i: (8 * K * w.Tg / (PI * w.m(i))) ** half),
    'get_diffusivities': (SP, ['diff_c_free', 'diff_a_pos', 'diff_a_neg'], lambda w, v: v['diff_c_free']),
})
NEUTRAL_USED = ['get_density_vector', 'get_electron_energy_density', 'get_total_density', 'get_total_pressure', 'get_electron_density', 'get_electron_temperature', 'get_reaction_rate_coefficients',
                'get_reaction_rates', 'get_volumetric_source_rates', 'get_flow_source_rates', 'get_mean_speeds', 'get_sigma_sc', 'get_mean_free_paths',
                'get_free_diffusivities', 'get_diffusivities', 'get_wall_fluxes', 'get_diffusion_sinks', 'get_diffusion_sources', 'get_diffusion_source_rates',
                'get_min_n_correction', 'get_dn_dt', 'get_dy_dt']
ENERGY = ['get_power_ext', 'get_drho_dt_ext', 'get_el_en_losses', 'get_drho_dt_el_inel', 'get_drho_dt_gain_loss', 'get_drho_dt_el_walls', 'get_sheath_voltage',
          'get_drho_dt_ions_walls', 'get_min_rho_correction', 'get_drho_dt', 'get_electron_energy_density', 'get_electron_temperature']
INLINE = ('get_density_vector', 'get_electron_energy_density')
TIME = ('get_power_ext', 'get_drho_dt_ext')


def changed(new, old):
    """condition under which a stored entry differs from what it was"""
    new, old = lift(new), lift(old)
    if new is old:
        return FALSE
    if new.op == 'ite':
        c, x, y = new.args
        return or_(and_(c, changed(x, old)), and_(not_(c), changed(y, old)))
    return TRUE


class Verifier:
    def __init__(self, s, clsname, module, formulas, neutral):
        self.s, self.F, self.neutral = s, formulas, neutral
        self.clsname, self.module = clsname, module

    # ---- values
    def opaque(self, w, g):
        """the value of a getter without optional arguments, as a symbol"""
        kind = self.F[g][0]
        if g in INLINE:
            return self.F[g][2](w, {})
        if kind == SC:
            r = self.F[g][2](w, {}) if not self.F[g][1] and g != 'get_power_ext' else None
            if r is not None and r.op == 'num':
                return r
            if g == 'get_electron_density' and self.neutral:
                return num(0)
            if g == 'get_electron_temperature' and self.neutral:
                return lib.NAN
            return const(g + '()')
        if kind == 'y':
            return self.formula(w, g, {})
        return lambda *i: app(g + '()', i)

    def as_value(self, w, kind, f):
        if kind == SC:
            return f
        dims = {SP: [w.sp], RE: [w.re], SS: [w.sp, w.sp], 'y': [Cat([w.sp, ONE])]}[kind]
        return Arr(dims, f)

    def formula(self, w, g, given):
        """given: optional -> value (term or function)"""
        kind, opts, f = self.F[g]
        v = {}
        for o in opts:
            v[o] = given[o] if o in given else self.opaque(w, DEFAULT[o])
        return f(w, v)

    def stub(self, w, g, func, ytok, ttok):
        """the contract of getter g, for its callers"""
        def c(it, *args, **kwargs):
            vals = it.bind(func, list(args), kwargs)
            kind, opts, f = self.F[g]
            if 'y' in vals and vals['y'] is not ytok[0] and not self.same_y(it, vals['y'], ytok[0]):
                raise Unsupported('getter called with another state vector')
            if 't' in vals and vals['t'] is not ttok:
                raise Unsupported('getter called with another time')
            given = {}
            for o in opts:
                x = vals.get(o)
                if x is None:
                    continue
                dk = self.F[DEFAULT[o]][0]
                if isinstance(x, Arr):
                    want = self.as_value(w, dk, self.opaque(w, DEFAULT[o]))
                    if dk == SC or len(want.dims) != len(x.dims) or not all(same_dim(a, b) for a, b in zip(want.dims, x.dims)):
                        raise Unsupported('optional argument of another shape')
                    if self.provable(lib.same_value(x, want), it):
                        continue
                    given[o] = x.frozen()
                else:
                    if dk != SC:
                        raise Unsupported('optional argument of another shape')
                    x = lift(x)
                    if x is self.opaque(w, DEFAULT[o]) or self.provable(eq(x, self.opaque(w, DEFAULT[o])), it):
                        continue
                    given[o] = x
            r = self.opaque(w, g) if not given else self.formula(w, g, given)
            r = self.as_value(w, kind, r)
            return it.new(r) if isinstance(r, Arr) else r
        return c

    def same_y(self, it, a, b):
        return isinstance(a, Arr) and len(a.dims) == 1 and same_dim(a.dims[0], b.dims[0]) and self.provable(lib.same_value(a, b), it)

    def provable(self, g, it):
        if g is TRUE:
            return True
        return nf_equal(lift(g), TRUE, it.path.conds)

    # ---- states of the instance
    def states(self, K=2):
        """[(world, path conditions, attributes)] of a new instance"""
        w = World(self.neutral, K)
        it = self.s.interp()
        cls = it.cls(self.module, self.clsname)

        def run():
            o = SObj_(cls)
            init = cls.find('__init__')
            it.call(ip.Bound(o, init), [w.chemistry(), w.params(it)], {})
            return o
        outs = it.explore(run)
        self.s.note(it)
        self.s.vacuity['paths'] += len(outs)
        self.it = it
        return w, cls, outs

    def generate(self, getters):
        s = self.s
        try:
            w, cls, outs = self.states(2)
        except Unsupported as e:
            s.unsup(self.clsname + '.__init__', e)
            return
        s.under_contract(self.clsname + '.__init__')
        # accepted whenever: the feeds are species, the elastic electron collisions have a partner, the power series is in order
        t, good = self.adjusted(w)
        ok = and_(good, const('keys_of_feeds_subset', 'B'), all_(w.re, lambda j: not_(and_(w.elc(j), w.els(j), all_(w.sp, lambda i: not_(lt(num(0), w.slhs(j, i))))))))
        for n, (c, v) in enumerate(outs):
            if v[0] == 'raise':
                s.check('{}.__init__#valid input accepted [{}: {}]'.format(self.clsname, n, getattr(v[1].cls, 'name', v[1].cls)), not_(ok), c, self.module.replace('.', '/') + '.py')
        rets = [(c, v[1]) for c, v in outs if v[0] == 'return']
        seen = []
        for conds, o in rets:
            attrs = self.normalised(w, o)
            # paths which differ in the power series only are the same for all the getters but one
            c2 = [c for c in conds if not any(str(x.args[0]).startswith('t_power') for x in walk(c) if x.op == 'const')]
            sig = (tuple(c2), tuple(sorted((k, self.sig(v)) for k, v in attrs.items())))
            if sig in seen:
                continue
            seen.append(sig)
            tag = '' if len(seen) == 1 else "'" * (len(seen) - 1)
            attrs = self.with_buffers(w, cls, c2, attrs)
            for g in getters:
                if s.only and s.only not in g:
                    continue
                self.verify(w, cls, c2, attrs, g, tag)
            if not s.only or 'objective' in s.only:
                self.objective(w, cls, c2, attrs, tag)

    def adjusted(self, w):
        K = w.n_pow
        d = num(0.00001) * w.t_end
        t = list(w.t_pow)
        for i in range(K - 1):
            c = eq(t[i], t[i + 1])
            t[i], t[i + 1] = ite(c, t[i] - d, t[i]), ite(c, t[i + 1] + d, t[i + 1])
        return t, and_(*[lt(a, b) for a, b in zip(t, t[1:])], not_(lt(num(0), t[0])), not_(lt(t[-1], w.t_end)))

    def sig(self, v):
        if isinstance(v, Arr):
            return tuple(str(lift(v.at(*p)))[:0] for p in positions(v.dims)) or len(v.dims)
        return v.id if isinstance(v, T) else 0

    def normalised(self, w, o):
        attrs = dict(o.attrs)
        for k, v in list(attrs.items()):
            if isinstance(v, Arr) and len(v.dims) == 1 and lib.is_fin(v.dims[0]) and len(v.dims[0].parts) == w.n_pow:
                ts = walk_all_(v)
                if any(str(x.args[0]).startswith('t_power') for x in ts if x.op == 'const'):
                    attrs[k] = Arr([Axis('tp', True)], lambda i: app('t_pow', (i,)))
                elif any(str(x.args[0]).startswith('power') for x in ts if x.op == 'const'):
                    attrs[k] = Arr([Axis('tp', True)], lambda i: app('pow_', (i,)))
        return attrs

    def with_buffers(self, w, cls, conds, attrs):
        """(attributes in which everything that some getter may overwrite is left open, {attribute: condition on the position})"""
        writes = {}
        for g, (kind, opts, f) in self.F.items():
            func = cls.find(g)
            if not isinstance(func, ip.Func):
                continue
            for names in ([], opts):
                it = self.it
                y0 = [None]
                it.contracts = self.contracts(w, cls, y0, w.t, func.qualname)
                it.target = func.qualname
                given = {o: self.as_value(w, self.F[DEFAULT[o]][0], self.opaque(w, DEFAULT[o])) for o in names}

                def run():
                    o = self.instance(cls, attrs)
                    y0[0] = w.y()
                    pos = [y0[0] if p == 'y' else w.t for p in [a.arg for a in func.node.args.args] if p in ('y', 't')]
                    it.call(func if func.static else ip.Bound(o, func), pos, dict(given))
                    return o
                try:
                    outs = it.explore(run, conds)
                except Exception:
                    continue   # reported when the getter is verified
                for cs, v in outs:
                    if v[0] != 'return':
                        continue
                    for k, old in attrs.items():
                        cur = v[1].attrs.get(k)
                        if isinstance(old, Arr) and isinstance(cur, Arr) and len(cur.dims) == len(old.dims) and (cur.buf.version or cur.buf is not old.buf):
                            ps = positions(old.dims, 'wr')
                            if len(ps) != 1:
                                continue
                            c = changed(cur.at(*ps[0]), old.at(*ps[0]))
                            if c is not FALSE:
                                writes.setdefault(k, []).append((ps[0], c))
        dyn = {k: (lambda *i, l=l: or_(*[subst(c, dict(zip(ps, i))) for ps, c in l])) for k, l in writes.items()}
        attrs = dict(attrs)
        for k, d in dyn.items():
            v = attrs[k]
            attrs[k] = Arr(v.dims, lambda *i, f=v.frozen(), d=d, k=k: ite(d(*i), app('junk_' + k, i), lift(f(*i))), dtype=v.dtype)
        self.dyn = dyn
        return attrs

    def instance(self, cls, attrs):
        o = SObj_(cls)
        for k, v in attrs.items():
            o.attrs[k] = Arr(v.dims, v.frozen(), kind=v.kind, dtype=v.dtype) if isinstance(v, Arr) else v
        if not self.neutral or True:
            o.attrs['diffusion_model'] = const('diffusion_model')
        o.orig = dict(o.attrs)
        return o

    def contracts(self, w, cls, y, t, target):
        cs = {}
        for g in self.F:
            if g in INLINE:
                continue
            f = cls.find(g)
            if isinstance(f, ip.Func):
                cs[f.qualname] = self.stub(w, g, f, y, t)
        return cs

    def verify(self, w, cls, conds, attrs, g, tag):
        s = self.s
        func = cls.find(g)
        if not isinstance(func, ip.Func):
            s.unsup(g, 'not found')
            return
        q = '{}.{}'.format(self.clsname, g)
        kind, opts, f = self.F[g]
        params = [a.arg for a in func.node.args.args]
        if any(o not in params for o in opts):
            s.unsup(q, 'signature changed')
            return
        s.under_contract(q)
        where = '{}:{}'.format(self.module.replace('.', '/') + '.py', func.node.lineno)
        y0 = [None]
        combos = list(itertools.product([False, True], repeat=len(opts)))
        for combo in combos:
            given_names = [o for o, b in zip(opts, combo) if b]
            label = '{}{}[{}]'.format(q, tag, ','.join(given_names))
            it = self.it
            it.contracts = self.contracts(w, cls, y0, w.t, func.qualname)
            it.target = func.qualname
            given = {}
            for o in given_names:
                dk = self.F[DEFAULT[o]][0]
                if len(given_names) < len(opts):
                    # some given, some not: the given ones are the values of the getters they stand for
                    given[o] = self.opaque(w, DEFAULT[o])
                    continue
                given[o] = const('arg_' + o) if dk == SC else (lambda *i, o=o: app('arg_' + o, i))

            def run():
                o = self.instance(cls, attrs)
                y = w.y()
                y0[0] = y
                kw, arrs = {}, {'y': y}
                for n in given_names:
                    kw[n] = self.as_value(w, self.F[DEFAULT[n]][0], given[n])
                    if isinstance(kw[n], Arr):
                        arrs[n] = kw[n]
                pos = []
                for p in params:
                    if p == 'y':
                        pos.append(y)
                    elif p == 't':
                        pos.append(w.t)
                before = {k: v.buf.version for k, v in arrs.items()}
                r = it.call(func if func.static else ip.Bound(o, func), pos, kw)
                touched = [k for k, v in arrs.items() if v.buf.version != before[k]]
                return o, r, arrs, touched
            outs = s.explore(it, label, run, conds)
            if outs is None:
                continue
            for cs, v in outs:
                if v[0] == 'raise':
                    if g == 'get_wall_fluxes':
                        s.check(label + '#raises only for an unknown diffusion model',
                                and_(not_(eq(w.model, num(0))), not_(eq(w.model, num(1)))), cs, where)
                        continue
                    s.add(label + '#no exception', 'unknown', '', '', where, 'may raise ' + str(v[1])[:100])
                    continue
                o, r, arrs, touched = v[1]
                cs = list(cs)
                want = self.as_value(w, kind, self.formula(w, g, given))
                if g == 'get_power_ext':
                    if isinstance(r, T) and r.op == 'app' and r.args[0] == 'interp':
                        ok = r.args[1] is w.t and self.content(r.args[2], 't_pow') and self.content(r.args[3], 'pow_')
                        s.check(label + '#result', TRUE if ok else FALSE, cs, where)
                    else:
                        s.unsup(label, 'not an interpolation')
                    continue
                if g == 'get_wall_fluxes':
                    cs.append(or_(eq(w.model, num(0)), eq(w.model, num(1))))
                pre = [any_(w.sp, w.pos)] if g == 'get_sheath_voltage' else []   # requires: there is a positive ion
                s.equal(label + '#result', r, want, cs + pre, where)
                self.frame(w, label, o, attrs, arrs, touched, y0[0], given, cs, where)

    def content(self, t, name):
        return t.op == 'app' and t.args[0] == 'content' and len(t.args) == 2 and t.args[1].op == 'app' and t.args[1].args[0] == name

    def frame(self, w, label, o, attrs, arrs, touched, y, given, cs, where):
        s = self.s
        for k in touched:
            a = arrs[k]
            want = w.y() if k == 'y' else Arr(a.dims, given[k])
            s.equal(label + '#argument {} unchanged'.format(k), a, want, cs, where)
        if not touched:
            s.check(label + '#arguments unchanged', TRUE, cs, where)
        n = 0
        for k, v in attrs.items():
            cur = o.attrs.get(k)
            if isinstance(v, Arr):
                if isinstance(cur, Arr) and cur is o.orig[k] and cur.buf.version == 0:
                    continue
                dyn = self.dyn.get(k)
                if not isinstance(cur, Arr) or len(cur.dims) != len(v.dims):
                    s.add(label + '#frame ' + k, 'unknown', '', '', where, 'attribute replaced')
                    continue
                for p in positions(v.dims, 'fr'):
                    h = list(cs) + [dims_member(v.dims, p)] + ([not_(dyn(*p))] if dyn else [])
                    s.equal(label + '#frame ' + k, cur.at(*p), v.at(*p), h, where)
                n += 1
            elif cur is not v:
                s.add(label + '#frame ' + k, 'unknown', '', '', where, 'attribute changed')
        new = [k for k in o.attrs if k not in attrs and k != 'diffusion_model']
        if new:
            s.add(label + '#frame', 'unknown', '', '', where, 'new attributes {}'.format(new))

    def objective(self, w, cls, conds, attrs, tag):
        """the ODE right-hand side is the composition of the getters"""
        s = self.s
        if s.prop == 'C13':
            return
        func = cls.find('get_objective_functions')
        q = '{}.get_objective_functions'.format(self.clsname)
        s.under_contract(q + '.<locals>.obj_function')
        it = self.it
        y0 = [None]
        it.contracts = self.contracts(w, cls, y0, w.t, func.qualname)
        it.target = func.qualname
        where = '{}:{}'.format(self.module.replace('.', '/') + '.py', func.node.lineno)

        def run():
            o = self.instance(cls, attrs)
            y = w.y()
            y0[0] = y
            r = it.call(ip.Bound(o, func), [], {})
            fn, jac = it.iterate(r)
            out = it.call(fn, [w.t, y], {})
            return o, out, {'y': y}, ['y'] if y.buf.version else [], jac
        outs = s.explore(it, q, run, conds)
        if outs is None:
            return
        for cs, v in outs:
            if v[0] == 'raise':
                s.add(q + tag + '#no exception', 'unknown', '', '', where, str(v[1])[:100])
                continue
            o, out, arrs, touched, jac = v[1]
            dn, dr = self.opaque(w, 'get_dn_dt'), self.opaque(w, 'get_drho_dt') if not self.neutral else num(0)
            want = Arr([Cat([w.sp, ONE])], lambda i: dn(i[1]) if i[0] == 0 else dr)
            s.equal(q + tag + '#result', out, want, cs, where)
            self.frame(w, q + tag, o, attrs, arrs, touched, y0[0], {}, cs, where)

    def power(self, K):
        """__init__: the power series (bounded number of points)"""
        s = self.s
        try:
            w, cls, outs = self.states(K)
        except Unsupported as e:
            s.unsup('{}.__init__[{} power points]'.format(self.clsname, K), e)
            return
        name = '{}.__init__[{} power points]'.format(self.clsname, K)
        where = self.module.replace('.', '/') + '.py: __init__'
        t, good = self.adjusted(w)
        func = cls.find('get_power_ext')
        for n, (cs, v) in enumerate(outs):
            if v[0] == 'raise':
                continue
            s.check('{}#accepted only if ascending and covering [{}]'.format(name, n), good, cs, where)
            it = self.it
            it.contracts, it.target = {}, func.qualname
            try:
                res = it.explore(lambda: it.call(ip.Bound(v[1], func), [w.t], {}), cs)
            except Unsupported as e:
                s.unsup(name, e)
                continue
            for cs2, r in res:
                if r[0] == 'raise' or r[1].op != 'app' or r[1].args[0] != 'interp' or len(r[1].args[2].args) != K + 1:
                    s.unsup(name, 'power')
                    continue
                x = r[1]
                s.check('{}#time [{}]'.format(name, n), eq(x.args[1], w.t), cs2, where)
                for i in range(K):
                    s.check('{}#adjusted time {} [{}]'.format(name, i, n), eq(x.args[2].args[1 + i], t[i]), cs2, where)
                    s.check('{}#power {} [{}]'.format(name, i, n), eq(x.args[3].args[1 + i], w.pow[i]), cs2, where)
        s.bounded.append('{}: power series of {} points'.format(name, K))


def walk_all_(v):
    out = set()
    for p in positions(v.dims):
        out |= walk(lift(v.at(*p)))
    return out


class SObj_(SObj):
    pass


def generate(s):
    s.trusted |= {'the rules of pyvc/lib.py for Python operators and the numpy functions used (array, zeros, empty, sum, prod, r_, c_, ix_, diag, log, interp, masks, broadcasting)',
                  'the normal form prover and the translation to z3 (pyvc/terms.py), cross-checked on random models'}
    s.assumptions |= {'floating point arithmetic treated as real arithmetic; no overflow, no division by zero',
                      'the chemistry is any object with the documented methods; model parameters are those a ModelParameters instance returns (C11)',
                      'physical constants are arbitrary symbols', 'the power series has been checked for 2 and 3 points (bounded); its interpolation is numpy.interp'}
    v = Verifier(s, 'Equations', 'pygmo_fwork.pygmol.equations', FORMULAS, False)
    nv = Verifier(s, 'NeutralEquations', 'pygmo_fwork.pygmol.neutral_model', NEUTRAL, True)
    if s.prop == 'C12':
        v.generate([g for g in FORMULAS if g not in ENERGY or g in ('get_electron_energy_density', 'get_electron_temperature')])
        nv.generate(NEUTRAL_USED)
    elif s.prop == 'C13':
        v.generate(ENERGY)
        v.power(2)
        v.power(3)
    else:
        v.generate(list(FORMULAS))
        nv.generate(NEUTRAL_USED)
