"""Contracts of the reported results (C16): the tables of Model, its runs and refusals, and the wrapper GlobalModel.

Times, species and reactions are axes of any size; the trajectory has arbitrary values. Equations is used by contract: a getter is a function of the state
of a row (what function: C12, C13). It may hand out the same array at every call (a working array), which then holds what the last call left in it."""
import ast
from terms import *
from values import *
import terms as tm
import interp as ip
import lib
import numeval
import pandas_ as pdm
from lib import Stub, Native, force
from rx import excname

FILE = 'pygmo_fwork/pygmol/model.py'
GM = 'pygmo_fwork/global_model.py'
K = Axis('otimes', True)
SP, RX = pdm.axis('osp'), pdm.axis('orx')
NAME = 'oname'
pdm.injective(NAME, 'oname_of', SP)
name_ = lambda i: app(NAME, (i,), 'S')
y_ = lambda k, i: app('oy', (k, i))
rho_ = lambda k: app('orho', (k,))
time_ = lambda k: app('otime', (k,))
LAST = const('junk_last_row', 'I')

SCALARS = ('total_density', 'total_pressure', 'ion_temperature', 'electron_density', 'electron_temperature', 'debye_length', 'electron_energy_density',
           'ambipolar_diffusivity_pos', 'ambipolar_diffusivity_neg', 'drho_dt_el_inel', 'drho_dt_gain_loss', 'drho_dt_el_walls', 'sheath_voltage',
           'drho_dt_ions_walls', 'min_rho_correction')
SPECIES = ('density_vector', 'volumetric_source_rates', 'flow_source_rates', 'mean_speeds', 'sigma_sc', 'mean_free_paths', 'free_diffusivities', 'diffusivities',
           'wall_fluxes', 'diffusion_sinks', 'diffusion_sources', 'diffusion_source_rates', 'min_n_correction', 'dn_dt')
REACTIONS = ('reaction_rate_coefficients', 'reaction_rates', 'el_en_losses')


class Labels:
    """labels of columns: literal texts and those of axes, in order"""

    def __init__(self, parts):
        self.parts = list(parts)

    @staticmethod
    def of(x):
        """from a list of texts"""
        if isinstance(x, Labels):
            return x
        if isinstance(x, (list, tuple)) and all(isinstance(k, str) for k in x):
            return Labels([('one', k) for k in x])
        if isinstance(x, (Arr, pdm.Ser, pdm.Index)):
            a = lib.as_arr(None, x) if not isinstance(x, Arr) else x
            if len(a.dims) == 1:
                out = []
                d = a.dims[0]
                for q, p in zip(d.parts if isinstance(d, Cat) else [d], positions([d])):
                    v = a.at(*p)
                    if q is ONE:
                        if isinstance(v, T) and v.op == 'str' or isinstance(v, str):
                            out.append(('one', v if isinstance(v, str) else v.args[0]))
                            continue
                    elif isinstance(q, Axis):
                        i = p[0][1] if isinstance(p[0], tuple) else p[0]
                        if q is SP and v is name_(i) or q is RX and v is i:
                            out.append(('all', q))
                            continue
                    raise Unsupported('labels')
                return Labels(out)
        raise Unsupported('labels')

    def sym_list(self, it):
        return self

    def sym_len(self, it):
        return add(*[num(1) if p[0] == 'one' else p[1].length for p in self.parts]) if self.parts else 0

    def sym_binop(self, it, op, o, refl):
        if not isinstance(op, ast.Add):
            raise Unsupported('operation on labels')
        o = Labels.of(o)
        return Labels(o.parts + self.parts if refl else self.parts + o.parts)

    def sym_getitem(self, it, k):
        k = force(it, k)
        if isinstance(k, slice):
            lo, hi, st = (x if x is None else lib.concrete_int(x) for x in (k.start, k.stop, k.step))
            if st is None and lo in (None, 0) and hi == -1 and self.parts and self.parts[-1][0] == 'one':
                return Labels(self.parts[:-1])
            if st is None and lo in (None, 0) and hi is None:
                return Labels(self.parts)
        raise Unsupported('some of the labels')

    def sym_getattr(self, it, name):
        if name in ('copy', 'tolist', 'to_list'):
            return Native(lambda it_: self, name)
        raise Unsupported('labels.' + name)


class Rows:
    """the index of the rows"""


class Col:
    """a column: a number per row"""
    libtype = 'pandas.Series'

    def __init__(self, fn):
        self.fn = fn

    def sym_getattr(self, it, name):
        if name in ('values', 'copy', 'to_numpy'):
            return self.values() if name == 'values' else Native(lambda it_: self if name == 'copy' else self.values(), name)
        if name == 'index':
            return Rows()
        raise Unsupported('column.' + name)

    def values(self):
        return Arr([K], self.fn)

    def sym_arr(self, it):
        return self.values()


def column(it, x):
    x = force(it, x)
    if isinstance(x, Col):
        return x.fn
    if lib.is_scalar(x):
        v = lift(x)
        return lambda k: v
    a = lib.as_arr(it, x)
    if isinstance(a, Arr) and len(a.dims) == 1 and same_dim(a.dims[0], K):
        return a.frozen()
    raise Unsupported('column of another length')


class Tab:
    """a table: groups (label or None, axis or None, function of the row [and position])"""
    libtype = 'pandas.DataFrame'

    def __init__(self, groups, dim=K):
        self.groups, self.dim = list(groups), dim

    def sym_getattr(self, it, name):
        if name == 'columns':
            if any(g[0] is None for g in self.groups):
                raise Unsupported('default labels')
            return Labels([g[0] for g in self.groups])
        if name == 'index':
            return Rows()
        if name == 'shape':
            return (K.length, add(*[g[1].length if g[1] is not None else num(1) for g in self.groups]))
        if name == 'copy':
            return Native(lambda it_, deep=True: it_.new(Tab(self.groups)), name)
        if name == 'sum':
            def total(it_, axis=0):
                if axis not in (1, 'columns') or isinstance(axis, T):
                    raise Unsupported('sum')
                gs = list(self.groups)
                return it_.new(Col(lambda k: add(*[sum_(g[1], lambda i: g[2](k, i)) if g[1] is not None else g[2](k) for g in gs])))
            return Native(total, name)
        if name == 'iloc':
            return Iloc(self)
        raise Unsupported('table.' + name)

    def sym_setattr(self, it, name, v):
        if name != 'columns':
            raise Unsupported('table.' + name)
        ls = Labels.of(force(it, v)).parts
        width = lambda p: num(1) if p[0] == 'one' else p[1].length
        out = []
        gs = list(self.groups)
        # one to one, up to the splitting of concatenated groups
        if len(gs) != len(ls):
            raise Unsupported('labels of another shape')
        for g, l in zip(gs, ls):
            if (g[1] is None) != (l[0] == 'one'):
                raise Unsupported('labels of another shape')
            if g[1] is not None and g[1] is not l[1]:
                # as many labels as columns, by luck: those of other items
                if not it.branch(eq(g[1].length, l[1].length)):
                    it.raise_(ValueError)
                out.append((l, g[1], lambda k, i: app('junk_mislabelled', (k, i))))
                continue
            out.append((l, g[1], g[2]))
        self.groups = out

    def sym_getitem(self, it, k):
        k = force(it, k)
        if isinstance(k, str):
            for g in self.groups:
                if g[0] == ('one', k):
                    return it.new(Col(g[2]))
            it.raise_(KeyError, k)
        out = []
        for p in Labels.of(k).parts:
            g = [g for g in self.groups if g[0] == p]
            if len(g) != 1:
                raise Unsupported('columns of a table')
            out.append(g[0])
        return it.new(Tab(out))

    def sym_setitem(self, it, k, v):
        k = force(it, k)
        if not isinstance(k, str):
            raise Unsupported('columns of a table')
        if k not in ('e', 'Te', 'Tg', 'p', 't', 'total', 'value'):
            raise Unsupported('column ' + k)
        g = (('one', k), None, column(it, v))
        for n, o in enumerate(self.groups):
            if o[0] == ('one', k):
                self.groups[n] = g
                return
        self.groups.append(g)


class Iloc:
    def __init__(self, tab):
        self.tab = tab

    def sym_getitem(self, it, k):
        k = force(it, k)
        if lib.concrete_int(k) == -1:
            return LastRow(self.tab.groups)
        raise Unsupported('row')


class LastRow:
    libtype = 'pandas.Series'

    def __init__(self, groups):
        self.groups = list(groups)

    def sym_getattr(self, it, name):
        if name == 'drop':
            def drop(it_, k):
                if [g for g in self.groups if g[0] == ('one', k)] == []:
                    it_.raise_(KeyError, k)
                return LastRow([g for g in self.groups if g[0] != ('one', k)])
            return Native(drop, name)
        if name == 'copy':
            return Native(lambda it_, deep=True: LastRow(self.groups), name)
        raise Unsupported('row.' + name)


class Shared:
    """the working array of a getter, filled for a row"""

    def __init__(self, dim, fn):
        self.dim, self.fn = dim, fn

    def sym_copy(self, it, deep=True):
        return Arr([self.dim], self.fn)

    def sym_getattr(self, it, name):
        if name == 'copy':
            return Native(lambda it_: Arr([self.dim], self.fn), name)
        if name == 'ndim':
            return 1
        if name == 'shape':
            return (self.dim.length,)
        raise Unsupported('array.' + name)

    def sym_len(self, it):
        return self.dim.length

    def sym_arr(self, it):
        raise Unsupported('working array')

    def sym_subst(self, m):
        f = self.fn
        return Shared(self.dim, lambda i: subst(f(i), m))


class Output:
    def __init__(self, s):
        self.s = s

    def skip(self, w):
        return self.s.only and self.s.only not in w

    # ---- the world
    def start(self, target, contracts=None):
        it = self.s.interp(contracts)
        it.target = target
        pdm.install(it)

        def frame(it_, data=None, index=None, columns=None, dtype=None, copy=None):
            data = force(it_, data)
            if isinstance(data, Tab) and columns is None:
                return it_.new(Tab(data.groups))
            if index is not None or dtype is not None:
                raise Unsupported('data frame')
            gs = self.groups(it_, data)
            r = it_.new(Tab([(None,) + g for g in gs]))
            if columns is not None:
                r.sym_setattr(it_, 'columns', columns)
            return r

        def series(it_, data=None, index=None, dtype=None, name=None):
            if isinstance(force(it_, index), Rows):
                return it_.new(Col(column(it_, data)))
            return pdm.series(it_, data, index)
        D, S = Native(frame, 'pandas.DataFrame'), Native(series, 'pandas.Series')
        D.libtype, S.libtype = 'pandas.DataFrame', 'pandas.Series'
        it.libs['pandas'] = ip.Lib('pandas', dict(it.libs['pandas'].ns, DataFrame=D, Series=S))

        def ndim(it_, x):
            x = force(it_, x)
            return len(x.dims) if isinstance(x, Arr) else 1 if isinstance(x, Shared) else 0 if lib.is_scalar(x) else lib.raise_(Unsupported('ndim'))
        for k in ('numpy', 'np'):
            it.libs[k] = ip.Lib('numpy', dict(it.libs[k].ns, ndim=Native(ndim, 'numpy.ndim')))
        return it

    def groups(self, it, data):
        """(axis or None, function) of the columns of an array, or of a list with an item per row"""
        if isinstance(data, Arr) and len(data.dims) == 2 and same_dim(data.dims[0], K) and isinstance(data.dims[1], Axis):
            f = data.frozen()
            return [(data.dims[1], f)]
        if isinstance(data, Arr) and len(data.dims) == 1 and same_dim(data.dims[0], K):
            f = data.frozen()
            v = f(K.new('k'))
            if isinstance(v, T):
                return [(None, f)]
            if isinstance(v, Shared):
                # a row per call, all of them the same array
                return [(v.dim, lambda k, i: f(LAST).fn(i))]
            if isinstance(v, Arr) and len(v.dims) == 1 and isinstance(v.dims[0], Axis):
                return [(v.dims[0], lambda k, i: f(k).at(i))]
        raise Unsupported('data of a table')

    def trajectory(self, it):
        return it.new(Arr([K, Cat([SP, ONE])], lambda k, i: y_(k, i[1]) if i[0] == 0 else rho_(k)))

    def row_of(self, y):
        """the row of the trajectory that a state is"""
        if isinstance(y, Arr) and len(y.dims) == 1 and isinstance(y.dims[0], Cat) and len(y.dims[0].parts) == 2:
            i = SP.new('i')
            v = y.at((0, i))
            if isinstance(v, T) and v.op == 'app' and v.args[0] == 'oy' and v.args[2] is i:
                k = v.args[1]
                if y.at((1, num(0))) is rho_(k):
                    return k
        raise Unsupported('state that is not a row of the trajectory')

    def equations(self):
        def getter(q):
            def g(it_, y, *a, **kw):
                if a or kw:
                    raise Unsupported('partial results')
                k = self.row_of(force(it_, y))
                if q in SCALARS:
                    return app('eq_' + q, (k,))
                return Shared(SP if q in SPECIES else RX, lambda i: app('eq_' + q, (k, i)))
            return Native(g, 'get_' + q)
        ns = {'get_' + q: getter(q) for q in SCALARS + SPECIES + REACTIONS}
        ns.update(num_species=SP.length, num_reactions=RX.length)
        return Stub('Equations', ns)

    def chemistry(self):
        def m(f):
            def g(it_, disabled=False, special=False, *a, **k):
                if disabled or special or a or k:
                    raise Unsupported('arguments of a getter')
                return f(it_)
            return Native(g, 'chemistry')
        ser = lambda ax, f, t: (lambda it: it.new(pdm.Ser(ax, it.new(Arr([ax], f, dtype=t)))))
        return Stub('Chemistry', dict(get_species_name=m(ser(SP, name_, 'S')), get_reactions_id=m(ser(RX, lambda j: j, 'I')),
                                      num_species=m(lambda it: SP.length), num_reactions=m(lambda it: RX.length)))

    def params(self):
        def items(it, key):
            if key in ('Tg', 'temp_gas', 'gas_temp', 'T_g'):
                return const('oTg')
            if key == 't_end':
                return const('ot_end')
            raise Unsupported('parameter ' + str(key))
        return Stub('ModelParameters', {}, items)

    def model(self, it, cls, **kw):
        o = it.new(ip.SObj(it.cls(*cls)))
        o.attrs.update(chemistry=self.chemistry(), model_params=self.params(), equations=self.equations(), sol_raw=Stub('OdeResult', {'success': const('solved', 'B')}),
                       t=it.new(Arr([K], time_)), sol_primary=self.trajectory(it), sol_secondary=None)
        o.attrs.update(kw)
        return o

    # ---- what is expected of a table
    def table(self, nm, c, tab, want):
        """want: {label: function}"""
        s = self.s
        if not isinstance(tab, (Tab, LastRow)):
            return s.unsup(nm, 'result of another kind')
        got = [g[0] for g in tab.groups]
        s.check(nm + '#columns', TRUE if sorted(map(str, got)) == sorted(map(str, want)) else FALSE, c, FILE)
        k = K.new('k')
        for g in tab.groups:
            if g[0] not in want:
                continue
            w = want[g[0]]
            if g[1] is None:
                s.check('{}#{}'.format(nm, g[0][1]), eq(g[2](k), w(k)), list(c) + [K.member(k)], FILE, junk=())
            else:
                i = g[1].new('i')
                s.check('{}#per {}'.format(nm, 'species' if g[1] is SP else 'reaction'), eq(g[2](k, i), w(k, i)), list(c) + [K.member(k), g[1].member(i)], FILE, junk=())

    def want(self, q, totals=False):
        f = lambda *a: app('eq_' + q, a)
        w = {('one', 't'): time_}
        if q in SCALARS:
            w['one', 'value'] = f
        else:
            w['all', SP if q in SPECIES else RX] = f
        if totals:
            ax = SP if q in SPECIES else RX
            w['one', 'total'] = f if q in SCALARS else lambda k: sum_(ax, lambda i: f(k, i))
        return w

    HYPS = [any_(K, lambda k: TRUE), any_(SP, lambda k: TRUE)]

    def diagnose(self):
        s = self.s
        for cls in (BASE, NEUTRAL):
            for q in SCALARS + SPECIES + REACTIONS:
                for totals in (False, True):
                    if cls is NEUTRAL and (totals or q not in ('reaction_rates', 'wall_fluxes', 'total_pressure')):
                        continue
                    t = cls[1] + '.diagnose'
                    name = '{}[{}{}]'.format(t, q, ',totals' if totals else '')
                    if self.skip(name):
                        continue
                    it = self.start(t)

                    def go():
                        o = self.model(it, cls)
                        return it.call(it.getattr(o, 'diagnose'), [q], dict(totals=True) if totals else {}), o
                    outs = s.explore(it, name, go, self.HYPS)
                    if outs is None:
                        continue
                    s.under_contract(t)
                    for n, (c, v) in enumerate(outs):
                        nm = '{}[{}]'.format(name, n)
                        if v[0] == 'raise':
                            s.check(nm + '#no exception', FALSE, c, FILE)
                            continue
                        tab, o = v[1]
                        self.table(nm, c, tab, self.want(q, totals))
                        self.kept(nm, c, o)

    def kept(self, nm, c, o):
        """the trajectory is not changed"""
        s = self.s
        a, t = o.attrs['sol_primary'], o.attrs['t']
        k, i = K.new('k'), SP.new('i')
        h = list(c) + [K.member(k), SP.member(i)]
        s.check(nm + '#trajectory untouched', and_(eq(a.at(k, (0, i)), y_(k, i)), eq(a.at(k, (1, num(0))), rho_(k)), eq(t.at(k), time_(k))), h, FILE)

    def solution(self):
        return {('one', 't'): time_, ('all', SP): y_, ('one', 'e'): lambda k: app('eq_electron_density', (k,)), ('one', 'Te'): lambda k: app('eq_electron_temperature', (k,)),
                ('one', 'Tg'): lambda k: const('oTg'), ('one', 'p'): lambda k: app('eq_total_pressure', (k,))}

    def post_process(self):
        """_parse_raw_sol and _post_process: the solution of the trajectory the solver returned"""
        s = self.s
        for cls in (BASE, NEUTRAL):
            t = cls[1] + '._post_process'
            if self.skip(t):
                continue
            it = self.start(t)

            def go():
                traj = self.trajectory(it)
                raw = Stub('OdeResult', {'success': const('solved', 'B'), 't': it.new(Arr([K], time_)),
                                         'y': it.new(Arr([Cat([SP, ONE]), K], lambda i, k: y_(k, i[1]) if i[0] == 0 else rho_(k)))})
                o = self.model(it, cls, sol_raw=raw, t=None, sol_primary=None)
                it.call(it.getattr(o, '_parse_raw_sol'), [], {})
                it.call(it.getattr(o, '_post_process'), [], {})
                return o
            outs = s.explore(it, t, go, self.HYPS)
            if outs is None:
                continue
            s.under_contract(t)
            for n, (c, v) in enumerate(outs):
                nm = '{}[{}]'.format(t, n)
                if v[0] == 'raise':
                    s.check(nm + '#no exception', FALSE, c, FILE)
                    continue
                self.table(nm, c, v[1].attrs['sol_secondary'], self.solution())
                self.kept(nm, c, v[1])

    def getters(self):
        """the tables handed out: of the last trajectory, copies; refused before"""
        s = self.s
        for cls in (BASE, NEUTRAL):
            for m in ('get_solution', 'get_rates', 'get_wall_fluxes'):
                for final in (False, True):
                    for solved in (True, False):
                        t = '{}.{}{}'.format(cls[1], m, '_final' if final else '')
                        name = t + ('' if solved else '[not solved]')
                        if self.skip(name):
                            continue
                        it = self.start(t)

                        def go():
                            sec = it.new(Tab([(('one', 't'), None, time_), (('all', SP), SP, y_)] + [(l, None, f) for l, f in self.solution().items() if l[0] == 'one' and l[1] != 't']))
                            o = self.model(it, cls, sol_secondary=sec) if solved else self.model(it, cls, t=None, sol_primary=None, sol_raw=None)
                            return it.call(it.getattr(o, t.split('.')[1]), [], {}), o, sec
                        outs = s.explore(it, name, go, self.HYPS)
                        if outs is None:
                            continue
                        s.under_contract(t)
                        for n, (c, v) in enumerate(outs):
                            nm = '{}[{}]'.format(name, n)
                            if v[0] == 'raise':
                                s.check(nm + '#refused only before a run', FALSE if solved else TRUE, c, FILE)
                                if not solved:
                                    s.check(nm + '#documented error', TRUE if excname(v[1]) == 'ModelSolutionError' else FALSE, c, FILE)
                                continue
                            s.check(nm + '#refused before a run', TRUE if solved else FALSE, c, FILE)
                            if not solved:
                                continue
                            tab, o, sec = v[1]
                            w = dict(self.solution() if m == 'get_solution' else self.want('reaction_rates' if m == 'get_rates' else 'wall_fluxes'))
                            if final and m != 'get_solution':
                                w.pop(('one', 't'))
                            s.check(nm + '#the last row' if final else nm + '#a table', TRUE if isinstance(tab, LastRow if final else Tab) else FALSE, c, FILE)
                            s.check(nm + '#a copy', TRUE if tab is not o.attrs['sol_secondary'] else FALSE, c, FILE)
                            self.table(nm, c, tab, w)
                            self.kept(nm, c, o)

    def run(self):
        """Model._solve and run: equations built for this run, results of this run, errors"""
        s = self.s
        for cls in (BASE, NEUTRAL):
            t = cls[1] + '.run'
            if self.skip(t):
                continue
            log = []
            q = cls[1]
            names = {n: f for n, f in dict(
                _build_equations=lambda it_, o: (log.append('equations'), o.attrs.__setitem__('equations', self.solved_equations(it_, log)), None)[-1],
                _post_process=lambda it_, o: (log.append(('post', o.attrs['t'], o.attrs['sol_primary'])), o.attrs.__setitem__('sol_secondary', 'new'), None)[-1],
                _validate_y0=lambda it_, o, y0: log.append(('validated', y0)),
                _y0_from_init_params=lambda it_, o, te, n: 'y0').items()}
            it = self.start(t, {c + '.' + n: f for c in {q, 'Model'} for n, f in names.items()})

            def solve(it_, fun, t_span, y0, method='RK45', t_eval=None, **kw):
                log.append(('solve', fun, t_span, y0, t_eval))
                if it_.branch(const('solver_refuses', 'B')):
                    it_.raise_(ValueError, 'x')
                return Stub('OdeResult', {'success': const('solved', 'B'), 'status': ite(const('solved', 'B'), ite(const('ended_early', 'B'), num(1), num(0)), num(-1)), 'message': 'the message', 't': it_.new(Arr([K], time_)),
                                          'y': it_.new(Arr([Cat([SP, ONE]), K], lambda i, k: y_(k, i[1]) if i[0] == 0 else rho_(k)))})
            it.libs['scipy.integrate'] = ip.Lib('scipy.integrate', {'solve_ivp': Native(solve, 'solve_ivp')})

            def go():
                del log[:]
                old = self.equations()
                old.ns['get_objective_functions'] = Native(lambda it_, jacobian=False: ('old func', None), 'get_objective_functions')
                o = self.model(it, cls, equations=old, t='old', sol_primary='old', sol_secondary='old', sol_raw='old')
                e = None
                try:
                    it.call(it.getattr(o, 'run'), [const('te'), 'init'], {})
                except ip.PyExc as x:
                    e = x
                return e, list(log), o
            outs = s.explore(it, t, go, self.HYPS)
            if outs is None:
                continue
            s.under_contract(t)
            s.under_contract('Model._solve')
            s.under_contract('Model._parse_raw_sol')
            ok = and_(not_(const('solver_refuses', 'B')), const('solved', 'B'))
            for n, (c, v) in enumerate(outs):
                nm = '{}[{}]'.format(t, n)
                if v[0] == 'raise':
                    s.check(nm + '#no exception', FALSE, c, FILE)
                    continue
                e, lg, o = v[1]
                if e is not None:
                    s.check(nm + '#an error only if not solved', not_(ok), c, FILE)
                    s.check(nm + '#documented error', TRUE if excname(e) == 'ModelSolutionError' else FALSE, c, FILE)
                    continue
                s.check(nm + '#an error if not solved', ok, c, FILE)
                kinds = [x if isinstance(x, str) else x[0] for x in lg]
                s.check(nm + '#equations of the present chemistry', TRUE if 'equations' in kinds and kinds.index('equations') < kinds.index('solve') else FALSE, c, FILE)
                sv = [x for x in lg if x[0] == 'solve']
                if len(sv) != 1:
                    s.unsup(nm, 'calls of the solver')
                    continue
                s.check(nm + '#the right-hand side of these equations', TRUE if sv[0][1] == 'new func' else FALSE, c, FILE)
                s.check(nm + '#from the validated state', TRUE if sv[0][3] == 'y0' and ('validated', 'y0') in lg else FALSE, c, FILE)
                s.check(nm + '#every step reported', TRUE if sv[0][4] is None else FALSE, c, FILE)
                post = [x for x in lg if x[0] == 'post']
                s.check(nm + '#results of this run', TRUE if len(post) == 1 and o.attrs['sol_secondary'] == 'new' else FALSE, c, FILE)
                if not isinstance(o.attrs['sol_primary'], Arr) or not isinstance(o.attrs['t'], Arr):
                    s.check(nm + '#trajectory of this run', FALSE, c, FILE)
                    continue
                self.kept(nm, c, o)

    def solved_equations(self, it, log):
        e = self.equations()
        e.ns['get_objective_functions'] = Native(lambda it_, jacobian=False: ('new func', None), 'get_objective_functions')
        return e

    # ---- the wrapper
    def wrapper(self):
        s = self.s
        G = ('pygmo_fwork.global_model', 'GlobalModel')
        ms = ('get_solution', 'get_solution_final', 'get_rates', 'get_rates_final', 'get_wall_fluxes', 'get_wall_fluxes_final')
        for m in ms + ('success',):
            for state in (None, False, True):
                t = 'GlobalModel.' + m
                name = '{}[last run: {}]'.format(t, {None: 'none', False: 'failed', True: 'succeeded'}[state])
                if self.skip(name):
                    continue
                it = self.start(t)

                def go():
                    o = it.new(ip.SObj(it.cls(*G)))
                    o.attrs.update(last_run_success=state, model=Stub('Model', {x: Native(lambda it_, x=x: ('table', x), x) for x in ms}))
                    return it.call(it.getattr(o, m), [], {})
                outs = s.explore(it, name, go, [])
                if outs is None:
                    continue
                s.under_contract(t)
                for n, (c, v) in enumerate(outs):
                    nm = '{}[{}]'.format(name, n)
                    if m == 'success':
                        ok = v[0] == 'raise' and excname(v[1]) == 'BackendNoRunError' if state is None else v[0] != 'raise' and v[1] is state
                    elif state:
                        ok = v[0] != 'raise' and v[1] == ('table', m)
                    else:
                        ok = v[0] == 'raise' and excname(v[1]) == {None: 'BackendNoRunError', False: 'BackendRunUnsuccessfulError'}[state]
                    s.check(nm + '#results of the last run, or the documented error', TRUE if ok else FALSE, c, GM)
        for state in (None, False, True):
            t = 'GlobalModel.run'
            name = '{}[after a run: {}]'.format(t, state)
            if self.skip(name):
                continue
            logged = []
            it = self.start(t, {'GlobalModel.generate_initial_n': lambda it_, o: {'X': num(1)}, 'GlobalModel.validate_initial_n': lambda it_, o, n: None,
                                'GlobalModel.log_results': lambda it_, o, *a, **k: logged.append((a, k))})
            clock = lambda n: Native(lambda it_, *a, **k: const('junk_time', 'R' if n == 'time' else 'S'), n)
            it.libs['time'] = lib.Lib('time', {n: clock(n) for n in ('time', 'strftime', 'perf_counter')})
            path = ip.Lib('os.path', {'isdir': Native(lambda it_, p: it_.unbool(const('log_dir_exists', 'B')), 'isdir')})
            it.libs['os'] = ip.Lib('os', {'path': path})
            it.libs['os.path'] = path
            raises, solved, logging = const('model_raises', 'B'), const('solved', 'B'), const('logging', 'B')

            def go():
                del logged[:]
                o = it.new(ip.SObj(it.cls(*G)))
                ran = []

                def run(it_, *a, **k):
                    ran.append(1)
                    if it_.branch(raises):
                        it_.raise_(ValueError, 'x')

                def success(it_):
                    return it_.unbool(solved)
                o.attrs.update(last_run_success=state, backend='PyGMol', chemistry=self.chemistry(),
                               model=Stub('Model', {'run': Native(run, 'run'), 'success': Native(success, 'success'), 'model_params': self.params()}))
                e = None
                try:
                    it.call(it.getattr(o, 'run'), [], dict(run_id='id', init_el_temp=const('te'), log_results=it.unbool(logging), log_to='dir', verbose=False))
                except ip.PyExc as x:
                    e = x
                return e, list(logged), list(ran), o
            outs = s.explore(it, name, go, [])
            if outs is None:
                continue
            s.under_contract(t)
            fit = and_(lt(num(0), const('te')), or_(not_(logging), const('log_dir_exists', 'B')))
            for n, (c, v) in enumerate(outs):
                nm = '{}[{}]'.format(name, n)
                if v[0] == 'raise':
                    s.check(nm + '#no exception', FALSE, c, GM)
                    continue
                e, lg, ran, o = v[1]
                flag = o.attrs['last_run_success']
                if not isinstance(flag, (bool, T)):
                    s.check(nm + '#the outcome is known', FALSE, c, GM)
                    continue
                s.check(nm + '#an error exactly if refused, or the model fails', eq(TRUE if e is not None else FALSE, or_(not_(fit), raises)), c, GM)
                s.check(nm + '#success only of this run', eq(lift(flag), and_(fit, not_(raises), solved)), c, GM)
                s.check(nm + '#logged exactly if asked for and successful', eq(TRUE if lg else FALSE, and_(logging, fit, not_(raises), solved)), c, GM)
                s.check(nm + '#logged once', TRUE if len(lg) <= 1 else FALSE, c, GM)
                if lg:
                    a, k = lg[0]
                    k = dict(zip(('run_id', 'results_dir', 'init_params', 'overwrite', 'compress'), a), **k)
                    ipar = k.get('init_params')
                    good = k.get('run_id') == 'id' and k.get('results_dir') == 'dir' and isinstance(ipar, dict) and set(ipar) == {'init_el_temp', 'init_n'} and k.get('overwrite', False) is False
                    s.check(nm + '#the log gets the initial state of this run', and_(TRUE if good else FALSE, eq(lift(ipar['init_el_temp']), const('te')) if good else FALSE), c, GM)


BASE = ('pygmo_fwork.pygmol.model', 'Model')
NEUTRAL = ('pygmo_fwork.pygmol.neutral_model', 'NeutralModel')


def generate(s):
    s.assumptions |= {'a getter of the equations is a function of the state it is given (C12, C13), whose result may be one working array'}
    o = Output(s)
    o.diagnose()
    o.post_process()
    o.getters()
    o.run()
    o.wrapper()
