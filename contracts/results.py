"""Contracts of ResultsParser (C22): interpolation of results, volumetric and surface rates of a species, refusals.

Species, reactions and times are axes of any size. The chemistry is used by the contracts of its getters (obligations of C05, C06 and C07); a row of
saved rates or wall fluxes has any labels (of the chemistry or not, with a time or without one) and arbitrary values."""
import ast
from terms import *
from values import *
import terms as tm
import interp as ip
import lib
import numeval
import pandas_ as pdm
from pandas_ import Ser, Frm, Index, PosSet, Texts, Ent
from lib import Stub, Native, force
from rx import excname
import errors

FILE = 'pygmo_fwork/results.py'
MOD, CLS = 'pygmo_fwork.results', 'ResultsParser'
SP, RX = pdm.axis('csp'), pdm.axis('crx')     # everything that may be labelled: the species and reactions of any chemistry
NAME = 'cspname'
TEXTS = ('t', 'e', 'Te', 'Tg', 'p')
pdm.injective(NAME, 'cspname_of', SP)
name_ = lambda i: app(NAME, (i,), 'S')
enabled = lambda i: app('sp_enabled', (i,), 'B')
special = lambda i: app('sp_special', (i,), 'B')
known = lambda i: app('sp_known', (i,), 'B')
ron = lambda j: app('rx_enabled', (j,), 'B')
heavy = lambda i: and_(enabled(i), not_(special(i)))
ALL = Sub(SP, enabled)
HEAVY = Sub(SP, heavy)
ON = Sub(RX, ron)
nu = lambda j, i: app('net', (j, i))
ret = lambda i, j: app('retm', (i, j))


class RowIndex:
    def __init__(self, row):
        self.row = row

    def sym_contains(self, it, k):
        r, k = self.row, force(it, k)
        if isinstance(k, str) and k == 't':
            return it.unbool(r.t)
        raise Unsupported('label of a row')

    def sym_set(self, it):
        return RowSet(self.row, TEXTS[:0])

    def sym_iter(self, it):
        r = self.row
        if it.branch(r.t):
            raise Unsupported('labels of a row with a time')
        return r.dim, (lambda i: i) if r.kind == 'id' else name_

    def sym_list(self, it):
        d, f = self.sym_iter(it)
        return it.new(Arr([d], f, kind='list', dtype='I' if self.row.kind == 'id' else 'S'))


class RowSet:
    compares_first = True

    def __init__(self, row, gone):
        self.row, self.gone = row, tuple(gone)

    def labels(self):
        r = self.row
        if r.kind == 'id':
            return PosSet(r.dim.base, r.dim.pred)
        return Texts(SP, NAME, lambda i: and_(r.dim.member(i), *[not_(eq(name_(i), lift(g))) for g in self.gone]))

    def sym_set(self, it):
        return self

    def sym_binop(self, it, op, o, refl):
        if isinstance(op, ast.Sub) and not refl and isinstance(o, (set, frozenset)) and all(isinstance(x, str) for x in o):
            return RowSet(self.row, set(self.gone) | set(o))
        raise Unsupported('operation on labels')

    def sym_getattr(self, it, name):
        if name == 'difference':
            return Native(lambda it_, *o: self.sym_binop(it_, ast.Sub(), {x for y in o for x in y}, False), name)
        raise Unsupported('labels.' + name)

    def sym_compare(self, it, op, o, refl):
        if not isinstance(op, (ast.Eq, ast.NotEq)):
            raise Unsupported('comparison of labels')
        e = self.labels().sym_compare(it, ast.Eq(), o, False)
        r = and_(lift(e), TRUE if 't' in self.gone else not_(self.row.t))
        return it.unbool(r if isinstance(op, ast.Eq) else not_(r))


class Row:
    """a row of a saved table: a Series labelled by ids of reactions ('id') or names of species ('name'), and 't' if t"""
    libtype = 'pandas.Series'

    def __init__(self, kind, dim, t, arr, time):
        self.kind, self.dim, self.t, self.arr, self.time = kind, dim, t, arr, time

    def copy(self, it):
        return it.new(Row(self.kind, self.dim, self.t, lib.copy_arr(it, self.arr), self.time))

    def sym_contains(self, it, k):
        return RowIndex(self).sym_contains(it, k)

    def sym_getattr(self, it, name):
        if name == 'index':
            return RowIndex(self)
        if name == 'copy':
            return Native(lambda it_, deep=True: self.copy(it_), 'Series.copy')
        if name == 'loc':
            return RowLoc(self)
        if name == 'drop':
            def drop(it_, labels=None, axis=0, errors='raise', index=None, inplace=False):
                k = force(it_, labels if labels is not None else index)
                k = k[0] if isinstance(k, list) and len(k) == 1 else k
                if k != 't' or isinstance(k, T) or inplace:
                    raise Unsupported('drop')
                if errors == 'raise' and not it_.branch(self.t):
                    it_.raise_(KeyError, 't')
                r = self.copy(it_)
                r.t = FALSE
                return r
            return Native(drop, 'Series.drop')
        raise Unsupported('row.' + name)

    def sym_getitem(self, it, k):
        k = force(it, k)
        if isinstance(k, str) and k == 't':
            if not it.branch(self.t):
                it.raise_(KeyError, 't')
            return self.time
        if self.kind == 'id' and isinstance(k, (Index, PosSet, Ser, Arr)):
            return Ser(self.dim, self.arr).sym_getitem(it, k)
        if self.kind == 'id' and isinstance(k, T) and k.sort == 'I':
            return Ser(self.dim, self.arr).get_label(it, k)
        raise Unsupported('item of a row')

    def sym_setattr(self, it, name, v):
        v = force(it, v)
        if name != 'index':
            raise Unsupported('row.' + name)
        if it.branch(self.t):
            raise Unsupported('labels of a row with a time')
        if isinstance(v, Index):
            v = v.arr()
        if isinstance(v, Arr) and len(v.dims) == 1:
            x = self.dim.new('x')
            if same_dim(v.dims[0], self.dim, it.path.conds) and v.at(x) is x:
                lib.check_write(it, self.arr)
                self.__class__ = Ser
                return
        raise Unsupported('other labels')

    def sym_setitem(self, it, k, v):
        raise Unsupported('item of a row')


class RowLoc:
    def __init__(self, row):
        self.row = row

    def sym_getitem(self, it, k):
        return self.row.sym_getitem(it, k)


class Rx:
    """a reaction of the chemistry"""

    def __init__(self, j):
        self.j = j

    def sym_str(self, it):
        return app('junk_reaction', (self.j,), 'S')

    def sym_subst(self, m):
        return Rx(subst(self.j, m))


class Given:
    """the species asked for, as it was given (id, name or object)"""

    def sym_str(self, it):
        return const('junk_given', 'S')


class Rates:
    def __init__(self, s):
        self.s = s

    def start(self, target):
        it = self.s.interp({})
        it.target = target
        it.symbolic_texts = True
        pdm.install(it)
        return it

    def chemistry(self, it, given):
        SPC = it.cls('plaschem.species', 'RP')
        pos = const('asked', 'I')

        def ent(i):
            return Stub('RP', dict(id=i, is_special=Native(lambda it_: it_.unbool(special(i)), 'is_special'), get_name=Native(lambda it_: name_(i), 'get_name')))

        def get_rp(it_, x):
            x = force(it_, x)
            if x is given:
                if not it_.branch(and_(SP.member(pos), known(pos))):
                    it_.raise_(ValueError)
                return ent(pos)
            if isinstance(x, T) and x.op == 'app' and x.args[0] == NAME:
                i = x.args[1]
                if not it_.branch(known(i)):
                    it_.raise_(ValueError)
                return ent(i)
            raise Unsupported('species asked for')

        def no(**k):
            if any(v is not w for v, w in k.values()):
                raise Unsupported('arguments of a getter')

        def names(it_, disabled=False, special=False, protected=True):
            if disabled or not protected:
                raise Unsupported('arguments of a getter')
            d = ALL if special else HEAVY
            return it_.new(Ser(d, it_.new(Arr([d], name_, dtype='S'))))

        def reactions(it_, disabled=False):
            if disabled:
                raise Unsupported('arguments of a getter')
            return it_.new(Ser(ON, it_.new(Arr([ON], lambda j: Rx(j), dtype='O'))))

        def matrix(it_, disabled=False, special=False, method='net'):
            if disabled or method not in ('net', 'lhs', 'rhs'):
                raise Unsupported('arguments of a getter')
            return it_.new(Frm(it_.new(Arr([ON, ALL if special else HEAVY], nu if method == 'net' else lambda j, i: app(method, (j, i))))))

        def retm(it_, disabled=False, special=False):
            if disabled or special:
                raise Unsupported('arguments of a getter')
            return it_.new(Frm(it_.new(Arr([HEAVY, HEAVY], ret))))

        def reaction(it_, j):
            j = force(it_, j)
            if isinstance(j, T) and j.sort == 'I':
                return Rx(j)
            raise Unsupported('reaction asked for')

        ids = lambda d: (lambda it_, *a, **k: it_.new(Ser(d, it_.new(Arr([d], lambda i: i, dtype='I')))))
        return pos, Stub('Chemistry', {k: Native(f, k) for k, f in dict(
            get_rp=get_rp, get_species_name=names, get_reactions=reactions, get_stoichiomatrix=matrix, get_return_matrix=retm, get_reaction=reaction).items()})

    def row(self, it, kind, tag):
        ax = RX if kind == 'id' else SP
        has = tag + '_has'
        a = it.new(Arr([Sub(ax, lambda i: app(has, (i,), 'B'))], lambda i: app(tag, (i,))))
        return Row(kind, a.dims[0], const(tag + '_time', 'B'), a, const(tag + '_t'))

    def volumetric(self):
        s = self.s
        t = CLS + '.get_volumetric_rates'
        for annotate in (False, True):
            name = t + ('[annotated]' if annotate else '')
            if s.only and s.only not in name:
                continue
            it = self.start(t)

            def go():
                g = Given()
                pos, ch = self.chemistry(it, g)
                row = self.row(it, 'id', 'vrate')
                f = it.getattr(it.cls(MOD, CLS), 'get_volumetric_rates')
                return it.call(f, [g, ch, row], dict(annotate=annotate) if annotate else {}), row
            pos = const('asked', 'I')
            ok = and_(SP.member(pos), enabled(pos), known(pos), all_(RX, lambda j: eq(app('vrate_has', (j,), 'B'), ron(j))))
            outs = s.explore(it, name, go, [SP.member(pos), all_(SP, lambda i: implies(enabled(i), known(i))), all_(SP, lambda i: and_(*[not_(eq(name_(i), lift(x))) for x in ('t', 'Te', 'Tg', 'p')]))])
            self.post(name, t, outs, ok, RX, lambda j: and_(ron(j), not_(eq(nu(j, pos), num(0)))), lambda j: nu(j, pos) * app('vrate', (j,)), 'vrate',
                      (lambda j: app('junk_text {: <10}{}', (app('junk_text R{}', (j,), 'S'), app('junk_reaction', (j,), 'S')), 'S')) if annotate else None)

    def surface(self):
        s = self.s
        t = CLS + '.get_surface_rates'
        for annotate in (False, True):
            name = t + ('[annotated]' if annotate else '')
            if s.only and s.only not in name:
                continue
            it = self.start(t)

            def go():
                g = Given()
                pos, ch = self.chemistry(it, g)
                row = self.row(it, 'name', 'wflux')
                f = it.getattr(it.cls(MOD, CLS), 'get_surface_rates')
                return it.call(f, [g, ch, {'radius': const('radius'), 'length': const('length')}, row], dict(annotate=annotate) if annotate else {}), row
            pos = const('asked', 'I')
            right = all_(SP, lambda i: eq(app('wflux_has', (i,), 'B'), heavy(i)))
            ok = and_(SP.member(pos), known(pos), right, or_(special(pos), enabled(pos)))
            outs = s.explore(it, name, go, [SP.member(pos), lt(num(0), const('radius')), lt(num(0), const('length')), lt(num(0), const('c_pi')), all_(SP, lambda i: implies(enabled(i), known(i))),
                                            all_(SP, lambda i: and_(*[not_(eq(name_(i), lift(x))) for x in ('t', 'Te', 'Tg', 'p')]))])
            r, z = const('radius'), const('length')
            pi = const('c_pi')
            a_v = num(2) * pi * r * (r + z) / (pi * r * r * z)
            w = lambda j: app('wflux', (j,)) * a_v
            val = lambda j: ite(eq(j, pos), w(j), num(0)) - ret(pos, j) * w(j)

            def text(j):
                i, g = app('junk_text S{}', (j,), 'S'), const('junk_given', 'S')
                return app('junk_text {: <10}{}', (i, ite(eq(j, pos), app('junk_text {} + wall > wall', (g,), 'S'), app('junk_text {} + wall > {} + wall', (name_(j), g), 'S'))), 'S')
            self.post(name, t, outs, ok, SP, lambda j: and_(heavy(j), not_(special(pos)), not_(eq(val(j), num(0)))), val, 'wflux', text if annotate else None)

    def post(self, name, t, outs, ok, ax, listed, val, tag, text):
        s = self.s
        if outs is None:
            return
        s.under_contract(t)
        for n, (c, v) in enumerate(outs):
            nm = '{}[{}]'.format(name, n)
            c = list(c)
            if v[0] == 'raise':
                s.check(nm + '#refused only if unknown or inconsistent', not_(ok), c, FILE)
                continue
            r, row = v[1]
            s.check(nm + '#refuses the unknown and inconsistent', ok, c, FILE)
            j = ax.new('j')
            h = c + [ax.member(j)]
            if type(r) is pdm.Part:
                s.check(nm + '#processes listed', not_(listed(j)), h, FILE)
            elif isinstance(r, Ser) and r.dim.base is ax:
                s.check(nm + '#processes listed', eq(r.dim.pred(j), listed(j)), h, FILE)
                hl = h + [listed(j), r.dim.pred(j)]
                s.check(nm + '#rates', eq(r.arr.at(j), val(j)), hl, FILE)
                o = r.dim.order
                if o is None or o.ascending:
                    s.check(nm + '#sorted in descending order', FALSE, c, FILE)
                else:
                    s.check(nm + '#sorted by the rates', eq(o.val(j), val(j)), hl, FILE)
                if text is not None:
                    if isinstance(r, pdm.TextSer):
                        s.check(nm + '#annotation', eq(r.texts(j), text(j)), hl, FILE)
                    else:
                        s.unsup(nm, 'annotation of another form')
            else:
                s.unsup(nm, 'result of another kind')
                continue
            # frame
            if isinstance(row, Row):
                s.check(nm + '#row untouched', and_(eq(row.arr.at(j), app(tag, (j,))), eq(row.t, const(tag + '_time', 'B')), eq(row.time, const(tag + '_t'))), h, FILE)
                s.check(nm + '#labels untouched', eq(row.dim.pred(j), app(tag + '_has', (j,), 'B')), h, FILE)
            else:
                s.check(nm + '#row untouched', FALSE, c, FILE)


K, COL = Axis('rtimes'), pdm.axis('ccol')
TEXT = 'ccol_text'
pdm.injective(TEXT, 'ccol_of', COL, ('t', 'Te', 'e', 'p', 'Tg'))
errors.define('df')
text_ = lambda j: app(TEXT, (j,), 'S')
rtime = lambda k: app('rtime', (k,))
TPOS = app('ccol_of', (lift('t'),), 'I')


class Columns:
    """the columns of a table"""

    def sym_iter(self, it):
        return COL, text_

    def sym_list(self, it):
        return it.new(Arr([COL], text_, kind='list', dtype='S'))

    def sym_contains(self, it, k):
        k = lift(force(it, k))
        return True if is_col(k) or k is lift('t') else any_(COL, lambda j: eq(text_(j), k))

    def sym_getattr(self, it, name):
        if name in ('copy', 'tolist'):
            return Native(lambda it_: self if name == 'copy' else self.sym_list(it_), name)
        raise Unsupported('columns.' + name)


def is_col(k):
    return isinstance(k, T) and k.op == 'app' and k.args[0] == TEXT


class Table(errors.Sol):
    """saved results: any columns, among them the time"""

    def has(self, text):
        return TRUE if is_col(text) or text is lift('t') else any_(COL, lambda j: eq(text_(j), text))

    def sym_getattr(self, it, name):
        if name == 'columns':
            return Columns()
        raise Unsupported('results.' + name)


class NewTable:
    """a new table with the same columns and a row per time"""
    libtype = 'pandas.DataFrame'

    def __init__(self, cells):
        self.cells = cells

    def sym_setitem(self, it, k, v):
        k, v = force(it, k), force(it, v)
        k = lift(k) if isinstance(k, str) else k
        j = k.args[1] if is_col(k) else TPOS if k is lift('t') else None
        if j is None:
            raise Unsupported('another column')
        if isinstance(v, Arr) and len(v.dims) == 1:
            if not same_dim(v.dims[0], K):
                raise Unsupported('column of another length')
            g = v.frozen()
        elif lib.is_scalar(v):
            g = lambda i, v=lift(v): v
        else:
            raise Unsupported('column')
        lib.check_write(it, self.cells)
        lib.setitem(it, self.cells, (j, slice(None)), it.new(Arr([K], lambda i: g(i))))


def interpolation(s):
    t = CLS + '.get_results_frames'
    if s.only and s.only not in t:
        return
    it = s.interp({})
    it.target = t
    pdm.install(it)
    for k in ('numpy', 'np'):
        it.libs[k] = ip.Lib('numpy', dict(it.libs[k].ns, interp=Native(errors.np_interp, 'numpy.interp')))

    def frame(it_, data=None, index=None, columns=None, dtype=None, copy=None):
        if data is not None or not isinstance(columns, Columns):
            raise Unsupported('data frame')
        if not (isinstance(index, lib.SymRange) and same_dim(index.axis, K)):
            raise Unsupported('index of a data frame')
        return it_.new(NewTable(it_.new(Arr([COL, K], lambda j, k: lib.NAN))))
    ns = it.libs['pandas'].ns
    ns = dict(ns, DataFrame=Native(frame, 'pandas.DataFrame'))
    ns['DataFrame'].libtype = 'pandas.DataFrame'
    it.libs['pandas'] = ip.Lib('pandas', ns)
    tab = Table('df')

    def go():
        times = it.new(Arr([K], rtime, kind='list'))
        return it.call(it.getattr(it.cls(MOD, CLS), 'get_results_frames'), [tab, times], {})
    inside = all_(K, lambda k: tab.inside(rtime(k)))
    outs = s.explore(it, t, go, [COL.member(TPOS), eq(text_(TPOS), lift('t'))])
    if outs is None:
        return
    s.under_contract(t)
    for n, (c, v) in enumerate(outs):
        nm = '{}[{}]'.format(t, n)
        c = list(c)
        if v[0] == 'raise':
            s.check(nm + '#refused only if a time is outside', not_(inside), c, FILE)
            s.check(nm + '#kind of refusal', TRUE if excname(v[1]) == 'AssertionError' else FALSE, c, FILE)
            continue
        s.check(nm + '#refuses the times outside', inside, c, FILE)
        if not isinstance(v[1], NewTable):
            s.unsup(nm, 'table of another form')
            continue
        j, k = COL.new('j'), K.new('k')
        h = c + [COL.member(j), K.member(k)]
        s.check(nm + '#the interpolated values', eq(v[1].cells.at(j, k), tab.at(text_(j), rtime(k))), h + [not_(eq(text_(j), lift('t')))], FILE)
        s.check(nm + '#the times asked for', eq(v[1].cells.at(TPOS, k), rtime(k)), h, FILE)
        s.check(nm + '#the saved values at the first time', implies(eq(rtime(k), tab.first()), eq(v[1].cells.at(j, k), app('df_at_first', (text_(j),)))), h, FILE)


def generate(s):
    s.assumptions |= {'the row of wall fluxes lists the species in the order of the chemistry (other orders are refused: bounded)',
                      'Series.sort_values lists the values in the order asked for', 'Chemistry by contract (C05, C06, C07)'}
    r = Rates(s)
    r.volumetric()
    r.surface()
    interpolation(s)
