"""Contracts of the iterative reduction (C21): ReductionIterator.

Species are the positions of one axis (their names are distinct texts), runs so far the positions of another: nothing bounds their numbers. The chemistry, the
model and the comparison of solutions are used by contract (C01, C16, C17): disabling is possible or not, a run succeeds, fails or is interrupted, errors are
any numbers. The history is a table whose rows so far satisfy the invariant that the previous rows were left with."""
import ast
from terms import *
from values import *
import terms as tm
import interp as ip
import lib
import loops
import pandas_ as pdm
from lib import Stub, Native, force
from rx import excname

FILE = 'pygmo_fwork/optichem/reduction.py'
CLS = ('pygmo_fwork.optichem.reduction', 'ReductionIterator')
SP = pdm.axis('rsp')
H = Axis('rruns', True)
pdm.injective('rname', 'rname_of', SP)
name_ = lambda i: app('rname', (i,), 'S')
B = lambda n, *a: app(n, tuple(a), 'B')
imp_ = lambda i: B('rimportant', i)
prot_ = lambda i: B('rprotected', i)
special_ = lambda i: B('rspecial', i)
en0_ = lambda i: B('renabled', i)
en1_ = lambda i: B('rleft_enabled', i)
att_ = lambda i: B('rattempted', i)
saved_ = lambda k, i: B('rsaved', k, i)
ok_ = lambda k: B('hok', k)
err_ = lambda k: app('herr', (k,))
run_ = lambda k: app('hrun', (k,), 'S')
S_ = const('the_species', 'I')
R0 = const('last_accepted', 'I')
NATT = const('attempts_so_far')
LIMIT = div(const('max_error'), num(100))
le = lambda a, b: not_(lt(b, a))
IMPOSSIBLE, FAILS, INTERRUPTED = (const(n, 'B') for n in ('disable_refuses', 'model_fails', 'model_interrupted'))


def position(x):
    """the species a text is the name of, or None"""
    if isinstance(x, T) and x.op == 'app' and x.args[0] == 'rname':
        return x.args[1]
    return None


class Recording(Exception):
    pass


class Names:
    """set of names of species (pred), possibly with other, unknown texts; n: its number of elements if counted"""
    libtype = 'set'
    recording = None

    def __init__(self, pred, others=False, n=None):
        self.pred, self.others, self.n = pred, others, n

    def sym_set(self, it):
        return it.new(Names(self.pred, self.others, self.n))

    def sym_list(self, it):
        return self

    def dim(self):
        if self.others:
            raise Unsupported('unknown texts')
        p = self.pred
        return Sub(SP, p)

    def sym_len(self, it):
        return self.n if self.n is not None else self.dim().length

    def sym_truth(self, it):
        if self.others:
            raise Unsupported('unknown texts')
        return any_(SP, self.pred)

    def sym_iter(self, it):
        return self.dim(), name_

    def sym_contains(self, it, x):
        i = position(x)
        if i is None:
            raise Unsupported('name of a species')
        return it.unbool(self.pred(i))

    def pair(self, it, o, refl):
        if not isinstance(o, Names):
            els = it.try_concrete(o.arr if isinstance(o, lib.SetOf) else o) 
            if els is not None:
                o = names(els)
        if not isinstance(o, Names):
            raise Unsupported('operation on sets of names')
        return (o, self) if refl else (self, o)

    def sym_binop(self, it, op, other, refl):
        a, b = self.pair(it, other, refl)
        p, q = a.pred, b.pred
        if isinstance(op, ast.Sub) and not a.others:
            return it.new(Names(lambda i: and_(p(i), not_(q(i)))))
        if isinstance(op, ast.BitAnd) and not (a.others and b.others):
            return it.new(Names(lambda i: and_(p(i), q(i))))
        if isinstance(op, ast.BitOr) and not (a.others or b.others):
            return it.new(Names(lambda i: or_(p(i), q(i))))
        raise Unsupported('operation on sets of names')

    def sym_compare(self, it, op, other, refl):
        a, b = self.pair(it, other, refl)
        if a.others or b.others:
            raise Unsupported('comparison with unknown texts')
        p, q = a.pred, b.pred
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = all_(SP, lambda i: eq(p(i), q(i)))
            return it.unbool(r if isinstance(op, ast.Eq) else not_(r))
        if isinstance(op, ast.LtE):
            return it.unbool(all_(SP, lambda i: implies(p(i), q(i))))
        raise Unsupported('comparison of sets of names')

    def change(self, it, what, x):
        i = position(x)
        if i is None or self.others:
            raise Unsupported('name of a species')
        if Names.recording is not None:
            if i is not Names.recording[0]:
                raise Unsupported('set changed in a loop')
            if what == 'remove' and not it.branch(self.pred(i)):
                it.raise_(KeyError)
            Names.recording[1].append((self, what))
            return
        if it.in_sub:
            raise Unsupported('set changed in a loop')
        p, inside = self.pred, None
        if what == 'add':
            if self.n is not None:
                inside = it.branch(p(i))
                self.n = self.n if inside else add(self.n, num(1))
            self.pred = lambda j: or_(p(j), eq(j, i))
        else:
            if what == 'remove' and not it.branch(p(i)):
                it.raise_(KeyError)
            self.n = None
            self.pred = lambda j: and_(p(j), not_(eq(j, i)))

    def sym_getattr(self, it, name):
        if name in ('add', 'remove', 'discard'):
            return Native(lambda it_, x: self.change(it_, name, x), 'set.' + name)
        if name == 'copy':
            return Native(lambda it_: self.sym_set(it_), 'set.copy')
        if name == 'isdisjoint':
            def disjoint(it_, o):
                o = self.pair(it_, o, False)[1]
                p, q = self.pred, o.pred
                if self.others and o.others:
                    raise Unsupported('unknown texts')
                return it_.unbool(not_(any_(SP, lambda i: and_(p(i), q(i)))))
            return Native(disjoint, 'set.isdisjoint')
        ops = {'intersection': ast.BitAnd, 'union': ast.BitOr, 'difference': ast.Sub}
        if name in ops:
            return Native(lambda it_, o: self.sym_binop(it_, ops[name](), o, False), 'set.' + name)
        if name == 'issubset':
            return Native(lambda it_, o: self.sym_compare(it_, ast.LtE(), o, False), 'set.issubset')
        if name in ('update', 'difference_update', 'intersection_update'):
            def upd(it_, o):
                if Names.recording is not None or it_.in_sub:
                    raise Unsupported('set changed in a loop')
                r = self.sym_binop(it_, {'update': ast.BitOr, 'difference_update': ast.Sub, 'intersection_update': ast.BitAnd}[name](), o, False)
                self.pred, self.n = r.pred, None
            return Native(upd, 'set.' + name)
        raise Unsupported('set.' + name)

    def sym_for(self, it, st, env):
        """a loop over the names that only changes sets of names, by the name it is at"""
        stored, calls = loops.stored_names(st.body)
        if stored:
            raise Unsupported('variable set in a loop over names')
        d = self.dim()
        j = d.new('j')

        def body():
            keep, Names.recording = Names.recording, (j, [])
            try:
                e = ip.Env(env.module, dict(env.vars), env.parent, env.node)
                it.assign(st.target, name_(j), e)
                it.exec_block(st.body, e)
                return list(Names.recording[1])
            finally:
                Names.recording = keep
        outs = it.sub_explore(body, [d.member(j)])
        bad = [(and_(*c), v[1]) for c, v in outs if v[0] == 'raise']
        if bad:
            if it.branch(loops.over(d, lambda i: subst(or_(*[b[0] for b in bad]), {j: i}), 'any')):
                raise ip.PyExc(bad[0][1].cls, ('in a loop',))
        ops = {}
        for c, v in outs:
            if v[0] != 'raise':
                for s, what in v[1]:
                    ops.setdefault(id(s), (s, []))[1].append((and_(*c), what))
        for s, changes in ops.values():
            p = s.pred
            if len({w for _, w in changes} - {'discard'} | ({'remove'} if any(w == 'discard' for _, w in changes) else set())) > 1:
                raise Unsupported('names added and removed in a loop')
            hit = lambda i, changes=changes: and_(d.member(i), or_(*[subst(c, {j: i}) for c, _ in changes]))
            s.n = None
            s.pred = (lambda i, p=p, hit=hit: or_(p(i), hit(i))) if changes[0][1] == 'add' else (lambda i, p=p, hit=hit: and_(p(i), not_(hit(i))))

    def sym_join(self, it, sep):
        return Joined(self.pred, sep)


def names(xs):
    ps = [position(x) for x in xs]
    if any(p is None for p in ps):
        raise Unsupported('set of texts')
    return Names(lambda i: or_(*[eq(i, p) for p in ps]))


class Joined:
    """the names of a set, joined in the order of the set"""

    def __init__(self, pred, sep):
        self.pred, self.sep = pred, sep


class Column:
    """a column of the rows so far: numbers, texts or booleans, missing in some rows"""
    libtype = 'pandas.Series'

    def __init__(self, w, val, there, mask=lambda k: TRUE):
        self.w, self.val, self.there, self.mask = w, val, there, mask

    def boolean(self):
        v = self.val(const('k?', 'I'))
        if v.sort != 'B':
            raise Unsupported('rows selected by a column that is not boolean')
        return self.val

    def sym_getattr(self, it, name):
        if name == 'copy':
            return Native(lambda it_, deep=True: it_.new(Column(self.w, self.val, self.there, self.mask)), 'copy')
        if name == 'astype':
            self.boolean()
            return Native(lambda it_, t, **k: it_.new(Column(self.w, self.val, self.there, self.mask)), 'astype')
        if name == 'dropna':
            t, m = self.there, self.mask
            return Native(lambda it_: it_.new(Column(self.w, self.val, lambda k: TRUE, lambda k: and_(m(k), t(k)))), 'dropna')
        if name in ('iloc', 'values'):
            return Last(self)
        if name in ('notna', 'isna', 'notnull', 'isnull'):
            t = self.there
            f = t if name.startswith('not') else (lambda k: not_(t(k)))
            return Native(lambda it_: it_.new(Column(self.w, f, lambda k: TRUE, self.mask)), name)
        raise Unsupported('column.' + name)

    def sym_getitem(self, it, m):
        return self.select(it, m)

    def select(self, it, m):
        if not isinstance(m, Column):
            raise Unsupported('selection of rows')
        p, q = self.mask, m.boolean()
        return it.new(Column(self.w, self.val, self.there, lambda k: and_(p(k), q(k))))

    def sym_compare(self, it, op, other, refl):
        other = force(it, other)
        if not isinstance(other, (T, int)):
            raise Unsupported('comparison of columns')
        f = {ast.LtE: le, ast.Lt: lt, ast.GtE: lambda a, b: le(b, a), ast.Gt: lambda a, b: lt(b, a)}.get(type(op))
        if f is None:
            raise Unsupported('comparison of columns')
        v, t, o = self.val, self.there, lift(other)
        return it.new(Column(self.w, (lambda k: and_(t(k), f(o, v(k)))) if refl else (lambda k: and_(t(k), f(v(k), o))), lambda k: TRUE, self.mask))

    def sym_binop(self, it, op, other, refl):
        f = {ast.BitAnd: and_, ast.BitOr: or_}.get(type(op))
        if f is None or not isinstance(other, Column):
            raise Unsupported('operation on columns')
        a, b = self.boolean(), other.boolean()
        return it.new(Column(self.w, lambda k: f(a(k), b(k)), lambda k: TRUE, self.mask))


class Last:
    """the last of the selected rows: the row that was accepted last, if just the accepted ones are selected (an obligation)"""

    def __init__(self, col):
        self.col = col

    def sym_getitem(self, it, k):
        k = lift(k)
        if k is num(0):
            return self.col.val(const('first_row', 'I'))
        if k is not num(-1):
            raise Unsupported('row')
        self.col.w.selected.append(self.col.mask)
        return self.col.val(R0)


class History:
    """the table of the runs: rows so far (0 ... NATT) and those written now"""
    libtype = 'pandas.DataFrame'

    def __init__(self, w, empty=False):
        self.w, self.rows, self.empty = w, {}, empty

    def col(self, c):
        if self.rows:
            raise Unsupported('column of a table with a new row')
        f = {'rm_success': (ok_, lambda k: TRUE), 'run_id': (run_, ok_), 'error_base_max': (err_, ok_)}.get(c)
        if f is None:
            raise Unsupported('column ' + str(c))
        return self.w.it.new(Column(self.w, *f))

    def row(self, label):
        l = lift(label)
        if l.sort not in 'IR':
            raise Unsupported('row')
        return self.rows.setdefault(l, {})

    def sym_getattr(self, it, name):
        if name in ('loc', 'at'):
            return Loc(self)
        if name == 'shape':
            return (self.sym_len(it), num(11))
        if name == 'index':
            return Labels(self)
        if name == 'empty':
            return self.empty
        if name == 'to_csv':
            def to_csv(it_, path, header=True, index=True, index_label=None, **k):
                if k:
                    raise Unsupported('to_csv')
                self.w.log.append(('saved', path, header is True and index is True and index_label == 'run_index', {l: dict(r) for l, r in self.rows.items()}))
            return Native(to_csv, 'to_csv')
        return self.col(name)

    def sym_getitem(self, it, c):
        return self.col(c)

    def sym_len(self, it):
        if len(self.rows) > 1:
            raise Unsupported('number of rows')
        return add(num(0) if self.empty else add(NATT, num(1)), num(len(self.rows)))


class Labels:
    def __init__(self, h):
        self.h = h

    def sym_list(self, it):
        return self

    def sym_len(self, it):
        return self.h.sym_len(it)

    def sym_getitem(self, it, k):
        if (k != -1 if isinstance(k, int) else k is not num(-1)) or self.h.rows or self.h.empty:
            raise Unsupported('label of a row')
        return NATT

    def sym_getattr(self, it, name):
        if name in ('values',):
            return self
        if name in ('max',):
            return Native(lambda it_: self.sym_getitem(it_, -1), name)
        if name == 'tolist':
            return Native(lambda it_: self, name)
        raise Unsupported('index.' + name)


class Loc:
    def __init__(self, h):
        self.h = h

    def sym_setitem(self, it, key, v):
        if not isinstance(key, tuple) or len(key) != 2:
            raise Unsupported('row written')
        row, cols = self.h.row(key[0]), key[1]
        if isinstance(cols, (list, tuple)):
            if not isinstance(v, (list, tuple)):
                v = [v] * len(cols)
            if len(v) != len(cols):
                it.raise_(ValueError)
        else:
            cols, v = [cols], [v]
        for c, x in zip(cols, v):
            if not isinstance(c, str):
                raise Unsupported('column')
            row[c] = x

    def sym_getitem(self, it, key):
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[1], str):
            if isinstance(key[0], Column):
                return self.h.col(key[1]).select(it, key[0])
            if lift(key[0]) in self.h.rows and key[1] in self.h.row(key[0]):
                return self.h.row(key[0])[key[1]]
        elif isinstance(key, (T, int)) and lift(key) in self.h.rows:
            return RowOf(self.h.row(key))
        raise Unsupported('row read')


class RowOf:
    def __init__(self, cells, copied=False):
        self.cells, self.copied = cells, copied

    def sym_getattr(self, it, name):
        if name == 'copy':
            return Native(lambda it_, deep=True: RowOf(dict(self.cells), True), 'copy')
        raise Unsupported('row.' + name)


class Path:
    def __init__(self, parts):
        self.parts = list(parts)

    def is_(self, *parts):
        return len(self.parts) == len(parts) and all(a is b or isinstance(a, str) and a == b for a, b in zip(self.parts, parts))

    @staticmethod
    def join(it, *a):
        out = []
        for x in a:
            x = force(it, x)
            out += x.parts if isinstance(x, Path) else [x]
        return Path(out)


DIR = Path(['the directory'])


class World:
    """what a path of the program has done"""

    def __init__(self, it):
        self.it, self.log, self.selected, self.state, self.ran, self.special = it, [], [], en0_, False, False

    def chemistry(self):
        w = self

        def disable(it_, species=None, reactions=None):
            xs = species if isinstance(species, (list, tuple, set)) else [species]
            ps = [position(x) for x in xs]
            if w.state is not en0_ or reactions not in (None, []) or any(p is None for p in ps):
                raise Unsupported('disable')
            w.log.append(('disable', ps))
            if it_.branch(IMPOSSIBLE):
                raise ip.PyExc(it_.cls('plaschem.chemistry', 'ChemistryDisableError'), ('x',))
            w.state = en1_

        def load(it_, path):
            if not isinstance(path, Path):
                raise Unsupported('path')
            w.log.append(('load', path))
            p = path.parts
            at = p[-2] if len(p) == len(DIR.parts) + 2 and Path(p[:-2]).is_(*DIR.parts) and p[-1] == 'chemistry_attributes.yaml' else None
            at = at.args[1] if isinstance(at, T) and at.op == 'app' and at.args[0] == 'hrun' else None
            w.state = (lambda i: saved_(at, i)) if at is not None else (lambda i: B('restored_from_elsewhere', i))

        def selected(a, k):
            a = dict(zip(('disabled', 'special', 'protected'), a), **k)
            if set(a) - {'special', 'disabled', 'protected'} or any(not isinstance(x, bool) for x in a.values()) or a.get('disabled', False) or a.get('special', False):
                raise Unsupported('arguments of a getter')
            st = w.state
            return lambda i: and_(st(i), not_(special_(i)) if w.special else TRUE, TRUE if a.get('protected', True) else not_(prot_(i)))

        def species(it_, *a, **k):
            return it_.new(NameSeries(selected(a, k)))

        def count(it_, *a, **k):
            return Sub(SP, selected(a, k)).length

        def reset(it_):
            w.log.append(('reset',))
            w.state = lambda i: TRUE
        ns = dict(reset=reset, get_disabled_species=lambda it_, *a: Counted(const('disabled_species')), get_disabled_reactions=lambda it_, *a: Counted(const('disabled_reactions')), disable=disable, load_chemistry_attributes=load, get_species_name=species, num_species=count)
        return Stub('Chemistry', {n: Native(f, n) for n, f in ns.items()})

    def model(self):
        w = self

        def run(it_, *a, **k):
            if a or set(k) - {'run_id', 'log_to', 'verbose'}:
                raise Unsupported('arguments of a run')
            w.log.append(('run', k.get('run_id'), k.get('log_to'), w.state))
            if it_.branch(FAILS):
                raise ip.PyExc(it_.cls('pygmo_fwork.pygmol.exceptions', 'ModelSolutionError'), ('x',))
            if it_.branch(INTERRUPTED):
                raise ip.PyExc(KeyboardInterrupt, ())
            w.ran = True

        def solution(it_):
            if not w.ran:
                raise ip.PyExc(it_.cls('pygmo_fwork.exceptions', 'BackendRunUnsuccessfulError'), ('x',))
            return Stub('the new solution', {})
        return Stub('GlobalModel', dict(model=Stub('Model', {'chemistry': self.chemistry()}), run=Native(run, 'run'), get_solution=Native(solution, 'get_solution')))

    def difference(self, which, outs, times):
        w = self

        def get(kind):
            def g(it_, sol, ret, at, *a, **k):
                if a or k or getattr(sol, 'name', '') != 'the new solution' or ret is not outs or at is not times:
                    raise Unsupported('another comparison')
                return app('error', (lift(which), lift(kind)))
            return Native(g, 'get_error_' + kind)
        return Stub('difference to ' + which, dict(get_error_max=get('max'), get_error_rms=get('rms')))


class Counted:
    def __init__(self, n):
        self.n = n

    def sym_len(self, it):
        return self.n


class NameSeries:
    """the names of some species, as a Series"""
    libtype = 'pandas.Series'

    def __init__(self, pred):
        self.pred = pred

    def sym_set(self, it):
        return it.new(Names(self.pred))

    def sym_len(self, it):
        return Sub(SP, self.pred).length

    def sym_list(self, it):
        return self

    def sym_iter(self, it):
        return Sub(SP, self.pred), name_

    def sym_getattr(self, it, name):
        if name in ('values', 'tolist', 'copy'):
            return self if name == 'values' else Native(lambda it_: self, name)
        raise Unsupported('names.' + name)


class Listed:
    """the important outputs: texts, among them the names of some species"""
    libtype = 'list'

    def sym_set(self, it):
        return it.new(Names(imp_, True))

    def sym_contains(self, it, x):
        i = position(x)
        if i is None:
            raise Unsupported('output')
        return it.unbool(imp_(i))


ERR = lambda which, kind: app('error', (lift(which), lift(kind)))


class Reduction:
    def __init__(self, s):
        self.s = s

    def skip(self, w):
        return self.s.only and self.s.only not in w

    def start(self, target, contracts=None):
        s = self.s
        c = {'SolutionsDiff.__init__': lambda it_, o, sol, *a: o.attrs.update(solution=getattr(sol, 'name', '?'))}
        c.update(contracts or {})
        it = s.interp(c)
        it.target = target
        it.symbolic_texts = True
        pdm.install(it)
        path = ip.Lib('os.path', {'join': Native(Path.join, 'join')})
        it.libs['os'] = ip.Lib('os', {'path': path, 'remove': Native(lambda it_, p: it_.world.log.append(('deleted', p)), 'remove')})
        it.libs['os.path'] = path
        it.libs['yaml'] = ip.Lib('yaml', {n: Native(lambda it_, f, *a, **k: f, n) for n in ('load', 'safe_load')})
        it.libs['yaml'].ns['FullLoader'] = it.libs['yaml'].ns['SafeLoader'] = None
        it.simple_contexts = True
        lib.BUILTINS['open'] = Native(lambda it_, p, *a, **k: it_.world.meta if isinstance(p, Path) and p.is_(*DIR.parts, 'meta.yaml') else raise_(Unsupported('file')), 'open')
        return it

    def object(self, it, w, **kw):
        o = it.new(ip.SObj(it.cls(*CLS)))
        outs, times = Listed(), Stub('the important times', {})
        w.meta = {'max_error': const('max_error')}
        left = Names(lambda i: and_(en0_(i), not_(imp_(i)), not_(prot_(i))))
        o.attrs.update(model=w.model(), important_outputs=outs, important_times=times, max_error=const('max_error'), meta=w.meta, verbose_level=const('verbosity'),
                       reduction_run_dir=DIR, all_species=Names(lambda i: TRUE), all_eligible_species=Names(lambda i: and_(not_(imp_(i)), not_(prot_(i)))),
                       species_remove_attempted=Names(att_, n=NATT), left_eligible_species=left, reduction_history=History(w),
                       sol_dif_base=w.difference('base', outs, times), sol_dif_last=w.difference('last', outs, times),
                       compress_logs=True, log_solution=True, log_rates=False, log_wall_fluxes=False, reduction_run_id='the run')
        o.attrs.update(kw)
        it.world = w
        return o

    def hyps(self, backtrack):
        i, k = const('i!', 'I'), const('k!', 'I')
        return [
            # disabling: the species and perhaps others, never a protected one (C01)
            all_(SP, lambda i: implies(en1_(i), en0_(i))), not_(en1_(S_)), all_(SP, lambda i: implies(and_(en0_(i), prot_(i)), en1_(i))),
            # the chemistry is in the state of the last accepted run
            all_(SP, lambda i: eq(en0_(i), saved_(R0, i))),
            H.member(R0), self.accepted(R0, backtrack), SP.member(S_), le(num(0), NATT)]

    @staticmethod
    def accepted(k, backtrack):
        return and_(ok_(k), le(err_(k), LIMIT)) if backtrack else ok_(k)

    # ---- one removal
    def remove_one(self):
        s = self.s
        t = 'ReductionIterator.remove_one_species_and_run'
        for backtrack in (True, False):
            for which in ('', 'no base run', 'not removable'):
                name = '{}[{}{}]'.format(t, 'backtracking' if backtrack else 'not backtracking', ', ' + which if which else '')
                if self.skip(name):
                    continue
                it = self.start(t, {'ReductionIterator._run_model': lambda it_, o, run_id: it_.call(it_.getattr(o.attrs['model'], 'run'), [], dict(run_id=run_id, log_to=DIR))})

                def go():
                    w = World(it)
                    o = self.object(it, w)
                    if which == 'no base run':
                        o.attrs['reduction_history'] = History(w, True)
                    e = r = None
                    before = o.attrs['sol_dif_base'], o.attrs['sol_dif_last']
                    try:
                        r = it.call(it.getattr(o, t.split('.')[1]), [name_(S_)], dict(sp_ranking_score=const('score'), backtrack_if_over_max_error=backtrack))
                    except ip.PyExc as x:
                        e = x
                    return e, r, o, w, before
                removable = and_(en0_(S_), not_(imp_(S_)), not_(prot_(S_)))
                hyps = self.hyps(backtrack) + [not_(removable) if which == 'not removable' else and_(removable, not_(att_(S_)))]
                outs = s.explore(it, name, go, hyps)
                if outs is None:
                    continue
                s.under_contract(t)
                for n, (c, v) in enumerate(outs):
                    nm = '{}[{}]'.format(name, n)
                    if v[0] == 'raise':
                        s.check(nm + '#no exception', FALSE, c, FILE)
                        continue
                    e, r, o, w, before = v[1]
                    if which:
                        s.check(nm + '#refused', TRUE if e is not None and excname(e) == 'ReductionRunError' else FALSE, c, FILE)
                        continue
                    if e is not None:
                        s.check(nm + '#no exception', FALSE, c, FILE)
                        continue
                    self.removal(nm, c, r, o, w, before, backtrack)

    def removal(self, nm, c, r, o, w, before, backtrack):
        s = self.s
        c = list(c)
        i, k = SP.new('i'), H.new('k')
        lost = any_(SP, lambda i: and_(imp_(i), en0_(i), not_(en1_(i))))
        possible = and_(not_(IMPOSSIBLE), not_(lost))
        success = and_(possible, not_(FAILS), not_(INTERRUPTED))
        accepted = and_(success, le(ERR('base', 'max'), LIMIT)) if backtrack else success
        label = add(NATT, num(1))
        run_id = app('junk_text {:02d}_disabled_{}', (label, name_(S_)), 'S')
        ch = lambda what, goal, extra=(), junk=('junk',): s.check(nm + '#' + what, goal, c + list(extra), FILE, junk)
        yes = lambda b: TRUE if b else FALSE
        # the state to return to
        for m in w.selected:
            ch('returns to the last accepted run', eq(m(k), self.accepted(k, backtrack)), [H.member(k)])
        ch('a state to return to', yes(len(w.selected) >= 1 or not [x for x in w.log if x[0] == 'load']))
        # what was done
        dis, runs = [x for x in w.log if x[0] == 'disable'], [x for x in w.log if x[0] == 'run']
        ch('one removal tried', yes(len(dis) == 1 and len(dis[0][1]) == 1))
        if dis and len(dis[0][1]) == 1:
            ch('the species asked for', eq(dis[0][1][0], S_))
        ch('the model runs if the removal is possible', eq(yes(runs), possible))
        ch('one run', yes(len(runs) <= 1))
        for x in runs:
            ch('runs the chemistry without it', eq(x[3](i), en1_(i)), [SP.member(i)])
            if isinstance(x[1], T):
                ch('the name of the run', eq(x[1], run_id), junk=('junk',))
            else:
                s.unsup(nm, 'name of the run')
            ch('logged to the directory of the reduction', yes(isinstance(x[2], Path) and x[2].is_(*DIR.parts)))
        # the state afterwards
        ch('accepted: without the species; else back to the last accepted', eq(w.state(i), ite(accepted, en1_(i), saved_(R0, i))), [SP.member(i)])
        a = o.attrs
        left, att = a['left_eligible_species'], a['species_remove_attempted']
        if not isinstance(left, Names) or not isinstance(att, Names):
            return s.unsup(nm, 'sets of species')
        ch('removable species left', eq(left.pred(i), and_(ite(accepted, en1_(i), en0_(i)), not_(imp_(i)), not_(prot_(i)))), [SP.member(i)])
        ch('tried', eq(att.pred(i), or_(att_(i), eq(i, S_))), [SP.member(i)])
        ch('number of attempts', eq(lift(att.sym_len(w.it)), label))
        ch('compared to the same full model', yes(a['sol_dif_base'] is before[0]))
        last = a['sol_dif_last']
        if last is before[1]:
            ch('the last accepted model', not_(accepted))
        else:
            ch('the last accepted model', and_(accepted, yes(isinstance(last, ip.SObj) and last.attrs.get('solution') == 'the new solution')))
        # the record
        h = a['reduction_history']
        if not isinstance(h, History):
            return s.unsup(nm, 'history')
        ch('one row', yes(len(h.rows) == 1))
        if len(h.rows) != 1:
            return
        (l, row), = h.rows.items()
        ch('row number', eq(l, label))
        removed = lambda i: and_(en0_(i), not_(en1_(i)), not_(eq(i, S_)))
        self.cell(nm, c, row, 'species', TRUE, name_(S_))
        self.cell(nm, c, row, 'ranking_score', TRUE, const('score'))
        self.cell(nm, c, row, 'rm_success', TRUE, success)
        self.cell(nm, c, row, 'run_id', success, run_id)
        for which in ('base', 'last'):
            for kind in ('max', 'rms'):
                self.cell(nm, c, row, 'error_{}_{}'.format(which, kind), success, ERR(which, kind))
        for v, st in ((success, en1_), (not_(success), lambda i: en0_(i))):
            n_left = Sub(SP, st).length
            self.cell(nm + ('[succeeded]' if st is en1_ else '[not]'), c + [v] + same_length(w, row), row, 'total_left', TRUE, n_left)
            self.cell(nm + ('[succeeded]' if st is en1_ else '[not]'), c + [v] + same_length(w, row), row, 'total_removed', TRUE, add(SP.length, neg(n_left)))
        some = and_(success, any_(SP, removed))
        j = row.get('rm_additional')
        ch('species removed with it: recorded if any', eq(yes(isinstance(j, Joined)), some))
        if isinstance(j, Joined):
            ch('species removed with it', and_(eq(j.pred(i), removed(i)), yes(j.sep == ', ')), [SP.member(i)])
        elif j is not None and not absent(j):
            s.unsup(nm, 'rm_additional')
        saved = [x for x in w.log if x[0] == 'saved']
        ch('history saved', yes(saved and isinstance(saved[-1][1], Path) and saved[-1][1].is_(*DIR.parts, 'reduction_history.csv') and saved[-1][2]))
        if saved:
            ch('complete when saved', yes(list(saved[-1][3]) == list(h.rows) and set(saved[-1][3][l]) == set(row) and all(saved[-1][3][l][q] is row[q] for q in row)))
        if isinstance(r, RowOf):
            ch('returns a copy of the row', yes(r.copied and set(r.cells) == set(row) and all(r.cells[q] is row[q] for q in row)))
        else:
            s.unsup(nm, 'result')

    def cell(self, nm, c, row, col, there, want):
        s = self.s
        v = row.get(col)
        nm = '{}#{}'.format(nm, col)
        if v is None or absent(v):
            s.check(nm, not_(there), c, FILE)
            return
        if not isinstance(v, (T, int, bool, str)):
            return s.unsup(nm, 'cell')
        s.check(nm + ' recorded', there, c, FILE)
        v = lift(v)
        if v.sort == 'B' or want.sort == 'B':
            v, want = truth(v) if v.sort != 'B' else v, want
        s.check(nm, eq(v, want), list(c) + [there], FILE)


    # ---- the first run
    def base_case(self):
        s = self.s
        t = 'ReductionIterator.run_base_case'
        for again in (False, True):
            name = t + ('[again]' if again else '')
            if self.skip(name):
                continue
            it = self.start(t, self.run_model())

            def go():
                w = World(it)
                o = self.object(it, w, sol_dif_base=None, sol_dif_last=None, species_remove_attempted=Names(lambda i: FALSE, n=num(0)))
                if not again:
                    o.attrs['reduction_history'] = History(w, True)
                e = None
                try:
                    it.call(it.getattr(o, 'run_base_case'), [], {})
                except ip.PyExc as x:
                    e = x
                return e, o, w
            outs = s.explore(it, name, go, [le(num(0), NATT)])
            if outs is None:
                continue
            s.under_contract(t)
            for n, (c, v) in enumerate(outs):
                nm = '{}[{}]'.format(name, n)
                if v[0] == 'raise':
                    s.check(nm + '#no exception', FALSE, c, FILE)
                    continue
                e, o, w = v[1]
                ch = lambda what, ok: s.check(nm + '#' + what, lift(ok), c, FILE)
                runs = [x for x in w.log if x[0] == 'run']
                if again:
                    ch('refused', e is not None and excname(e) == 'ReductionRunError' and not runs)
                    continue
                if e is not None:
                    s.check(nm + '#an error only if the model fails', or_(FAILS, INTERRUPTED), c, FILE)
                    continue
                ch('one run of the full model', len(runs) == 1 and runs[0][1] == '00_full_chemistry' and isinstance(runs[0][2], Path) and runs[0][2].is_(*DIR.parts))
                for x in runs:
                    i = SP.new('i')
                    s.check(nm + '#the whole chemistry', eq(x[3](i), en0_(i)), list(c) + [SP.member(i)], FILE)
                for q in ('sol_dif_base', 'sol_dif_last'):
                    d = o.attrs[q]
                    ch(q + ': of the full model', isinstance(d, ip.SObj) and d.attrs.get('solution') == 'the new solution')
                h = o.attrs['reduction_history']
                ch('one row, the first', isinstance(h, History) and list(h.rows) == [num(0)])
                if isinstance(h, History) and list(h.rows) == [num(0)]:
                    row = h.rows[num(0)]
                    ch('name of the run', row.get('run_id') == '00_full_chemistry')
                    for q in ('species', 'rm_additional', 'ranking_score'):
                        ch(q, row.get(q) is None or absent(row[q]))
                    self.cell(nm, c, row, 'rm_success', TRUE, TRUE)
                    for q in ('error_base_max', 'error_base_rms', 'error_last_max', 'error_last_rms', 'total_removed'):
                        self.cell(nm, c, row, q, TRUE, num(0))
                    self.cell(nm, c, row, 'total_left', TRUE, SP.length)
                    saved = [x for x in w.log if x[0] == 'saved']
                    ch('history saved', saved and isinstance(saved[-1][1], Path) and saved[-1][1].is_(*DIR.parts, 'reduction_history.csv') and saved[-1][2] and saved[-1][3] == {num(0): row})

    @staticmethod
    def run_model():
        return {'ReductionIterator._run_model': lambda it_, o, run_id: it_.call(it_.getattr(o.attrs['model'], 'run'), [], dict(run_id=run_id, log_to=DIR))}

    def model_run(self):
        """_run_model: one run of the present chemistry under the name given; of its logs, nothing but solution, rates and wall fluxes is touched"""
        s = self.s
        t = 'ReductionIterator._run_model'
        if self.skip(t):
            return
        for n in range(16):
            fl = [bool(n >> k & 1) for k in range(4)]
            it = self.start(t, {'ResultsParser.compress_solution': lambda it_, x, **k: x})

            def log_file(it_, p, **k):
                it_.world.log.append(('read', p))
                return Stub('a log', {'to_csv': Native(lambda it2, q, **k2: it2.world.log.append(('written', q)), 'to_csv')})
            it.libs['pandas'].ns['read_csv'] = Native(log_file, 'read_csv')

            def go():
                w = World(it)
                o = self.object(it, w, compress_logs=fl[0], log_solution=fl[1], log_rates=fl[2], log_wall_fluxes=fl[3])
                e = None
                try:
                    it.call(it.getattr(o, '_run_model'), ['the id'], {})
                except ip.PyExc as x:
                    e = x
                return e, w
            name = '{}[{}]'.format(t, n)
            outs = s.explore(it, name, go, [])
            if outs is None:
                continue
            s.under_contract(t)
            for k, (c, v) in enumerate(outs):
                nm = '{}[{}]'.format(name, k)
                if v[0] == 'raise':
                    s.check(nm + '#no exception', FALSE, c, FILE)
                    continue
                e, w = v[1]
                runs = [x for x in w.log if x[0] == 'run']
                s.check(nm + '#one run', lift(len(runs) == 1 and runs[0][1] == 'the id' and isinstance(runs[0][2], Path) and runs[0][2].is_(*DIR.parts)), c, FILE)
                s.check(nm + '#an error exactly if the run ends with one', eq(lift(e is not None), or_(FAILS, INTERRUPTED)), c, FILE)
                if e is not None:
                    continue
                paths = [DIR.parts + ['the id', x] for x in ('solution.csv', 'rates.csv', 'wall_fluxes.csv')]
                touched = [x for x in w.log if x[0] in ('deleted', 'written', 'read')]
                s.check(nm + '#only logs of this run', lift(all(isinstance(x[1], Path) and x[1].parts in paths for x in touched)), c, FILE)
                for q, wanted in zip(paths, fl[1:]):
                    gone = [x for x in touched if x[0] == 'deleted' and isinstance(x[1], Path) and x[1].parts == q]
                    s.check(nm + '#{} {}'.format(q[-1], 'kept' if wanted else 'not kept'), lift(len(gone) == (0 if wanted else 1)), c, FILE)

    # ---- what may be removed
    def init(self):
        s = self.s
        t = 'ReductionIterator.__init__'
        IMP = pdm.axis('rimps')
        itext = lambda j: app('rimptext', (j,), 'S')
        if self.skip(t):
            return
        it = self.start(t, {'ReductionIterator.make_dir_structure_if_clear': lambda it_, o: None})
        lib.BUILTINS['round'] = Native(lambda it_, x, n=0: app('rounded', (lift(x), lift(n))), 'round')

        def set_of_texts(it_, a):
            d = a.dims[0] if len(a.dims) == 1 else None
            if isinstance(d, (Axis, Sub)) and d.base is SP:
                j = d.new('s')
                if position(a.at(j)) is j:
                    return it_.new(Names(d.pred))
        it.set_of_texts = set_of_texts

        def frame(it_, data=None, index=None, columns=None, dtype=None, copy=None):
            if data is not None or index is not None or not isinstance(columns, (list, tuple)):
                raise Unsupported('data frame')
            h = History(it_.world, True)
            h.columns = list(columns)
            return it_.new(h)
        it.libs['pandas'].ns['DataFrame'] = Native(frame, 'DataFrame')

        def go():
            w = World(it)
            it.world = w
            w.special = True
            w.meta = {}
            o = it.new(ip.SObj(it.cls(*CLS)))
            outs = it.new(Arr([IMP], itext, kind='list', dtype='S'))
            times = it.new(Arr([Axis('rtimes')], lambda j: app('rtime', (j,)), kind='list'))
            it.call(it.getattr(o, '__init__'), [], dict(model=w.model(), reduction_run_id='the run', important_outputs=outs, important_times=times,
                                                       max_error=const('max_error'), reduction_results_dir=Path(['results'])))
            return o, w
        SPN = lambda i: and_(en0_(i), not_(special_(i)), not_(prot_(i)), not_(any_(IMP, lambda j: eq(itext(j), name_(i)))))
        outs = s.explore(it, t, go, [])
        if outs is None:
            return
        s.under_contract(t)
        i = SP.new('i')
        for n, (c, v) in enumerate(outs):
            nm = '{}[{}]'.format(t, n)
            if v[0] == 'raise':
                s.check(nm + '#refused only if nothing can be removed', not_(any_(SP, SPN)), c, FILE)
                s.check(nm + '#documented error', lift(excname(v[1]) == 'ReductionInitError'), c, FILE)
                continue
            o, w = v[1]
            a = o.attrs
            s.check(nm + '#refused if nothing can be removed', any_(SP, SPN), c, FILE)
            l, al, at = (a.get(q) for q in ('left_eligible_species', 'all_eligible_species', 'species_remove_attempted'))
            if isinstance(at, set) and not at:
                at = Names(lambda i: FALSE)
            if not all(isinstance(x, Names) for x in (l, al, at)):
                s.unsup(nm, 'sets of species')
                continue
            h = list(c) + [SP.member(i)]
            s.check(nm + '#removable: neither protected nor important', eq(al.pred(i), SPN(i)), h, FILE)
            s.check(nm + '#all of them left', eq(l.pred(i), SPN(i)), h, FILE)
            s.check(nm + '#nothing tried', not_(at.pred(i)), h, FILE)
            hist = a.get('reduction_history')
            s.check(nm + '#history without rows', lift(isinstance(hist, History) and hist.empty and not hist.rows and set(COLUMNS) <= set(getattr(hist, 'columns', ()))), c, FILE)
            s.check(nm + '#no solution yet', lift(a.get('sol_dif_base', 0) is None and a.get('sol_dif_last', 0) is None), c, FILE)
            s.check(nm + '#error limit', eq(lift(a['max_error']), const('max_error')), c, FILE)

    # ---- the order of the removals
    def order(self):
        s = self.s
        t = 'ReductionIterator.run_reduction'
        for dynamic in (False, True):
            for disabled in (False, True):
                name = '{}[{}{}]'.format(t, 'dynamic ranking' if dynamic else 'one ranking', ', something disabled' if disabled else '')
                if self.skip(name):
                    continue
                it = self.start(t, {'ReductionIterator.run_base_case': lambda it_, o: it_.world.log.append(('base',)),
                                    'ReductionIterator.remove_one_species_and_run': lambda it_, o, *a, **k: it_.world.remove(it_, o, *a, **k)})
                it.while_contract = loop_contract

                def go():
                    w = RunWorld(it)
                    o = self.object(it, w)
                    o.attrs['species_remove_attempted'] = Names(lambda i: FALSE, n=num(0))
                    e = None
                    rank = Native(lambda it_, m: w.ranking(it_, m, o), 'ranking') if dynamic else Ranking(w, 'given')
                    try:
                        it.call(it.getattr(o, 'run_reduction'), [rank], dict(max_unsuccess_streak=MAX_STREAK))
                    except Cut:
                        w.cut = True
                    except Closed:
                        return None
                    except ip.PyExc as x:
                        e = x
                    return e, o, w
                none = and_(eq(const('disabled_species'), num(0)), eq(const('disabled_reactions'), num(0)))
                hyps = [not_(eq(ERROR, lib.NAN)), not_(none) if disabled else none, le(num(0), MAX_STREAK), le(num(0), const('disabled_species')), le(num(0), const('disabled_reactions'))]
                outs = s.explore(it, name, go, hyps)
                if outs is None:
                    continue
                s.under_contract(t)
                for n, (c, v) in enumerate(outs):
                    nm = '{}[{}]'.format(name, n)
                    if v[0] == 'raise':
                        s.check(nm + '#no exception', FALSE, c, FILE)
                        continue
                    if v[1] is None:
                        continue
                    e, o, w = v[1]
                    if disabled:
                        s.check(nm + '#refused', lift(e is not None and not w.log), c, FILE)
                        continue
                    if e is not None:
                        s.check(nm + '#no exception', FALSE, c, FILE)
                        continue
                    self.one_round(nm, c, o, w, dynamic)

    def one_round(self, nm, c, o, w, dynamic):
        s = self.s
        ch = lambda what, goal, extra=(): s.check(nm + '#' + what, lift(goal), list(c) + list(extra), FILE)
        if w.head is None:
            return s.unsup(nm, 'no loop')
        hd = w.head
        kinds = [x[0] for x in w.log]
        calls, fresh = [x for x in w.log if x[0] == 'remove'], [x for x in w.log if x[0] == 'ranked']
        ch('ranked after the removal', lift(not dynamic or 'ranked' in kinds[1:] and (not calls or kinds.index('ranked') < kinds.index('remove') and (len(fresh) < 2 or kinds[-2:] == ['remove', 'ranked'] or kinds[-3:-1] == ['remove', 'ranked']))))
        ch('the full model first', bool(kinds) and kinds[0] == 'base' and kinds.count('base') == 1)
        ch('one removal per round', len(calls) <= 1)
        for kind, goal in w.obligations:
            ch(kind, goal)
        att0, left0 = hd['att'], hd['left']
        # q*: any place of the ranking
        done = lambda q, att, left: or_(att(ranked(hd['which'], q)), not_(left(ranked(hd['which'], q))))
        left1, att1 = o.attrs['left_eligible_species'].pred, o.attrs['species_remove_attempted'].pred
        for x in calls:
            _, sp, score, back, (a, l) = x
            k = sp.args[2] if sp.op == 'app' and sp.args[0] == 'ranked' and sp.args[1] is lift(hd['which']) else None
            if k is None:
                ch('a species of the current ranking', False)
                continue
            ch('removable and not tried before', and_(l(sp), not_(a(sp))))
            ch('every one of lower rank is tried or not removable', implies(lt(QS, k), done(QS, att0, left0)))
            ch('with its score', eq(lift(score), app('score', (lift(hd['which']), k))))
            ch('back to the last accepted if over the limit', back is True)
        over, failed = and_(SUCCEEDS, lt(LIMIT, ERROR)), not_(SUCCEEDS)
        streak = hd['streak'] if not calls else ite(failed, hd['streak'], ite(over, add(hd['streak'], num(1)), num(0)))
        i = SP.new('i')
        some_left = any_(SP, left1)
        if w.cut:
            # the next round
            ch('goes on only if allowed', and_(le(streak, MAX_STREAK), some_left) if calls else TRUE)
            end = w.tail
            ch('removals in a row over the limit', eq(lift(end['streak']), streak))
            r = end['ranking']
            if dynamic:
                acc = and_(SUCCEEDS, not_(over)) if calls else FALSE
                ch('ranked anew after every accepted removal', eq(lift(r.which != hd['which']), acc))
                ch('one new ranking at most', lift(len(fresh) <= 2))
            else:
                ch('the ranking given', r.which == hd['which'])
            if r.which == hd['which']:
                ch('nothing removable passed over', implies(lt(QS, r.p), done(QS, att1, left1)))
                ch('goes on in the ranking', and_(lt(hd['p'], r.p), le(r.p, length(r.which))))
            else:
                ch('a new ranking from its start', eq(r.p, num(0)))
        else:
            ch('the chemistry is reset at the end', bool(kinds) and kinds[-1] == 'reset' and kinds.count('reset') == 1)
            nothing = implies(lt(QS, length(hd['which'])), done(QS, att1, left1))
            ch('stops only if too many in a row, or nothing is left', or_(lt(MAX_STREAK, streak) if calls else FALSE, not_(some_left), nothing))


COLUMNS = ('run_id', 'species', 'ranking_score', 'rm_success', 'rm_additional', 'total_removed', 'total_left', 'error_base_max', 'error_base_rms', 'error_last_max', 'error_last_rms')
MAX_STREAK = const('max_streak')
QS = const('any_place')
SUCCEEDS, ERROR = const('removal_succeeds', 'B'), const('error_of_it')
ranked = lambda which, q: app('ranked', (lift(which), lift(q)), 'I')
length = lambda which: app('ranking_length', (lift(which),))


def whole(x, *others):
    """whole numbers: at most one less, or at least"""
    return [or_(le(add(x, num(1)), y), le(y, x)) for y in others] + [or_(le(add(y, num(1)), x), le(x, y)) for y in others]


class Closed(Exception):
    """one more round of a loop in a round"""


class Cut(Exception):
    """the end of an arbitrary round"""


class Ranking:
    """a sorted ranking of which p species were taken out"""
    libtype = 'pandas.Series'

    def __init__(self, w, which, p=num(0)):
        self.w, self.which, self.p = w, which, p

    def sym_len(self, it):
        return add(length(self.which), neg(self.p))

    def sym_truth(self, it):
        raise Unsupported('truth of a Series')

    def sym_getattr(self, it, name):
        if name == 'copy':
            return Native(lambda it_, deep=True: it_.new(Ranking(self.w, self.which, self.p)), 'copy')
        if name == 'values':
            return Scores(self)
        if name == 'index':
            return FirstLabel(self)
        if name == 'empty':
            return it.unbool(eq(self.sym_len(it), num(0)))
        if name == 'pop':
            def pop(it_, label):
                sp = position(force(it_, label))
                if sp is None or sp is not ranked(self.which, self.p):
                    raise Unsupported('species taken out of the ranking')
                v = app('score', (lift(self.which), self.p))
                self.p = add(self.p, num(1))
                return v
            return Native(pop, 'pop')
        raise Unsupported('ranking.' + name)


class FirstLabel:
    def __init__(self, r):
        self.r = r

    def sym_getitem(self, it, k):
        if lift(k) is not num(0):
            raise Unsupported('label of the ranking')
        if not it.branch(lt(self.r.p, length(self.r.which))):
            it.raise_(IndexError)
        return name_(ranked(self.r.which, self.r.p))


class Scores:
    """the scores of a ranking; sorted: they are in ascending order (precondition)"""

    def __init__(self, r):
        self.r = r

    def sym_list(self, it):
        return self

    def sym_sorted(self, it):
        return self

    def sym_compare(self, it, op, other, refl):
        if not isinstance(other, Scores) or other.r is not self.r or not isinstance(op, (ast.Eq, ast.NotEq)):
            raise Unsupported('comparison of scores')
        return isinstance(op, ast.Eq)


class RunWorld(World):
    def __init__(self, it):
        super().__init__(it)
        self.head = self.tail = None
        self.cut, self.obligations, self.depth, self.rankings, self.called = False, [], 0, 0, False

    def ranking(self, it, m, o):
        self.rankings += 1
        self.log.append(('ranked',))
        r = it.new(Ranking(self, 'ranking {}'.format(self.rankings)))
        it.path.assume(le(num(0), length(r.which)))
        return r

    def remove(self, it, o, species, sp_ranking_score=None, backtrack_if_over_max_error=False):
        sp = position(force(it, species))
        if sp is None or self.called:
            raise Unsupported('removal')
        self.called = True
        left, att = o.attrs['left_eligible_species'], o.attrs['species_remove_attempted']
        p, q = left.pred, att.pred
        self.log.append(('remove', sp, sp_ranking_score, backtrack_if_over_max_error, (q, p)))
        att.pred, att.n = (lambda i: or_(q(i), eq(i, sp))), None
        if not it.branch(SUCCEEDS):
            return ResultRow(float('nan'))
        if not it.branch(lt(LIMIT, ERROR)):
            left.pred = lambda i: and_(p(i), not_(eq(i, sp)), B('stays', i))
        return ResultRow(ERROR)


class ResultRow:
    def __init__(self, e):
        self.e = e

    def sym_getitem(self, it, k):
        if k != 'error_base_max':
            raise Unsupported('cell of the result')
        return self.e


def loop_contract(it, st, env):
    """the loop of a reduction: an arbitrary round; the loop in a round that takes more of the ranking: an arbitrary part of it"""
    w = it.world
    if w.depth:
        return inner(it, st, env)
    w.depth = 1
    stored, _ = loops.stored_names(st.body)
    state = {n: env.vars[n] for n in stored if n in env.vars}
    rs = [(n, v) for n, v in env.vars.items() if isinstance(v, Ranking) and v.which]
    rs = [(n, v) for n, v in rs if n in stored or any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == n for x in ast.walk(st))]
    rs = [(n, v) for n, v in rs if not any(n == a.arg for a in env.node.args.args)] or rs
    nums = [n for n, v in state.items() if isinstance(v, (int, T)) and not isinstance(v, bool)]
    if len(rs) != 1 or len(nums) != 1 or set(state) - {rs[0][0]} - set(nums):
        raise Unsupported('what the rounds change')
    (rname, r), sname = rs[0], nums[0]
    # the invariant at the start
    w.obligations += [('starts at the start of the ranking', eq(r.p, num(0))), ('no removal in a row yet', eq(lift(state[sname]), num(0)))]
    o = env.vars[env.node.args.args[0].arg]
    # an arbitrary round
    p, streak = const('place'), const('streak')
    att, left = (lambda i: B('tried', i)), (lambda i: B('removable', i))
    r.p = p
    env.vars[sname] = streak
    o.attrs['species_remove_attempted'], o.attrs['left_eligible_species'] = Names(att), Names(left)
    w.head = dict(ranking=r, which=r.which, p=p, streak=streak, att=att, left=left)
    for f in (le(num(0), p), le(p, length(r.which)), le(num(0), streak), le(streak, MAX_STREAK), le(num(0), QS), *whole(p, QS, length(r.which)),
              implies(lt(QS, p), or_(att(ranked(r.which, QS)), not_(left(ranked(r.which, QS)))))):
        it.path.assume(f)
    if not it.truth(it.eval(st.test, env)):
        it.exec_block(st.orelse, env)
        return
    try:
        it.exec_block(st.body, env)
    except ip.Break:
        return
    except ip.Continue:
        pass
    w.tail = dict(streak=env.vars[sname], ranking=env.vars[rname])
    if not isinstance(env.vars[rname], Ranking):
        raise Unsupported('ranking')
    raise Cut()


def inner(it, st, env):
    """takes more of the ranking: what it sets are functions of the place in the ranking, and what it passes over satisfies its condition"""
    w = it.world
    stored, _ = loops.stored_names(st.body)
    o = env.vars[env.node.args.args[0].arg]
    r = w.head['ranking']
    p0, P = r.p, w.head['p']
    sets = o.attrs['species_remove_attempted'], o.attrs['left_eligible_species']
    was = [x.pred for x in sets], len(w.log)
    if p0 is not add(P, num(1)):
        raise Unsupported('loop in a round')
    # the condition as a function of the place: evaluated for an arbitrary one
    q = const('further_place_{}'.format(next(loops.values_n)))
    vals = {n: env.vars[n] for n in stored if n in env.vars}
    if any(not isinstance(v, (T, bool)) for v in vals.values()):
        raise Unsupported('loop in a round')
    shift = lambda v, to: subst(v, {P: add(to, num(-1))}) if isinstance(v, T) else v

    def cond(to):
        e = ip.Env(env.module, dict(env.vars), env.parent, env.node)
        e.vars.update({n: shift(v, to) for n, v in vals.items()})
        c = it.eval(st.test, e)
        return c if isinstance(c, T) else lift(c)
    # zero or more rounds of it: now at place q >= p0; those at p0 ... q - 1 (of which the value set is) satisfied the condition
    it.path.assume(le(p0, q))
    it.path.assume(le(q, length(r.which)))
    for x in whole(q, QS, length(r.which), P):
        it.path.assume(x)
    it.path.assume(implies(and_(le(p0, add(QS, num(1))), lt(QS, add(q, num(-1)))), cond(add(QS, num(1)))))
    r.p = q
    env.vars.update({n: shift(v, q) for n, v in vals.items()})
    if not it.truth(it.eval(st.test, env)):
        it.exec_block(st.orelse, env)
        return
    try:
        it.exec_block(st.body, env)
    except ip.Break:
        return
    except ip.Continue:
        pass
    # one more place
    if r.p is not add(q, num(1)):
        raise Unsupported('loop in a round')
    for n, v in vals.items():
        if lift(env.vars[n]) is not lift(shift(v, r.p)):
            raise Unsupported('what a loop in a round sets')
    if [x.pred for x in sets] != was[0] or len(w.log) != was[1]:
        raise Unsupported('loop in a round')
    raise Closed()


def absent(v):
    return v is None or isinstance(v, float) and v != v or isinstance(v, T) and pdm.isnan(v) is TRUE


def same_length(w, row):
    """equal sets have equal numbers of elements: of the state the chemistry returned to and the state it was in (an instance of extensionality)"""
    return [eq(Sub(SP, lambda i: saved_(R0, i)).length, Sub(SP, lambda i: en0_(i)).length)]


def raise_(e):
    raise e


def generate(s):
    s.assumptions |= {'Chemistry.disable removes the species and perhaps others, never a protected one, or refuses and changes nothing (C01)',
                      'a run saves the attributes of the chemistry it ran, and loading them restores them (C08, C16)',
                      'the operations of pandas on the table of runs select and write the rows and cells they name'}
    r = Reduction(s)
    r.remove_one()
    r.model_run()
    r.base_case()
    r.init()
    r.order()
