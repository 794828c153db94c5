"""pandas: Series, Index and DataFrame over collections of unknown size (assumed contracts of the library).

The labels of a Series are the identifiers of the items; an identifier is represented by the position of its item on its axis (identifiers are
distinct: the constructor of Chemistry refuses anything else). A missing value (None in a column of numbers, or NaN) is float_nan."""
import ast
from values import *
from terms import *
import terms as tm
import lib
import numeval
from lib import NAN, as_arr, copy_arr, SetOf, force, compare, check_write, write, cmp_fn, Native
from interp import SObj, ClassInfo, PyExc, Lib
from maps import SymMap, KeyView

KEYTEXT = {}   # function name (position -> text) -> name of its inverse


def injective(fn, inverse, axis, literals=()):
    """declares texts that identify positions; literals: texts that may occur in the code"""
    KEYTEXT[fn] = inverse
    tm.FACTS[fn] = [lambda a: [eq(app(inverse, (a,), 'I'), a.args[1])]]
    lib.INJECTIVE.add(fn)
    names = list(literals) + ['n{}'.format(k) for k in range(8)]

    def table(m):
        if ('names', fn) not in m.tab:
            n = max(m.n(axis.name), 3)
            m.tab['names', fn] = m.r.sample(names[:max(n, len(literals)) + 1], n) if n <= len(names) else names
        return m.tab['names', fn]
    numeval.DEFS[fn] = lambda m, a: table(m)[a[0]] if 0 <= a[0] < len(table(m)) else 'x{}'.format(a[0])

    def inv(m, a):
        t = table(m)
        return t.index(a[0]) if a[0] in t else (int(a[0][1:]) if isinstance(a[0], str) and a[0][:1] == 'x' and a[0][1:].isdigit() else 900 + hash(a[0]) % 50)
    numeval.DEFS[inverse] = inv


class Ent(SObj):
    """the object at a position of an axis"""

    def __init__(self, cls, axis, pos):
        super().__init__(cls, {'id': pos})
        self.axis, self.pos = axis, pos

    def sym_subst(self, m):
        return Ent(self.cls, self.axis, subst(self.pos, m))

    def same(self, other):
        if isinstance(other, Ent) and other.axis is self.axis:
            return eq(self.pos, other.pos)
        return FALSE

    def __repr__(self):
        return '{}@{}'.format(self.axis.name, self.pos)


def ents(cls, axis):
    return Arr([axis], lambda i: Ent(cls, axis, i), kind='list', dtype='O')


def isnan(t):
    """structural: which values are missing"""
    t = lift(t)
    if t is NAN:
        return TRUE
    if t.op == 'ite':
        return ite(t.args[0], isnan(t.args[1]), isnan(t.args[2]))
    return FALSE


def strip_nan(t):
    t = lift(t)
    if t.op == 'ite':
        a, b = strip_nan(t.args[1]), strip_nan(t.args[2])
        if a is NAN:
            return b
        if b is NAN:
            return a
        return ite(t.args[0], a, b)
    return t


def fill(t, v):
    t = lift(t)
    if t is NAN:
        return lift(v)
    if t.op == 'ite':
        return ite(t.args[0], fill(t.args[1], v), fill(t.args[2], v))
    return t


def restrict(dim, pred):
    return Sub(dim, pred)


class PosSet:
    """set of positions of one axis"""

    def __init__(self, axis, pred):
        self.axis, self.pred = axis, pred

    @property
    def dim(self):
        return Sub(self.axis, self.pred)

    def sym_len(self, it):
        return self.dim.length

    def sym_truth(self, it):
        return any_(self.axis, self.pred)

    def sym_contains(self, it, x):
        if isinstance(x, T) and x.sort == 'I':
            return it.unbool(and_(self.axis.member(x), self.pred(x)))
        return False

    def sym_iter(self, it):
        return self.dim, (lambda i: i)

    def sym_set(self, it):
        return self

    def sym_list(self, it):
        return Arr([self.dim], lambda i: i, kind='list', dtype='I')

    def sym_binop(self, it, op, other, refl):
        if isinstance(other, (set, frozenset)) and not other:
            other = PosSet(self.axis, lambda i: FALSE)
        if not isinstance(other, PosSet) or other.axis is not self.axis:
            raise Unsupported('operation on sets')
        p, q = (self.pred, other.pred) if not refl else (other.pred, self.pred)
        f = {ast.BitAnd: lambda i: and_(p(i), q(i)), ast.BitOr: lambda i: or_(p(i), q(i)), ast.Sub: lambda i: and_(p(i), not_(q(i)))}.get(type(op))
        if f is None:
            raise Unsupported('operation on sets')
        return PosSet(self.axis, f)

    def sym_compare(self, it, op, other, refl):
        if getattr(other, 'compares_first', False):
            return other.sym_compare(it, op, self, not refl)
        if isinstance(other, (set, frozenset)) and not other:
            other = PosSet(self.axis, lambda i: FALSE)
        if not isinstance(other, PosSet) or other.axis is not self.axis:
            raise Unsupported('comparison of sets')
        p, q = (self.pred, other.pred) if not refl else (other.pred, self.pred)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = all_(self.axis, lambda i: eq(p(i), q(i)))
            return it.unbool(r if isinstance(op, ast.Eq) else not_(r))
        if isinstance(op, ast.LtE):
            return it.unbool(all_(self.axis, lambda i: implies(p(i), q(i))))
        raise Unsupported('comparison of sets')

    def sym_getattr(self, it, name):
        def meth(op):
            return Native(lambda it_, o: self.sym_binop(it_, op(), o if isinstance(o, PosSet) else lib.b_set(it_, o), False), 'set.' + name)
        ops = {'intersection': ast.BitAnd, 'union': ast.BitOr, 'difference': ast.Sub}
        if name in ops:
            return meth(ops[name])
        if name == 'issubset':
            return Native(lambda it_, o: self.sym_compare(it_, ast.LtE(), o if isinstance(o, PosSet) else lib.b_set(it_, o), False), 'set.issubset')
        raise Unsupported('set.' + name)

    def sym_subst(self, m):
        p = self.pred
        return PosSet(self.axis, lambda i: subst(p(i), m))


POSITIONS = {}   # functions whose values are positions of an axis


def posset_of(it, a):
    """set of the elements of an array of positions, or None"""
    if len(a.dims) != 1 or not isinstance(a.dims[0], (Axis, Sub)):
        return None
    d, f = a.dims[0], a.frozen()
    v = d.new('ps')
    x = f(v)
    if not (isinstance(x, T) and x.sort == 'I'):
        return None
    if x is v:
        return PosSet(d.base, d.pred)
    ax = getattr(a, 'axis_of', None) or (POSITIONS.get(x.args[0]) if x.op == 'app' else None)
    if ax is None:
        return None
    return PosSet(ax, lambda q: any_(d.base, lambda k: and_(d.pred(k), eq(f(k), q))))


class Index:
    def __init__(self, dim):
        self.dim = dim

    def sym_iter(self, it):
        return self.dim, (lambda i: i)

    def sym_len(self, it):
        return self.dim.length

    def sym_contains(self, it, x):
        if isinstance(x, T) and x.sort == 'I':
            return it.unbool(self.dim.member(x))
        if isinstance(x, (str, type(None))) or isinstance(x, T) and x.sort == 'S':
            return False
        raise Unsupported('in an index')

    def arr(self, kind='array'):
        return Arr([self.dim], lambda i: i, kind=kind, dtype='I')

    def sym_arr(self, it):
        return self.arr()

    def sym_list(self, it):
        return it.new(self.arr('list'))

    def sym_set(self, it):
        return PosSet(self.dim.base, self.dim.pred)

    def sym_getitem(self, it, key):
        if isinstance(key, Ser) or isinstance(key, Arr):
            k = as_arr(it, key)
            m = lib.norm1(it, self.dim, k)
            if m[0] == 'mask':
                f = m[1].frozen()
                return Index(Sub(self.dim, lambda i: f(i)))
        raise Unsupported('index[...]')

    def sym_getattr(self, it, name):
        if name == 'values':
            return self.arr()
        if name in ('tolist', 'to_list'):
            return Native(lambda it_: it_.new(self.arr('list')), 'Index.tolist')
        if name == 'copy':
            return Native(lambda it_: Index(self.dim), 'Index.copy')
        if name == 'empty':
            return it.unbool(not_(any_(self.dim.base, self.dim.pred)))
        if name == 'size':
            return self.dim.length
        if name == 'isin':
            def isin(it_, x):
                s = x if isinstance(x, PosSet) else lib.b_set(it_, x)
                if not isinstance(s, PosSet):
                    raise Unsupported('isin')
                return Arr([self.dim], lambda i: s.pred(i), dtype='B')
            return Native(isin, 'Index.isin')
        raise Unsupported('Index.' + name)

    def sym_compare(self, it, op, other, refl):
        raise Unsupported('comparison of an index')


class PartIndex(Index):
    """the labels in the order in which they were added"""

    order = 'unknown'

    def arr(self, kind='array'):
        a = Index.arr(self, kind)
        a.order = self.order
        return a

    def sym_sorted(self, it):
        r = PartIndex(self.dim)
        r.order = 'sorted'
        return r


def labels_of(it, key):
    """(dimension, function to positions) of a list of labels; raises KeyError for labels that are not identifiers"""
    key = force(it, key)
    if isinstance(key, Ser):
        key = key.arr
    if isinstance(key, Index):
        return key.dim, (lambda i: i)
    if isinstance(key, PosSet):
        return key.dim, (lambda i: i)
    if isinstance(key, Arr) and len(key.dims) == 1:
        f = key.frozen()
        for p in positions(key.dims):
            x = f(*p)
            if not (isinstance(x, T) and x.sort == 'I'):
                it.raise_(KeyError)
        return key.dims[0], f
    return None


class Ser:
    libtype = 'pandas.Series'
    """Series: one value per position of a dimension"""

    def __init__(self, dim, arr):
        self.dim, self.arr = dim, arr

    def sym_arr(self, it):
        return self.arr

    def copy(self, it):
        return it.new(Ser(self.dim, copy_arr(it, self.arr)))

    def sym_iter(self, it):
        f = self.arr.frozen()
        return self.dim, f

    def sym_len(self, it):
        return self.dim.length

    def sym_set(self, it):
        return lib.b_set(it, self.arr)

    def sym_list(self, it):
        return copy_arr(it, self.arr, 'list')

    def sym_contains(self, it, x):
        return Index(self.dim).sym_contains(it, x)

    def sym_truth(self, it):
        it.raise_(ValueError)

    def sym_map1(self, it, f):
        return Ser(self.dim, lib.lift_elementwise(it, f, self.arr))

    def other(self, it, o):
        if isinstance(o, Ser):
            if not same_dim(o.dim, self.dim, it.path.conds if it.path else ()):
                raise Unsupported('alignment of series')
            return o.arr
        if isinstance(o, (Part, Frm)):
            raise Unsupported('alignment of series')
        return o

    def sym_binop(self, it, op, other, refl):
        o = self.other(it, other)
        if isinstance(o, list):
            raise Unsupported('series and list')
        return Ser(self.dim, lib.binop(it, op, o, self.arr) if refl else lib.binop(it, op, self.arr, o))

    def sym_compare(self, it, op, other, refl):
        o = self.other(it, other)
        r = lib.compare(it, op, o, self.arr) if refl else lib.compare(it, op, self.arr, o)
        return Ser(self.dim, r)

    def member(self, it, label):
        label = force(it, label)
        if isinstance(label, (str, type(None))) or isinstance(label, T) and label.sort == 'S':
            it.raise_(KeyError, label)
        if not (isinstance(label, T) and label.sort == 'I'):
            raise Unsupported('label {}'.format(type(label).__name__))
        if not it.branch(self.dim.member(label)):
            it.raise_(KeyError, label)
        return label

    def get_label(self, it, label):
        return self.arr.at(self.member(it, label))

    def set_label(self, it, label, v):
        label = self.member(it, label)
        check_write(it, self.arr)
        v = force(it, v)
        if v is None:
            v = NAN
        write(self.arr, lambda i: eq(i, label), v)

    def sym_getitem(self, it, key):
        key = force(it, key)
        if isinstance(key, slice) and key.start is key.stop is key.step is None:
            return self.copy(it)
        if isinstance(key, (Arr, Ser, Index, list, PosSet)):
            k = key
            if isinstance(key, (Arr, Ser)):
                a = as_arr(it, key)
                s = a.at(*positions(a.dims)[0])
                if isinstance(s, T) and s.sort == 'B':
                    m = lib.norm1(it, self.dim, a)
                    f, g = m[1].frozen(), self.arr.frozen()
                    d = Sub(self.dim, lambda i: truth(f(i)))
                    return it.new(self.make(d, g))
            if isinstance(key, list):
                raise Unsupported('series[list]')
            r = labels_of(it, key)
            if r is None:
                raise Unsupported('series[...]')
            d, f = r
            v = d.new('l')
            if f(v) is not v or d.base is not self.dim.base:
                raise Unsupported('series reordered by labels')
            if it.branch(any_(d.base, lambda i: and_(d.pred(i), not_(self.dim.member(i))))):
                it.raise_(KeyError)
            return it.new(self.make(d, self.arr.frozen()))
        return self.get_label(it, key)

    def make(self, d, g):
        return Ser(d, Arr([d], g, dtype=self.arr.dtype))

    def sym_setitem(self, it, key, v):
        key, v = force(it, key), force(it, v)
        if isinstance(key, slice) and key.start is key.stop is key.step is None:
            return lib.set_all(it, self.arr, v.arr if isinstance(v, Ser) else v)
        if isinstance(key, (Arr, Ser, Index, PosSet)):
            if isinstance(key, (Arr, Ser)):
                a = as_arr(it, key)
                s = a.at(*positions(a.dims)[0])
                if isinstance(s, T) and s.sort == 'B':
                    m = lib.norm1(it, self.dim, a)
                    f = m[1].frozen()
                    check_write(it, self.arr)
                    if isinstance(v, Ser):
                        v = v.arr
                    if isinstance(v, Arr) and len(v.dims) == 1 and not isinstance(v.dims[0], Cat) and v.dims[0].base is self.dim.base:
                        # the elements of the same positions
                        x = self.dim.base.new('x')
                        if tm.prove(eq(truth(f(x)), v.dims[0].pred(x)), list(it.path.conds) + [self.dim.member(x)], 2000)[0] != 'proved':
                            raise Unsupported('series[mask] = array of another size')
                        g = v.frozen()
                        return write(self.arr, lambda i: truth(f(i)), ('fn', g))
                    if isinstance(v, (Arr, Ser, list)):
                        raise Unsupported('series[mask] = array')
                    return write(self.arr, lambda i: truth(f(i)), v)
            d, f = labels_of(it, key)
            if isinstance(v, (Arr, Ser, list)):
                raise Unsupported('series[labels] = array')
            self.labelled(it, d, f, v)
            return
        if isinstance(key, (list, tuple)):
            key = [force(it, k) for k in key]
            if any(not (isinstance(k, T) and k.sort == 'I') for k in key):
                if all(isinstance(k, (str, T, SObj, type(None), bool, Other)) for k in key):
                    it.raise_(KeyError)
                raise Unsupported('series[list] = ...')
            if not key:
                return
            if not it.branch(and_(*[self.dim.member(k) for k in key])):
                it.raise_(KeyError)
            check_write(it, self.arr)
            write(self.arr, lambda i: or_(*[eq(i, k) for k in key]), v)
            return
        self.set_label(it, key, v)

    def labelled(self, it, d, f, v):
        if isinstance(d, Cat):
            raise Unsupported('series[labels of several kinds] = ...')
        w = d.new('l')
        if not it.branch(all_(d.base, lambda k: implies(d.pred(k), self.dim.member(f(k))))):
            it.raise_(KeyError)
        check_write(it, self.arr)
        if f(w) is w and d.base is self.dim.base:
            write(self.arr, lambda i: d.pred(i), v)
        else:
            write(self.arr, lambda i: any_(d.base, lambda k: and_(d.base.member(k), d.pred(k), eq(f(k), i))), v)

    def sym_getattr(self, it, name):
        if name == 'values':
            return self.arr
        if name == 'index':
            return Index(self.dim)
        if name in ('at', 'loc'):
            return At(self)
        if name in ('iat', 'iloc'):
            return Iat(self)
        if name == 'copy':
            return Native(lambda it_, deep=True: self.copy(it_), 'Series.copy')
        if name == 'update':
            return Native(lambda it_, o: self.update(it_, o), 'Series.update')
        if name == 'fillna':
            return Native(lambda it_, v: self.sym_map1(it_, lambda x: fill(x, v)), 'Series.fillna')
        if name in ('isna', 'isnull'):
            return Native(lambda it_: self.sym_map1(it_, isnan), 'Series.isna')
        if name == 'astype':
            return Native(lambda it_, t, **k: Ser(self.dim, lib.arr_astype(it_, self.arr, t)), 'Series.astype')
        if name in ('sum', 'any', 'all'):
            return Native(lambda it_, **k: it_.unbool(lib.np_reduce(it_, name, self.arr)) if name != 'sum' else lib.b_sum(it_, self.arr), 'Series.' + name)
        if name in ('tolist', 'to_list'):
            return Native(lambda it_: self.sym_list(it_), 'Series.tolist')
        if name == 'empty':
            return it.unbool(not_(any_(self.dim.base, self.dim.pred)))
        if name == 'size':
            return self.dim.length
        if name in ('keys',):
            return Native(lambda it_: Index(self.dim), 'Series.keys')
        if name == 'items':
            f = self.arr.frozen()
            return Native(lambda it_: KeyView(self.dim, lambda i: (i, f(i))), 'Series.items')
        if name == 'sort_values':
            def sort_values(it_, ascending=True, axis=0, inplace=False, kind='quicksort', na_position='last'):
                a_ = force(it_, ascending)
                if not isinstance(a_, (bool, int)) or inplace:
                    raise Unsupported('sort_values')
                f = self.arr.frozen()
                d = Sub(self.dim, lambda i: TRUE)
                d.order = Order(bool(a_), f)
                return it_.new(Ser(d, Arr([d], f, dtype=self.arr.dtype)))
            return Native(sort_values, 'Series.sort_values')
        if name == 'get':
            def get(it_, k, default=None):
                k = force(it_, k)
                return self.arr.at(k) if it_.branch(self.dim.member(k)) else default
            return Native(get, 'Series.get')
        raise Unsupported('Series.' + name)

    def sym_setattr(self, it, name, v):
        if name != 'index':
            raise Unsupported('Series.' + name)
        v = force(it, v)
        if isinstance(v, Index):
            if same_dim(v.dim, self.dim, it.path.conds):
                return
            raise Unsupported('index of other labels')
        if not (isinstance(v, Arr) and len(v.dims) == 1 and same_dim(v.dims[0], self.dim, it.path.conds)):
            raise Unsupported('index of another length')
        f, x = v.frozen(), self.dim.new('x')
        t = f(x)
        if t is x:
            return
        if not (isinstance(t, T) and t.sort == 'S'):
            raise Unsupported('index of other labels')
        self.texts, self.__class__ = f, TextSer

    def update(self, it, o):
        check_write(it, self.arr)
        if isinstance(o, Part):
            if o.axis is None:
                return
            o.need(it, 'num')
            dom, val, d = o.dom.frozen(), o.val.arr.frozen(), None
        elif isinstance(o, Ser):
            dom, val = o.dim.member, o.arr.frozen()
            if o.dim.base is not self.dim.base:
                raise Unsupported('update')
        else:
            raise Unsupported('update')
        if isinstance(o, Part) and o.axis is not self.dim.base:
            raise Unsupported('update')
        old = self.arr.frozen()
        write(self.arr, lambda i: and_(dom(i), not_(isnan(val(i)))), ('fn', lambda i: lift(val(i))))


class Order:
    """the order of a sorted Series: by these values"""

    def __init__(self, ascending, val):
        self.ascending, self.val = ascending, val


class TextSer(Ser):
    """a Series whose labels are texts; what depends on the labels is not modelled"""

    def sym_getattr(self, it, name):
        if name in ('values', 'copy', 'sum', 'size', 'empty'):
            if name == 'copy':
                def copy(it_, deep=True):
                    r = self.copy(it_)
                    r.texts, r.__class__ = self.texts, TextSer
                    return r
                return Native(copy, 'Series.copy')
            return Ser.sym_getattr(self, it, name)
        raise Unsupported('Series.{} of a Series labelled by texts'.format(name))

    def sym_getitem(self, it, k):
        raise Unsupported('item of a Series labelled by texts')

    def sym_setitem(self, it, k, v):
        raise Unsupported('item of a Series labelled by texts')

    def sym_contains(self, it, k):
        raise Unsupported('label of a Series labelled by texts')

    def sym_binop(self, it, op, o, refl):
        raise Unsupported('operation on a Series labelled by texts')

    sym_compare = sym_binop

    def other(self, it, o):
        raise Unsupported('operation on a Series labelled by texts')


class At:
    def __init__(self, s):
        self.s = s

    def sym_getitem(self, it, key):
        if isinstance(key, (Arr, Ser, Index, list, slice)):
            return self.s.sym_getitem(it, key)
        return self.s.get_label(it, force(it, key))

    def sym_setitem(self, it, key, v):
        if isinstance(key, (Arr, Ser, Index, list, slice)):
            return self.s.sym_setitem(it, key, v)
        self.s.set_label(it, force(it, key), v)


class Iat:
    def __init__(self, s):
        self.s = s

    def sym_getitem(self, it, key):
        n = lib.concrete_int(key)
        if n not in (0, -1):
            raise Unsupported('iat')
        d = self.s.dim
        if not it.branch(any_(d.base, d.pred)):
            it.raise_(IndexError)
        return self.s.arr.at(lib.first_position(it, d, n))


# ------------------------------------------------------------------------------------------------ dictionaries from names to numbers
class Named:
    """dictionary (or None) keyed by the texts that identify the positions of an axis"""

    def __init__(self, axis, text, isnone, dom, val):
        self.axis, self.text = axis, text
        self.f = (isnone, dom, val)

    def isnone(self):
        return self.f[0]

    def dom(self, k):
        return self.f[1](k)

    def val(self, k):
        return self.f[2](k)

    def write(self, it, dom, val):
        if it.in_sub and id(self) not in it.fresh:
            raise Unsupported('a dictionary of the outside changed in a loop')
        self.f = (self.f[0], dom, val)

    def copy(self):
        d, v = self.snap()
        return Named(self.axis, self.text, self.isnone(), d, v)

    def snap(self):
        return self.f[1], self.f[2]

    @property
    def sym_isnone(self):
        return self.isnone()

    def some(self, it, what):
        if it.branch(self.isnone()):
            it.raise_(TypeError if what != 'attr' else AttributeError, what)

    def key(self, it, t):
        """the position of a text, or None when it cannot be a key"""
        t = force(it, t)
        if isinstance(t, str):
            t = lift(t)
        if isinstance(t, T) and t.sort == 'S':
            if t.op == 'app' and t.args[0] == self.text:
                return t.args[1], TRUE
            k = app(KEYTEXT[self.text], (t,), 'I')
            return k, and_(self.axis.member(k), eq(app(self.text, (k,), 'S'), t))
        if t is None or isinstance(t, (int, T, SObj)):
            return const('nokey!', 'I'), FALSE
        raise Unsupported('key')

    def sym_getitem(self, it, t):
        self.some(it, 'item')
        k, c = self.key(it, t)
        if not it.branch(and_(c, self.dom(k))):
            it.raise_(KeyError, t)
        return self.val(k)

    def sym_setitem(self, it, t, v):
        self.some(it, 'item')
        k, c = self.key(it, t)
        it.prove_now(c, 'the key is one of the known texts')
        d, f = self.snap()
        v = lift(force(it, v))
        self.write(it, lambda q: or_(eq(q, k), d(q)), lambda q: ite(eq(q, k), v, f(q)))

    def sym_delitem(self, it, t):
        self.some(it, 'item')
        k, c = self.key(it, t)
        if not it.branch(and_(c, self.dom(k))):
            it.raise_(KeyError, t)
        d, f = self.snap()
        self.write(it, lambda q: and_(not_(eq(q, k)), d(q)), f)

    def sym_contains(self, it, t):
        self.some(it, 'in')
        k, c = self.key(it, t)
        return it.unbool(and_(c, self.dom(k)))

    def keys(self):
        d, _ = self.snap()
        return Sub(self.axis, lambda i: d(i))

    def name(self, i):
        return app(self.text, (i,), 'S')

    def sym_iter(self, it):
        self.some(it, 'iteration')
        return self.keys(), self.name

    def sym_truth(self, it):
        return and_(not_(self.isnone()), any_(self.axis, self.keys().pred))

    def sym_len(self, it):
        self.some(it, 'len')
        return self.keys().length

    def sym_dict(self, it):
        self.some(it, 'dict')
        d, v = self.snap()
        return Named(self.axis, self.text, FALSE, d, v)

    def sym_isinstance(self, it, cls):
        c = getattr(cls, 'pytype', cls)
        if c is dict:
            return it.unbool(not_(self.isnone()))
        if c is type(None):
            return it.unbool(self.isnone())
        return False

    def texts(self):
        return Texts(self.axis, self.text, lambda i: and_(self.axis.member(i), self.dom(i)))

    def sym_set(self, it):
        self.some(it, 'set')
        return SetOf(Arr([self.keys()], self.name, kind='list', dtype='S'))

    def sym_list(self, it):
        self.some(it, 'list')
        return it.new(Arr([self.keys()], self.name, kind='list', dtype='S'))

    def sym_copy(self, it, deep=True):
        return it.new(self.copy())

    def sym_type(self, it):
        return type(None) if it.branch(self.isnone()) else lib.BUILTINS['dict']

    def sym_subst(self, m):
        d, v = self.snap()
        return Named(self.axis, self.text, subst(self.isnone(), m), lambda k: subst(d(k), m), lambda k: subst(lift(v(k)), m))

    def sym_compare(self, it, op, other, refl):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(other, dict) and not other:
                other = Named(self.axis, self.text, FALSE, lambda k: FALSE, lambda k: num(0))
            if other is None:
                r = self.isnone()
            elif isinstance(other, Named) and other.axis is self.axis:
                r = named_equal(self, other)
            else:
                raise Unsupported('comparison of dictionaries')
            return it.unbool(r if isinstance(op, ast.Eq) else not_(r))
        raise Unsupported('comparison of dictionaries')

    def sym_getattr(self, it, name):
        self.some(it, 'attr')

        def get(it_, t, default=None):
            k, c = self.key(it_, t)
            return self.val(k) if it_.branch(and_(c, self.dom(k))) else default

        def pop(it_, t, *default):
            k, c = self.key(it_, t)
            if not it_.branch(and_(c, self.dom(k))):
                if default:
                    return default[0]
                it_.raise_(KeyError, t)
            v = self.val(k)
            d, f = self.snap()
            self.write(it_, lambda q: and_(not_(eq(q, k)), d(q)), f)
            return v
        def update(it_, other=(), **kw):
            other = force(it_, other)
            if not isinstance(other, dict):
                raise Unsupported('dict.update')
            for k, v in list(other.items()) + list(kw.items()):
                self.sym_setitem(it_, k, v)
        f = {'get': get, 'pop': pop, 'copy': lambda it_: it_.new(self.copy()), 'update': update,
             'keys': lambda it_: NamedKeys(self), 'values': lambda it_: KeyView(self.keys(), self.snap()[1]),
             'items': lambda it_, v=self.snap()[1]: KeyView(self.keys(), lambda i: (self.name(i), v(i)))}.get(name)
        if f is None:
            raise Unsupported('dict.' + name)
        return Native(f, 'dict.' + name)


class Texts:
    """distinct texts without a known order (a set, the labels of a series, a sorted list): those of some positions of an axis,
    extra: and others"""

    def __init__(self, axis, text, pred, extra=FALSE, kind='set'):
        self.axis, self.text, self.pred, self.extra, self.kind = axis, text, pred, extra, kind

    @staticmethod
    def of(x):
        if isinstance(x, Texts):
            return x
        a = x.arr if isinstance(x, (SetOf, lib.SortedOf)) else x
        if isinstance(a, Arr) and len(a.dims) == 1 and isinstance(a.dims[0], (Axis, Sub)):
            d = a.dims[0]
            v = d.new('tx')
            y = a.at(v)
            if isinstance(y, T) and y.op == 'app' and y.args[0] in lib.INJECTIVE and y.args[1] is v:
                return Texts(d.base, y.args[0], d.member, FALSE, 'set' if isinstance(x, SetOf) else 'sorted' if isinstance(x, lib.SortedOf) else 'list')
        return None

    def as_kind(self, kind):
        return Texts(self.axis, self.text, self.pred, self.extra, kind)

    def sym_set(self, it):
        return self.as_kind('set')

    def sym_list(self, it):
        return self.as_kind('sorted' if self.kind == 'sorted' else 'list')

    def sym_sorted(self, it):
        return self.as_kind('sorted')

    def sym_len(self, it):
        if self.extra is not FALSE:
            raise Unsupported('number of unknown texts')
        return Sub(self.axis, self.pred).length

    def sym_iter(self, it):
        if self.extra is not FALSE or self.kind == 'sorted':
            raise Unsupported('unknown texts')
        return Sub(self.axis, self.pred), (lambda i: app(self.text, (i,), 'S'))

    def sym_compare(self, it, op, other, refl):
        if getattr(other, 'compares_first', False):
            return other.sym_compare(it, op, self, not refl)
        o = Texts.of(other)
        if o is None or o.axis is not self.axis or o.text != self.text or o.kind != self.kind or self.kind == 'list' or not isinstance(op, (ast.Eq, ast.NotEq)):
            if o is not None and o.axis is self.axis and o.text == self.text and self.kind == o.kind == 'set':
                a, b = (o, self) if refl else (self, o)
                if isinstance(op, (ast.GtE, ast.Gt)):
                    a, b = b, a
                le = and_(implies(a.extra, const('extra_also', 'B') if b.extra is not FALSE else FALSE), all_(a.axis, lambda i: implies(a.pred(i), b.pred(i))))
                if isinstance(op, (ast.LtE, ast.GtE)) and b.extra is FALSE:
                    return it.unbool(le)
            raise Unsupported('comparison of texts')
        if self.extra is not FALSE and o.extra is not FALSE and self.extra is not o.extra:
            raise Unsupported('comparison of unknown texts')
        r = and_(eq(self.extra, o.extra), all_(self.axis, lambda i: eq(self.pred(i), o.pred(i))))
        return it.unbool(r if isinstance(op, ast.Eq) else not_(r))


class NamedSer:
    """series labelled by texts that identify positions, in the order of a dimension or in an unknown one (dim None)"""

    libtype = 'pandas.Series'

    def __init__(self, named, dim=None):
        self.named, self.dim = named, dim

    def sym_getattr(self, it, name):
        if name == 'index':
            t = self.named.texts() if self.dim is None else Texts.of(Arr([self.dim], lambda i: app(self.named.text, (i,), 'S')))
            return t.as_kind('index')
        if name == 'values':
            return self.sym_array(it)
        raise Unsupported('{} of a series'.format(name))

    def sym_getitem(self, it, k):
        k = force(it, k)
        t = Texts.of(k) if isinstance(k, Arr) else None
        if t is not None and t.axis is self.named.axis and t.text == self.named.text:
            if not it.branch(all_(t.axis, lambda i: implies(t.pred(i), self.named.dom(i)))):
                it.raise_(KeyError)
            return NamedSer(self.named, k.dims[0])
        if isinstance(k, T) and k.sort == 'S' or isinstance(k, str):
            return self.named.sym_getitem(it, k)
        raise Unsupported('item of a series')

    def sym_array(self, it):
        if self.dim is None:
            raise Unsupported('order of a series')
        return it.new(Arr([self.dim], self.named.val))

    def sym_arr(self, it):
        return self.sym_array(it)

    def sym_list(self, it):
        return it.new(Arr([self.dim], self.named.val, kind='list')) if self.dim is not None else lib.bad('order of a series')

    def sym_iter(self, it):
        if self.dim is None:
            raise Unsupported('order of a series')
        return self.dim, self.named.val


class NamedKeys:
    def __init__(self, m):
        self.m = m

    def sym_iter(self, it):
        return self.m.keys(), self.m.name

    def sym_contains(self, it, t):
        return self.m.sym_contains(it, t)

    def sym_set(self, it):
        return self.m.sym_set(it)

    def sym_list(self, it):
        return self.m.sym_list(it)

    def sym_len(self, it):
        return self.m.sym_len(it)


def named_equal(a, b):
    return and_(eq(a.isnone(), b.isnone()), implies(not_(a.isnone()), all_(a.axis, lambda k: and_(
        eq(a.dom(k), b.dom(k)), implies(a.dom(k), eq(a.val(k), b.val(k)))))))


class DictSer(Ser):
    """Series of dictionaries (or None): three arrays"""

    def __init__(self, dim, axis, text, isnone, dom, val):
        self.dim, self.axis, self.text = dim, axis, text
        self.none, self.dom2, self.val2 = isnone, dom, val

    @property
    def arr(self):
        n, d, v = self.none.frozen(), self.dom2.frozen(), self.val2.frozen()
        return Arr([self.dim], lambda i: Named(self.axis, self.text, n(i), lambda k: d(i, k), lambda k: v(i, k)), dtype='O')

    @classmethod
    def of(cls, it, dim, f, sample):
        r = cls(dim, sample.axis, sample.text, Arr([dim], lambda i: f(i).isnone(), dtype='B'), Arr([dim, sample.axis], lambda i, k: f(i).dom(k), dtype='B'),
                Arr([dim, sample.axis], lambda i, k: lift(f(i).val(k))))
        for a in (r.none, r.dom2, r.val2):
            it.new(a)
        return it.new(r)

    def copy(self, it):
        # the dictionaries themselves are shared in pandas; a change of one of them would be seen by both
        r = DictSer(self.dim, self.axis, self.text, copy_arr(it, self.none), copy_arr(it, self.dom2), copy_arr(it, self.val2))
        r.shares = True
        return it.new(r)

    def make(self, d, g):
        n, dm, v = self.none.frozen(), self.dom2.frozen(), self.val2.frozen()
        r = DictSer(d, self.axis, self.text, Arr([d], n, dtype='B'), Arr([d, self.axis], dm, dtype='B'), Arr([d, self.axis], v))
        r.shares = True
        return r

    def get_label(self, it, label):
        return Row(self, self.member(it, label))

    def set_label(self, it, label, v):
        label = self.member(it, label)
        v = force(it, v)
        if isinstance(v, dict) and not v:
            v = Named(self.axis, self.text, FALSE, lambda k: FALSE, lambda k: num(0))
        if v is None or v is NAN:
            v = Named(self.axis, self.text, TRUE, lambda k: FALSE, lambda k: num(0))
        if not isinstance(v, Named) or v.axis is not self.axis:
            raise Unsupported('dictionary stored in a series')
        if isinstance(v, Row):
            raise Unsupported('the same dictionary stored twice')
        for a in (self.none, self.dom2, self.val2):
            check_write(it, a)
        n, (d, f) = v.isnone(), v.snap()
        write(self.none, lambda i: eq(i, label), n)
        write(self.dom2, lambda i, k: eq(i, label), ('fn', lambda i, k: d(k)))
        write(self.val2, lambda i, k: eq(i, label), ('fn', lambda i, k: lift(f(k))))

    def update(self, it, o):
        raise Unsupported('update of a series of dictionaries')


class Row(Named):
    """the dictionary at one position of a series (a reference: changes are seen by the series)"""

    def __init__(self, ser, pos):
        self.ser, self.pos, self.axis, self.text = ser, pos, ser.axis, ser.text

    def isnone(self):
        return self.ser.none.at(self.pos)

    def dom(self, k):
        return self.ser.dom2.at(self.pos, k)

    def val(self, k):
        return self.ser.val2.at(self.pos, k)

    def snap(self):
        d, v, p = self.ser.dom2.frozen(), self.ser.val2.frozen(), self.pos
        return (lambda k: d(p, k)), (lambda k: v(p, k))

    def write(self, it, dom, val):
        if getattr(self.ser, 'shares', False):
            raise Unsupported('change of a dictionary that two series share')
        od, ov = self.ser.dom2, self.ser.val2
        p = self.pos
        d0, v0 = od.frozen(), ov.frozen()
        k0 = const('rw!', 'I')
        if dom(k0) is not d0(p, k0):
            check_write(it, od)
            write(od, lambda i, k: eq(i, p), ('fn', lambda i, k: dom(k)))
        if lift(val(k0)) is not lift(v0(p, k0)):
            check_write(it, ov)
            write(ov, lambda i, k: eq(i, p), ('fn', lambda i, k: lift(val(k))))

    def sym_subst(self, m):
        r = Row(self.ser, subst(self.pos, m))
        return r


# ------------------------------------------------------------------------------------------------ series with few labels
class Part:
    """Series that starts empty and gets labels by assignment (labels of one axis; values numbers or dictionaries)"""

    libtype = 'pandas.Series'

    def __init__(self):
        self.axis, self.dom, self.val = None, None, None

    def setup(self, it, axis, kind, sample=None):
        self.axis = axis
        self.kind = kind
        self.dom = it.new(Arr([axis], lambda i: FALSE, dtype='B'))
        if kind == 'num':
            self.val = Ser(axis, it.new(Arr([axis], lambda i: num(0))))
        else:
            self.val = DictSer(axis, sample.axis, sample.text, it.new(Arr([axis], lambda i: FALSE, dtype='B')),
                               it.new(Arr([axis, sample.axis], lambda i, k: FALSE, dtype='B')), it.new(Arr([axis, sample.axis], lambda i, k: num(0))))

    def need(self, it, kind):
        if self.kind != kind:
            raise Unsupported('values of another kind in a series')

    @property
    def dim(self):
        if self.axis is None:
            return None
        d = self.dom.frozen()
        return Sub(self.axis, lambda i: d(i))

    def copy(self, it):
        r = Part()
        if self.axis is not None:
            r.axis, r.kind, r.dom, r.val = self.axis, self.kind, copy_arr(it, self.dom), self.val.copy(it)
        return it.new(r)

    def sym_len(self, it):
        return 0 if self.axis is None else self.dim.length

    def sym_truth(self, it):
        it.raise_(ValueError)

    def has(self, it, label):
        label = force(it, label)
        if self.axis is None or not (isinstance(label, T) and label.sort == 'I'):
            return label, FALSE
        return label, and_(self.axis.member(label), self.dom.at(label))

    def sym_contains(self, it, x):
        return it.unbool(self.has(it, x)[1])

    def get_label(self, it, label):
        label, c = self.has(it, label)
        if not it.branch(c):
            it.raise_(KeyError, label)
        v = self.val.get_label(it, label)
        if self.kind == 'num' and isnan(v) is not FALSE:
            # these series hold objects: what was stored is None
            return None if it.branch(isnan(v)) else strip_nan(v)
        return v

    def set_label(self, it, label, v):
        label, v = force(it, label), force(it, v)
        if not (isinstance(label, T) and label.sort == 'I'):
            raise Unsupported('label of a series')
        if self.axis is None:
            ax = axis_of(it, label)
            if ax is None:
                raise Unsupported('label of an unknown axis')
            if isinstance(v, dict) and not v:
                raise Unsupported('an empty dictionary as the first value of a series')
            self.begin(it, ax, v)
        elif self.kind == 'num' and self.undecided and isinstance(v, Named) and self.begun is not None and self.begun is it.loop_id and id(self) not in it.fresh:
            self.begin(it, self.axis, v)   # so far only None
        it.prove_now(self.axis.member(label), 'the label is an identifier')
        if v is not None:
            self.undecided = False
        if self.kind == 'num' and not (v is None or isinstance(v, (int, Fraction)) or isinstance(v, T) and v.sort in 'RIB'):
            raise Unsupported('value of another kind in a series')
        check_write(it, self.dom)
        write(self.dom, lambda i: eq(i, label), TRUE)
        self.val.set_label(it, label, v)

    undecided = False   # whether values so far are None only
    begun = None

    def begin(self, it, ax, v):
        outside = it.in_sub and id(self) not in it.fresh
        self.setup(it, ax, 'dict' if isinstance(v, Named) else 'num', v)
        self.undecided = v is None
        self.begun = it.loop_id if outside else None
        if outside:
            for a in [self.dom] + ([self.val.arr] if self.kind == 'num' else [self.val.none, self.val.dom2, self.val.val2]):
                it.fresh.discard(id(a))
                it.fresh.discard(id(a.buf))

    def sym_getitem(self, it, key):
        if isinstance(key, (Arr, Ser, Index, list, slice)):
            raise Unsupported('selection from a series')
        return self.get_label(it, key)

    def sym_setitem(self, it, key, v):
        if isinstance(key, (Arr, Ser, Index, list, slice)):
            raise Unsupported('selection from a series')
        self.set_label(it, key, v)

    def sym_iter(self, it):
        if self.axis is None:
            return Sub(EMPTY, lambda i: FALSE), (lambda i: i)
        f = self.val.arr.frozen()
        return self.dim, f

    def sym_getattr(self, it, name):
        if name == 'index':
            return PartIndex(self.dim) if self.axis is not None else []
        if name in ('at', 'loc'):
            return At(self)
        if name == 'copy':
            return Native(lambda it_, deep=True: self.copy(it_), 'Series.copy')
        if name == 'dropna':
            def dropna(it_):
                r = self.copy(it_)
                if r.axis is not None:
                    d = r.dom.frozen()
                    g = (lambda i, f=r.val.arr.frozen(): isnan(f(i))) if r.kind == 'num' else (lambda i, f=r.val.none.frozen(): f(i))
                    r.dom = it_.new(Arr([r.axis], lambda i: and_(d(i), not_(g(i))), dtype='B'))
                return r
            return Native(dropna, 'Series.dropna')
        if name == 'empty':
            return True if self.axis is None else it.unbool(not_(any_(self.axis, self.dim.pred)))
        if name == 'items':
            if self.axis is None:
                return Native(lambda it_: [], 'Series.items')
            d, f = self.dim, self.val.arr.frozen()
            return Native(lambda it_: KeyView(d, lambda i: (i, f(i))), 'Series.items')
        if name == 'get':
            def get(it_, k, default=None):
                k, c = self.has(it_, k)
                return self.val.get_label(it_, k) if it_.branch(c) else default
            return Native(get, 'Series.get')
        raise Unsupported('Series.' + name)


EMPTY = Axis('none')


def axis_of(it, label):
    """axis of a position, from the facts known about it"""
    for c in it.path.conds:
        for x in (c.args if c.op == 'and' else (c,)):
            if x.op == 'app' and x.args[0].startswith('in_') and x.args[1] is label:
                return AXES.get(x.args[0])
    return None


AXES = {}


def axis(name, **kw):
    a = Axis(name, **kw)
    AXES['in_' + name] = a
    numeval.AXES[name] = a
    return a


# ------------------------------------------------------------------------------------------------ data frames
class Frm:
    libtype = 'pandas.DataFrame'
    def __init__(self, arr):
        self.arr = arr

    @property
    def dims(self):
        return self.arr.dims

    def sym_arr(self, it):
        return self.arr

    def sym_map1(self, it, f):
        return Frm(lib.lift_elementwise(it, f, self.arr))

    def sym_len(self, it):
        return self.dims[0].length

    def other(self, it, o):
        if isinstance(o, Frm):
            h = it.path.conds if it.path else ()
            if not all(same_dim(a, b, h) for a, b in zip(o.dims, self.dims)):
                raise Unsupported('alignment of data frames')
            return o.arr
        if isinstance(o, (Ser, Part, Arr)):
            raise Unsupported('data frame and series')
        return o

    def sym_binop(self, it, op, other, refl):
        other = force(it, other)
        if isinstance(other, Ser) and not isinstance(other, TextSer):
            # a Series goes along the columns
            if not same_dim(other.dim, self.dims[1], it.path.conds):
                raise Unsupported('alignment of data frames')
            g = other.arr.frozen()
            b = Arr(list(self.dims), lambda i, j: g(j), dtype=other.arr.dtype)
            return Frm(lib.binop(it, op, b, self.arr) if refl else lib.binop(it, op, self.arr, b))
        o = self.other(it, other)
        return Frm(lib.binop(it, op, o, self.arr) if refl else lib.binop(it, op, self.arr, o))

    def sym_compare(self, it, op, other, refl):
        o = self.other(it, other)
        return Frm(lib.compare(it, op, o, self.arr) if refl else lib.compare(it, op, self.arr, o))

    def sym_getitem(self, it, key):
        key = force(it, key)
        if isinstance(key, T) and key.sort == 'I':
            return Loc(self).sym_getitem(it, (slice(None), key))
        raise Unsupported('data frame[...]')

    def sym_getattr(self, it, name):
        if name == 'values':
            return self.arr
        if name == 'index':
            return Index(self.dims[0])
        if name == 'columns':
            return Index(self.dims[1])
        if name in ('at', 'loc'):
            return Loc(self)
        if name == 'copy':
            return Native(lambda it_, deep=True: it_.new(Frm(copy_arr(it_, self.arr))), 'DataFrame.copy')
        if name == 'fillna':
            return Native(lambda it_, v: self.sym_map1(it_, lambda x: fill(x, v)), 'DataFrame.fillna')
        if name == 'astype':
            return Native(lambda it_, t, **k: Frm(lib.arr_astype(it_, self.arr, t)), 'DataFrame.astype')
        if name in ('sum', 'any', 'all'):
            def red(it_, axis=0):
                axis = lib.concrete_int(axis) if not isinstance(axis, str) else {'index': 0, 'columns': 1}[axis]
                r = lib.np_reduce(it_, name, self.arr, axis)
                return Ser(self.dims[1 - axis], it_.new(r))
            return Native(red, 'DataFrame.' + name)
        if name == 'shape':
            return (self.dims[0].length, self.dims[1].length)
        if name == 'T':
            f = self.arr.frozen()
            return Frm(Arr([self.dims[1], self.dims[0]], lambda i, j: f(j, i), dtype=self.arr.dtype))
        if name in ('to_numpy',):
            return Native(lambda it_: copy_arr(it_, self.arr), 'DataFrame.to_numpy')
        ops = {'multiply': ast.Mult, 'mul': ast.Mult, 'add': ast.Add, 'sub': ast.Sub, 'subtract': ast.Sub, 'div': ast.Div, 'divide': ast.Div, 'truediv': ast.Div}
        if name in ops:
            def method(it_, o, axis='columns'):
                o = force(it_, o)
                if isinstance(o, Frm) or lib.is_scalar(o):
                    return self.sym_binop(it_, ops[name](), o, False)
                ax = {'columns': 1, 'index': 0}.get(axis, axis)
                if not isinstance(o, Ser) or isinstance(o, TextSer) or ax not in (0, 1) or isinstance(ax, T):
                    raise Unsupported('DataFrame.' + name)
                if not same_dim(o.dim, self.dims[ax], it_.path.conds):
                    raise Unsupported('alignment of data frames')
                g = o.arr.frozen()
                b = Arr(list(self.dims), lambda i, j: g(j if ax else i), dtype=o.arr.dtype)
                return Frm(lib.binop(it_, ops[name](), self.arr, b))
            return Native(method, 'DataFrame.' + name)
        raise Unsupported('DataFrame.' + name)


class Loc:
    def __init__(self, f):
        self.f = f

    def sel(self, it, key):
        key = key if isinstance(key, tuple) else (key, slice(None))
        out = []
        for d, k in zip(self.f.dims, key):
            k = force(it, k)
            if isinstance(k, slice):
                if not k.start is k.stop is k.step is None:
                    raise Unsupported('loc slice')
                out.append(('all', d))
            elif isinstance(k, (Arr, Ser)):
                a = as_arr(it, k)
                s = a.at(*positions(a.dims)[0])
                if isinstance(s, T) and s.sort == 'B':
                    f = lib.norm1(it, d, a)[1].frozen()
                    out.append(('mask', Sub(d, lambda i, f=f: truth(f(i)))))
                else:
                    out.append(self.labels(it, d, k))
            elif isinstance(k, (Index, PosSet)):
                out.append(self.labels(it, d, k))
            elif isinstance(k, T) and k.sort == 'I':
                if not it.branch(d.member(k)):
                    it.raise_(KeyError, k)
                out.append(('pos', k))
            elif isinstance(k, str) or isinstance(k, T) and k.sort == 'S':
                it.raise_(KeyError, k)
            else:
                raise Unsupported('loc key')
        return out

    def labels(self, it, d, k):
        e, f = labels_of(it, k)
        v = e.new('l')
        if f(v) is not v or e.base is not d.base:
            raise Unsupported('rows reordered by labels')
        if it.branch(any_(e.base, lambda i: and_(e.pred(i), not_(d.member(i))))):
            it.raise_(KeyError)
        return ('mask', e)

    def sym_getitem(self, it, key):
        sel = self.sel(it, key)
        g = self.f.arr.frozen()
        if all(s[0] == 'pos' for s in sel):
            return self.f.arr.at(*[s[1] for s in sel])
        dims = [s[1] for s in sel if s[0] != 'pos']

        def at(*idx):
            idx = list(idx)
            return g(*[s[1] if s[0] == 'pos' else idx.pop(0) for s in sel])
        a = it.new(Arr(dims, at, dtype=self.f.arr.dtype))
        return it.new(Ser(dims[0], a)) if len(dims) == 1 else it.new(Frm(a))

    def sym_setitem(self, it, key, v):
        sel = self.sel(it, key)
        v = force(it, v)
        if v is None:
            v = NAN
        if isinstance(v, (Arr, Ser, Frm, list)):
            raise Unsupported('data frame region = array')
        a = self.f.arr
        check_write(it, a)
        write(a, lambda *idx: and_(*[TRUE if s[0] == 'all' else s[1].pred(i) if s[0] == 'mask' else eq(i, s[1]) for s, i in zip(sel, idx)]), v)


# ------------------------------------------------------------------------------------------------ constructors
def series(it, data=None, index=None, name=None, dtype=None, copy=None):
    data, index = force(it, data), force(it, index)
    if index is None:
        if data is None or isinstance(data, (list, dict)) and not data:
            return it.new(Part())
        if isinstance(data, (Ser, Part)):
            return data.copy(it)
        if isinstance(data, Named) and it.path is not None and not it.branch(data.isnone()):
            return NamedSer(data.copy())
        raise Unsupported('series without an index')
    if isinstance(index, Index):
        dim = index.dim
    elif isinstance(index, Arr) and len(index.dims) == 1:
        dim = index.dims[0]
        v = dim.new('x')
        if index.at(v) is not v:
            raise Unsupported('index of other labels')
    else:
        raise Unsupported('index of a series')
    if data is None:
        return it.new(Ser(dim, it.new(Arr([dim], lambda i: NAN))))
    if lib.is_scalar(data):
        v = lift(data)
        return it.new(Ser(dim, it.new(Arr([dim], lambda i: v, dtype=v.sort))))
    if isinstance(data, (Ser,)):
        if data.dim is not dim and not same_dim(data.dim, dim, it.path.conds):
            raise Unsupported('alignment of series')
        return data.copy(it)
    if isinstance(data, Arr) and len(data.dims) == 1:
        if not same_dim(data.dims[0], dim, it.path.conds):
            raise Unsupported('length of the data of a series')
        f = data.frozen()
        s = f(dim.new('x'))
        if isinstance(s, Named):
            return DictSer.of(it, dim, f, s)
        if s is None:
            return it.new(Ser(dim, it.new(Arr([dim], lambda i: NAN))))
        return it.new(Ser(dim, it.new(Arr([dim], f, dtype=s.sort if isinstance(s, T) else 'O'))))
    raise Unsupported('series of {}'.format(type(data).__name__))


def frame(it, data=None, index=None, columns=None, dtype=None):
    if getattr(it, 'frame_of_nodes', None):
        return it.frame_of_nodes(it, **{k: v for k, v in dict(data=data, index=index, columns=columns).items() if v is not None})
    data = force(it, data)
    if isinstance(data, Frm) and index is None and columns is None:
        return it.new(Frm(lib.arr_astype(it, data.arr, dtype) if dtype is not None else copy_arr(it, data.arr)))
    if isinstance(data, (Arr, Frm)) and isinstance(index, Index) and isinstance(columns, Index):
        a = lib.as_arr(it, data)
        ok = len(a.dims) == 2 and all(same_dim(x, y.dim, it.path.conds) for x, y in zip(a.dims, (index, columns)))
        if not ok:
            raise Unsupported('data of a data frame')
        r = copy_arr(it, a)
        return it.new(Frm(lib.arr_astype(it, r, dtype) if dtype is not None else r))
    if index is None or columns is None or not (data is None or isinstance(data, (int, Fraction)) or isinstance(data, T) and data.sort == 'R'):
        raise Unsupported('data frame')
    fill_ = NAN if data is None else lift(data)
    i, c = force(it, index), force(it, columns)
    if not isinstance(i, Index) or not isinstance(c, Index):
        raise Unsupported('labels of a data frame')
    return it.new(Frm(it.new(Arr([i.dim, c.dim], lambda *x: fill_))))


def dict_of_pairs(it, keys, vals):
    """dict(zip(texts, values)), or None"""
    t = Texts.of(keys)
    if t is None or not isinstance(vals, Arr):
        return None
    f = vals.frozen()
    if not isinstance(lift(f(keys.dims[0].new('dz'))), T):
        return None
    return it.new(Named(t.axis, t.text, FALSE, t.pred, f))


def install(it):
    S, F = Native(series, 'pandas.Series'), Native(frame, 'pandas.DataFrame')
    S.libtype, F.libtype = 'pandas.Series', 'pandas.DataFrame'
    core = Lib('pandas.core', {'series': Lib('pandas.core.series', {'Series': S}), 'frame': Lib('pandas.core.frame', {'DataFrame': F})})
    it.libs['pandas'] = Lib('pandas', {'Series': S, 'DataFrame': F, 'core': core,
                                       'isnull': Native(lambda it_, x: lib.lift_elementwise(it_, isnan, x), 'pandas.isnull')})
