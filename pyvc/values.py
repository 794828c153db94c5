"""Symbolic values: axes (ordered finite collections of unknown length), arrays over axes, symbolic dictionaries, objects."""
import itertools
from terms import *
import terms as tm


class Unsupported(Exception):
    """the code uses something that the engine has no rule for: the obligation stays undischarged"""


class PyExc(Exception):
    """a Python exception of the interpreted program"""

    def __init__(self, cls, args=()):
        self.cls, self.eargs = cls, args
        super().__init__(getattr(cls, 'name', getattr(cls, '__name__', '?')), *[str(a)[:80] for a in args])


_n = itertools.count()


class Axis:
    def __init__(self, name, nonempty=False):
        self.name, self.base = name, self
        self.length = const('len_' + name, 'R')
        LENGTHS[self.length] = self
        self.nonempty = nonempty

    def member(self, i):
        return app('in_' + self.name, (i,), 'B')

    def pred(self, i):
        return TRUE

    def new(self, tag='i'):
        """an arbitrary position"""
        return const('{}_{}{}'.format(self.name, tag, next(_n)), 'I')

    def __repr__(self):
        return 'Axis({})'.format(self.name)


LENGTHS = {}
import terms as _tm
_tm.LENGTHS = LENGTHS


class Sub:
    """the positions of an axis that satisfy a predicate, in the order of the axis"""

    def __init__(self, base, pred):
        if isinstance(base, Sub):
            p0, p1 = base.pred, pred
            self.base, self.pred = base.base, lambda i: and_(p0(i), p1(i))
        else:
            self.base, self.pred = base, pred
        self.name = self.base.name
        # of a sorted Series: the token of the order in which the positions are listed (None: the order of the axis)
        self.order = base.order if isinstance(base, Sub) else None

    def member(self, i):
        return and_(self.base.member(i), self.pred(i))

    new = Axis.new

    @property
    def length(self):
        t = sum_(self.base, lambda i: ite(self.pred(i), num(1), num(0)))
        if t.op == 'sum' and t.args[2].op == 'num' and t.args[2].args[0] == 1:
            return self.base.length
        LENGTHS.setdefault(t, self)
        return t

    def __repr__(self):
        v = const('?', 'I')
        return 'Sub({}: {})'.format(self.base.name, self.pred(v))


class One:
    length = num(1)
    base = None

    def __repr__(self):
        return 'One'


ONE = One()


class Cat:
    """concatenation of dimensions"""

    def __init__(self, parts):
        self.parts = tuple(parts)
        self.base = None

    @property
    def length(self):
        t = add(*[p.length for p in self.parts])
        LENGTHS.setdefault(t, self)
        return t

    def __repr__(self):
        return 'Cat{}'.format(self.parts)


_same = {}


def same_dim(a, b, hyps=()):
    if a is b:
        return True
    if isinstance(a, (Axis, Sub)) and isinstance(b, (Axis, Sub)) and a.base is b.base and getattr(a, 'order', None) is getattr(b, 'order', None):
        v = const('same!', 'I')
        p, q = a.pred(v), b.pred(v)
        if p is q:
            return True
        k = (p, q)
        if k not in _same:
            _same[k] = prove(eq(p, q), [a.base.member(v)], 2000)[0] == 'proved'
        if _same[k]:
            return True
        return prove(eq(p, q), list(hyps) + [a.base.member(v)], 2000)[0] == 'proved'
    if isinstance(a, Cat) and isinstance(b, Cat) and len(a.parts) == len(b.parts):
        return all(same_dim(x, y, hyps) for x, y in zip(a.parts, b.parts))
    return False


class Buf:
    def __init__(self, fn):
        self.fn = fn
        self.version = 0
        self.serial = next(_n)


class Arr:
    """array (or list, when kind is 'list') over dimensions; elements given by a function of one position per dimension"""

    def __init__(self, dims, fn=None, buf=None, get=None, kind='array', dtype='R', base=None):
        self.dims = list(dims)
        self.buf = buf or Buf(fn)
        self.get_ = get
        self.kind, self.dtype, self.base = kind, dtype, base

    def __getitem__(self, idx):
        idx = idx if isinstance(idx, tuple) and not (idx and isinstance(idx[0], int)) else (idx,)
        return self.at(*idx)

    def at(self, *idx):
        return self.get_(*idx) if self.get_ else self.buf.fn(*idx)

    def snap(self):
        """function of the current contents"""
        f = self.buf.fn
        g = self.get_
        if g is None:
            return f
        raise Unsupported('snapshot of a view') if not hasattr(self, 'snapper') else None

    def frozen(self):
        if self.get_ is None:
            return self.buf.fn
        b = self.base.frozen()
        v = self.viewmap
        return lambda *idx: b(*v(*idx))

    @property
    def ndim(self):
        return len(self.dims)

    def __repr__(self):
        return '{}{}'.format(self.kind, self.dims)


def view(base, dims, viewmap):
    a = Arr(dims, buf=base.buf, get=lambda *idx: base.at(*viewmap(*idx)), dtype=base.dtype, base=base)
    a.viewmap = viewmap
    return a


class SymDict:
    """mapping with unknown keys of sort S; own: whether the program created it"""

    def __init__(self, name, dom, val):
        self.name, self.dom, self.val = name, dom, val

    def __repr__(self):
        return 'SymDict({})'.format(self.name)


class SymSet:
    def __init__(self, kind, src):
        self.kind, self.src = kind, src


class SObj:
    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})
        self.serial = next(_n)

    def __repr__(self):
        return '<{} object>'.format(self.cls.name)


class Opaque:
    """a value that is only passed around (text of messages and the like)"""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque({})'.format(self.what)


class Dyn:
    """a Python value whose type is decided only when the program looks at it: [(condition, value)], exclusive and exhaustive"""

    def __init__(self, name, cases):
        self.name, self.cases = name, cases

    def force(self, it):
        for c, v in self.cases[:-1]:
            if it.branch(c):
                return v
        it.path.assume(self.cases[-1][0])
        return self.cases[-1][1]

    def __repr__(self):
        return 'Dyn({})'.format(self.name)


TYPES_FN = {}  # the same by the name of a function of a position
TYPES = {}  # Python types of number terms: (exact type, bases...)


def typed(name, ty):
    """a number of the given Python type"""
    t = const(name)
    TYPES[t] = {'int': (int,), 'float': (float,), 'np.float64': (FLOAT64, float)}[ty]
    return t


def text(name):
    """a text (its value may equal any literal)"""
    return const(name, 'S')


def dyn(name, kinds=('None', 'bool', 'int', 'float', 'np.float64', 'str', 'dict', 'other'), dict_=None):
    """an arbitrary value of one of the kinds; .conds are the facts about it"""
    cases = []
    d = Dyn(name, cases)
    d.by = {}
    d.is_ = {}
    prev = []
    d.conds = []
    for k in kinds:
        b = const('type_{}_{}'.format(name, k), 'B')
        d.is_[k] = and_(b, *[not_(x) for x in prev]) if k != kinds[-1] else and_(*[not_(x) for x in prev])
        prev.append(b)
        if k == 'None':
            v = None
        elif k == 'bool':
            v = const('v_{}_bool'.format(name), 'B')
        elif k in ('int', 'float', 'np.float64'):
            v = typed('v_{}_{}'.format(name, k.split('.')[-1]), k)
        elif k == 'str':
            v = text('v_{}_str'.format(name))
            d.conds.append(not_(eq(v, NONE)))
        elif k == 'dict':
            v = dict_ or {}
        else:
            v = Other(name)
        d.by[k] = v
        cases.append((b, v))
    return d


class Other:
    """an object of a type that the program does not know (hashable, equal only to itself)"""

    def __init__(self, name='other'):
        self.name = name


class FLOAT64(float):
    """numpy.float64"""


def bcast(dims_list, hyps=()):
    n = max(len(d) for d in dims_list)
    out = []
    for k in range(n):
        cur = ONE
        for d in dims_list:
            j = k - (n - len(d))
            if j < 0 or d[j] is ONE:
                continue
            if cur is ONE:
                cur = d[j]
            elif not same_dim(cur, d[j], hyps):
                raise Unsupported('broadcast of {} and {}'.format(cur, d[j]))
        out.append(cur)
    return out


def elementwise(fn, *args, hyps=(), kind='array', dtype='R'):
    arrs = [a for a in args if isinstance(a, Arr)]
    if not arrs:
        return fn(*args)
    dims = bcast([a.dims for a in arrs], hyps)
    n = len(dims)
    snaps = [a.frozen() if isinstance(a, Arr) else None for a in args]

    def get(*idx):
        vals = []
        for a, s in zip(args, snaps):
            if s is None:
                vals.append(a)
            else:
                off = n - len(a.dims)
                vals.append(s(*[None if d is ONE else idx[off + k] for k, d in enumerate(a.dims)]))
        return fn(*vals)
    return Arr(dims, get, dtype=dtype)


def reduce_(op, a, k=0):
    """sum/prod/any/all along dimension k"""
    f = a.frozen()
    d = a.dims[k]
    rest = a.dims[:k] + a.dims[k + 1:]
    unit = {'sum': num(0), 'prod': num(1), 'all': TRUE, 'any': FALSE}[op]
    comb = {'sum': add, 'prod': mul, 'all': and_, 'any': or_}[op]
    bind = {'sum': sum_, 'prod': prod_, 'all': all_, 'any': any_}[op]

    def over(dim, g):
        if dim is ONE:
            return g(None)
        if isinstance(dim, Cat):
            return comb(*[over(p, lambda i, q=q: g((q, i))) for q, p in enumerate(dim.parts)])
        return bind(dim.base, lambda i: (g(i) if dim.pred(i) is TRUE else
                                         (ite(dim.pred(i), as_real(g(i)), unit) if op in ('sum', 'prod') else
                                          (implies(dim.pred(i), g(i)) if op == 'all' else and_(dim.pred(i), g(i))))))
    conv = (lambda x: x) if op in ('sum', 'prod') else (lambda x: truth(x) if isinstance(x, T) else (TRUE if x else FALSE))

    def get(*idx):
        idx = list(idx)
        return over(d, lambda i: conv(lift(f(*(idx[:k] + [i] + idx[k:])))))
    if not rest:
        return get()
    return Arr(rest, get)


def reduce_all(op, a):
    while isinstance(a, Arr):
        a = reduce_(op, a, len(a.dims) - 1)
    return a


def dims_member(dims, idx):
    out = []
    for d, i in zip(dims, idx):
        if d is ONE:
            continue
        if isinstance(d, Cat):
            out.append(dims_member([d.parts[i[0]]], [i[1]]))
        else:
            out.append(d.member(i))
    return and_(*out)


def positions(dims, tag='i'):
    """all the kinds of arbitrary elements of the dimensions: list of index tuples"""
    opts = []
    for d in dims:
        if d is ONE:
            opts.append([None])
        elif isinstance(d, Cat):
            o = []
            for q, p in enumerate(d.parts):
                for (x,) in positions([p], tag):
                    o.append((q, x))
            opts.append(o)
        else:
            opts.append([d.new(tag)])
    return list(itertools.product(*opts))
