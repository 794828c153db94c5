"""Semantics of the Python operators and of the library functions (numpy, builtins) on symbolic values.

These are the assumed contracts of the dependencies: each rule states what the library function returns for arrays of any size."""
import ast
import builtins
from fractions import Fraction
from values import *
import terms as tm
from interp import (Interp, Native, Lib, ClassInfo, SObj, Func, Bound, BUILTINS, PyExc, Super, Module, Return, Infeasible)

NAN = const('float_nan')
INF = const('float_inf')


class Stub:
    """object of which only the listed attributes / methods are known (an assumed interface)"""

    def __init__(self, name, ns, items=None):
        self.name, self.ns, self.items = name, ns, items

    def __repr__(self):
        return 'Stub({})'.format(self.name)


class SymRange:
    def __init__(self, axis):
        self.axis = axis


class SortedOf:
    def __init__(self, arr):
        self.arr = arr


class SetOf:
    def __init__(self, arr):
        self.arr = arr


class Ix:
    def __init__(self, masks):
        self.masks = masks


class Pos:
    """an integer position that stands for a specific place of a dimension"""


def fin(n):
    return Cat([ONE] * n)


def is_fin(d):
    return isinstance(d, Cat) and all(p is ONE for p in d.parts)


def concrete_int(x):
    if isinstance(x, bool):
        return None
    if isinstance(x, int):
        return x
    if isinstance(x, T) and x.op == 'num' and x.args[0].denominator == 1:
        return int(x.args[0])
    return None


def is_scalar(x):
    return isinstance(x, (T, int, bool, Fraction))


def force(it, x):
    return x.force(it) if isinstance(x, Dyn) else x


INJECTIVE = tm.INJECTIVE   # functions from positions to texts which identify them


def as_arr(it, x):
    if isinstance(x, Arr):
        return x
    if hasattr(x, 'sym_arr'):
        return x.sym_arr(it)
    if isinstance(x, (list, tuple)):
        vals = [v for v in x]
        if vals and all(isinstance(v, (list, tuple, Arr)) for v in vals):
            rows = [as_arr(it, v) for v in vals]
            inner = rows[0].dims
            for r in rows[1:]:
                if not all(same_dim(a, b) for a, b in zip(inner, r.dims)):
                    raise Unsupported('ragged array')
            fs = [r.frozen() for r in rows]
            return Arr([fin(len(vals))] + inner, lambda i, *rest: fs[i[0]](*rest))
        if not all(is_scalar(v) or isinstance(v, str) or v is None for v in vals):
            raise Unsupported('array of objects')
        return Arr([fin(len(vals))], lambda i: lift(vals[i[0]]))
    if isinstance(x, dict):
        raise Unsupported('array of a dict')
    raise Unsupported('array of {}'.format(type(x).__name__))


def copy_arr(it, a, kind='array'):
    f = a.frozen()
    r = Arr(a.dims, f, kind=kind, dtype=a.dtype)
    if hasattr(a, 'order'):
        r.order = a.order
    return it.new(r)


def elements(it, x):
    """concrete elements of a finite array, or None"""
    if isinstance(x, Arr) and x.dims and is_fin(x.dims[0]):
        f = x.frozen()
        if len(x.dims) == 1:
            return [f((q, None)) for q in range(len(x.dims[0].parts))]
        return [Arr(x.dims[1:], lambda *r, q=q: f((q, None), *r)) for q in range(len(x.dims[0].parts))]
    return None


def concrete_items(it, x):
    if isinstance(x, Arr):
        return elements(it, x)
    if isinstance(x, SetOf):
        return None
    return None


def same_value(a, b):
    """provable equality of two values (elementwise), as a term"""
    if isinstance(a, Arr) or isinstance(b, Arr):
        a2 = reduce_all('all', elementwise(lambda x, y: eq(lift(x), lift(y)), a, b))
        return a2
    return eq(lift(a), lift(b))


# ------------------------------------------------------------------------------------------------ arrays
def lift_elementwise(it, f, v):
    if hasattr(v, 'sym_map1'):
        return v.sym_map1(it, f)
    if isinstance(v, Arr):
        return it.new(elementwise(lambda x: f(lift(x)), v))
    if isinstance(v, T):
        return f(v)
    if isinstance(v, (int, bool, Fraction)):
        return f(v)
    raise Unsupported('operator on {}'.format(type(v).__name__))


def set_all(it, arr, val):
    """arr[...] = val"""
    check_write(it, arr)
    write(arr, lambda old, *idx: None, val, full=True)


def check_write(it, arr):
    if it.in_sub and id(arr.buf) not in it.fresh and id(arr.buf) not in getattr(it, 'havocked', {}):
        from loops import NeedHavoc
        raise NeedHavoc(arr)


def write(arr, pred, val, full=False):
    """arr[idx] = val(idx) where pred(idx); a view writes through to its base"""
    if full:
        pred = lambda *idx: TRUE
    if arr.get_ is not None:
        base = arr.base
        inv = getattr(arr, 'inverse', None)
        if inv is None:
            raise Unsupported('write through this view')
        v = val.frozen() if isinstance(val, Arr) else None
        # the base positions which the view shows
        write(base, lambda *b: inv(*b)[0] if inv(*b) is None else and_(inv(*b)[0], pred(*inv(*b)[1])),
              ('fn', (lambda *b: (v(*spread(val.dims, arr.dims, inv(*b)[1])) if v else lift(val)))))
        return
    old = arr.buf.fn
    if isinstance(val, tuple) and val and val[0] == 'fn':
        g = val[1]
    elif isinstance(val, Arr):
        f = val.frozen()
        dims = arr.dims
        g = lambda *idx: f(*spread(val.dims, dims, idx))
    else:
        x = lift(val)
        g = lambda *idx: x
    arr.buf.fn = lambda *idx: ite_any(pred(*idx), g, old, idx)
    arr.buf.version += 1


def ite_any(c, g, old, idx):
    if c is TRUE:
        return lift(g(*idx))
    if c is FALSE:
        return lift(old(*idx))
    return ite(c, lift(g(*idx)), lift(old(*idx)))


def spread(vdims, dims, idx):
    off = len(dims) - len(vdims)
    return [None if d is ONE else idx[off + k] for k, d in enumerate(vdims)]


def norm_key(it, arr, key):
    """list of one selector per dimension: ('all',), ('new',), ('mask', Arr), ('pos', index), ('part', lo, hi)"""
    if isinstance(key, Ix):
        return [('mask', m) for m in key.masks]
    ks = list(key) if isinstance(key, tuple) else [key]
    if any(k is Ellipsis for k in ks):
        raise Unsupported('ellipsis')
    out, d = [], 0
    for k in ks:
        if k is None:
            out.append(('new',))
            continue
        if isinstance(k, Arr) and len(k.dims) >= 2 and len(k.dims) == len(arr.dims) and len(ks) == 1:
            return [('mask2', k)]
        if d >= len(arr.dims):
            raise Unsupported('too many indices')
        dim = arr.dims[d]
        d += 1
        out.append(norm1(it, dim, k))
    while d < len(arr.dims):
        out.append(('all',))
        d += 1
    return out


def norm1(it, dim, k):
    if isinstance(k, slice):
        if k.start is None and k.stop is None and k.step is None:
            return ('all',)
        if k.step is not None:
            raise Unsupported('stepped slice')
        if isinstance(dim, Cat):
            n = len(dim.parts)
            lo = 0 if k.start is None else concrete_int(k.start)
            hi = None if k.stop is None else concrete_int(k.stop)
            if lo is None or (hi is None and k.stop is not None):
                raise Unsupported('symbolic slice of a concatenation')
            # only ends made of single elements may be cut off
            a, b = 0, n
            if lo < 0:
                a = n
                for _ in range(-lo):
                    a -= 1
                    if a < 0 or dim.parts[a] is not ONE:
                        raise Unsupported('slice')
            else:
                for _ in range(lo):
                    if a >= n or dim.parts[a] is not ONE:
                        if is_fin(dim):
                            break
                        raise Unsupported('slice')
                    a += 1
            if hi is not None:
                if hi < 0:
                    for _ in range(-hi):
                        b -= 1
                        if b < 0 or dim.parts[b] is not ONE:
                            if is_fin(dim):
                                b = 0
                                break
                            raise Unsupported('slice')
                else:
                    if not all(p is ONE for p in dim.parts[:hi]):
                        raise Unsupported('slice')
                    b = min(n, hi)
            return ('part', a, max(a, b))
        raise Unsupported('slice of an axis')
    if hasattr(k, 'sym_arr'):
        k = k.sym_arr(it)
    if isinstance(k, Arr):
        if len(k.dims) == 1 and k.dtype == 'B' or (len(k.dims) == 1 and all(k.at(*p).sort == 'B' for p in positions(k.dims))):
            if not same_dim(k.dims[0], dim, it.path.conds if it.path else ()):
                raise Unsupported('mask of another axis')
            return ('mask', k)
        if len(k.dims) == 1 and isinstance(k.dims[0], (Axis, Sub)) and k.dtype != 'S':
            v = k.dims[0].new('ix')
            if k.at(v) is v and same_dim(k.dims[0], dim, it.path.conds if it.path else ()):
                return ('ident', k.dims[0])
        raise Unsupported('index array')
    if isinstance(k, list):
        return norm1(it, dim, as_arr(it, k))
    if isinstance(k, T) and k.sort == 'I':
        if isinstance(dim, (Axis, Sub)):
            return ('pos', k)
        raise Unsupported('position of another axis')
    n = concrete_int(k)
    if n is not None:
        if isinstance(dim, Cat):
            parts = dim.parts
            if n < 0:
                q = len(parts)
                for _ in range(-n):
                    q -= 1
                    if q < 0:
                        it.raise_(IndexError)
                    if parts[q] is not ONE:
                        raise Unsupported('negative index')
            else:
                if n >= len(parts) and is_fin(dim):
                    it.raise_(IndexError)
                if not all(p is ONE for p in parts[:n + 1]):
                    raise Unsupported('index')
                q = n
            return ('pos', (q, None))
        if isinstance(dim, (Axis, Sub)) and n in (0, -1):
            # first / last element of an axis that must not be empty
            nonempty = any_(dim.base, dim.pred)
            if not it.branch(or_(nonempty, lift(False))):
                it.raise_(IndexError)
            return ('pos', first_position(it, dim, n))
        raise Unsupported('integer index')
    if isinstance(k, (T,)):
        raise Unsupported('symbolic index')
    raise Unsupported('index {}'.format(type(k).__name__))


_firsts = {}


def first_position(it, dim, n):
    """position of the first (last) element of a non-empty dimension: a function of the set of positions only"""
    v = tm.mk('var', (-7,), 'I')
    p = dim.pred(v)
    free = sorted({x for x in walk(p) if x.op == 'const' and x.sort == 'I'}, key=lambda t: t.id)
    name = ('first' if n == 0 else 'last')
    canon = subst(p, {x: tm.mk('var', (-100 - i,), 'I') for i, x in enumerate(free)})
    try:
        nf = NF()
        k = (name, dim.base.name, NF.key(nf.bool(canon)))
    except tm.TooBig:
        k = (name, dim.base.name, canon)
    f = _firsts.setdefault(k, '{}_{}_{}'.format(name, dim.base.name, len(_firsts)))
    ax = dim.base

    def facts(a, pr=canon, free_n=len(free)):
        m = {tm.mk('var', (-100 - i,), 'I'): a.args[1 + i] for i in range(free_n)}
        q = subst(subst(pr, {v: a}), m)
        ne = any_(ax, lambda i: subst(subst(pr, {v: i}), m))
        return [or_(not_(ne), and_(ax.member(a), q))]
    if f not in tm.FACTS:
        tm.FACTS[f] = [facts]
        import numeval

        def which(m, args):
            env = {tm.mk('var', (-100 - i,), 'I'): x for i, x in enumerate(args)}
            order = range(m.n(ax.name)) if n == 0 else range(m.n(ax.name) - 1, -1, -1)
            for q in order:
                if m.ev(canon, dict(env, **{}) | {v: q}):
                    return q
            return 777
        numeval.DEFS[f] = which
    return app(f, tuple(free), 'I')


def dict_key(it, d, key):
    """the key of a (concrete) dictionary which equals the given one, as a 1-tuple, or None"""
    if isinstance(key, (list, dict, set, SymDict)):
        it.raise_(TypeError)
    if isinstance(key, tuple) and any(isinstance(x, T) for x in key):
        for k in d:
            if isinstance(k, tuple) and it.truth(compare(it, ast.Eq(), k, key)):
                return (k,)
        return None
    if isinstance(key, T) and key in d:
        return (key,)
    if not isinstance(key, T):
        if key in d:
            return (key,)
        if not any(isinstance(k, T) for k in d) or not isinstance(key, (str, int, bool, type(None))):
            return None
    for k in d:
        if isinstance(k, (str, int, T, type(None))) and (isinstance(k, T) or isinstance(key, T)) and it.branch(eq(lift(key), lift(k))):
            return (k,)
    return None


def getitem(it, obj, key):
    obj, key = force(it, obj), force(it, key)
    if isinstance(obj, Arr):
        return arr_getitem(it, obj, key)
    if isinstance(obj, (list, tuple, str)):
        if isinstance(key, slice):
            g = lambda x: None if x is None else need_int(x)
            return it.new(obj[g(key.start):g(key.stop):g(key.step)]) if not isinstance(obj, str) else obj[g(key.start):g(key.stop):g(key.step)]
        n = need_int(key)
        if not -len(obj) <= n < len(obj):
            it.raise_(IndexError)
        return obj[n]
    if isinstance(obj, (dict,)):
        k = dict_key(it, obj, key)
        if k is None:
            it.raise_(KeyError, key)
        return obj[k[0]]
    if isinstance(obj, SymDict):
        k = lift(key)
        if not it.branch(obj.dom(k)):
            it.raise_(KeyError, key)
        return obj.val(k)
    if isinstance(obj, SObj):
        h = obj.cls.find('__getitem__') if isinstance(obj.cls, ClassInfo) else None
        if h is not None:
            return it.call(Bound(obj, h), [key], {})
        if isinstance(obj.cls, ClassInfo) and dict in obj.cls.mro:
            return getitem(it, obj.attrs['@dict'], key)
    if isinstance(obj, Stub) and obj.items is not None:
        return obj.items(it, key)
    if isinstance(obj, IxBuilder):
        return obj.build(it, key)
    if hasattr(obj, 'sym_getitem'):
        return obj.sym_getitem(it, key)
    raise Unsupported('item of {}'.format(type(obj).__name__))


def need_int(x):
    n = concrete_int(x) if not isinstance(x, bool) else int(x)
    if n is None:
        raise Unsupported('symbolic integer index')
    return n


def arr_getitem(it, a, key):
    sel = norm_key(it, a, key)
    if sel and sel[0][0] == 'mask2':
        m = sel[0][1].frozen()
        f = a.frozen()
        raise Unsupported('selection by a 2-D mask')
    if all(s[0] == 'pos' for s in sel):
        return a.at(*[s[1] for s in sel])
    if any(s[0] == 'ident' for s in sel):
        q, k = diagonal(a, sel)
        f = a.frozen()
        return it.new(Arr(a.dims[:q + 1] + a.dims[q + k:], lambda *i: f(*(i[:q] + (i[q],) * k + i[q + 1:])), dtype=a.dtype))
    dims, d = [], 0
    plan = []
    basic = True
    for s in sel:
        if s[0] == 'new':
            dims.append(ONE)
            plan.append(('new',))
            continue
        dim = a.dims[d]
        d += 1
        if s[0] == 'all':
            dims.append(dim)
            plan.append(('all',))
        elif s[0] == 'mask':
            basic = False
            mf = s[1].frozen()
            if isinstance(dim, Cat):
                raise Unsupported('mask on a concatenation')
            dims.append(Sub(dim, lambda i, mf=mf: mf(i)))
            plan.append(('all',))
        elif s[0] == 'pos':
            plan.append(s)
        elif s[0] == 'part':
            parts = dim.parts[s[1]:s[2]]
            if len(parts) == 1:
                dims.append(parts[0] if parts[0] is not ONE else Cat(parts))
                plan.append(('part1' if parts[0] is not ONE else 'off', s[1]))
            else:
                dims.append(Cat(parts))
                plan.append(('off', s[1]))

    def vmap(*idx):
        out, k = [], 0
        for p in plan:
            if p[0] == 'new':
                k += 1
            elif p[0] == 'pos':
                out.append(p[1])
            else:
                i = idx[k]
                k += 1
                if p[0] == 'part1':
                    i = (p[1], i)
                elif p[0] == 'off':
                    i = (i[0] + p[1], i[1])
                out.append(i)
        return out
    if a.kind == 'list' or not basic:
        f = a.frozen()
        r = Arr(dims, lambda *idx: f(*vmap(*idx)), dtype=a.dtype, kind=a.kind)
        return it.new(r)
    v = view(a, dims, vmap)

    def inverse(*b):
        """(condition that the base position is shown, the view's position)"""
        cond, idx, bi = TRUE, [], 0
        for p in plan:
            if p[0] == 'new':
                idx.append(None)
                continue
            x = b[bi]
            bi += 1
            if p[0] == 'pos':
                if isinstance(p[1], tuple):
                    cond = cond if isinstance(x, tuple) and x[0] == p[1][0] else FALSE
                else:
                    cond = and_(cond, eq(x, p[1]))
            elif p[0] == 'part1':
                cond = cond if x[0] == p[1] else FALSE
                idx.append(x[1])
            elif p[0] == 'off':
                idx.append((x[0] - p[1], x[1]))
            else:
                idx.append(x)
        return cond, idx
    v.inverse = inverse
    it.keep.append(v)
    return v


def setitem(it, obj, key, v):
    obj, key = force(it, obj), force(it, key)
    if isinstance(obj, Arr):
        check_write(it, obj)
        return arr_setitem(it, obj, key, v)
    if isinstance(obj, list):
        it.check_mutable(obj)
        obj[need_int(key)] = v
        return
    if isinstance(obj, dict):
        it.check_mutable(obj)
        it.dict_store(obj, key, v)
        return
    if isinstance(obj, SObj):
        h = obj.cls.find('__setitem__')
        if h is not None:
            return it.call(Bound(obj, h), [key, v], {})
    if hasattr(obj, 'sym_setitem'):
        return obj.sym_setitem(it, key, v)
    raise Unsupported('item assignment of {}'.format(type(obj).__name__))


def diagonal(a, sel):
    """selection by identical index arrays in consecutive dimensions (the others whole): (first of them, their number)"""
    at = [q for q, s in enumerate(sel) if s[0] == 'ident']
    if at != list(range(at[0], at[-1] + 1)) or any(s[0] not in ('ident', 'all') for s in sel):
        raise Unsupported('index arrays')
    return at[0], len(at)


def arr_setitem(it, a, key, v):
    sel = norm_key(it, a, key)
    if any(s[0] == 'ident' for s in sel):
        q, k = diagonal(a, sel)
        td = a.dims[:q + 1] + a.dims[q + k:]
        if isinstance(v, Arr):
            if len(v.dims) > len(td) or any(d1 is not ONE and not same_dim(d1, d2, it.path.conds if it.path else ()) for d1, d2 in zip(v.dims, td[len(td) - len(v.dims):])):
                raise Unsupported('shape of the assigned array')
            f = v.frozen()
            val = ('fn', lambda *i: f(*spread(v.dims, td, i[:q + 1] + i[q + k:])))
        else:
            val = v
        return write(a, lambda *i: and_(*[eq(i[q], x) for x in i[q + 1:q + k]]), val)
    if any(s[0] == 'new' for s in sel):
        raise Unsupported('assignment with a new axis')
    if isinstance(v, (list, tuple)):
        v = as_arr(it, v)
    if sel[0][0] == 'mask2':
        m = sel[0][1].frozen()
        if isinstance(v, Arr):
            raise Unsupported('array stored through a mask of many dimensions')
        return write(a, lambda *idx: m(*idx), v)
    tdims, conds = [], []
    for k, s in enumerate(sel):
        dim = a.dims[k]
        if s[0] == 'all':
            tdims.append(dim)
        elif s[0] == 'mask':
            mf = s[1].frozen()
            conds.append((k, mf))
            tdims.append(Sub(dim, mf))
        elif s[0] == 'pos':
            conds.append((k, lambda i, p=s[1]: (TRUE if isinstance(p, tuple) and isinstance(i, tuple) and i == p else
                                                FALSE if isinstance(p, tuple) else eq(i, p))))
            tdims.append(None)
        else:
            raise Unsupported('assignment to a slice')
    pred = lambda *idx: and_(*[c(idx[k]) for k, c in conds])
    if isinstance(v, Arr):
        td = [d for d in tdims if d is not None]
        if len(v.dims) > len(td):
            raise Unsupported('shape of the assigned array')
        for d1, d2 in zip(v.dims, td[len(td) - len(v.dims):]):
            if d1 is not ONE and not same_dim(d1, d2, it.path.conds if it.path else ()):
                raise Unsupported('shape of the assigned array: {} for {}'.format(d1, d2))
        f = v.frozen()

        def g(*idx):
            shown = [i for i, d in zip(idx, tdims) if d is not None]
            return f(*spread(v.dims, td, shown))
        return write(a, pred, ('fn', g))
    if not (is_scalar(v) or isinstance(v, str)):
        raise Unsupported('stored value')
    write(a, pred, v)


def set_attr(it, obj, name, v):
    if hasattr(obj, 'sym_setattr'):
        return obj.sym_setattr(it, name, v)
    raise Unsupported('attribute {} of {}'.format(name, type(obj).__name__))


# ------------------------------------------------------------------------------------------------ operators
OPS = {ast.Add: add, ast.Sub: lambda a, b: add(a, neg(b)), ast.Mult: mul, ast.Div: div, ast.Pow: power,
       ast.BitAnd: and_, ast.BitOr: or_}


def binop(it, op, a, b):
    a, b = force(it, a), force(it, b)
    k = type(op)
    for x, y, refl in ((a, b, False), (b, a, True)):
        if hasattr(x, 'sym_binop'):
            return x.sym_binop(it, op, y, refl)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if k is ast.Mult and isinstance(a, Arr) and a.kind == 'list' or isinstance(b, Arr) and b.kind == 'list' and k is ast.Mult:
            raise Unsupported('repeated list')
        if k is ast.Add and any(isinstance(x, Arr) and x.kind == 'list' for x in (a, b)):
            if isinstance(a, (list, Arr)) and isinstance(b, (list, Arr)):
                return it.new(concat(it, [a, b], kind='list'))
        if k is ast.MatMult and isinstance(a, Arr) and isinstance(b, Arr):
            return np_dot(it, a, b)
        if k not in OPS:
            raise Unsupported('array operator ' + k.__name__)
        f = OPS[k]
        a = as_arr(it, a) if isinstance(a, (list, tuple)) else a
        b = as_arr(it, b) if isinstance(b, (list, tuple)) else b
        if not all(isinstance(x, Arr) or is_scalar(x) for x in (a, b)):
            raise Unsupported('array operand')
        r = elementwise(lambda x, y: f(lift(x), lift(y)), a, b, hyps=it.path.conds if it.path else ())
        if k in (ast.BitAnd, ast.BitOr):
            r.dtype = 'B'
        return it.new(r)
    # repetition of a list an unknown number of times
    if k is ast.Mult:
        for x, y in ((a, b), (b, a)):
            if isinstance(y, list) and isinstance(x, T) and concrete_int(x) is None:
                d = LENGTHS.get(x)
                if d is None or len(y) != 1:
                    raise Unsupported('repetition of a list')
                v = lift(y[0])
                return it.new(Arr([d], lambda i: v, kind='list', dtype=v.sort))
            if isinstance(y, (list, str, tuple)) and concrete_int(x) is not None:
                return it.new(y * concrete_int(x)) if not isinstance(y, str) else y * concrete_int(x)
    if isinstance(a, T) or isinstance(b, T):
        sorts = [x.sort for x in (a, b) if isinstance(x, T)]
        if any(isinstance(x, (str, Opaque)) or x is None for x in (a, b)) or any(s not in 'RIB' for s in sorts):
            if k is ast.Add and all(isinstance(x, str) or isinstance(x, T) and x.sort == 'S' for x in (a, b)):
                return app('concat', (lift(a), lift(b)), 'S')
            if k is ast.Mod:
                return Opaque('text')
            raise Unsupported('operator on text')
        a2, b2 = lift(a), lift(b)
        if k in OPS:
            if k in (ast.BitAnd, ast.BitOr) and not (a2.sort == 'B' and b2.sort == 'B'):
                raise Unsupported('bit operation')
            if k is ast.Div and b2.op == 'num' and b2.args[0] == 0:
                it.raise_(ZeroDivisionError)
            if a2.sort == 'I' or b2.sort == 'I':
                raise Unsupported('arithmetic on positions')
            return it_unnum(OPS[k](a2, b2))
        raise Unsupported('operator ' + k.__name__)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('text')
    num_ = (int, bool, Fraction)
    if isinstance(a, num_) and isinstance(b, num_):
        try:
            r = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: Fraction(a) / Fraction(b),
                 ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b if b >= 0 else Fraction(a) ** b,
                 ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b}[k]()
        except ZeroDivisionError:
            it.raise_(ZeroDivisionError)
        except KeyError:
            raise Unsupported('operator ' + k.__name__)
        return num(r) if isinstance(r, Fraction) else r
    if isinstance(a, str) and k is ast.Mod:
        return format_(it, a, [b])
    if isinstance(a, (str, list, tuple)) and isinstance(b, type(a)) and k is ast.Add:
        return it.new(a + b) if not isinstance(a, str) else a + b
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return it.new({ast.BitOr: a | b, ast.BitAnd: a & b, ast.Sub: a - b}[k])
    if isinstance(a, SObj) and isinstance(a.cls, ClassInfo):
        h = a.cls.find({ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__'}.get(k, '?'))
        if h is not None:
            return it.call(Bound(a, h), [b], {})
    if isinstance(a, (str, type(None), list, dict, tuple)) or isinstance(b, (str, type(None), list, dict, tuple)):
        if isinstance(a, (str, type(None), list, dict, tuple, int, bool)) and isinstance(b, (str, type(None), list, dict, tuple, int, bool)):
            it.raise_(TypeError)
    raise Unsupported('operator {} on {} and {}'.format(k.__name__, type(a).__name__, type(b).__name__))


def it_unnum(t):
    return t


def compare(it, op, a, b):
    a, b = force(it, a), force(it, b)
    a, b = getattr(a, 'pytype', a) if isinstance(a, Native) else a, getattr(b, 'pytype', b) if isinstance(b, Native) else b
    k = type(op)
    if k in (ast.Is, ast.IsNot):
        if a is None and hasattr(b, 'sym_isnone') or b is None and hasattr(a, 'sym_isnone'):
            r = it.unbool((b if a is None else a).sym_isnone)
        elif isinstance(a, SObj) and isinstance(b, SObj) and hasattr(a, 'same'):
            r = it.unbool(a.same(b))
        elif isinstance(a, Maybe) or isinstance(b, Maybe):
            m, o = (a, b) if isinstance(a, Maybe) else (b, a)
            if o is not None:
                raise Unsupported('is')
            r = m.isnone
        elif isinstance(a, T) and isinstance(b, (bool,)) or isinstance(b, T) and isinstance(a, bool):
            t, c = (a, b) if isinstance(a, T) else (b, a)
            if t.sort == 'B':
                r = t if c else not_(t)
            else:
                r = False
        elif isinstance(a, T) and a.sort == 'S' and b is None:
            r = eq(a, NONE)
        elif isinstance(a, T) and a.sort == 'R' and b is None and any(x is NAN for x in tm.walk(a)):
            raise Unsupported('None or NaN')
        else:
            r = a is b or (isinstance(a, (bool, type(None))) and a == b and type(a) is type(b))
            if isinstance(a, type) or isinstance(b, type):
                r = a is b
        return (not r if not isinstance(r, T) else not_(r)) if k is ast.IsNot else r
    if k in (ast.In, ast.NotIn):
        r = contains(it, a, b)
        return (it.unbool(not_(r)) if isinstance(r, T) else not r) if k is ast.NotIn else r
    for x, y, refl in ((a, b, False), (b, a, True)):
        if hasattr(x, 'sym_compare'):
            return x.sym_compare(it, op, y, refl)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if any(isinstance(x, Arr) and x.kind == 'list' for x in (a, b)) and not any(isinstance(x, Arr) and x.kind == 'array' for x in (a, b)):
            if k in (ast.Eq, ast.NotEq):
                r = list_equal(it, a, b)
                return not_(r) if k is ast.NotEq else r
            raise Unsupported('comparison of lists')
        f = cmp_fn(k)
        a = as_arr(it, a) if isinstance(a, (list, tuple)) else a
        b = as_arr(it, b) if isinstance(b, (list, tuple)) else b
        r = elementwise(lambda x, y: nan_aware(k, lift(x), lift(y)), a, b, hyps=it.path.conds if it.path else ())
        r.dtype = 'B'
        return it.new(r)
    if isinstance(a, T) or isinstance(b, T):
        if any(isinstance(x, (list, dict, tuple, set, SObj, ClassInfo, SymDict, Other)) for x in (a, b)):
            if k is ast.Eq:
                return False
            if k is ast.NotEq:
                return True
            it.raise_(TypeError)
        x, y = lift(a), lift(b)
        r = length_compare(k, x, y)
        if r is not None:
            return it.unbool(r)
        if k not in (ast.Eq, ast.NotEq):
            if 'S' in (x.sort, y.sort):
                if x.sort != y.sort or NONE in (x, y):
                    it.raise_(TypeError)
                raise Unsupported('order of texts')
        return it.unbool(nan_aware(k, x, y))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if k in (ast.Eq, ast.NotEq):
            if type(a) is not type(b) or len(a) != len(b):
                r = False
            else:
                r = TRUE
                for x, y in zip(a, b):
                    c = compare(it, ast.Eq(), x, y)
                    r = and_(r, lift(c))
                r = it.unbool(r)
            return (it.unbool(not_(r)) if isinstance(r, T) else not r) if k is ast.NotEq else r
    if isinstance(a, SetOf) or isinstance(b, SetOf):
        import pandas_
        ts = [pandas_.Texts.of(x) if isinstance(x, SetOf) else None for x in (a, b)]
        if None not in ts:
            return ts[0].sym_compare(it, op, ts[1], False)
        if k in (ast.Eq, ast.NotEq):
            es = [elements(it, x.arr) if isinstance(x, SetOf) else (list(x) if isinstance(x, (set, frozenset)) else None) for x in (a, b)]
            if None in es:
                raise Unsupported('equality of sets')
            r = and_(*[or_(*[lift(compare(it, ast.Eq(), x, y)) for y in es[1 - q]]) for q in (0, 1) for x in es[q]])
            r = it.unbool(r)
            return (it.unbool(not_(r)) if isinstance(r, T) else not r) if k is ast.NotEq else r
        raise Unsupported('comparison of sets')
    if isinstance(a, SortedOf) and isinstance(b, SortedOf):
        import pandas_
        ts = [pandas_.Texts.of(x) for x in (a, b)]
        if None not in ts:
            return ts[0].sym_compare(it, op, ts[1], False)
        raise Unsupported('comparison of sorted lists')
    if isinstance(a, SObj) or isinstance(b, SObj):
        if k in (ast.Eq, ast.NotEq):
            if isinstance(a, SObj) and isinstance(b, SObj) and hasattr(a, 'same') and (not isinstance(a.cls, ClassInfo) or a.cls.find('__eq__') is None):
                r = a.same(b)
                return it.unbool(r if k is ast.Eq else not_(r))
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SObj) and isinstance(x.cls, ClassInfo):
                    h = x.cls.find('__eq__')
                    if h is not None:
                        r = it.call(Bound(x, h), [y], {})
                        if k is ast.NotEq:
                            r = not_(r) if isinstance(r, T) else not it.truth(r)
                        return r
            return (a is b) == (k is ast.Eq)
        raise Unsupported('order of objects')
    if isinstance(a, dict) and isinstance(b, dict) and k in (ast.Eq, ast.NotEq):
        r = TRUE if set(a) == set(b) else FALSE
        if r is TRUE:
            for key in a:
                r = and_(r, lift(compare(it, ast.Eq(), a[key], b[key])))
        r = it.unbool(r)
        return (it.unbool(not_(r)) if isinstance(r, T) else not r) if k is ast.NotEq else r
    try:
        return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
                ast.GtE: lambda: a >= b}[k]()
    except TypeError:
        it.raise_(TypeError)


def nan_aware(k, x, y):
    """comparison; a missing value compares unequal to everything"""
    f = cmp_fn(k)
    if x.sort in 'RB' and y.sort in 'RB' and (NAN in walk(x) or NAN in walk(y)):
        from pandas_ import isnan, strip_nan
        no = or_(isnan(x), isnan(y))
        r = f(strip_nan(x), strip_nan(y))
        return or_(no, r) if k is ast.NotEq else and_(not_(no), r)
    return f(x, y)


def nonempty(t):
    """length term -> the fact that there is an element (None: not a length)"""
    d = LENGTHS.get(t)
    if isinstance(d, Axis):
        return TRUE if d.nonempty else any_(d, lambda i: TRUE)
    if isinstance(d, Sub):
        return any_(d.base, d.pred)
    return None


def length_compare(k, x, y):
    """comparisons of a length with zero (or one), in terms of the existence of an element"""
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    if x.op == 'num':
        x, y, k = y, x, flip[k]
    if y.op != 'num' or x.op == 'num':
        return None
    ne = nonempty(x)
    if ne is None:
        return None
    c = y.args[0]
    if c == 0:
        return {ast.Eq: not_(ne), ast.NotEq: ne, ast.Gt: ne, ast.LtE: not_(ne), ast.GtE: TRUE, ast.Lt: FALSE}[k]
    if c == 1 and k in (ast.Lt, ast.GtE):
        return not_(ne) if k is ast.Lt else ne
    if c == 1:
        d = LENGTHS[x]
        w = first_position(None, d, 0)
        one = and_(ne, all_(d.base, lambda i: implies(d.pred(i), eq(i, w))))
        r = {ast.Eq: one, ast.NotEq: not_(one), ast.LtE: or_(not_(ne), one), ast.Gt: and_(ne, not_(one))}.get(k)
        return r
    return None


def cmp_fn(k):
    return {ast.Eq: eq, ast.NotEq: lambda a, b: not_(eq(a, b)), ast.Lt: lt, ast.Gt: lambda a, b: lt(b, a),
            ast.LtE: lambda a, b: not_(lt(b, a)), ast.GtE: lambda a, b: not_(lt(a, b))}[k]


class Maybe:
    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val


def list_equal(it, a, b):
    a = as_arr(it, a) if isinstance(a, (list, tuple)) else a
    b = as_arr(it, b) if isinstance(b, (list, tuple)) else b
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return FALSE
    if any(getattr(x, 'order', None) == 'unknown' for x in (a, b)) or getattr(a, 'order', None) != getattr(b, 'order', None):
        raise Unsupported('equality of lists in an unknown order')
    r = rows_equal(it, a, b)
    if r is not None:
        return r
    if not all(same_dim(x, y, it.path.conds) for x, y in zip(a.dims, b.dims)):
        x, y = a.dims[0], b.dims[0]
        if len(a.dims) == len(b.dims) == 1 and all(isinstance(d, (Axis, Sub)) and getattr(d, 'order', None) is None for d in (x, y)) and x.base is y.base:
            # positions in the order of the axis (or texts that identify them): the same elements
            v = x.base.new('x')
            p, q = lift(a.at(v)), lift(b.at(v))
            if p is q and (p is v or p.op == 'app' and p.args[0] in INJECTIVE and p.args[1:] == (v,)):
                return all_(x.base, lambda i: eq(x.pred(i), y.pred(i)))
        raise Unsupported('equality of lists of different ranges')
    return reduce_all('all', elementwise(lambda x, y: eq(lift(x), lift(y)), a, b, hyps=it.path.conds)) if len(a.dims) == len(b.dims) else FALSE


def rows_equal(it, a, b):
    """lists of rows [literal, position, value], in stretches that differ in the literal"""
    if len(a.dims) != 1 or len(b.dims) != 1:
        return None
    split = lambda d: d.parts if isinstance(d, Cat) else [d]
    x, y = split(a.dims[0]), split(b.dims[0])
    fa, fb = a.frozen(), b.frozen()
    fs = [(lambda i, q=q, f=f, d=d: f((q, i)) if isinstance(d, Cat) else f(i)) for f, d, z in ((fa, a.dims[0], x), (fb, b.dims[0], y)) for q in range(len(z))]
    if len(x) != len(y) or not all(isinstance(d, (Axis, Sub)) for d in x + y):
        return None
    out, tags = [], []
    for p, q, f, g in zip(x, y, fs[:len(x)], fs[len(x):]):
        v = p.base.new('x')
        r, s = f(v), g(v)
        if p.base is not q.base or not isinstance(r, list) or not isinstance(s, list) or len(r) < 2 or len(r) != len(s) or r[1] is not v or s[1] is not v or \
                not isinstance(r[0], str) or r[0] != s[0]:
            return None
        tags.append(r[0])
        out.append(all_(p.base, lambda i, p=p, q=q: eq(p.pred(i), q.pred(i))))
        out.append(all_(p.base, lambda i, p=p, f=f, g=g: implies(p.pred(i), and_(*[value_equal(m, n) for m, n in zip(f(i)[2:], g(i)[2:])]))))
    return and_(*out) if len(set(tags)) == len(tags) else None


def value_equal(m, n):
    cases = lambda v: v.cases if isinstance(v, Dyn) else [(TRUE, v)]
    out = []
    for c, v in cases(m):
        for d, w in cases(n):
            num_ = lambda z: isinstance(z, (int, Fraction)) or isinstance(z, T)
            if v is None or w is None:
                o = w if v is None else v
                e = lift(o is None) if not hasattr(o, 'sym_isnone') else o.sym_isnone
            elif num_(v) and num_(w):
                e = eq(lift(v), lift(w))
            elif hasattr(v, 'axis') and hasattr(w, 'axis') and v.axis is w.axis:
                import pandas_
                e = pandas_.named_equal(v, w)
            elif num_(v) != num_(w):
                e = FALSE
            else:
                raise Unsupported('equality of values')
            out.append(and_(c, d, e))
    return or_(*out)


def contains(it, x, c):
    x, c = force(it, x), force(it, c)
    if hasattr(c, 'sym_contains'):
        return c.sym_contains(it, x)
    if isinstance(c, (list, tuple, set, frozenset, dict)):
        if isinstance(x, T) or any(isinstance(y, (T, SObj)) for y in c) or isinstance(x, SObj):
            r = FALSE
            for y in c:
                if x is y:
                    return True
                r = or_(r, lift(compare(it, ast.Eq(), x, y)))
            return it.unbool(r)
        unwrap = lambda y: getattr(y, 'pytype', y) if isinstance(y, Native) else y
        try:
            if isinstance(c, (list, tuple)):
                return unwrap(x) in [unwrap(y) for y in c]
            return x in c or isinstance(x, Native) and not isinstance(c, dict) and unwrap(x) in {unwrap(y) for y in c}
        except TypeError:
            it.raise_(TypeError)
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        raise Unsupported('in a text')
    if isinstance(c, T) and c.sort == 'S' and isinstance(x, str):
        k = known_text(it, c)
        if k is not None:
            return x in k
        return app('has_char' if len(x) == 1 else 'junk_has_text', (c, lift(x)), 'B')
    if isinstance(c, SymDict):
        return it.unbool(c.dom(lift(x)))
    if isinstance(c, SetOf):
        c = c.arr
    if isinstance(c, Arr) and len(c.dims) == 1 and isinstance(c.dims[0], (Axis, Sub)):
        v = c.dims[0].new('in')
        y = lift(c.at(v)) if not isinstance(c.at(v), SObj) else None
        x2 = lift(x) if isinstance(x, (T, str)) else x
        if y is not None and y is v and isinstance(x2, T) and x2.sort == 'I':
            return it.unbool(c.dims[0].member(x2))
        if y is not None and y.op == 'app' and y.args[0] in INJECTIVE and y.args[1] is v:
            # the position which the text identifies
            if isinstance(x2, T) and x2.op == 'app' and x2.args[0] == y.args[0]:
                return it.unbool(c.dims[0].member(x2.args[1]))
            if isinstance(x2, T) and x2.sort == 'S':
                from pandas_ import KEYTEXT
                p = app(KEYTEXT[y.args[0]], (x2,), 'I')
                return it.unbool(and_(c.dims[0].member(p), eq(app(y.args[0], (p,), 'S'), x2)))
    if isinstance(c, Arr) and any(isinstance(c.at(*p), SObj) for p in positions(c.dims)):
        return it.unbool(reduce_all('any', elementwise(lambda y: lift(compare(it, ast.Eq(), y, x)), c)))
    if isinstance(c, Arr):
        return it.unbool(reduce_all('any', elementwise(lambda y: eq(y, lift(x)), c)))
    if isinstance(c, SObj) and isinstance(c.cls, ClassInfo):
        h = c.cls.find('__contains__')
        if h is not None:
            return it.call(Bound(c, h), [x], {})
        if dict in c.cls.mro:
            return contains(it, x, c.attrs['@dict'])
    if isinstance(c, range):
        return concrete_int(x) in c if concrete_int(x) is not None else raise_(Unsupported('in range'))
    raise Unsupported('in {}'.format(type(c).__name__))


def raise_(e):
    raise e


def truth_of(it, v):
    if isinstance(v, Dyn):
        v = v.force(it)
        return lift(it.truth(v)) if not isinstance(v, T) else truth(v)
    if isinstance(v, Other):
        return TRUE
    if isinstance(v, Arr):
        if v.kind == 'list':
            return lift(not_(eq(v.dims[0].length, num(0)))) if isinstance(v.dims[0], Cat) else any_(v.dims[0].base, lambda i: and_(v.dims[0].base.member(i) if False else TRUE, v.dims[0].pred(i)))
        raise Unsupported('truth value of an array')
    if isinstance(v, Opaque):
        raise Unsupported('truth value of ' + v.what)
    if isinstance(v, SymDict):
        raise Unsupported('truth value of a dict')
    if isinstance(v, SObj) and isinstance(v.cls, ClassInfo):
        for m in ('__bool__', '__len__'):
            h = v.cls.find(m)
            if h is not None:
                return lift(it.call(Bound(v, h), [], {}))
        return TRUE
    if isinstance(v, (Func, Native, Bound, ClassInfo)):
        return TRUE
    if hasattr(v, 'sym_truth'):
        return v.sym_truth(it)
    raise Unsupported('truth value of {}'.format(type(v).__name__))


def format_(it, fmt, parts):
    if fmt == 'fstring' and all(isinstance(p, (str, int)) and not isinstance(p, bool) for p in parts):
        return ''.join(str(p) for p in parts)
    return Opaque('text')


# ------------------------------------------------------------------------------------------------ attributes of values
def get_attr(it, obj, name):
    obj = force(it, obj)
    if isinstance(obj, Super):
        mro = obj.obj.cls.mro
        after = mro[[i for i, c in enumerate(mro) if c is obj.cls][0] + 1:]
        for c in after:
            if isinstance(c, ClassInfo) and name in c.namespace():
                f = c.namespace()[name]
                if isinstance(f, Func):
                    if f.prop:
                        return it.call(Bound(obj.obj, f), [], {})
                    return f if f.static else Bound(obj.obj, f)
                return f
        if name in ('__init__', '__setitem__') and any(getattr(c, 'pytype', c) is dict for c in after):
            if name == '__init__':
                def init_(it_, x=None, **kw):
                    obj.obj.attrs['@dict'] = b_dict(it_, x, **kw)
                return Native(init_, 'dict.__init__')
            return Native(lambda it_, k, v: setitem(it_, obj.obj.attrs['@dict'], k, v), 'dict.__setitem__')
        raise Unsupported('super().' + name)
    if hasattr(obj, 'sym_getattr'):
        return obj.sym_getattr(it, name)
    if isinstance(obj, Stub):
        if name in obj.ns:
            return obj.ns[name]
        raise Unsupported('{} of {}'.format(name, obj.name))
    if isinstance(obj, Arr):
        m = ARR_METHODS.get(name)
        if m is not None:
            return Bound(obj, Native(m, 'ndarray.' + name))
        if name == 'shape':
            return tuple(d.length if not is_fin(d) else len(d.parts) for d in obj.dims)
        if name == 'size':
            return mul(*[d.length for d in obj.dims])
        if name == 'ndim':
            return len(obj.dims)
        if name == 'T' and len(obj.dims) == 2:
            return view(obj, obj.dims[::-1], lambda i, j: (j, i))
        if name == 'values':
            return obj
        if getattr(it, 'arrays_are_arrays', False) and obj.kind != 'list' and name in ('index', 'columns', 'name', 'loc', 'iloc', 'at'):
            it.raise_(AttributeError, name)
        raise Unsupported('array attribute ' + name)
    if isinstance(obj, (list, tuple)) and name in LIST_METHODS:
        return Bound(obj, Native(LIST_METHODS[name], 'list.' + name))
    if isinstance(obj, dict) and name in DICT_METHODS:
        return Bound(obj, Native(DICT_METHODS[name], 'dict.' + name))
    if isinstance(obj, (set, frozenset)) and name in SET_METHODS:
        return Bound(obj, Native(SET_METHODS[name], 'set.' + name))
    if isinstance(obj, str) and name in STR_METHODS:
        return Bound(obj, Native(STR_METHODS[name], 'str.' + name))
    if isinstance(obj, Opaque):
        return Native(lambda it_, *a, **k: Opaque('text'), name)
    if isinstance(obj, T) and obj.sort == 'R':
        if name == 'copy':
            return Native(lambda it_: obj, 'copy')
        if name in ('sum', 'mean', 'item'):
            return Native(lambda it_: obj, name)
    if isinstance(obj, T) and obj.sort == 'S' and name in ('endswith', 'startswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title',
                                                            'capitalize', 'count', 'find'):
        return Native(lambda it_, *a: sym_text_method(it_, obj, name, a), 'str.' + name)
    if isinstance(obj, T) and obj.sort == 'S' and name in ('format',):
        return Native(lambda it_, *a, **k: Opaque('text'), name)
    if isinstance(obj, SymDict):
        m = {'get': sd_get, 'copy': lambda it_, d: d}.get(name)
        if m:
            return Bound(obj, Native(m, 'dict.' + name))
    if isinstance(obj, SymSet) or isinstance(obj, SetOf):
        if name == 'issubset':
            return Bound(obj, Native(set_issubset, 'set.issubset'))
    if isinstance(obj, PyExc) and name == 'args':
        return tuple(obj.eargs)
    if isinstance(obj, type) and obj in (dict, list, str, set) and False:
        pass
    raise Unsupported('attribute {} of {}'.format(name, type(obj).__name__))


def known_text(it, t):
    """the literal that the path condition says the text is, or None"""
    if t.op == 'str':
        return t.args[0]
    for c in (it.path.conds if it.path else ()):
        if c.op == 'eq' and t in c.args:
            o = c.args[0] if c.args[1] is t else c.args[1]
            if o.op == 'str':
                return o.args[0]
    return None


def sym_text_method(it, t, name, args):
    k = known_text(it, t)
    if any(not isinstance(a, (str, int)) for a in args):
        raise Unsupported('text method')
    if k is not None:
        return getattr(k, name)(*args)
    return app('junk_str_' + name, (t,) + tuple(lift(a) for a in args), 'B' if name in ('endswith', 'startswith') else 'R' if name in ('count', 'find') else 'S')


class CharSet:
    """the characters of a text"""

    def __init__(self, t, only=None):
        self.t, self.only = t, only

    def sym_binop(self, it, op, other, refl):
        if isinstance(op, ast.BitAnd) and isinstance(other, (set, frozenset)) and self.only is None:
            return CharSet(self.t, sorted(other))
        raise Unsupported('operation on the characters of a text')

    def terms(self):
        if self.only is None:
            raise Unsupported('number of characters')
        return [app('has_char', (self.t, lift(c)), 'B') for c in self.only]

    def sym_len(self, it):
        return add(num(0), *[as_real(x) for x in self.terms()])

    def sym_truth(self, it):
        return or_(*self.terms())

    def sym_contains(self, it, x):
        return app('has_char', (self.t, lift(x)), 'B')

    def sym_getattr(self, it, name):
        if name == 'intersection':
            return Native(lambda it_, o: self.sym_binop(it_, ast.BitAnd(), set(o), False), name)
        if name == 'isdisjoint':
            return Native(lambda it_, o: it.unbool(not_(or_(*CharSet(self.t, sorted(o)).terms()))), name)
        raise Unsupported('set.' + name)


def sd_get(it, d, k, default=None):
    if it.branch(d.dom(lift(k))):
        return d.val(lift(k))
    return default


def set_issubset(it, a, b):
    src = a.src if isinstance(a, SymSet) else a.arr
    tgt = b.arr if isinstance(b, SetOf) else b
    if isinstance(src, SymDict) and isinstance(tgt, Arr):
        # every key is one of the elements: an uninterpreted fact about the dictionary with instances for its keys
        return const('keys_of_{}_subset'.format(src.name), 'B')
    if isinstance(src, Arr):
        f = src.frozen()
        return it.unbool(reduce_all('all', elementwise(lambda x: lift(contains(it, x, tgt)), src)))
    raise Unsupported('issubset')


def reduced(op):
    def f(it, a, axis=None, **kw):
        return np_reduce(it, op, a, axis)
    return f


def np_reduce(it, op, a, axis=None):
    if isinstance(a, (list, tuple)):
        a = as_arr(it, a)
    if not isinstance(a, Arr):
        if is_scalar(a):
            return a
        raise Unsupported('reduction of {}'.format(type(a).__name__))
    if axis is None:
        r = reduce_all(op, a)
        return it.unbool(r) if op in ('any', 'all') else r
    ax = need_int(axis)
    if ax < 0:
        ax += len(a.dims)
    r = reduce_(op, a, ax)
    if isinstance(r, Arr):
        if op in ('any', 'all'):
            r.dtype = 'B'
        return it.new(r)
    return it.unbool(r) if op in ('any', 'all') else r


def np_mean(it, a, axis=None):
    if isinstance(a, (list, tuple)):
        a = as_arr(it, a)
    if axis is None:
        n = mul(*[d.length for d in a.dims])
        return div(reduce_all('sum', a), n)
    ax = need_int(axis)
    r = reduce_('sum', a, ax)
    n = a.dims[ax].length
    return it.new(elementwise(lambda x: div(x, n), r)) if isinstance(r, Arr) else div(r, n)


def np_minmax(which):
    def f(it, a, axis=None):
        if isinstance(a, (list, tuple)):
            a = as_arr(it, a)
        els = elements(it, a) if isinstance(a, Arr) else None
        if els and axis is None and len(a.dims) == 1:
            r = els[0]
            for x in els[1:]:
                r = (tm.maximum if which == 'max' else tm.minimum)(lift(r), lift(x))
            return r
        if axis is not None or not isinstance(a, Arr) or len(a.dims) != 1 or isinstance(a.dims[0], Cat):
            raise Unsupported(which)
        return extremum(it, which, a)
    return f


_ext = {}


def extremum_of(which, d, f):
    """(name of the maximum / minimum of f over a dimension, position where it is taken): the same for equal functions"""
    v = tm.mk('var', (-8,), 'I')
    body, p = lift(f(v)), d.pred(v)
    try:
        nf = NF()
        key = (which, d.base.name, NF.key(nf.real(body)), NF.key(nf.bool(p)))
    except tm.TooBig:
        key = (which, d.base.name, body, p)
    if key not in _ext:
        _ext[key] = len(_ext)
    m = const('{}_{}_{}'.format(which, d.base.name, _ext[key]))
    w = const('arg{}_{}_{}'.format(which, d.base.name, _ext[key]), 'I')
    tm.EXTREMA[m] = tm.EXTREMA[w] = (which, d.base, v, body, p, m, w)
    return m, w


def extremum(it, which, a):
    """maximum / minimum of a non-empty array: an element which bounds the others"""
    f = a.frozen()
    d = a.dims[0]
    at = lift(f(const('ext!', 'I')))
    if tm.free_vars(at):
        raise Unsupported('a maximum that depends on a bound position')
    if it.in_sub:
        return extremum_at(it, which, d, f, at)
    if not it.branch(any_(d.base, d.pred)):
        it.raise_(ValueError)
    m, facts = bounds(which, d, f)
    for c in facts:
        it.path.assume(c)
    return m


def extremum_at(it, which, d, f, at):
    '''extremum that depends on the element which a loop is run for: a function of its position'''
    import numeval
    both = list(tm.walk(at)) + list(tm.walk(d.pred(const('ext!', 'I'))))
    if any(x.op == 'const' and str(x.args[0]).startswith('acc_') or x.op == 'app' and str(x.args[0]).startswith(('cell', 'mapval', 'mapdom')) for x in both):
        raise Unsupported('a maximum that depends on what a loop accumulates')
    if not it.branch(any_(d.base, d.pred)):
        it.raise_(ValueError)
    items = []
    for x in it.items:
        if x in both and x not in items:
            items.append(x)
    if not items:
        raise Unsupported('a maximum in a loop')
    vs = [tm.mk('var', (-9 - k,), 'I') for k in range(len(items))]
    v = tm.mk('var', (-8,), 'I')
    m = dict(zip(items, vs))
    body, p = tm.subst(lift(f(v)), m), tm.subst(d.pred(v), m)
    try:
        nf = NF()
        key = (which, d.base.name, NF.key(nf.real(body)), NF.key(nf.bool(p)), len(vs))
    except tm.TooBig:
        key = (which, d.base.name, body, p, len(vs))
    if key not in _ext:
        _ext[key] = len(_ext)
    fm, fw = ['{}{}_{}_{}'.format(x, which, d.base.name, _ext[key]) for x in ('', 'arg')]

    def facts(a):
        args = a.args[1:]
        q = dict(zip(vs, args))
        b, pr = (lambda i: tm.subst(body, {**q, v: i})), (lambda i: tm.subst(p, {**q, v: i}))
        e, w = app(fm, args), app(fw, args, 'I')
        some = any_(d.base, pr)
        return [implies(some, and_(d.base.member(w), pr(w), eq(e, b(w)))),
                all_(d.base, lambda i: or_(not_(pr(i)), not_(lt(e, b(i)) if which == 'max' else lt(b(i), e))))]
    tm.FACTS[fm] = [facts]
    tm.FACTS[fw] = [facts]

    def value(k):
        def ev(model, args):
            env = dict(zip(vs, args))
            at = [i for i in range(model.n(d.base.name)) if model.ev(p, {**env, v: i})]
            if not at:
                raise numeval.Bad
            vals = [(numeval.D(model.ev(body, {**env, v: i})), i) for i in at]
            return (max if which == 'max' else min)(vals, key=lambda x: x[0])[k]
        return ev
    numeval.DEFS[fm], numeval.DEFS[fw] = value(0), value(1)
    return app(fm, tuple(items))


def bounds(which, d, f):
    """the maximum / minimum of f over a non-empty dimension, and what is known of it"""
    m, w = extremum_of(which, d, f)
    return m, [and_(d.member(w), eq(m, lift(f(w)))),
               all_(d.base, lambda i: or_(not_(d.member(i)), not_(lt(m, lift(f(i))) if which == 'max' else lt(lift(f(i)), m))))]


def arr_copy(it, a, deep=None):
    return copy_arr(it, a, a.kind)


INTEGRAL = {'lhs', 'rhs', 'stoich_net', 'stoich_lhs', 'el_net', 'el_lhs', 'M_lhs', 'charge'}   # functions with integer values


def integral(t):
    '''a number that is an integer by its form'''
    o = t.op
    if t.sort in 'BI':
        return True
    if o == 'num':
        return t.args[0].denominator == 1
    if o in ('add', 'mul'):
        return all(integral(x) for x in t.args)
    if o == 'ite':
        return integral(t.args[1]) and integral(t.args[2])
    if o in ('sum', 'prod'):
        return integral(t.args[2])
    return o == 'app' and t.args[0] in INTEGRAL or t in LENGTHS


def cast_to(x, kind):
    x = lift(x)
    if kind == 'B':
        return x if x.sort == 'B' else or_(nan_of(x), not_(eq(x, num(0))))
    if x.sort == 'B':
        return as_real(x)
    if kind == 'int' and not integral(x):
        return app('trunc', (x,))
    return x


def dtype_kind(it, dtype):
    dtype = force(it, dtype)
    d = getattr(dtype, 'pytype', dtype)
    if d is None or d is object or d == 'object':
        return None
    if d is bool or d in ('?', 'bool', 'bool_'):
        return 'B'
    if d is int or d in ('int', 'int64', 'i8', 'int32'):
        return 'int'
    if d is float or d in ('float', 'float64', 'f8', 'd'):
        return 'float'
    if d is str:
        raise Unsupported('array of texts')
    raise Unsupported('type of an array')


def cast(it, a, dtype):
    k = dtype_kind(it, dtype)
    if k is None:
        return copy_arr(it, a)
    f = a.frozen()
    return it.new(Arr(a.dims, lambda *i: cast_to(f(*i), k), kind='array', dtype='B' if k == 'B' else 'R'))


def arr_astype(it, a, dtype=None, *args, **kw):
    if kw.get('copy') is False:
        raise Unsupported('astype without a copy')
    return cast(it, a, dtype)


def arr_clip(it, a, min=None, max=None, **kw):
    if kw:
        raise Unsupported('clip')
    f = a.frozen()

    def g(*i):
        x = lift(f(*i))
        if min is not None:
            x = ite(lt(x, lift(min)), lift(min), x)
        if max is not None:
            x = ite(lt(lift(max), x), lift(max), x)
        return x
    if not all(v is None or is_scalar(v) for v in (min, max)):
        raise Unsupported('clip to arrays')
    return it.new(Arr(a.dims, g))


ARR_METHODS = {
    'sum': reduced('sum'), 'prod': reduced('prod'), 'any': reduced('any'), 'all': reduced('all'),
    'mean': np_mean, 'max': np_minmax('max'), 'min': np_minmax('min'), 'copy': arr_copy, 'astype': arr_astype, 'clip': arr_clip,
    'dot': lambda it, a, b: np_dot(it, a, b),
    'append': lambda it, a, x: raise_(Unsupported('append')),
}


def np_dot(it, a, b):
    fa, fb = a.frozen(), b.frozen()
    if len(a.dims) == 2 and len(b.dims) == 1:
        if not same_dim(a.dims[1], b.dims[0]):
            raise Unsupported('dot')
        inner = Arr(a.dims, lambda i, j: mul(lift(fa(i, j)), lift(fb(j))))
        return it.new(reduce_('sum', inner, 1))
    if len(a.dims) == 1 and len(b.dims) == 2:
        if not same_dim(a.dims[0], b.dims[0]):
            raise Unsupported('dot')
        inner = Arr(b.dims, lambda i, j: mul(lift(fa(i)), lift(fb(i, j))))
        return it.new(reduce_('sum', inner, 0))
    if len(a.dims) == 1 and len(b.dims) == 1 and same_dim(a.dims[0], b.dims[0]):
        return reduce_all('sum', Arr(a.dims, lambda i: mul(lift(fa(i)), lift(fb(i)))))
    if len(a.dims) == 2 and len(b.dims) == 2 and same_dim(a.dims[1], b.dims[0]):
        return it.new(reduce_('sum', Arr([a.dims[0], a.dims[1], b.dims[1]], lambda i, j, k: mul(lift(fa(i, j)), lift(fb(j, k)))), 1))
    raise Unsupported('dot')


def l_append(it, l, x):
    it.check_mutable(l)
    l.append(x)


def l_extend(it, l, xs):
    it.check_mutable(l)
    l.extend(it.iterate(xs))


def l_index(it, l, x):
    for i, y in enumerate(l):
        if it.truth(compare(it, ast.Eq(), y, x)):
            return i
    it.raise_(ValueError)


def l_count(it, l, x):
    r = num(0)
    for y in l:
        c = compare(it, ast.Eq(), y, x)
        r = add(r, as_real(lift(c)))
    n = concrete_int(r)
    return n if n is not None else r


def l_pop(it, l, i=-1):
    it.check_mutable(l)
    if not l:
        it.raise_(IndexError)
    return l.pop(need_int(i))


LIST_METHODS = {
    'append': l_append, 'extend': l_extend, 'index': l_index, 'count': l_count, 'pop': l_pop,
    'copy': lambda it, l: it.new(list(l)), 'sort': lambda it, l, **k: raise_(Unsupported('sort')),
}


def d_get(it, d, k, default=None):
    x = dict_key(it, d, force(it, k))
    return default if x is None else d[x[0]]


def d_update(it, d, other=(), **kw):
    it.check_mutable(d)
    if isinstance(other, SObj) and '@dict' in other.attrs:
        other = other.attrs['@dict']
    if isinstance(other, dict):
        for k, v in other.items():
            it.dict_store(d, k, v)
    else:
        if other != ():
            raise Unsupported('update')
    d.update(kw)


def d_pop(it, d, k, *default):
    it.check_mutable(d)
    x = dict_key(it, d, force(it, k))
    if x is not None:
        return d.pop(x[0])
    if default:
        return default[0]
    it.raise_(KeyError, k)


def d_setdefault(it, d, k, v=None):
    it.check_mutable(d)
    x = dict_key(it, d, force(it, k))
    if x is not None:
        return d[x[0]]
    d[k] = v
    return v


DICT_METHODS = {
    'get': d_get, 'update': d_update, 'pop': d_pop, 'setdefault': d_setdefault,
    'keys': lambda it, d: list(d.keys()), 'values': lambda it, d: list(d.values()), 'items': lambda it, d: [(k, v) for k, v in d.items()],
    'copy': lambda it, d: it.new(dict(d)),
}
for _m in (LIST_METHODS, DICT_METHODS):
    _m.update({'__len__': lambda it, c: b_len(it, c), '__getitem__': lambda it, c, k: getitem(it, c, k), '__contains__': lambda it, c, x: contains(it, x, c),
               '__repr__': lambda it, c: Opaque('text'), '__str__': lambda it, c: Opaque('text'), '__setitem__': lambda it, c, k, v: setitem(it, c, k, v),
               '__iter__': lambda it, c: list(c)})


def s_add(it, s, x):
    it.check_mutable(s)
    if isinstance(x, T):
        raise Unsupported('symbolic element of a set')
    s.add(x)


def s_discard(it, s, x):
    it.check_mutable(s)
    s.discard(x)


SET_METHODS = {
    'isdisjoint': lambda it, s, o: o.sym_getattr(it, 'isdisjoint').fn(it, s) if isinstance(o, CharSet) else set(s).isdisjoint(set(it.iterate(o))),
    'issuperset': lambda it, s, o: set(s).issuperset(set(it.iterate(o))),
    'intersection': lambda it, s, o: CharSet(o.t, sorted(s)) if isinstance(o, CharSet) else it.new(set(s) & set(it.iterate(o))),
    'difference': lambda it, s, *o: it.new(set(s).difference(*[it.iterate(x) for x in o])),
    'add': s_add, 'discard': s_discard, 'remove': s_discard,
    'issubset': lambda it, s, o: set(s).issubset(set(it.iterate(o))), 'union': lambda it, s, *o: it.new(set(s).union(*[it.iterate(x) for x in o])),
    'copy': lambda it, s: it.new(set(s)),
}


def s_join(it, s, parts):
    if hasattr(force(it, parts), 'sym_join'):
        return force(it, parts).sym_join(it, s)
    ps = it.iterate(parts) if it.try_concrete(parts) is not None else None
    if ps is not None and all(isinstance(p, str) for p in ps):
        return s.join(ps)
    return Opaque('text')


def str_method(name):
    def f(it, s, *args, **kw):
        if all(isinstance(a, (str, int, tuple)) for a in args) and not kw:
            return getattr(s, name)(*args)
        return Opaque('text')
    return f


STR_METHODS = {n: str_method(n) for n in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'rstrip', 'lstrip', 'split', 'ljust', 'rjust',
                                          'title', 'capitalize', 'isdigit', 'count', 'find', 'isalpha')}
STR_METHODS['join'] = s_join


def str_format(it, s, *a, **k):
    if all(isinstance(x, (str, int)) for x in list(a) + list(k.values())):
        return s.format(*a, **k)
    if getattr(it, 'symbolic_texts', False) and not k:
        parts = [x.sym_str(it) if hasattr(x, 'sym_str') else lift(x) if isinstance(x, (str, int, T)) else None for x in (force(it, x) for x in a)]
        if all(isinstance(x, T) for x in parts):
            return app('junk_text ' + s, tuple(parts), 'S')
    return Opaque('text')


STR_METHODS['format'] = str_format


# ------------------------------------------------------------------------------------------------ builtins
def b_len(it, x):
    x = force(it, x)
    if isinstance(x, (list, tuple, dict, set, frozenset, str, range)):
        return len(x)
    if isinstance(x, Arr):
        d = x.dims[0]
        return len(d.parts) if is_fin(d) else d.length
    if isinstance(x, SetOf):
        els = elements(it, x.arr)
        if els is not None:
            r = num(0)
            for i, e in enumerate(els):
                r = add(r, as_real(not_(or_(*[eq(lift(e), lift(p)) for p in els[:i]]))))
            return r
        d = x.arr.dims[0]
        if len(x.arr.dims) == 1 and isinstance(d, (Axis, Sub)):
            v = d.new('ds')
            y = x.arr.at(v)
            if isinstance(y, T) and (y is v or y.op == 'app' and y.args[0] in INJECTIVE and y.args[1] is v):
                return d.length
        raise Unsupported('number of distinct elements')
    if isinstance(x, SObj) and isinstance(x.cls, ClassInfo):
        h = x.cls.find('__len__')
        if h is not None:
            return it.call(Bound(x, h), [], {})
        if dict in x.cls.mro:
            return len(x.attrs['@dict'])
    if isinstance(x, (int, bool, T, type(None))):
        it.raise_(TypeError)
    if hasattr(x, 'sym_len'):
        return x.sym_len(it)
    raise Unsupported('len of {}'.format(type(x).__name__))


def b_range(it, *args):
    ns = [concrete_int(a) for a in args]
    if all(n is not None for n in ns):
        return range(*ns)
    if len(args) == 1 and isinstance(args[0], T):
        d = LENGTHS.get(args[0])
        if isinstance(d, (Axis, Sub)):
            return SymRange(d)
    raise Unsupported('range')


def types_of(it, x):
    """the Python types of a value"""
    import numbers
    if isinstance(x, bool):
        return (bool, int)
    if isinstance(x, int):
        return (int,)
    if isinstance(x, Fraction):
        return (float,)
    if isinstance(x, T):
        if x.sort == 'B':
            return (bool, int)
        if x.sort == 'S':
            return (type(None),) if x is NONE else (str,)
        if x.sort == 'I':
            return (int,)
        ty = TYPES.get(x) or (TYPES_FN.get(x.args[0]) if x.op == 'app' else None)
        return ty or (float,)
    return None


def b_isinstance(it, x, cls):
    x = force(it, x)
    if isinstance(cls, tuple):
        r = False
        for c in cls:
            v = b_isinstance(it, x, c)
            if v is True:
                return True
            if isinstance(v, T):
                r = or_(lift(r), v)
        return r
    lt_ = getattr(cls, 'libtype', None)
    if lt_ is not None:   # a class of numpy or pandas
        if isinstance(x, Dyn) or isinstance(x, Other):
            raise Unsupported('isinstance ' + lt_)
        return (isinstance(x, Arr) and x.kind != 'list') if lt_ == 'numpy.ndarray' else getattr(x, 'libtype', None) == lt_
    if hasattr(x, 'sym_isinstance'):
        return x.sym_isinstance(it, cls)
    if isinstance(cls, Native):
        cls = getattr(cls, 'pytype', cls)
    if isinstance(x, SObj):
        if isinstance(x.cls, ClassInfo):
            return x.cls.issub(cls) if not isinstance(cls, Lib) else False
        return x.cls is cls
    if isinstance(cls, ClassInfo):
        if isinstance(x, Stub) and x.name == cls.name:
            return True
        return False
    t = types_of(it, x)
    if isinstance(x, Other) and isinstance(cls, type):
        return cls is object
    if isinstance(cls, type):
        if t is not None:
            return cls in t or cls is object
        if isinstance(x, (list, tuple, dict, set, str, type(None), frozenset)):
            return isinstance(x, cls)
        if isinstance(x, Arr):
            return cls is list if x.kind == 'list' else False
        if isinstance(x, SymDict):
            return cls is dict
    if isinstance(cls, (Lib,)):
        full = cls.name
        if full in ('numbers.Number', 'numbers.Complex', 'numbers.Real') and t is not None:
            return not (str in t or type(None) in t)
        if isinstance(x, Other):
            return False
        if isinstance(x, (list, tuple, dict, set, str, type(None))):
            return False
    raise Unsupported('isinstance({}, {})'.format(type(x).__name__, getattr(cls, 'name', cls)))


def b_anyall(op):
    def f(it, x):
        els = it.try_concrete(x)
        if els is not None:
            r = FALSE if op == 'any' else TRUE
            for e in els:
                t = truth(e) if isinstance(e, T) else (TRUE if it.truth(e) else FALSE)
                r = or_(r, t) if op == 'any' else and_(r, t)
            return it.unbool(r)
        x = x.sym_arr(it) if hasattr(x, 'sym_arr') else x
        if isinstance(x, Arr) and len(x.dims) == 1:
            return it.unbool(reduce_all(op, x))
        raise Unsupported(op)
    return f


def b_sum(it, x, start=0):
    els = it.try_concrete(x)
    if els is not None:
        r = start
        for e in els:
            r = binop(it, ast.Add(), r, e)
        return r
    x = x.sym_arr(it) if hasattr(x, 'sym_arr') else x
    if isinstance(x, Arr) and len(x.dims) == 1:
        d = x.dims[0]
        if start == 0 and isinstance(d, (Axis, Sub)):
            f = x.frozen()
            s = f(d.new('s'))
            if isinstance(s, T) and s.sort == 'B':
                return Sub(d, lambda i: f(i)).length   # the number of true elements
        r = reduce_all('sum', x)
        return r if start == 0 else add(r, lift(start))
    raise Unsupported('sum')


def b_abs(it, x):
    if isinstance(x, int):
        return abs(x)
    return lift_elementwise(it, lambda v: tm.abs_(lift(v)), x)


def b_minmax(which):
    def f(it, *args, **kw):
        if set(kw) == {'key'} and len(args) == 1 and hasattr(args[0], 'sym_extreme'):
            return args[0].sym_extreme(it, which, kw['key'])
        if kw:
            raise Unsupported(which + ' with a key')
        if len(args) == 1:
            els = it.try_concrete(args[0])
            if els is None:
                if isinstance(args[0], Arr):
                    return extremum(it, which, args[0])
                raise Unsupported(which)
        else:
            els = list(args)
        if not els:
            it.raise_(ValueError)
        if all(isinstance(e, int) for e in els):
            return getattr(builtins, which)(els)
        for e in els:
            if hasattr(e, 'sym_minmax'):
                return e.sym_minmax(it, which, els)
        if not all(is_scalar(e) for e in els):
            raise Unsupported(which)
        r = lift(els[0])
        for e in els[1:]:
            e = lift(e)
            # Python: the first of the equal ones
            r = ite(lt(r, e), e, r) if which == 'max' else ite(lt(e, r), e, r)
        return r
    return f


def b_set(it, x=()):
    x = force(it, x)
    els = it.try_concrete(x)
    if els is not None and not any(isinstance(e, T) for e in els):
        try:
            return it.new(set(els))
        except TypeError:
            it.raise_(TypeError)
    if isinstance(x, SymDict):
        return SymSet('keys', x)
    if isinstance(x, T) and x.sort == 'S':
        k = known_text(it, x)
        return set(k) if k is not None else CharSet(x)
    if x is None or isinstance(x, (T, Other, int)):
        it.raise_(TypeError)
    if isinstance(x, SetOf):
        return x
    if isinstance(x, Arr):
        from pandas_ import posset_of
        if getattr(it, 'set_of_texts', None) and (it.set_of_texts(it, x)) is not None:
            return it.set_of_texts(it, x)
        return posset_of(it, x) or SetOf(x)
    if hasattr(x, 'sym_set'):
        return x.sym_set(it)
    if els is not None:
        return SetOf(as_arr(it, els))
    raise Unsupported('set of {}'.format(type(x).__name__))


def b_list(it, x=()):
    if hasattr(x, 'sym_list'):
        return x.sym_list(it)
    els = it.try_concrete(x)
    if els is not None:
        return it.new(list(els))
    if isinstance(x, Arr):
        return copy_arr(it, x, 'list')
    if isinstance(x, SortedOf):
        return x
    if hasattr(x, 'sym_list'):
        return x.sym_list(it)
    raise Unsupported('list of {}'.format(type(x).__name__))


def b_tuple(it, x=()):
    els = it.try_concrete(x)
    if els is not None:
        return tuple(els)
    if isinstance(x, Arr):
        return copy_arr(it, x, 'list')
    if hasattr(x, 'sym_list'):
        return x.sym_list(it)
    raise Unsupported('tuple')


def b_dict(it, x=None, **kw):
    x = force(it, x)
    if x is None:
        if not kw and it.empty_dict is not None:
            return it.new(it.empty_dict())
        return it.new(dict(kw))
    if isinstance(x, SObj) and '@dict' in x.attrs:
        x = x.attrs['@dict']
    if hasattr(x, 'copy') and type(x).__name__ == 'SymMap' and not kw:
        return it.new(x.copy())
    if hasattr(x, 'sym_dict') and not kw:
        return it.new(x.sym_dict(it))
    if isinstance(x, dict):
        d = dict(x)
    elif isinstance(x, SymDict):
        if kw:
            raise Unsupported('dict')
        return x
    else:
        els = it.try_concrete(x)
        if isinstance(x, ZipOf) and len(x.arrs) == 2 and not kw:
            import pandas_
            d = pandas_.dict_of_pairs(it, *x.arrs)
            if d is not None:
                return d
        if els is None:
            raise Unsupported('dict of {}'.format(type(x).__name__))
        d = {}
        for e in els:
            k, v = it.iterate(e)
            d[k] = v
    d.update(kw)
    return it.new(d)


def b_float(it, x=0):
    x = force(it, x)
    if isinstance(x, (int, bool)):
        return num(int(x))
    if isinstance(x, T):
        if x.sort in 'RIB':
            return as_real(x)
        if x.sort == 'S':
            if x is NONE:
                it.raise_(TypeError)
            if x.op == 'str':
                return b_float(it, x.args[0])
            if not it.branch(app('is_numeric', (x,), 'B')):
                it.raise_(ValueError)
            return app('float_of', (x,), 'R')
    if isinstance(x, str):
        if x.strip().lower() in ('inf', '+inf', 'infinity'):
            return INF
        try:
            return num(float(x))
        except ValueError:
            it.raise_(ValueError)
    if x is None or isinstance(x, (list, dict, tuple, set)):
        it.raise_(TypeError)
    if hasattr(x, 'sym_float'):
        return x.sym_float(it)
    raise Unsupported('float of {}'.format(type(x).__name__))


def b_int(it, x=0):
    x = force(it, x)
    n = concrete_int(x)
    if n is not None:
        return n
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, T):
        if x.sort == 'B':
            return as_real(x)
        if x.sort == 'I':
            return x
        if x.sort == 'R':
            if TYPES.get(x, (None,))[0] is int:
                return x
            return app('trunc', (x,), 'R')
        if x.sort == 'S' and x is not NONE and x.op != 'str':
            if not it.branch(app('is_intstr', (x,), 'B')):
                it.raise_(ValueError)
            return app('int_of', (x,), 'R')
    if isinstance(x, str) or (isinstance(x, T) and x.op == 'str'):
        try:
            return int(x if isinstance(x, str) else x.args[0])
        except ValueError:
            it.raise_(ValueError)
    if x is None or isinstance(x, (list, dict, tuple, set)):
        it.raise_(TypeError)
    raise Unsupported('int of {}'.format(type(x).__name__))


def b_bool(it, x=False):
    x = force(it, x)
    if isinstance(x, T):
        return it.unbool(truth(x))
    return it.truth(x)


def b_str(it, x=''):
    x = force(it, x)
    if isinstance(x, (str, int)):
        return str(x)
    if isinstance(x, T) and x.sort == 'S':
        return x
    return Opaque('text')


def distinct(it, els):
    """the distinct ones of finitely many values"""
    out = []
    for e in els:
        if not any(it.truth(compare(it, ast.Eq(), e, o)) for o in out):
            out.append(e)
    return out


def b_sorted(it, x, key=None, reverse=False):
    if hasattr(x, 'sym_sorted_by') and key is not None:
        return x.sym_sorted_by(it, key, reverse)
    if hasattr(x, 'sym_sorted') and key is None and not reverse:
        return x.sym_sorted(it)
    els = it.try_concrete(x)
    if els is None and isinstance(x, SetOf) and elements(it, x.arr) is not None:
        els = distinct(it, elements(it, x.arr))
    if els is not None and key is not None:
        ks = [it.call(key, [e], {}) for e in els]
        if all(isinstance(k, (int, str)) or isinstance(k, tuple) and all(isinstance(y, (int, str)) for y in k) for k in ks):
            if isinstance(x, SetOf) and len(set(ks)) != len(ks):
                raise Unsupported('order of a set')
            return it.new([e for _, e in sorted(zip(ks, els), key=lambda q: q[0], reverse=bool(reverse))])
        raise Unsupported('sorted by unknown keys')
    if els is not None and key is None and all(isinstance(e, (int, str)) for e in els):
        try:
            return it.new(sorted(els, reverse=bool(reverse)))
        except TypeError:
            it.raise_(TypeError)
    if isinstance(x, Arr) and key is None and not reverse:
        return SortedOf(x)
    if isinstance(x, SetOf) and key is None:
        raise Unsupported('sorted set')
    if els is not None and key is None and not reverse:
        return SortedOf(as_arr(it, els))
    raise Unsupported('sorted')


def b_zip(it, *xs):
    ls = [it.try_concrete(x) for x in xs]
    if all(l is not None for l in ls):
        return [tuple(t) for t in zip(*ls)]
    xs = [x.sym_arr(it) if hasattr(x, 'sym_arr') and not isinstance(x, Arr) else x for x in xs]
    if all(isinstance(x, Arr) and len(x.dims) == 1 for x in xs) and all(same_dim(xs[0].dims[0], x.dims[0]) for x in xs[1:]):
        return ZipOf(xs)
    raise Unsupported('zip')


class ZipOf:
    def __init__(self, arrs):
        self.arrs = arrs


class EnumOf:
    def __init__(self, arr):
        self.arr = arr


def b_enumerate(it, x, start=0):
    els = it.try_concrete(x)
    if els is not None:
        return [(i + start, e) for i, e in enumerate(els)]
    if (isinstance(x, (Arr, ZipOf, SymRange)) or hasattr(x, 'sym_iter')) and start == 0:
        return EnumOf(x)
    raise Unsupported('enumerate')


def b_getattr(it, obj, name, *default):
    if not isinstance(name, str):
        raise Unsupported('getattr')
    try:
        return it.getattr(obj, name)
    except PyExc as e:
        if default and e.cls is AttributeError:
            return default[0]
        raise


def b_hasattr(it, obj, name):
    obj = force(it, obj)
    if name in ('__iter__', '__len__', '__getitem__', '__contains__'):
        if isinstance(obj, (list, tuple, dict, set, frozenset, str, Arr, SetOf)) or isinstance(obj, T) and obj.sort == 'S' and obj is not NONE:
            return name != '__getitem__' or not isinstance(obj, (set, frozenset, SetOf))
        if name == '__iter__' and hasattr(obj, 'sym_iter'):
            return True
        if isinstance(obj, (Other, int, bool, Fraction, type(None), T)):
            return False
    try:
        it.getattr(obj, name)
        return True
    except PyExc as e:
        if e.cls is AttributeError:
            return False
        raise


def b_type(it, x):
    x = force(it, x)
    if isinstance(x, SObj):
        return x.cls
    t = types_of(it, x)
    if t:
        return t[0]
    if hasattr(x, 'sym_type'):
        return x.sym_type(it)
    if type(x).__name__ in ('SymMap', 'SymDict', 'MapOf'):
        return dict
    return type(x)


def b_callable(it, x):
    return isinstance(x, (Func, Native, Bound, ClassInfo))


def b_map(it, f, *xs):
    els = [it.iterate(x) for x in xs]
    return it.new([it.call(f, list(t), {}) for t in zip(*els)])


def nat(fn, name, pytype=None):
    n = Native(fn, name)
    if pytype is not None:
        n.pytype = pytype
    return n


BUILTINS.update({n: nat(f, n, t) for n, f, t in [
    ('len', b_len, None), ('range', b_range, None), ('isinstance', b_isinstance, None), ('any', b_anyall('any'), None), ('all', b_anyall('all'), None),
    ('sum', b_sum, None), ('abs', b_abs, None), ('max', b_minmax('max'), None), ('min', b_minmax('min'), None), ('set', b_set, set), ('list', b_list, list),
    ('tuple', b_tuple, tuple), ('dict', b_dict, dict), ('float', b_float, float), ('int', b_int, int), ('bool', b_bool, bool), ('str', b_str, str),
    ('sorted', b_sorted, None), ('zip', b_zip, None), ('enumerate', b_enumerate, None), ('getattr', b_getattr, None), ('hasattr', b_hasattr, None),
    ('type', b_type, type), ('bytes', lambda it, *a: raise_(Unsupported('bytes()')), bytes),
    ('bytearray', lambda it, *a: raise_(Unsupported('bytearray()')), bytearray), ('callable', b_callable, None), ('map', b_map, None),
    ('frozenset', b_set, frozenset), ('setattr', lambda it, o, n, v: it.setattr(o, n, v), None),
    ('print', lambda it, *a, **k: None, None), ('repr', lambda it, x: Opaque('text'), None),
    ('issubclass', lambda it, c, d: c.issub(d) if isinstance(c, ClassInfo) else issubclass(c, d), None),
    ('round', lambda it, x, n=0: raise_(Unsupported('round')), None),
]})
BUILTINS['object'] = object
BUILTINS['NotImplemented'] = NotImplemented
BUILTINS['Ellipsis'] = Ellipsis


# ------------------------------------------------------------------------------------------------ numpy
def np_array(it, x, dtype=None, **kw):
    if isinstance(x, (SetOf, SortedOf)):
        raise Unsupported('array of a set')
    if is_scalar(x):
        return x
    if isinstance(x, Arr):
        return cast(it, x, dtype)
    if hasattr(x, 'sym_array'):
        if dtype_kind(it, dtype) is not None:
            return cast(it, x.sym_array(it), dtype)
        return x.sym_array(it)
    if hasattr(x, 'sym_arr'):
        return cast(it, x.sym_arr(it), dtype)
    a = as_arr(it, x)
    if dtype_kind(it, dtype) is not None:
        return cast(it, a, dtype)
    return it.new(a if a.kind == 'array' else copy_arr(it, a))


def shape_dims(it, shape):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    dims = []
    for s in shape:
        n = concrete_int(s)
        if n is not None:
            dims.append(fin(n))
        elif isinstance(s, T) and s in LENGTHS:
            dims.append(LENGTHS[s])
        else:
            raise Unsupported('shape')
    return dims


def np_full(v):
    def f(it, shape, dtype=None, **kw):
        if getattr(dtype, 'pytype', dtype) is bool:
            b = TRUE if v.args[0] else FALSE
            return it.new(Arr(shape_dims(it, shape), lambda *idx: b, dtype='B'))
        return it.new(Arr(shape_dims(it, shape), lambda *idx: v))
    return f


_junk = [0]


def np_empty(it, shape, dtype=None, **kw):
    _junk[0] += 1
    name = 'junk{}'.format(_junk[0])
    dims = shape_dims(it, shape)

    def get(*idx):
        args = []
        for i in idx:
            if isinstance(i, tuple):
                args += [num(i[0])] + ([] if i[1] is None else [i[1]])
            elif i is not None:
                args.append(i)
        return app(name, tuple(args)) if args else const(name)
    return it.new(Arr(dims, get))


def np_like(v):
    def f(it, a, dtype=None, **kw):
        return it.new(Arr(a.dims, lambda *idx: v))
    return f


def concat(it, parts, kind='array'):
    ps = []
    for p in parts:
        if is_scalar(p):
            ps.append((ONE, lambda i, p=p: lift(p)))
        elif isinstance(p, (list, tuple)):
            for x in p:
                ps.append((ONE, lambda i, x=x: lift(x)))
        elif isinstance(p, Arr) and len(p.dims) == 1:
            f = p.frozen()
            d = p.dims[0]
            if isinstance(d, Cat):
                for q, dd in enumerate(d.parts):
                    ps.append((dd, lambda i, f=f, q=q: f((q, i))))
            else:
                ps.append((d, f))
        else:
            raise Unsupported('concatenation')
    if len(ps) == 1 and ps[0][0] is not ONE:
        r = Arr([ps[0][0]], ps[0][1], kind=kind)
    else:
        r = Arr([Cat([d for d, _ in ps])], lambda i: ps[i[0]][1](i[1]), kind=kind)
    orders = {getattr(p, 'order', None) for p in parts} - {None}
    if orders:
        r.order = 'unknown' if 'unknown' in orders else orders.pop()
    return r


class IxBuilder:
    def __init__(self, kind):
        self.kind = kind

    def build(self, it, key):
        parts = list(key) if isinstance(key, tuple) else [key]
        if self.kind == 'r':
            return it.new(concat(it, parts))
        # c_: columns
        cols, first = [], None
        for p in parts:
            p = as_arr(it, p) if isinstance(p, (list, tuple)) else p
            f = p.frozen()
            if first is None:
                first = p.dims[0]
            elif not same_dim(first, p.dims[0]):
                raise Unsupported('c_')
            if len(p.dims) == 1:
                cols.append((ONE, lambda i, j, f=f: f(i)))
            else:
                d = p.dims[1]
                if isinstance(d, Cat):
                    for q, dd in enumerate(d.parts):
                        cols.append((dd, lambda i, j, f=f, q=q: f(i, (q, j))))
                else:
                    cols.append((d, f))
        return it.new(Arr([first, Cat([d for d, _ in cols])], lambda i, j: cols[j[0]][1](i, j[1])))


def np_ix(it, *ms):
    return Ix(list(ms))


def np_diag(it, a, *k):
    a = as_arr(it, a)
    f = a.frozen()
    if len(a.dims) == 1:
        d = a.dims[0]
        zero = FALSE if a.dtype == 'B' or all(f(*p).sort == 'B' for p in positions(a.dims)) else num(0)
        if isinstance(d, Cat):
            raise Unsupported('diag')
        r = Arr([d, d], lambda i, j: and_(eq(i, j), f(i)) if zero is FALSE else ite(eq(i, j), f(i), num(0)))
        r.dtype = 'B' if zero is FALSE else 'R'
        return it.new(r)
    return it.new(Arr([a.dims[0]], lambda i: f(i, i)))


def np_eye(it, n, dtype=None, **kw):
    d = shape_dims(it, n)[0]
    r = Arr([d, d], lambda i, j: as_real(eq(i, j)))
    if dtype is not None and getattr(dtype, 'pytype', dtype) is bool:
        r = Arr([d, d], lambda i, j: eq(i, j))
        r.dtype = 'B'
    return it.new(r)


def np_unary(fn):
    def f(it, x):
        if isinstance(x, (list, tuple)):
            x = as_arr(it, x)
        return lift_elementwise(it, lambda v: fn(lift(v)), x)
    return f


def np_binary(fn):
    def f(it, a, b):
        a = as_arr(it, a) if isinstance(a, (list, tuple)) else a
        b = as_arr(it, b) if isinstance(b, (list, tuple)) else b
        if isinstance(a, Arr) or isinstance(b, Arr):
            return it.new(elementwise(lambda x, y: fn(lift(x), lift(y)), a, b))
        return fn(lift(a), lift(b))
    return f


def np_where(it, c, a=None, b=None):
    if a is None:
        raise Unsupported('where')
    if not any(isinstance(x, Arr) for x in (c, a, b)):
        return ite(lift(c), lift(a), lift(b))
    return it.new(elementwise(lambda x, y, z: ite(lift(x), lift(y), lift(z)), c, a, b))


def np_array_equal(it, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SortedOf):
            if x.arr is not y:
                raise Unsupported('array_equal of sorted')
            els = elements(it, y)
            if els is None:
                raise Unsupported('sortedness of an array')
            return it.unbool(and_(*[not_(lt(q, p)) for p, q in zip(els, els[1:])]))
    a, b = as_arr(it, a), as_arr(it, b)
    if len(a.dims) != len(b.dims) or not all(same_dim(x, y) for x, y in zip(a.dims, b.dims)):
        raise Unsupported('array_equal of arrays of different shapes')
    return it.unbool(same_value(a, b))


def arr_id(a):
    """symbol that stands for the content of an array in an uninterpreted function of arrays"""
    f = a.frozen()
    vs = []
    ts = []
    for p in positions(a.dims, 'q'):
        flat = []
        for i in p:
            flat.append(i[1] if isinstance(i, tuple) else i)
        consts = [x for x in flat if x is not None]
        ts.append(subst(lift(f(*p)), {c: tm.mk('var', (-20 - n,), 'I') for n, c in enumerate(consts)}))
    return tm.app('content', tuple(ts), 'A') if ts else const('content_empty', 'A')


def np_interp(it, x, xp, fp, **kw):
    if kw:
        raise Unsupported('interp')
    e1, e2 = (elements(it, a) if isinstance(a, Arr) else None for a in (xp, fp))
    if isinstance(xp, (list, tuple)):
        xp = as_arr(it, xp)
    if isinstance(fp, (list, tuple)):
        fp = as_arr(it, fp)
    a, b = arr_id(xp), arr_id(fp)
    g = lambda v: app('interp', (lift(v), a, b))
    return it.new(elementwise(g, x)) if isinstance(x, Arr) else g(x)


def nan_of(t):
    """where the value of an expression over numbers and NaN is NaN"""
    if t is NAN:
        return TRUE
    if t.op == 'ite':
        if NAN in walk(t.args[0]):
            raise Unsupported('comparison with NaN')
        return ite(t.args[0], nan_of(t.args[1]), nan_of(t.args[2]))
    if t.op in ('add', 'mul', 'div') or t.op == 'app' and t.args[0] in ('pow', 'exp', 'log'):
        return or_(*[nan_of(x) for x in t.args if isinstance(x, T)])
    if NAN in walk(t):
        raise Unsupported('NaN inside of ' + t.op)
    return FALSE


def not_nan(t):
    """the expression where it is not NaN"""
    if NAN not in walk(t):
        return t
    if t.op == 'ite':
        a, b = t.args[1], t.args[2]
        return not_nan(b) if a is NAN else not_nan(a) if b is NAN else ite(t.args[0], not_nan(a), not_nan(b))
    if t.op in ('add', 'mul', 'div'):
        f = {'add': add, 'mul': mul, 'div': div}[t.op]
        return f(*[not_nan(x) for x in t.args])
    raise Unsupported('NaN inside of ' + t.op)


def np_swapaxes(it, a, i, j):
    n = len(a.dims)
    i, j = need_int(i) % n, need_int(j) % n
    p = list(range(n))
    p[i], p[j] = j, i
    f = a.frozen()
    return it.new(Arr([a.dims[q] for q in p], lambda *idx: f(*[idx[q] for q in p]), dtype=a.dtype))


def np_arange(it, n, *more, **kw):
    d = LENGTHS.get(n) if isinstance(n, T) else None
    if more or kw or d is None:
        raise Unsupported('arange')
    return it.new(Arr([d], lambda i: i, dtype='I'))


def np_isnan(it, x):
    x = force(it, x)
    if isinstance(x, Other) or isinstance(x, T) and x.sort == 'S':
        it.raise_(TypeError)

    def f(v):
        v = lift(v)
        if v.sort == 'B' or v.op == 'num' or v in TYPES or v.op == 'app' and v.args[0] in TYPES_FN:
            return FALSE
        if v.op != 'const' and NAN in walk(v):
            return nan_of(v)
        return eq(v, NAN) if v.op == 'const' else app('isnan', (v,), 'B')
    if isinstance(x, Arr):
        r = elementwise(f, x)
        r.dtype = 'B'
        return it.new(r)
    if isinstance(x, (str, list, dict)) or x is None:
        it.raise_(TypeError)
    return it.unbool(f(x))


def np_concatenate(it, xs, axis=0):
    return it.new(concat(it, it.iterate(xs)))


def np_outer(op):
    def f(it, a, b):
        fa, fb = a.frozen(), b.frozen()
        return it.new(Arr(a.dims + b.dims, lambda i, j: op(lift(fa(i)), lift(fb(j)))))
    return f


NUMPY = {
    'array': np_array, 'asarray': lambda it, x, **k: x if isinstance(x, Arr) and x.kind == 'array' else np_array(it, x),
    'zeros': np_full(num(0)), 'ones': np_full(num(1)), 'empty': np_empty, 'zeros_like': np_like(num(0)), 'ones_like': np_like(num(1)),
    'full': lambda it, shape, v, **k: it.new(Arr(shape_dims(it, shape), lambda *i: lift(v))),
    'sum': reduced('sum'), 'prod': reduced('prod'), 'any': reduced('any'), 'all': reduced('all'), 'mean': np_mean,
    'max': np_minmax('max'), 'min': np_minmax('min'), 'ix_': np_ix, 'diag': np_diag, 'eye': np_eye, 'identity': np_eye,
    'exp': np_unary(tm.exp), 'log': np_unary(tm.log), 'sqrt': np_unary(tm.sqrt), 'abs': np_unary(tm.abs_), 'absolute': np_unary(tm.abs_),
    'square': np_unary(lambda x: mul(x, x)),
    'logical_not': np_unary(not_), 'logical_and': np_binary(and_), 'logical_or': np_binary(or_), 'maximum': np_binary(tm.maximum),
    'minimum': np_binary(tm.minimum), 'power': np_binary(power), 'multiply': np_binary(mul), 'divide': np_binary(div), 'add': np_binary(add),
    'subtract': np_binary(lambda a, b: add(a, neg(b))),
    'clip': lambda it, a, *v, **k: arr_clip(it, as_arr(it, a), *v, **k), 'swapaxes': np_swapaxes, 'arange': np_arange, 'where': np_where, 'array_equal': np_array_equal, 'interp': np_interp, 'isnan': np_isnan, 'concatenate': np_concatenate, 'dot': np_dot,
    'outer': np_outer(mul), 'float64': lambda it, x: as_real(lift(x)) if is_scalar(x) else copy_arr(it, x),
    'hstack': np_concatenate, 'append': lambda it, a, b: it.new(concat(it, [a, b])),
    'copy': lambda it, a: copy_arr(it, a) if isinstance(a, Arr) else a,
}


ndarray_ = Native(lambda it, *a, **k: raise_(Unsupported('ndarray()')), 'numpy.ndarray')
ndarray_.libtype = 'numpy.ndarray'


def make_libs(it):
    ns = {k: Native(f, 'numpy.' + k) for k, f in NUMPY.items()}
    ns['float64'].pytype = FLOAT64
    ns.update(newaxis=None, nan=NAN, NaN=NAN, inf=INF, e=const('np.e'), pi=const('c_pi'), r_=IxBuilder('r'), c_=IxBuilder('c'),
              ndarray=ndarray_, bool_=BUILTINS['bool'], int64=BUILTINS['int'])
    add_ = Native(NUMPY['add'], 'numpy.add')
    np_ = Lib('numpy', ns)
    math = Lib('math', {k: Native(NUMPY[k], 'math.' + k) for k in ('exp', 'log', 'sqrt')})
    math.ns.update(pi=const('c_pi'), e=const('np.e'))
    it.libs.update({'numpy': np_, 'np': np_, 'math': math, 'scipy.constants': Lib('scipy.constants', {}), 'scipy': Lib('scipy', {}),
                    'numbers': Lib('numbers', {'Number': Lib('numbers.Number', {})}),
                    'warnings': Lib('warnings', {'warn': Native(lambda it_, *a, **k: None, 'warn')}),
                    'collections': Lib('collections', {'OrderedDict': BUILTINS['dict']}),
                    'copy': Lib('copy', {'copy': Native(py_copy, 'copy.copy'), 'deepcopy': Native(py_deepcopy, 'copy.deepcopy')}),
                    'logging': Lib('logging', {})})


def py_copy(it, x):
    x = force(it, x)
    if hasattr(x, 'sym_copy'):
        return x.sym_copy(it)
    if isinstance(x, (list, dict, set)):
        return it.new(type(x)(x))
    if is_scalar(x) or isinstance(x, str) or x is None:
        return x
    if isinstance(x, Arr):
        return copy_arr(it, x, x.kind)
    if isinstance(x, (bool, Other, PyExc, type)):
        return x
    raise Unsupported('copy of {}'.format(type(x).__name__))


def py_deepcopy(it, x):
    if isinstance(x, list):
        return it.new([py_deepcopy(it, y) for y in x])
    if isinstance(x, dict):
        return it.new({k: py_deepcopy(it, v) for k, v in x.items()})
    if isinstance(x, tuple):
        return tuple(py_deepcopy(it, y) for y in x)
    return py_copy(it, x)
