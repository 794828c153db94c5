"""Dictionaries with an unknown number of keys; the possible keys are the positions of an axis (so a key is a position)."""
import ast
from values import *
from terms import *
import terms as tm


class NeedHavocMap(BaseException):
    def __init__(self, m):
        self.m = m


class SymMap:
    """own (mutable) dictionary: dom(key) -> B, val(key) -> number or text"""

    def __init__(self, axis, dom=None, val=None, name='map', ordered=False):
        self.axis, self.name = axis, name
        self.dom = dom or (lambda k: FALSE)
        self.val = val or (lambda k: num(0))

    def __repr__(self):
        return 'SymMap({})'.format(self.name)

    def copy(self):
        return SymMap(self.axis, self.dom, self.val, self.name)

    def check_key(self, k):
        if not (isinstance(k, T) and k.sort == 'I'):
            raise Unsupported('key of another kind in a dictionary over {}'.format(self.axis.name))
        return k

    def write(self, it):
        if it.in_sub and id(self) not in it.fresh and id(self) not in getattr(it, 'havocked_maps', {}):
            raise NeedHavocMap(self)

    def sym_getitem(self, it, k):
        k = self.check_key(k)
        if not it.branch(self.dom(k)):
            it.raise_(KeyError, k)
        return self.val(k)

    def sym_setitem(self, it, k, v):
        k = self.check_key(k)
        self.write(it)
        d, f = self.dom, self.val
        v = lift(v)
        self.dom = lambda q: or_(eq(q, k), d(q))
        self.val = lambda q: ite(eq(q, k), v, f(q))

    def sym_delitem(self, it, k):
        k = self.check_key(k)
        if not it.branch(self.dom(k)):
            it.raise_(KeyError, k)
        self.write(it)
        d = self.dom
        self.dom = lambda q: and_(not_(eq(q, k)), d(q))

    def sym_contains(self, it, k):
        return it.unbool(self.dom(self.check_key(k)))

    def keys(self):
        d = self.dom
        return Sub(self.axis, lambda i: d(i))

    def sym_iter(self, it):
        return self.keys(), (lambda i: i)

    def sym_truth(self, it):
        return any_(self.axis, self.dom)

    def sym_len(self, it):
        return self.keys().length

    def sym_isinstance(self, it, cls):
        return getattr(cls, 'pytype', cls) is dict

    def same(self, other):
        d, f, d2, f2 = self.dom, self.val, other.dom, other.val
        return all_(self.axis, lambda k: and_(eq(d(k), d2(k)), implies(d(k), eq(f(k), f2(k)))))

    def sym_compare(self, it, op, other, refl):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(other, dict) and not other:
                other = SymMap(self.axis)
            if isinstance(other, SymMap) and other.axis is self.axis:
                r = self.same(other)
                return it.unbool(r if isinstance(op, ast.Eq) else not_(r))
        raise Unsupported('comparison of dictionaries')

    def sym_subst(self, m):
        from loops import subst_val
        d, f = self.dom, self.val
        return SymMap(self.axis, lambda k: subst(d(k), m), lambda k: subst_val(f(k), m), self.name)

    def sym_getattr(self, it, name):
        from interp import Native
        from lib import force

        def get(it_, k, default=None):
            if it_.branch(self.dom(self.check_key(k))):
                return self.val(k)
            return default

        def setdefault(it_, k, v=None):
            if not it_.branch(self.dom(self.check_key(k))):
                self.sym_setitem(it_, k, v)
            return self.val(k)

        def update(it_, other):
            if isinstance(other, dict) and not other:
                return
            if not isinstance(other, SymMap) or other.axis is not self.axis:
                raise Unsupported('update')
            self.write(it_)
            d, f, d2, f2 = self.dom, self.val, other.dom, other.val
            self.dom = lambda q: or_(d2(q), d(q))
            self.val = lambda q: ite(d2(q), f2(q), f(q))

        def pop(it_, k, *default):
            if it_.branch(self.dom(self.check_key(k))):
                v = self.val(k)
                self.sym_delitem(it_, k)
                return v
            if default:
                return default[0]
            it_.raise_(KeyError, k)
        f = {'get': get, 'setdefault': setdefault, 'update': update, 'pop': pop,
             'copy': lambda it_: it_.new(self.copy()),
             'keys': lambda it_: KeyView(self.keys(), lambda i: i),
             'values': lambda it_, f=self.val: KeyView(self.keys(), lambda i: f(i)),
             'items': lambda it_, f=self.val: KeyView(self.keys(), lambda i: (i, f(i)))}.get(name)
        if f is None:
            raise Unsupported('dict.' + name)
        return Native(f, 'dict.' + name)


class KeyView:
    """something to iterate over, in an order that is not known"""

    def __init__(self, dim, f):
        self.dim, self.f = dim, f

    def sym_iter(self, it):
        return self.dim, self.f

    def sym_contains(self, it, x):
        s = self.f(self.dim.new('s'))
        if isinstance(s, T) and s.op == 'const' and s.sort == 'I' and isinstance(x, T) and x.sort == 'I':
            return it.unbool(self.dim.pred(x))
        raise Unsupported('in a view')
