"""Terms of the verification conditions, their normal form, and the discharge of obligations.

Sorts: R (Python floats and ints used in arithmetic, as mathematical reals), I (positions on an axis, ints), B, S (strings), and others (opaque).
Sums and products over an axis (a finite ordered collection of unknown length) are terms of their own with a bound position."""
import contextlib
import itertools
import time
from fractions import Fraction

_table = {}
_ids = itertools.count()
CASES = {}  # statistics


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '__weakref__')

    def __repr__(self):
        return show(self)

    # arithmetic sugar (used by the contracts)
    def __add__(s, o): return add(s, lift(o))
    def __radd__(s, o): return add(lift(o), s)
    def __sub__(s, o): return add(s, neg(lift(o)))
    def __rsub__(s, o): return add(lift(o), neg(s))
    def __mul__(s, o): return mul(s, lift(o))
    def __rmul__(s, o): return mul(lift(o), s)
    def __truediv__(s, o): return div(s, lift(o))
    def __rtruediv__(s, o): return div(lift(o), s)
    def __neg__(s): return neg(s)
    def __pow__(s, o): return power(s, lift(o))
    def __rpow__(s, o): return power(lift(o), s)
    def __gt__(s, o): return lt(lift(o), s)
    def __lt__(s, o): return lt(s, lift(o))
    def __ge__(s, o): return not_(lt(s, lift(o)))
    def __le__(s, o): return not_(lt(lift(o), s))
    def __and__(s, o): return and_(s, lift(o))
    def __or__(s, o): return or_(s, lift(o))
    def __invert__(s): return not_(s)

    def __bool__(s):
        raise TypeError('truth value of a symbolic term')


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.id = op, args, sort, next(_ids)
        _table[key] = t
    return t


def num(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return const('float_' + str(x).replace('-', 'm'), 'R')
        x = Fraction(repr(x))
    return mk('num', (Fraction(x),), 'R')


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, str):
        return mk('str', (x,), 'S')
    if x is None:
        return NONE
    return num(x)


def const(name, sort='R'):
    return mk('const', (name,), sort)


TRUE, FALSE = mk('true', (), 'B'), mk('false', (), 'B')
NONE = mk('none', (), 'S')
FACTS = {}  # function name -> callable(app term) -> list of facts


def app(f, args, sort='R'):
    return mk('app', (f,) + tuple(args), sort)


def is_num(t):
    return t.op == 'num'


def as_real(t):
    if t.sort == 'B':
        return ite(t, num(1), num(0))
    return t


def add(*ts):
    out, c = [], Fraction(0)
    for t in ts:
        t = as_real(t)
        if t.op == 'num':
            c += t.args[0]
        elif t.op == 'add':
            for a in t.args:
                if a.op == 'num':
                    c += a.args[0]
                else:
                    out.append(a)
        else:
            out.append(t)
    if c != 0:
        out.append(num(c))
    if not out:
        return num(0)
    if len(out) == 1:
        return out[0]
    return mk('add', tuple(out), 'R')


def mul(*ts):
    out, c = [], Fraction(1)
    for t in ts:
        t = as_real(t)
        if t.op == 'num':
            c *= t.args[0]
        elif t.op == 'mul':
            for a in t.args:
                if a.op == 'num':
                    c *= a.args[0]
                else:
                    out.append(a)
        else:
            out.append(t)
    if c == 0:
        return num(0)
    if c != 1:
        out.append(num(c))
    if not out:
        return num(1)
    if len(out) == 1:
        return out[0]
    return mk('mul', tuple(out), 'R')


def neg(t):
    return mul(num(-1), t)


def div(a, b):
    a, b = as_real(a), as_real(b)
    if b.op == 'num' and b.args[0] != 0:
        return mul(a, num(1 / b.args[0]))
    return mk('div', (a, b), 'R')


def power(a, b):
    a, b = as_real(a), as_real(b)
    if a.op == 'const' and a.args[0] == 'np.e':
        return exp(b)
    if b.op == 'num':
        e = b.args[0]
        if e == 0:
            return num(1)
        if e == 1:
            return a
        if e.denominator == 1 and a.op == 'num' and (a.args[0] != 0 or e > 0):
            return num(a.args[0] ** int(e))
        if e < 0:
            return div(num(1), power(a, num(-e)))
        if e.denominator == 1 and e <= 6:
            return mul(*([a] * int(e)))
    return app('pow', (a, b))


def exp(a):
    return app('exp', (as_real(a),))


def log(a):
    return app('log', (as_real(a),))


def sqrt(a):
    return power(a, num(Fraction(1, 2)))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def and_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for x in (t.args if t.op == 'and' else (t,)):
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk('and', tuple(out), 'B')


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def implies(a, b):
    return or_(not_(a), b)


def truth(t):
    """Python truthiness of a scalar"""
    if t.sort == 'B':
        return t
    if t.sort in 'RI':
        return not_(eq(t, num(0)))
    if t.sort == 'S':
        return not_(eq(t, lift('')))
    raise TypeError('truthiness of sort ' + t.sort)


COMPARE = None    # contract specific: what is known of comparisons


INJECTIVE = set()   # functions from positions to texts which identify them


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort == 'B' and b.sort == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return mk('iff', (a, b) if a.id < b.id else (b, a), 'B')
    if a.sort in 'RIB' and b.sort in 'RIB':
        a, b = as_real(a), as_real(b)
        if a.op == 'num' and b.op == 'num':
            return TRUE if a.args[0] == b.args[0] else FALSE
    elif a.op in ('str', 'none') and b.op in ('str', 'none'):
        return FALSE
    elif a.sort != b.sort:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and y.op in ('num', 'str', 'none', 'const'):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] and a.args[0] in INJECTIVE and len(a.args) == len(b.args) == 2:
        return eq(a.args[1], b.args[1])
    if COMPARE is not None:
        r = COMPARE('eq', a, b)
        if r is not None:
            return r
    return mk('eq', (a, b) if a.id < b.id else (b, a), 'B')


def lt(a, b):
    a, b = as_real(lift(a)), as_real(lift(b))
    if a is b:
        return FALSE
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.args[0] < b.args[0] else FALSE
    if COMPARE is not None:
        r = COMPARE('lt', a, b)
        if r is not None:
            return r
    return mk('lt', (a, b), 'B')


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == 'B' and b.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort == 'B' and b.sort in 'RI':
        a = as_real(a)
    if b.sort == 'B' and a.sort in 'RI':
        b = as_real(b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    sort = a.sort if a.sort == b.sort else 'R'
    return mk('ite', (c, a, b), sort)


def maximum(a, b):
    return ite(lt(a, b), b, a)


def minimum(a, b):
    return ite(lt(b, a), b, a)


def abs_(a):
    return ite(lt(a, num(0)), neg(a), a)


_vars = itertools.count()


def var(sort='I'):
    return mk('var', (next(_vars),), sort)


def binder(op, axis, fn, sort='R'):
    """sum / prod / all / any / max / min over the positions of an axis (base axis object with .name and .member)"""
    v = var('I')
    body = fn(v)
    if sort == 'R':
        body = as_real(body)
    if op == 'sum' and body.op == 'num' and body.args[0] == 0:
        return num(0)
    if op == 'prod' and body.op == 'num' and body.args[0] == 1:
        return num(1)
    if op == 'all' and body is TRUE:
        return TRUE
    if op == 'any' and body is FALSE:
        return FALSE
    return mk(op, (axis, v, body), sort)


def sum_(axis, fn): return binder('sum', axis, fn)
def prod_(axis, fn): return binder('prod', axis, fn)
def all_(axis, fn): return binder('all', axis, fn, 'B')
def any_(axis, fn): return not_(binder('all', axis, lambda v: not_(fn(v)), 'B'))


_memo_sub = {}


def subst(t, m):
    """replaces variables and constants (m: {T: T})"""
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is None:
            if not t.args or t.op in ('num', 'str', 'const', 'var'):
                r = t
            else:
                r = rebuild(t, tuple(go(a) if isinstance(a, T) else a for a in t.args))
            memo[t] = r
        return r
    return go(t)


def rebuild(t, args):
    if args == t.args:
        return t
    o = t.op
    if o == 'add':
        return add(*args)
    if o == 'mul':
        return mul(*args)
    if o == 'div':
        return div(*args)
    if o == 'not':
        return not_(*args)
    if o == 'and':
        return and_(*args)
    if o in ('eq', 'iff'):
        return eq(*args)
    if o == 'lt':
        return lt(*args)
    if o == 'ite':
        return ite(*args)
    return mk(o, args, t.sort)


_height = {}


def height(t):
    """nesting of binders"""
    r = _height.get(t)
    if r is None:
        r = max([height(a) for a in t.args if isinstance(a, T)], default=0) + (t.op in ('sum', 'prod', 'all'))
        _height[t] = r
    return r


def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack += [a for a in x.args if isinstance(a, T)]
    return seen


def show(t, depth=0):
    o, a = t.op, t.args
    if depth > 14:
        return '...'
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else getattr(x, 'name', str(x))
    if o == 'num':
        f = a[0]
        return str(f.numerator) if f.denominator == 1 else (repr(float(f)))
    if o in ('str',):
        return repr(a[0])
    if o in ('const',):
        return str(a[0])
    if o == 'var':
        return '_{}'.format(a[0])
    if o == 'app':
        return '{}({})'.format(a[0], ', '.join(map(s, a[1:])))
    if o in ('add', 'mul', 'and'):
        return '(' + {'add': ' + ', 'mul': ' * ', 'and': ' and '}[o].join(map(s, a)) + ')'
    if o in ('div', 'eq', 'lt', 'iff'):
        return '({} {} {})'.format(s(a[0]), {'div': '/', 'eq': '==', 'lt': '<', 'iff': '<=>'}[o], s(a[1]))
    if o == 'not':
        return 'not ' + s(a[0])
    if o == 'ite':
        return '({} if {} else {})'.format(s(a[1]), s(a[0]), s(a[2]))
    if o in ('sum', 'prod', 'all'):
        return '{}[{} in {}: {}]'.format(o, s(a[1]), s(a[0]), s(a[2]))
    return o


# ------------------------------------------------------------------------------------------------ normal form
# polynomial: dict {monomial: Fraction}, monomial: tuple of (key, exponent) sorted; keys are hashable canonical forms of atoms;
# keys ('ind', literal) are indicators (idempotent)
class TooBig(Exception):
    pass


LENGTHS = {}         # numbers of positions of the axes (values.py)
EXTREMA = {}         # constants for maxima and minima: (which, axis, function, predicate) and the position (lib.extremum_of)
EXCLUSIVE = set()    # contract specific: predicates of which at most one holds of a position


def levels(k, out):
    if isinstance(k, tuple) and len(k) == 2 and k[0] == 'bnd':
        out.add(k[1])
    elif isinstance(k, (tuple, frozenset)):
        for x in k:
            if isinstance(x, (tuple, frozenset)):
                levels(x, out)
    return out


def relevel(inner, lev):
    """the bound variable numbered by what is bound inside of this monomial only"""
    below = [x for x in levels(inner, set()) if x < lev]
    new = max(below) + 1 if below else 0
    if new == lev:
        return inner

    def f(k):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'bnd':
                return ('bnd', new) if k[1] == lev else k
            return tuple(f(x) for x in k)
        if isinstance(k, frozenset):
            return frozenset(f(x) for x in k)
        return k
    return tuple(sorted(((f(k), e) for k, e in inner), key=lambda kv: hash(kv[0])))


class NF:
    LIMIT = 4000

    def __init__(self, lits=()):
        """lits: terms known to be true (path condition)"""
        self.memo = {}
        self.env = {}
        self.known = {}
        self.never = set()
        self.opposite = {}   # of a number that is not zero: negative = not positive
        for l in lits:
            if l.op == 'all':
                self.universal(l)
        for l in lits:
            self.learn(l)

    def universal(self, l):
        """all i: not P(i) for one of the exclusive predicates (which are predicates of one axis)"""
        axis, v, body = l.args
        try:
            with self.bind(v, body) as lev:
                p = self.bool(body)
        except TooBig:
            return
        m = [x for x in p if x != ()]
        if len(p) == 2 and p.get(()) == 1 and p[m[0]] == -1 and len(m[0]) == 1:
            k = m[0][0][0]
            if k[0] == 'ind' and k[1][0] == 'app' and k[1][1] in EXCLUSIVE and len(k[1]) == 3 and k[1][2] == self.key({((('bnd', lev), 1),): Fraction(1)}):
                self.never.add(k[1][1])
                self.memo.clear()

    def learn(self, l, val=True):
        if l.op == 'not':
            return self.learn(l.args[0], not val)
        if l.op == 'and' and val:
            for x in l.args:
                self.learn(x)
            return
        try:
            p = self.bool(l)
        except TooBig:
            return
        # p is a polynomial over indicators: only single indicators can be learnt
        q = p if val else self.padd(self.pconst(1), {m: -c for m, c in p.items()})
        if len(q) == 2 and all(c == 1 and len(m) == 1 and m[0][0][0] == 'ind' and m[0][0][1][0] in ('pos', 'neg') for m, c in q.items()):
            (a, b) = sorted((m[0][0] for m in q), key=lambda k: k[1][0])
            if a[1][0] != b[1][0] and a[1][1] == b[1][1]:
                self.opposite[a] = b
                self.memo.clear()
                return
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and c == 1 and m[0][0][0] == 'ind':
                self.known[m[0][0]] = val
                if val:
                    self.excluded(m[0][0])
                self.memo.clear()
            elif len(m) > 1 and c == 1 and val:
                for k, _ in m:
                    if k[0] == 'ind':
                        self.known[k] = True
                        self.excluded(k)
                self.memo.clear()
        elif len(p) == 2 and p.get(()) == 1:
            (m, c), = [x for x in p.items() if x[0] != ()]
            if c == -1:
                if len(m) == 1 and m[0][0][0] == 'ind':
                    self.known[m[0][0]] = not val
                    if not val:
                        self.excluded(m[0][0])
                    self.memo.clear()
                elif not val:
                    for k, _ in m:
                        if k[0] == 'ind':
                            self.known[k] = True
                            self.excluded(k)
                    self.memo.clear()

    def excluded(self, k):
        """of exclusive predicates one is known to be true: the others are false"""
        a = k[1]
        if isinstance(a, tuple) and len(a) > 1 and a[0] == 'app' and a[1] in EXCLUSIVE:
            for o in EXCLUSIVE:
                if o != a[1]:
                    self.known[('ind', ('app', o) + tuple(a[2:]))] = False

    @staticmethod
    def padd(a, b):
        r = dict(a)
        for m, c in b.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return r

    def mmul(self, a, b):
        d = dict(a)
        for k, e in b:
            if k[0] == 'ind':
                d[k] = 1
                # exclusive signs
                if k[1][0] in ('pos', 'neg') and ('ind', ({'pos': 'neg', 'neg': 'pos'}[k[1][0]], k[1][1])) in d:
                    return None
                if EXCLUSIVE and k[1][0] == 'app' and k[1][1] in EXCLUSIVE:
                    if any(('ind', ('app', x) + k[1][2:]) in d for x in EXCLUSIVE if x != k[1][1]):
                        return None
            else:
                n = d.get(k, 0) + e
                if n:
                    d[k] = n
                else:
                    d.pop(k, None)
        return tuple(sorted(d.items(), key=lambda kv: hash(kv[0])))

    def pmul(self, a, b):
        r = {}
        if len(a) * len(b) > self.LIMIT:
            raise TooBig
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                if m is None:
                    continue
                n = r.get(m, 0) + c1 * c2
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
        return r

    @staticmethod
    def pconst(c):
        return {(): Fraction(c)} if c else {}

    @staticmethod
    def key(p):
        return ('poly', frozenset(p.items()))

    def atom(self, k):
        if k in self.known:
            return self.pconst(1 if self.known[k] else 0)
        if k in self.opposite:
            return self.padd(self.pconst(1), {m: -c for m, c in self.atom(self.opposite[k]).items()})
        return {((k, 1),): Fraction(1)}

    def sign(self, a, b):
        """indicator pieces of a - b: (key of normalised difference, flipped) or a number"""
        p = self.padd(self.real(a), {m: -c for m, c in self.real(b).items()})
        if not p:
            return 0, None
        if set(p) == {()}:
            return (1 if p[()] > 0 else -1), None
        # common positive scaling
        lead = max(p.items(), key=lambda kv: (hash(kv[0])))[1]
        flip = lead < 0
        q = {m: c / lead for m, c in p.items()}
        return self.key(q), flip

    def bool(self, t):
        """polynomial over indicators"""
        one = self.pconst(1)
        if t is TRUE:
            return one
        if t is FALSE:
            return {}
        o = t.op
        if o == 'not':
            return self.padd(one, {m: -c for m, c in self.bool(t.args[0]).items()})
        if o == 'and':
            r = one
            for x in t.args:
                r = self.pmul(r, self.bool(x))
            return r
        if o == 'iff':
            a, b = self.bool(t.args[0]), self.bool(t.args[1])
            if a == b:
                return one
            # ab + (1-a)(1-b) = 1 - a - b + 2ab
            r = self.padd(one, {m: -c for m, c in a.items()})
            r = self.padd(r, {m: -c for m, c in b.items()})
            return self.padd(r, {m: 2 * c for m, c in self.pmul(a, b).items()})
        if o == 'lt':
            k, flip = self.sign(t.args[1], t.args[0])  # b - a > 0
            if flip is None:
                return self.pconst(1 if k == 1 else 0)
            return self.atom(('ind', ('neg' if flip else 'pos', k)))
        if o == 'eq' and t.args[0].sort in 'RIB':
            k, flip = self.sign(t.args[0], t.args[1])
            if flip is None:
                return self.pconst(1 if k == 0 else 0)
            p, n = self.atom(('ind', ('pos', k))), self.atom(('ind', ('neg', k)))
            r = self.padd(one, {m: -c for m, c in p.items()})
            return self.padd(r, {m: -c for m, c in n.items()})
        if o == 'eq':
            a, b = self.other(t.args[0]), self.other(t.args[1])
            if a == b:
                return one
            return self.atom(('ind', ('eq', frozenset((a, b)))))
        if o == 'ite':
            c = self.bool(t.args[0])
            nc = self.padd(one, {m: -x for m, x in c.items()})
            return self.padd(self.pmul(c, self.bool(t.args[1])), self.pmul(nc, self.bool(t.args[2])))
        if o in ('all', 'anyb'):
            axis, v, body = t.args
            with self.bind(v, body):
                k = self.key(self.bool(body))
            return self.atom(('ind', ('all', axis.name, k)))
        if o == 'app':
            if t.args[0] in self.never:
                return {}
            return self.atom(('ind', ('app', t.args[0]) + tuple(self.other(x) for x in t.args[1:])))
        if o in ('const', 'var'):
            return self.atom(('ind', ('atom', self.leaf(t))))
        raise TooBig('bool ' + o)

    def leaf(self, t):
        if t.op == 'var' and t in self.env:
            return ('bnd', self.env[t])
        return (t.op,) + tuple(t.args)

    def other(self, t):
        """canonical key of an argument of any sort"""
        if t.sort == 'R' or t.sort == 'I':
            return self.key(self.real(t))
        if t.sort == 'B':
            return self.key(self.bool(t))
        if t.op in ('str', 'none', 'const', 'var'):
            return self.leaf(t)
        if t.op == 'app':
            return ('app', t.args[0]) + tuple(self.other(x) for x in t.args[1:])
        if t.op == 'ite':
            return ('ite', self.key(self.bool(t.args[0])), self.other(t.args[1]), self.other(t.args[2]))
        raise TooBig('other ' + t.op)

    def real(self, t):
        k = (t, tuple(self.env.items()))
        r = self.memo.get(k)
        if r is None:
            r = self._real(t)
            if len(r) > self.LIMIT:
                raise TooBig
            self.memo[k] = r
        return r

    def _real(self, t):
        o = t.op
        if o == 'num':
            return self.pconst(t.args[0])
        if t.sort == 'B':
            return self.bool(t)
        if o == 'add':
            r = {}
            for x in t.args:
                r = self.padd(r, self.real(x))
            return r
        if o == 'mul':
            r = self.pconst(1)
            for x in t.args:
                r = self.pmul(r, self.real(x))
            return r
        if o == 'div':
            if t.args[1].op == 'ite':
                d = t.args[1]
                return self.real(ite(d.args[0], div(t.args[0], d.args[1]), div(t.args[0], d.args[2])))
            return self.pmul(self.real(t.args[0]), self.inv(self.real(t.args[1])))
        if o == 'ite':
            c = self.bool(t.args[0])
            nc = self.padd(self.pconst(1), {m: -x for m, x in c.items()})
            if not nc:
                return self.real(t.args[1])
            if not c:
                return self.real(t.args[2])
            return self.padd(self.pmul(c, self.real(t.args[1])), self.pmul(nc, self.real(t.args[2])))
        if o == 'app' and t.args[0] == 'pow':
            return self.pow(self.real(t.args[1]), self.real(t.args[2]))
        if o == 'app':
            return self.atom(('app', t.args[0]) + tuple(self.other(x) for x in t.args[1:]))
        if o in ('const', 'var'):
            if t in LENGTHS:
                return self.atom(('sum', LENGTHS[t].name, ()))
            return self.atom(self.leaf(t))
        if o == 'sum':
            axis, v, body = t.args
            with self.bind(v, body) as lev:
                p = self.real(body)
                out = {}
                for m, c in p.items():
                    inner = relevel(tuple(x for x in m if self.mentions(x[0], lev)), lev)
                    outer = tuple(x for x in m if not self.mentions(x[0], lev))
                    s = {((('sum', axis.name, inner), 1),): Fraction(1)}
                    out = self.padd(out, self.pmul({outer: c}, s))
            return out
        if o == 'prod':
            axis, v, body = t.args
            with self.bind(v, body):
                k = self.key(self.real(body))
            return self.atom(('prod', axis.name, k))
        raise TooBig('real ' + o)

    @contextlib.contextmanager
    def bind(self, v, body):
        h = height(body)
        self.env[v] = h
        try:
            yield h
        finally:
            del self.env[v]

    def inv(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            if all(k[0] != 'ind' for k, e in m):
                return {tuple((k, -e) for k, e in m): 1 / c}
        if not p:
            return self.atom(('inv0',))
        # common factor out: scale by one coefficient
        lead = max(p.items(), key=lambda kv: hash(kv[0]))[1]
        q = {m: c / lead for m, c in p.items()}
        return {((('inv', self.key(q)), 1),): 1 / lead}

    def zero(self, p):
        """zero, after multiplication with the denominators"""
        for _ in range(6):
            if not p:
                return True
            ks = [k for m in p for k, e in m if k[0] == 'inv']
            if not ks:
                return False
            k = max(ks, key=lambda x: len(x[1][1]))
            q = dict(k[1][1])
            top = max(dict(m).get(k, 0) for m in p)
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(k, 0)
                t = {tuple(sorted(d.items(), key=lambda kv: hash(kv[0]))): c}
                for _ in range(top - e):
                    t = self.pmul(t, q)
                out = self.padd(out, t)
            p = out
        return not p

    def pow(self, b, e):
        return self.atom(('app', 'pow', self.key(b), self.key(e)))

    _ment = {}

    def mentions(self, k, lev):
        r = self._ment.get((k, lev))
        if r is None:
            r = self._mentions(k, lev)
            self._ment[(k, lev)] = r
        return r

    def _mentions(self, k, lev):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'bnd' and k[1] == lev:
                return True
            return any(self.mentions(x, lev) for x in k if isinstance(x, (tuple, frozenset)))
        if isinstance(k, frozenset):
            return any(self.mentions(x, lev) for x in k if isinstance(x, (tuple, frozenset)))
        return False


def nf_equal(a, b, lits=()):
    """True if the normal forms agree (under the known literals)"""
    try:
        n = NF(lits)
        if a.sort in 'RI' and b.sort in 'RI' or 'B' in (a.sort, b.sort):
            return n.padd(n.real(as_real(a)), {m: -c for m, c in n.real(as_real(b)).items()}) == {}
        return n.other(a) == n.other(b)
    except TooBig:
        return False


# ------------------------------------------------------------------------------------------------ discharge
STATS = {'nf': 0, 'z3': 0, 'cvc5': 0, 'solver_s': 0.0, 'queries': 0}
_z3 = None


def z3mod():
    global _z3
    if _z3 is None:
        import z3
        _z3 = z3
    return _z3


class Trans:
    """translation of ground terms to z3; sums and products become constants (equal exactly if their normal forms agree)"""

    def __init__(self):
        self.z = z3mod()
        self.sorts, self.memo, self.lemmas, self.sums, self.alls = {}, {}, [], {}, {}
        self.nf = NF()
        self.strs = {}
        self.funcs = {}
        self.n = 0

    def sort(self, s):
        z = self.z
        if s in 'RI':
            return z.RealSort()
        if s == 'B':
            return z.BoolSort()
        if s not in self.sorts:
            self.sorts[s] = z.DeclareSort('S_' + s)
        return self.sorts[s]

    def fresh(self, base, sort):
        self.n += 1
        return self.z.Const('{}!{}'.format(base, self.n), self.sort(sort))

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def _tr(self, t):
        z, o = self.z, t.op
        if o == 'num':
            return z.RealVal(str(t.args[0]))
        if o == 'true':
            return z.BoolVal(True)
        if o == 'false':
            return z.BoolVal(False)
        if o in ('str', 'none'):
            c = z.Const('lit_{}'.format(t.args[0] if t.args else None), self.sort('S'))
            self.strs[t] = c
            return c
        if o in ('const', 'var'):
            return z.Const('{}_{}'.format(o, t.args[0]), self.sort(t.sort))
        if o == 'app':
            args = [self.tr(x) for x in t.args[1:]]
            key = (t.args[0], len(args), t.sort, tuple(x.sort for x in t.args[1:]))
            if key not in self.funcs:
                self.funcs[key] = z.Function('{}_{}'.format(t.args[0], len(self.funcs)), *([self.sort(x.sort) for x in t.args[1:]] + [self.sort(t.sort)]))
            return self.funcs[key](*args)
        if o == 'add':
            return z.Sum([self.tr(x) for x in t.args])
        if o == 'mul':
            r = self.tr(t.args[0])
            for x in t.args[1:]:
                r = r * self.tr(x)
            return r
        if o == 'div':
            return self.tr(t.args[0]) / self.tr(t.args[1])
        if o == 'not':
            return z.Not(self.tr(t.args[0]))
        if o == 'and':
            return z.And([self.tr(x) for x in t.args])
        if o in ('eq', 'iff'):
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if o == 'lt':
            return self.tr(t.args[0]) < self.tr(t.args[1])
        if o == 'ite':
            return z.If(self.tr(t.args[0]), self.tr(t.args[1]), self.tr(t.args[2]))
        if o in ('sum', 'prod'):
            try:
                k = NF.key(self.nf.real(t))
            except TooBig:
                k = t
            if k not in self.sums:
                self.sums[k] = (self.fresh(o, 'R'), t)
            return self.sums[k][0]
        if o == 'all':
            try:
                k = NF.key(self.nf.bool(t))
            except TooBig:
                k = t
            if k not in self.alls:
                self.alls[k] = (self.fresh('all', 'B'), t)
            return self.alls[k][0]
        raise TypeError('translation of ' + o)


_free = {}


def free_vars(t):
    r = _free.get(t)
    if r is None:
        if t.op == 'var':
            r = frozenset((t,))
        else:
            r = frozenset().union(*[free_vars(a) for a in t.args if isinstance(a, T)])
            if t.op in ('sum', 'prod', 'all'):
                r = r - {t.args[1]}
        _free[t] = r
    return r


def ground_apps(ts):
    """application terms without bound variables"""
    seen = set()
    for t in ts:
        walk(t, seen)

    def has_bound(t):
        return bool(free_vars(t))
    return [t for t in seen if t.op == 'app' and not has_bound(t)], [t for t in seen if t.op in ('sum', 'all', 'prod') and not has_bound(t)], \
        [t for t in seen if t.sort == 'I' and t.op != 'num' and not has_bound(t)]


def collect_facts(ts, rounds=3):
    facts, done = [], set()
    todo = list(ts)
    for _ in range(rounds):
        apps, _s, _p = ground_apps(todo + facts)
        new = []
        for a in apps:
            if a in done:
                continue
            done.add(a)
            for f in FACTS.get(a.args[0], ()):
                new += [x for x in f(a) if x is not TRUE]
        if not new:
            break
        facts += [x for x in new if x not in facts]
    return facts


def z3_check(hyps, goal, timeout=5000, depth=0, want_model=False):
    """('unsat'|'sat'|'unknown', model text)"""
    z = z3mod()
    t0 = time.time()
    STATS['queries'] += 1
    ts = [h for h in hyps] + [not_(goal)]
    ts += collect_facts(ts)
    tr = Trans()
    s = z.Solver()
    s.set('timeout', timeout)
    try:
        for t in ts:
            s.add(tr.tr(t))
        # universally quantified facts: instances for all the positions around; witnesses for their negations
        done = set()
        for _ in range(3):
            apps, binders, poss = ground_apps(ts)
            new = []
            for b in [b for b in binders if b.op == 'all']:
                axis, v, body = b.args
                flag = tr.tr(b)
                if (b, None) not in done:
                    done.add((b, None))
                    w = mk('const', ('w!{}'.format(b.id),), 'I')
                    wit = and_(axis.member(w), not_(subst(body, {v: w})))
                    new.append(or_(b, wit))
                for p in poss:
                    if (b, p) not in done and len(done) < 400:
                        done.add((b, p))
                        new.append(or_(not_(b), not_(axis.member(p)), subst(body, {v: p})))
            if not new:
                break
            new += [f for f in collect_facts(ts + new) if f not in ts]
            for t in new:
                s.add(tr.tr(t))
            ts = ts + new
        # sums of non-negative terms
        if depth < 1:
            for b in [b for b in ground_apps(ts)[1] if b.op == 'sum']:
                axis, v, body = b.args
                w = mk('const', ('e!{}'.format(b.id),), 'I')
                el = subst(body, {v: w})
                if z3_check([axis.member(w)], not_(lt(el, num(0))), 500, depth + 1)[0] == 'unsat':
                    s.add(tr.tr(b) >= 0)
                    # zero exactly if all are
                    z = all_(axis, lambda x: eq(subst(body, {v: x}), num(0)))
                    s.add(z3mod().Implies(tr.tr(b) == 0, tr.tr(z)), z3mod().Implies(tr.tr(z), tr.tr(b) == 0))
                    for p in ground_apps(ts)[2][:40]:
                        inst = or_(not_(z), not_(axis.member(p)), eq(subst(body, {v: p}), num(0)))
                        s.add(tr.tr(inst))
                    w2 = mk('const', ('w!{}'.format(z.id),), 'I')
                    s.add(tr.tr(or_(z, and_(axis.member(w2), not_(eq(subst(body, {v: w2}), num(0)))))))
        lits = list(tr.strs.values())
        if len(lits) > 1:
            s.add(z3mod().Distinct(*lits))
        r = str(s.check())
        model = ''
        if r == 'sat' and want_model:
            m = s.model()
            model = str(m)[:3000]
            CANDIDATE.clear()
            for t in walk_all(ts):
                if t.op == 'const' and t.sort in ('B', 'R') and t in tr.memo:
                    v = m.eval(tr.tr(t), model_completion=False)
                    if z3mod().is_true(v) or z3mod().is_false(v):
                        CANDIDATE[t] = z3mod().is_true(v)
                    elif z3mod().is_rational_value(v):
                        CANDIDATE[t] = Fraction(v.numerator_as_long(), v.denominator_as_long())
    except (TypeError, z3mod().Z3Exception) as e:
        r, model = 'unknown', repr(e)
    STATS['solver_s'] += time.time() - t0
    return r, model


CANDIDATE = {}    # values of the solver's candidate for a counterexample


def free_of_abstraction(ts):
    """no sums, powers... : a model of such a query is a real counterexample to the obligation"""
    for x in walk_all(ts):
        if x.op in ('sum', 'prod', 'all') or (x.op == 'app' and x.args[0] in ('pow', 'exp', 'log')):
            return False
    return True


def walk_all(ts):
    seen = set()
    for t in ts:
        walk(t, seen)
    return seen


SIMPLE = {}


def simple(t):
    """propositional, with comparisons of constants: left to the solver at once"""
    if t not in SIMPLE:
        SIMPLE[t] = t.op in ('const', 'lit', 'num', 'true', 'false') or t.op in ('and', 'or', 'not', 'ite', 'eq', 'lt', 'app', 'add', 'as_real') and all(
            simple(x) for x in t.args if isinstance(x, T))
    return SIMPLE[t]


def quantified(ts):
    """quantifiers in the scope of others, with more than sums of numbers"""
    return any(h.op == 'all' and height(h) > 1 for t in ts for h in walk(t) if t.op != 'num')


def prove(goal, hyps=(), timeout=5000, junk=()):
    """-> (status, back end, model)"""
    hyps = [h for h in hyps if h is not TRUE]
    goal = lift(goal)
    if goal is TRUE:
        STATS['nf'] += 1
        return 'proved', 'trivial', ''
    if goal.op == 'and':
        back = set()
        for g in goal.args:
            st, b, m = prove(g, hyps, timeout, junk)
            if st != 'proved':
                return st, b, m
            back.add(b)
        return 'proved', '+'.join(sorted(back)), ''
    nested = quantified(list(hyps) + [goal])
    if nested:
        import fol
        if fol.check(hyps, goal, min(timeout, 4000)) == 'unsat':
            STATS['z3'] += 1
            return 'proved', 'z3 (quantifiers)', ''
    if not nested and simple(goal) and z3_check(hyps, goal, 300)[0] == 'unsat':
        STATS['z3'] += 1
        return 'proved', 'z3', ''
    try:
        n = NF(hyps)
        if goal.op == 'eq':
            a, b = goal.args
            if a.sort in 'RIB' and b.sort in 'RIB':
                if n.zero(n.padd(n.real(as_real(a)), {m: -c for m, c in n.real(as_real(b)).items()})):
                    STATS['nf'] += 1
                    return 'proved', 'normal form', ''
        if n.bool(goal) == n.pconst(1):
            STATS['nf'] += 1
            return 'proved', 'normal form', ''
    except TooBig:
        pass
    import numeval
    f, text = numeval.falsify(goal, hyps, junk=junk)
    if f == 'refuted':
        return 'refuted', 'counterexample search', text
    r, model = ('unknown', '') if nested else z3_check(hyps, goal, timeout, want_model=True)
    if r == 'unsat':
        STATS['z3'] += 1
        return 'proved', 'z3', ''
    if not nested and f != 'junk':   # counts and sums of non-negative terms
        import fol
        if fol.check(hyps, goal, min(timeout, 1500)) == 'unsat':
            STATS['z3'] += 1
            return 'proved', 'z3 (quantifiers)', ''
    if r == 'sat' and f == 'none' and free_of_abstraction(list(hyps) + [goal]):
        return 'refuted', 'z3', model
    if r == 'sat' and f != 'junk' and CANDIDATE:
        g, text2 = numeval.falsify(goal, hyps, tries=100, seconds=2.0, junk=junk, preset=dict(CANDIDATE))
        if g == 'refuted':
            return 'refuted', 'z3, counterexample evaluated', text2
    if f != 'junk' and any(t.op in ('all', 'sum', 'prod') for t in walk_all(list(hyps) + [goal])):
        import finite
        text3 = finite.refute(goal, hyps)
        if text3:
            return 'refuted', 'z3 (finite model)', text3
    if f == 'junk':
        return 'unknown', 'counterexample search', 'only for some values left open: ' + text
    return 'unknown', 'z3', ('{} random models agree; '.format(text) if f == 'agree' else '') + ('' if r != 'sat' else 'candidate: ' + model)
