"""Counterexample search for obligations that the provers leave open: the two sides are evaluated on random finite models
(axes of 1 to 3 elements, random values of all the symbols). A difference is a genuine counterexample of the verification condition."""
import math
import random
from terms import *
import terms as tm
from fractions import Fraction
import decimal
from decimal import Decimal
decimal.getcontext().prec = 50
decimal.getcontext().Emax = 10**6
decimal.getcontext().Emin = -10**6

HINTS = {}    # symbol or function name -> sampler(random)
AXES = {}     # axis name -> Axis
DEFS = {}     # function name -> evaluator(model, args)


PI = Decimal('3.14159265358979323846264338327950288419716939937510582097494')


class Bad(Exception):
    pass


EPS, SMALL = Decimal('1e-35'), Decimal('1e-300')


def D(x):
    return x if isinstance(x, Decimal) else Decimal(int(x)) if isinstance(x, (int, bool)) else Decimal(x)


def numeric(x):
    return isinstance(x, (int, float, Decimal))


def close(a, b):
    a, b = D(a), D(b)
    return abs(a - b) <= EPS * max(abs(a), abs(b)) or abs(a - b) < SMALL


class Model:
    def __init__(self, seed, poshyps, junk=(), salt=0):
        self.r = random.Random(seed)
        self.rj = random.Random('{}/{}'.format(seed, salt))
        self.junk = tuple(junk)
        self.size = {}
        self.tab = {}
        self.pos = poshyps
        self.memo = {}
        self.used = {}

    def take(self, preset):
        for t, v in (preset or {}).items():
            if t in tm.EXTREMA:
                continue
            self.memo[t] = self.used[str(t.args[0])] = v if isinstance(v, bool) else D(v.numerator) / D(v.denominator)

    def n(self, axis):
        if axis not in self.size:
            self.size[axis] = self.r.choice([1, 2, 2, 3, 3, 4])
        return self.size[axis]

    def sample(self, name, sort):
        if self.junk and name.startswith(self.junk):
            r, self.r = self.r, self.rj
            try:
                return self.sample_(name, sort)
            finally:
                self.r = r
        return self.sample_(name, sort)

    def sample_(self, name, sort):
        h = HINTS.get(name)
        if h:
            return h(self.r)
        if sort == 'B':
            return self.r.random() < 0.5
        if sort == 'S':
            return self.r.choice(['s0', 's1', 's2'])
        if sort == 'I':
            return self.r.randrange(3)
        if sort in 'R':
            x = self.r.random()
            return self.r.choice([0.0, 1.0, 2.0]) if x < 0.15 else math.exp(self.r.uniform(-1.2, 1.2)) * (1 if x < 0.85 or name.startswith('c_') else -1)
        return ('o', name, self.r.randrange(3))

    def ev(self, t, env):
        o = t.op
        if o == 'num':
            return D(t.args[0].numerator) / D(t.args[0].denominator)
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'var':
            if t in env:
                return env[t]
            raise Bad
        if o == 'str':
            return t.args[0]
        if o == 'none':
            return None
        k = None
        if not env:
            k = t
            if k in self.memo:
                return self.memo[k]
        r = self._ev(t, env)
        if isinstance(r, float):
            r = D(r)
        if isinstance(r, Decimal) and (not r.is_finite() or abs(r) > Decimal('1e3000')):
            raise Bad
        if k is not None:
            self.memo[k] = r
        return r

    def _ev(self, t, env):
        o, a = t.op, t.args
        if o == 'const':
            if t in self.memo:
                return self.memo[t]
            v = self.memo[t] = self.constant(t)
            return v
        return self._ev2(t, env)

    def constant(self, t):
            if t.args[0] == 'float_nan':
                raise Bad
            if t.args[0] == 'np.e':
                return D(1).exp()
            if t.args[0] == 'c_pi':
                return PI
            if t in tm.EXTREMA:
                which, axis, v, body, p, m, w = tm.EXTREMA[t]
                at = [i for i in range(self.n(axis.name)) if self.ev(p, {v: i})]
                if not at:
                    raise Bad
                vals = [(D(self.ev(body, {v: i})), i) for i in at]
                best = max(vals, key=lambda x: x[0]) if which == 'max' else min(vals, key=lambda x: x[0])
                self.memo[m], self.memo[w] = best
                return self.memo[t]
            if t.args[0].startswith('len_') and t.args[0][4:] in AXES:
                return D(self.n(t.args[0][4:]))
            if t.sort == 'I' and t in self.pos:
                v = self.r.randrange(self.n(self.pos[t]))
            else:
                v = self.sample(t.args[0], t.sort)
            self.used[str(t.args[0])] = v
            return v

    def _ev2(self, t, env):
        o, a = t.op, t.args
        if o == 'app':
            f = a[0]
            args = tuple(self.ev(x, env) for x in a[1:])
            if f.startswith('in_') and f[3:] in AXES:
                return 0 <= args[0] < self.n(f[3:])
            if f == 'pow':
                b, e = args
                if b < 0 and e != int(e) or b == 0 and e < 0:
                    raise Bad
                return D(b) ** D(e)
            if f == 'exp':
                if args[0] > 300:
                    raise Bad
                return D(args[0]).exp()
            if f == 'log':
                if args[0] <= 0:
                    raise Bad
                return D(args[0]).ln()
            if f == 'trunc':
                return D(int(args[0]))
            if f in DEFS:
                return DEFS[f](self, args)
            key = (f, args)
            if key not in self.tab:
                self.tab[key] = self.sample(f, t.sort)
                self.used['{}{}'.format(f, args)] = self.tab[key]
            return self.tab[key]
        if o == 'add':
            return sum((D(self.ev(x, env)) for x in a), D(0))
        if o == 'mul':
            r = D(1)
            for x in a:
                r *= D(self.ev(x, env))
            return r
        if o == 'div':
            d = self.ev(a[1], env)
            if d == 0:
                raise Bad
            return D(self.ev(a[0], env)) / D(d)
        if o == 'not':
            return not self.ev(a[0], env)
        if o == 'and':
            return all(self.ev(x, env) for x in a)
        if o in ('eq', 'iff'):
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if numeric(x) and numeric(y) and not isinstance(x, bool):
                return close(x, y)
            return x == y
        if o == 'lt':
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            return x < y and not close(x, y)
        if o == 'ite':
            return self.ev(a[1] if self.ev(a[0], env) else a[2], env)
        if o in ('sum', 'prod', 'all'):
            axis, v, body = a
            vals = []
            for i in range(self.n(axis.name)):
                e = dict(env)
                e[v] = i
                x = self.ev(body, e)
                if o == 'all':
                    if not x:
                        return False
                else:
                    vals.append(D(x))
            if o == 'all':
                return True
            return sum(vals, D(0)) if o == 'sum' else math.prod(vals, start=D(1))
        raise Bad


def axes_in(ts):
    for t in tm.walk_all(ts):
        if t.op in ('sum', 'prod', 'all'):
            AXES[t.args[0].name] = t.args[0]


def verdict(m, goal):
    """(True | False | None, text)"""
    if goal.op == 'eq' and goal.args[0].sort in 'RIB' and goal.args[1].sort in 'RIB':
        x, y = (D(m.ev(g, {})) for g in goal.args)
        if abs(x - y) > Decimal('1e-12') * max(abs(x), abs(y)) and max(abs(x), abs(y)) > Decimal('1e-20'):
            return False, '{:.12g} != {:.12g}'.format(x, y)
        ok = abs(x - y) <= Decimal('1e-30') * max(abs(x), abs(y)) or abs(x - y) < Decimal('1e-33')
        return (True if ok else None), ''
    return (True, '') if m.ev(goal, {}) else (False, 'false')


def falsify(goal, hyps, tries=500, wanted=40, seconds=4.0, junk=(), preset=None):
    """('refuted', text) | ('agree', n) | ('none', 0) | ('junk', text): false for some values of the unspecified terms (names in junk) only"""
    import time
    t0 = time.time()
    axes_in(list(hyps) + [goal])
    pos = {}
    for h in tm.walk_all(list(hyps)):
        if h.op == 'app' and str(h.args[0]).startswith('in_') and h.args[1].op == 'const':
            pos[h.args[1]] = h.args[0][3:]
            AXES.setdefault(h.args[0][3:], None)
    n, weak = 0, None
    for s in range(tries):
        if n >= wanted or time.time() - t0 > seconds:
            break
        try:
            m = Model(s, pos, junk)
            m.take(preset)
            if not all(m.ev(h, {}) for h in hyps):
                continue
            ok, why = verdict(m, goal)
            if ok is False:
                text_ = '{} for sizes {} and {}'.format(why, m.size, text(m))
                same = True
                for salt in (1, 2) if junk else ():
                    m2 = Model(s, pos, junk, salt)
                    m2.take({k: v for k, v in (preset or {}).items() if not k.args[0].startswith(m2.junk)})
                    if not all(m2.ev(h, {}) for h in hyps) or verdict(m2, goal) != (ok, why):
                        same = False
                if same:
                    return 'refuted', text_
                weak = text_
            n += ok is True
        except (Bad, OverflowError, TypeError, ValueError, ArithmeticError):
            continue
    if weak:
        return 'junk', weak
    return ('agree', n) if n else ('none', 0)


def scale(m):
    return 1.0


def text(m):
    return ', '.join('{}={}'.format(k, '{:.6g}'.format(v) if isinstance(v, (float, Decimal)) else v) for k, v in list(m.used.items())[:60])
