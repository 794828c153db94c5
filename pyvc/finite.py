"""Counterexamples to obligations with nested quantifiers: every axis gets a few elements, quantifiers and sums over it become conjunctions and sums over
them, and what is left is put to z3. An answer 'sat' is a counterexample with that many elements; anything else says nothing."""
import terms as tm
from terms import *


def elements(axis, n):
    return [const('el_{}_{}'.format(axis.name, k), 'I') for k in range(n)]


def axes_of(ts):
    out, work, seen = {}, list(ts), set()
    for t in tm.walk_all(ts):
        if t.op in ('all', 'sum', 'prod', 'min', 'max') and hasattr(t.args[0], 'base'):
            out[t.args[0].name] = t.args[0].base
    for c, a in tm.LENGTHS.items():
        if c.op == 'const' and a.base is a and 'in_' + a.name in {t.args[0] for t in tm.walk_all(ts) if t.op == 'app'}:
            out[a.name] = a
    return out


class Expand:
    def __init__(self, axes, n):
        self.axes, self.n, self.memo = axes, n, {}
        self.els = {a: elements(x, n) for a, x in axes.items()}
        self.lens = {x.length: num(n) for x in axes.values()}

    def go(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._go(t)
        return r

    def _go(self, t):
        if t in self.lens:
            return self.lens[t]
        if t.op in ('all', 'sum', 'prod'):
            axis, v, body = t.args
            if axis.name not in self.els:
                raise Unsup(axis.name)
            parts = [self.go(subst(body, {v: e})) for e in self.els[axis.name]]
            return and_(*parts) if t.op == 'all' else (add if t.op == 'sum' else mul)(*parts)
        if t.op in ('min', 'max'):
            raise Unsup(t.op)
        if t.op == 'app' and str(t.args[0]).startswith('in_') and t.args[0][3:] in self.els and len(t.args) == 2:
            x = self.go(t.args[1])
            es = self.els[t.args[0][3:]]
            return TRUE if x in es else or_(*[eq(x, e) for e in es])
        if not t.args or t.op in ('num', 'str', 'const', 'var'):
            return t
        return rebuild(t, tuple(self.go(a) if isinstance(a, T) else a for a in t.args))


class Unsup(Exception):
    pass


def refute(goal, hyps, timeout=1500, sizes=(2, 3)):
    """text of a counterexample, or None"""
    ts = list(hyps) + [goal]
    axes = axes_of(ts)
    if not axes or len(axes) > 4:
        return None
    for n in sizes:
        x = Expand(axes, n)
        try:
            hs, g = [x.go(h) for h in hyps], x.go(goal)
        except (Unsup, RecursionError):
            return None
        if any(t.op in ('all', 'sum', 'prod') for t in tm.walk_all(hs + [g])):
            return None
        for es in x.els.values():
            hs += [not_(eq(a, b)) for k, a in enumerate(es) for b in es[:k]]
        if not tm.free_of_abstraction(hs + [g]):
            return None
        r, model = tm.z3_check(hs, g, timeout, want_model=True)
        if r == 'sat':
            return '{} elements per axis: {}'.format(n, model)
    return None
