"""Obligations with quantifiers, given to z3 with its quantifiers: positions are an uninterpreted sort, a sum with bound positions is a function
of them, constrained by the facts about sums of non-negative terms and about counts."""
import time
from terms import *
import terms as tm


class NotFol(Exception):
    pass


NONNEG = {}
PH = mk('const', ('ph!v',), 'I')
PHS = [mk('const', ('ph!x{}'.format(n),), 'I') for n in range(12)]


class Fol:
    def __init__(self, terms):
        self.z = tm.z3mod()
        self.sorts, self.funcs, self.memo, self.strs = {}, {}, {}, {}
        self.axioms, self.sumf, self.facts_done = [], {}, set()
        self.n = 0
        self.pos = self.z.DeclareSort('Pos')
        for x in tm.walk_all(terms):
            if x.sort == 'I' and x.op not in ('const', 'var', 'app', 'ite'):
                self.pos = self.z.RealSort()
            if x.op == 'lt' and any(a.sort == 'I' for a in x.args):
                self.pos = self.z.RealSort()

    def sort(self, s):
        z = self.z
        if s == 'R':
            return z.RealSort()
        if s == 'I':
            return self.pos
        if s == 'B':
            return z.BoolSort()
        if s not in self.sorts:
            self.sorts[s] = z.DeclareSort('S_' + s)
        return self.sorts[s]

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._tr(t)
        return r

    def func(self, name, args, sort):
        key = (name, tuple(a.sort for a in args), sort)
        if key not in self.funcs:
            self.funcs[key] = self.z.Function('{}_{}'.format(name, len(self.funcs)), *([self.sort(a.sort) for a in args] + [self.sort(sort)]))
        return self.funcs[key]

    def _tr(self, t):
        z, o = self.z, t.op
        if o == 'num':
            return z.RealVal(str(t.args[0]))
        if o == 'true':
            return z.BoolVal(True)
        if o == 'false':
            return z.BoolVal(False)
        if o in ('str', 'none'):
            c = z.Const('lit_{}'.format(t.args[0] if t.args else None), self.sort('S'))
            self.strs[t] = c
            return c
        if o in ('const', 'var'):
            return z.Const('{}_{}'.format(o, t.args[0]), self.sort(t.sort))
        if o == 'app':
            self.facts(t)
            return self.func(t.args[0], t.args[1:], t.sort)(*[self.tr(x) for x in t.args[1:]])
        if o == 'add':
            return z.Sum([self.tr(x) for x in t.args])
        if o == 'mul':
            r = self.tr(t.args[0])
            for x in t.args[1:]:
                r = r * self.tr(x)
            return r
        if o == 'div':
            return self.tr(t.args[0]) / self.tr(t.args[1])
        if o == 'not':
            return z.Not(self.tr(t.args[0]))
        if o == 'and':
            return z.And([self.tr(x) for x in t.args])
        if o in ('eq', 'iff'):
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if o == 'lt':
            return self.tr(t.args[0]) < self.tr(t.args[1])
        if o == 'ite':
            return z.If(self.tr(t.args[0]), self.tr(t.args[1]), self.tr(t.args[2]))
        if o == 'all':
            axis, v, body = t.args
            return z.ForAll([self.tr(v)], z.Implies(self.tr(axis.member(v)), self.tr(body)))
        if o == 'sum':
            return self.sum(t)
        if o == 'prod':
            raise NotFol('product')
        raise NotFol('translation of ' + o)

    def leaves(self, t, bound, out):
        """maximal terms of positions which are not bound inside, in the order of their occurrence"""
        if t.sort == 'I' and t.op in ('const', 'var', 'app') and not (free_vars(t) & bound):
            if t not in out:
                out.append(t)
            return
        if t.op in ('sum', 'prod', 'all'):
            bound = bound | {t.args[1]}
        for a in t.args:
            if isinstance(a, T):
                self.leaves(a, bound, out)

    def sum(self, t):
        ls = []
        self.leaves(t, frozenset(), ls)
        ph = [mk('const', ('ph!{}'.format(k),), 'I') for k in range(len(ls))]
        canon = subst(t, dict(zip(ls, ph)))
        try:
            nf = NF()
            key = (len(ls), NF.key(nf.real(canon)))
        except TooBig:
            key = (len(ls), canon)
        if key not in self.sumf:
            self.n += 1
            f = self.z.Function('sum_{}'.format(self.n), *([self.pos] * len(ls) + [self.z.RealSort()]))
            self.sumf[key] = f
            self.sum_axioms(f, ls, t)
        return self.sumf[key](*[self.tr(x) for x in ls])

    def sum_axioms(self, f, ls, t):
        z = self.z
        vs = [var('I') for _ in ls]
        t = subst(t, dict(zip(ls, vs)))
        axis, v, body = t.args
        w = mk('const', ('e!{}'.format(t.id),), 'I')
        el = subst(body, {v: w})
        el = subst(el, {x: mk('const', ('e!{}_{}'.format(t.id, k),), 'I') for k, x in enumerate(vs)})
        pure = body.op == 'ite' and all(a.op == 'num' and a.args[0] >= 0 for a in body.args[1:])
        if not pure:
            k = subst(body, dict([(v, PH)] + [(x, PHS[n]) for n, x in enumerate(vs)])) if len(vs) < len(PHS) else None
            if k is None or k not in NONNEG:
                ok = tm.z3_check([axis.member(w)], not_(lt(el, num(0))), 500, 1)[0] == 'unsat'
                if k is not None:
                    NONNEG[k] = ok
            else:
                ok = NONNEG[k]
            if not ok:
                return
        zv = [self.tr(x) for x in vs]
        s = f(*zv)
        zero = self.tr(all_(axis, lambda x: eq(subst(body, {v: x}), num(0))))

        def close(b):
            self.axioms.append(z.ForAll(zv, b, patterns=[s]) if zv else b)
        close(z.And(s >= 0, (s == 0) == zero))
        if body.op == 'ite' and body.args[1].op == 'num' and body.args[2].op == 'num' and {body.args[1].args[0], body.args[2].args[0]} == {0, 1}:
            p = (lambda x: subst(body.args[0], {v: x})) if body.args[1].args[0] == 1 else (lambda x: not_(subst(body.args[0], {v: x})))
            one = self.tr(any_(axis, lambda x: and_(p(x), all_(axis, lambda y: implies(p(y), eq(y, x))))))
            two = self.tr(any_(axis, lambda x: any_(axis, lambda y: and_(p(x), p(y), not_(eq(x, y))))))
            close(z.And(z.Or(s == 0, s == 1, s >= 2), (s == 1) == one, (s >= 2) == two))

    def facts(self, t):
        k = (t.args[0], tuple(a.sort for a in t.args[1:]), t.sort)
        if k in self.facts_done or t.args[0] not in tm.FACTS:
            return
        self.facts_done.add(k)
        vs = [var(a.sort) for a in t.args[1:]]
        a = app(t.args[0], vs, t.sort)
        zv = [self.tr(x) for x in vs]
        za = self.tr(a)
        for f in tm.FACTS[t.args[0]]:
            for x in f(a):
                if x is not TRUE:
                    b = self.tr(x)
                    self.axioms.append(self.z.ForAll(zv, b, patterns=[za]) if zv else b)


def check(hyps, goal, timeout=5000, mbqi=False):
    """'unsat' or 'unknown' """
    z = tm.z3mod()
    t0 = time.time()
    tm.STATS['queries'] += 1
    try:
        ts = list(hyps) + [not_(goal)]
        f = Fol(ts)
        s = z.Solver()
        s.set('timeout', timeout)
        if not mbqi:
            s.set('smt.mbqi', False)
        for t in ts:
            s.add(f.tr(t))
        for a in f.axioms:
            s.add(a)
        n = 0
        while n < len(f.axioms):   # axioms may bring others
            n = len(f.axioms)
        lits = list(f.strs.values())
        if len(lits) > 1:
            s.add(z.Distinct(*lits))
        r = str(s.check())
    except (NotFol, TypeError, z.Z3Exception, AttributeError, IndexError, KeyError) as e:
        r = 'unknown'
        tm.STATS['fol_error'] = repr(e)[:200]
    tm.STATS['solver_s'] += time.time() - t0
    return r
