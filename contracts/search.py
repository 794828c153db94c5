"""Contracts of the searches of Graph (C19): Dijkstra's algorithm for the shortest and for the widest paths, for graphs of any size.

The nodes are positions of an axis (any number of them, any edges, any non-negative lengths). The loops are cut at their heads by the invariants
below; ghost state is the round in which each node left the queue. Lengths are numbers or infinite (Ext), exact reals."""
import ast
from terms import *
from values import *
import terms as tm
import interp as ip
import lib
import loops
import pandas_ as pdm
from lib import Native, force
from rx import excname

FILE = 'pygmo_fwork/optichem/graph.py'
MOD = 'pygmo_fwork.optichem.graph'
N = Axis('nodes')
G = lambda q: app('is_node', (q,), 'B')
EDGE = lambda u, v: app('is_edge', (u, v), 'B')
WEIGHT = lambda u, v: app('edge_weight', (u, v))
TARGET = mk('const', ('target',), 'I')


class Cut(Exception):
    """the end of an arbitrary round of a loop"""


class Ext:
    """a number, infinity or not a number"""

    def __init__(self, v, inf=FALSE, nan=FALSE):
        self.v, self.inf, self.nan = v, inf, nan

    @staticmethod
    def of(x):
        if isinstance(x, Ext):
            return x
        if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
            return Ext(num(x))
        if isinstance(x, T) and x.sort == 'R':
            if x is lib.INF:
                return Ext(num(0), TRUE)
            if x is lib.NAN:
                return Ext(num(0), FALSE, TRUE)
            if x.op == 'ite' and any(y in (lib.INF, lib.NAN) for y in tm.walk(x)):
                a, b = Ext.of(x.args[1]), Ext.of(x.args[2])
                return Ext.ite(x.args[0], a, b) if a and b else None
            if any(y in (lib.INF, lib.NAN) for y in tm.walk(x)):
                return None
            return Ext(x)

    @staticmethod
    def need(x):
        r = Ext.of(x)
        if r is None:
            raise Unsupported('number')
        return r

    @staticmethod
    def ite(c, a, b):
        return Ext(ite(c, a.v, b.v), bite(c, a.inf, b.inf), bite(c, a.nan, b.nan))

    def lt(self, o):
        return and_(not_(self.nan), not_(o.nan), not_(self.inf), or_(o.inf, lt(self.v, o.v)))

    def le(self, o):
        return and_(not_(self.nan), not_(o.nan), or_(o.inf, and_(not_(self.inf), not_(lt(o.v, self.v)))))

    def eq(self, o):
        return and_(eq(self.nan, o.nan), implies(not_(self.nan), and_(eq(self.inf, o.inf), implies(not_(self.inf), eq(self.v, o.v)))))

    def plus(self, o):
        return Ext(add(self.v, o.v), or_(self.inf, o.inf), or_(self.nan, o.nan))

    def sym_binop(self, it, op, other, refl):
        o = Ext.need(force(it, other))
        if isinstance(op, ast.Add):
            return self.plus(o)
        if isinstance(op, ast.Sub) and not it.branch(or_(self.inf, o.inf)):
            a, b = (o, self) if refl else (self, o)
            return Ext(add(a.v, neg(b.v)), FALSE, or_(a.nan, b.nan))
        raise Unsupported('arithmetic of lengths')

    def sym_compare(self, it, op, other, refl):
        o = Ext.need(force(it, other))
        a, b = (o, self) if refl else (self, o)
        r = {ast.Lt: lambda: a.lt(b), ast.Gt: lambda: b.lt(a), ast.LtE: lambda: a.le(b), ast.GtE: lambda: b.le(a),
             ast.Eq: lambda: and_(not_(a.nan), a.eq(b)), ast.NotEq: lambda: or_(a.nan, not_(a.eq(b)))}.get(type(op))
        if r is None:
            raise Unsupported('comparison of lengths')
        return it.unbool(r())

    @staticmethod
    def minmax(it, which, els):
        r = Ext.need(force(it, els[0]))
        for e in els[1:]:
            e = Ext.need(force(it, e))
            r = Ext.ite(r.lt(e) if which == 'max' else e.lt(r), e, r)
        return r

    sym_minmax = minmax

    def sym_truth(self, it):
        return not_(and_(not_(self.inf), not_(self.nan), eq(self.v, num(0))))

    def sub(self, m):
        return Ext(subst(self.v, m), subst(self.inf, m), subst(self.nan, m))


class Opt:
    """None or a node"""

    def __init__(self, none, node):
        self.none, self.node = none, node

    @staticmethod
    def of(x):
        if x is None:
            return Opt(TRUE, None)
        if isinstance(x, T) and x.sort == 'I':
            return Opt(FALSE, x)
        return x if isinstance(x, Opt) else None

    @staticmethod
    def ite(c, a, b):
        n = a.node if b.node is None else b.node if a.node is None else ite(c, a.node, b.node)
        return Opt(bite(c, a.none, b.none), n)

    def get(self, it):
        if self.node is None or it.branch(self.none):
            return None
        return self.node

    def sub(self, m):
        return Opt(subst(self.none, m), None if self.node is None else subst(self.node, m))


class Walk:
    """a list of nodes by what matters of it: its ends, the total, the narrowest edge, whether all the steps are edges, go to nodes relaxed earlier"""
    FIELDS = ('first', 'last', 'steps', 'down', 'hit', 'total', 'width', 'only')

    def __init__(self, s, first):
        self.s = s
        self.first, self.last = first, Opt(FALSE, first)
        self.steps, self.down, self.hit, self.only = TRUE, TRUE, eq(first, TARGET), TRUE
        self.total, self.width = Ext(num(0)), Ext(num(0), TRUE)

    def clone(self):
        r = object.__new__(Walk)
        r.__dict__.update(self.__dict__)
        return r

    def append(self, x):
        x = Opt.of(x)
        if x is None:
            raise Unsupported('not a node in a path')
        if x.node is None:
            self.last, self.steps, self.only = x, FALSE, FALSE
            return
        l = self.last
        if l.node is None:
            raise Unsupported('path goes on after its end')
        L = Ext(self.s.length(l.node, x.node))
        self.steps = and_(self.steps, not_(l.none), not_(x.none), EDGE(l.node, x.node))
        self.down = and_(self.down, lt(self.s.rank(x.node), self.s.rank(l.node)))
        self.hit = or_(self.hit, and_(not_(x.none), eq(x.node, TARGET)))
        self.only = FALSE
        self.total = self.total.plus(L)
        self.width = Ext.ite(L.lt(self.width), L, self.width)
        self.last = x

    @staticmethod
    def ite(c, a, b):
        r = a.clone()
        for f in Walk.FIELDS:
            x, y = getattr(a, f), getattr(b, f)
            setattr(r, f, type(x).ite(c, x, y) if isinstance(x, (Ext, Opt)) else bite(c, x, y) if x.sort == 'B' else ite(c, x, y))
        return r

    def sub(self, m):
        r = self.clone()
        for f in Walk.FIELDS:
            x = getattr(self, f)
            setattr(r, f, x.sub(m) if isinstance(x, (Ext, Opt)) else subst(x, m))
        return r

    def sym_getitem(self, it, k):
        if k == -1:
            return self.last.get(it)
        if k == 0:
            return self.first
        raise Unsupported('element of a path')

    def sym_getattr(self, it, name):
        if name == 'append':
            return Native(lambda it_, x: self.append(force(it_, x)), 'list.append')
        raise Unsupported('list.' + name)


def bite(c, a, b):
    return and_(implies(c, a), implies(not_(c), b))


def uniform(s, x):
    for k in (Ext, Opt):
        r = k.of(x)
        if r is not None:
            return r
    if isinstance(x, Walk):
        return x
    if isinstance(x, list) and x and all(isinstance(y, T) and y.sort == 'I' for y in x):
        w = Walk(s, x[0])
        for y in x[1:]:
            w.append(y)
        return w
    raise Unsupported('value of type {}'.format(type(x).__name__))


def merge(s, outs):
    """value by cases"""
    vs = [(c, uniform(s, v)) for c, v in outs]
    if len({type(v) for _, v in vs}) != 1:
        raise Unsupported('values of several kinds')
    r = vs[-1][1]
    for c, v in reversed(vs[:-1]):
        r = type(r).ite(c, v, r)
    return r


class NodeMap:
    """dictionary with the nodes as its keys"""

    def __init__(self, dom, val):
        self.dom, self.val = dom, val
        self.rec = None       # inside a loop over nodes: (the node, {written}, [read elsewhere])

    def sym_getitem(self, it, k):
        k = force(it, k)
        if not (isinstance(k, T) and k.sort == 'I'):
            if k is None:
                it.raise_(KeyError, 'None')
            raise Unsupported('key')
        if self.rec and k is self.rec[0] and 'v' in self.rec[1]:
            return self.out(it, self.rec[1]['v'])
        if not it.branch(self.dom(k)):
            it.raise_(KeyError, 'node')
        if self.rec:
            p, written, read = self.rec
            if k is p:
                if 'v' in written:
                    return self.out(it, written['v'])
                v = self.val(k)
                if isinstance(v, Walk):
                    written['v'] = v = v.clone()   # may be changed in place
                return self.out(it, v)
            read.append((k, list(it.path.conds)))
        v = self.val(k)
        if isinstance(v, Walk):
            raise Unsupported('path of another node')
        return self.out(it, v)

    @staticmethod
    def out(it, v):
        return v.get(it) if isinstance(v, Opt) else v

    def sym_setitem(self, it, k, v):
        k, v = force(it, k), force(it, v)
        if not (isinstance(k, T) and k.sort == 'I'):
            raise Unsupported('key')
        if self.rec:
            if k is not self.rec[0]:
                raise Unsupported('entry of another node changed')
            self.rec[1]['v'] = uniform(it.search, v)
            return
        if it.in_sub and id(self) not in it.fresh:
            raise Unsupported('dictionary changed in a loop')
        v, d, f = uniform(it.search, v), self.dom, self.val
        self.dom = lambda q: or_(eq(q, k), d(q))
        self.val = lambda q: merge(it.search, [(eq(q, k), v), (TRUE, f(q))])

    def sym_contains(self, it, k):
        if self.rec:
            raise Unsupported('in a dictionary that a loop changes')
        return it.unbool(self.dom(k))

    def nodes(self):
        return NodeSet(self.dom)

    def sym_comp(self, it, e, inner, kind):
        return self.nodes().sym_comp(it, e, inner, kind)

    def sym_for(self, it, st, env):
        return self.nodes().sym_for(it, st, env)

    def sym_getattr(self, it, name):
        if name == 'keys':
            return Native(lambda it_: self.nodes(), 'dict.keys')
        if name == 'items':
            return Native(lambda it_: Items(self), 'dict.items')
        if name == 'get':
            def get(it_, k, default=None):
                return self.sym_getitem(it_, k) if it_.branch(self.dom(force(it_, k))) else default
            return Native(get, 'dict.get')
        if name == 'copy':
            return Native(lambda it_: it_.new(NodeMap(self.dom, self.val)), 'dict.copy')
        raise Unsupported('dict.' + name)


class Items:
    def __init__(self, m):
        self.m = m

    def sym_comp(self, it, e, inner, kind):
        return self.m.nodes().sym_comp(it, e, inner, kind, lambda q: (q, self.m.sym_getitem(it, q)))

    def sym_for(self, it, st, env):
        return self.m.nodes().sym_for(it, st, env, lambda q: (q, self.m.sym_getitem(it, q)))


class NodeSet:
    def __init__(self, pred):
        self.pred = pred

    def sym_set(self, it):
        return it.new(NodeSet(self.pred))

    def sym_list(self, it):
        return it.new(NodeSet(self.pred))

    def sym_truth(self, it):
        return any_(N, self.pred)

    def sym_len(self, it):
        return sum_(N, lambda q: ite(self.pred(q), num(1), num(0)))

    def sym_contains(self, it, k):
        k = force(it, k)
        if not (isinstance(k, T) and k.sort == 'I'):
            return False
        return it.unbool(self.pred(k))

    def change(self, it):
        if it.in_sub and id(self) not in it.fresh:
            raise Unsupported('set changed in a loop')

    def sym_getattr(self, it, name):
        def remove(it_, k):
            self.change(it_)
            if not it_.branch(self.pred(k)):
                it_.raise_(KeyError, 'node')
            p = self.pred
            self.pred = lambda q: and_(not_(eq(q, k)), p(q))

        def discard(it_, k):
            self.change(it_)
            p = self.pred
            self.pred = lambda q: and_(not_(eq(q, k)), p(q))

        def add_(it_, k):
            self.change(it_)
            p = self.pred
            self.pred = lambda q: or_(eq(q, k), p(q))
        f = {'remove': remove, 'discard': discard, 'add': add_, 'copy': lambda it_: it_.new(NodeSet(self.pred))}.get(name)
        if f is None:
            raise Unsupported('set.' + name)
        return Native(f, 'set.' + name)

    def sym_binop(self, it, op, other, refl):
        els = list(other) if isinstance(other, (set, frozenset)) else lib.elements(it, other.arr) if isinstance(other, lib.SetOf) else None
        if els is not None and all(isinstance(x, T) and x.sort == 'I' for x in els):
            other = NodeSet(lambda q: or_(*[eq(q, x) for x in els]))
        if not isinstance(other, NodeSet):
            raise Unsupported('operation on a set')
        a, b = (other.pred, self.pred) if refl else (self.pred, other.pred)
        f = {ast.BitAnd: lambda q: and_(a(q), b(q)), ast.BitOr: lambda q: or_(a(q), b(q)), ast.Sub: lambda q: and_(a(q), not_(b(q)))}.get(type(op))
        if f is None:
            raise Unsupported('operation on a set')
        return it.new(NodeSet(f))

    def extreme(self, it, key, largest):
        """a node with the smallest (largest) key"""
        if not it.branch(any_(N, self.pred)):
            it.raise_(IndexError, 'empty')
        it.search.count += 1
        m = mk('const', ('extreme{}'.format(it.search.count),), 'I')
        q = N.new('q')
        outs = it.sub_explore(lambda: it.call(key, [q], {}), [N.member(q), self.pred(q)])
        if any(v[0] == 'raise' for _, v in outs):
            raise Unsupported('key of a node')
        k = merge(it.search, [(and_(*c), v[1]) for c, v in outs])
        if not isinstance(k, Ext):
            raise Unsupported('key of a node')
        km = k.sub({q: m})
        it.path.assume(N.member(m))
        it.path.assume(self.pred(m))
        it.path.assume(all_(N, lambda x: implies(self.pred(x), not_(km.lt(k.sub({q: x})) if largest else k.sub({q: x}).lt(km)))))
        return m

    def sym_sorted(self, it):
        return it.new(NodeSet(self.pred))

    def sym_sorted_by(self, it, key, reverse):
        return Sorted(self, key, bool(reverse))

    def sym_extreme(self, it, which, key):
        if key is None:
            raise Unsupported('order of the nodes')
        return self.extreme(it, key, which == 'max')

    def sym_comp(self, it, e, inner, kind, wrap=lambda q: q):
        g = e.generators[0]
        if len(e.generators) != 1 or kind == 'list':
            raise Unsupported('comprehension over nodes')
        p = N.new('c')

        def body():
            e2 = ip.Env(inner.module, dict(inner.vars), inner.parent, inner.node)
            it.assign(g.target, wrap(p), e2)
            for c in g.ifs:
                if not it.truth(it.eval(c, e2)):
                    return 'skip'
            k = it.eval(e.key if kind == 'dict' else e.elt, e2)
            if k is not p:
                raise Unsupported('other keys')
            return ('value', it.eval(e.value, e2) if kind == 'dict' else None)
        outs = it.sub_explore(body, [N.member(p), self.pred(p)])
        if any(v[0] == 'raise' for _, v in outs):
            raise Unsupported('exception in a comprehension')
        good = [(and_(*c), v[1][1]) for c, v in outs if v[1] != 'skip']
        skip = any(v[1] == 'skip' for c, v in outs)
        only = or_(*[c for c, _ in good]) if skip else TRUE
        own = self.pred
        dom = lambda q: and_(own(q), subst(only, {p: q}))
        if kind == 'set':
            return it.new(NodeSet(dom))
        v = merge(it.search, good)
        return it.new(NodeMap(dom, lambda q: v.sub({p: q})))

    def sym_for(self, it, st, env, wrap=lambda q: q):
        """a loop over nodes which changes dictionaries at the node it is at, and reads them there or where no round changes them"""
        if isinstance(it.search, Flow):
            if it.search.stage >= 1:
                return it.search.for_nodes(it, st, env)
            return self.fill(it, st, env, wrap)
        if it.in_sub or st.orelse:
            raise Unsupported('loop over nodes in another one')
        stored, _ = loops.stored_names(st.body)
        maps = {}
        filled = {x.value.id for y in st.body for x in ast.walk(y) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)}
        for n in filled:
            if isinstance(env.vars.get(n), dict) and not env.vars[n]:
                env.vars[n] = it.new(NodeMap(lambda q: FALSE, None))

        def find(e):
            while e is not None:
                for v in e.vars.values():
                    if isinstance(v, NodeMap):
                        maps[id(v)] = v
                e = e.parent
        find(env)
        p = N.new('l')
        own = self.pred

        def body():
            for m in maps.values():
                m.rec = (p, {}, [])
            try:
                e = ip.Env(env.module, dict(env.vars), env.parent, env.node)
                it.assign(st.target, wrap(p), e)
                try:
                    it.exec_block(st.body, e)
                except ip.Continue:
                    pass
                except ip.Break:
                    raise Unsupported('break')
                except ip.Return:
                    raise Unsupported('return')
                except Cut:
                    return 'cut'
                return {k: (m.rec[1].get('v'), list(m.rec[2])) for k, m in maps.items()}
            finally:
                for m in maps.values():
                    m.rec = None
        outs = it.sub_explore(body, [N.member(p), own(p)])
        outs = [(c, v) for c, v in outs if v[1] != 'cut']
        bad = [(and_(*c), v[1]) for c, v in outs if v[0] == 'raise']
        if bad:
            if it.branch(any_(N, lambda q: and_(own(q), subst(or_(*[b[0] for b in bad]), {p: q})))):
                raise ip.PyExc(bad[0][1].cls, ('in a loop',))
        good = [(and_(*c), v[1]) for c, v in outs if v[0] == 'return']
        if not good:
            raise Unsupported('no end of a round')
        it.path.assume(all_(N, lambda q: implies(own(q), subst(or_(*[c for c, _ in good]), {p: q}))))
        for k, m in maps.items():
            if any(g[k][0] is not None for _, g in good):
                w = or_(*[c for c, g in good if g[k][0] is not None])
                for _, g in good:
                    for key, conds in g[k][1]:
                        if lib_prove(it, not_(and_(N.member(key), own(key), subst(w, {p: key}))), conds):
                            raise Unsupported('an entry read that another round may change')
        for k, m in maps.items():
            if any(g[k][0] is not None for _, g in good):
                old, had = m.val, m.dom
                w = or_(*[c for c, g in good if g[k][0] is not None])
                m.dom = lambda q, had=had, w=w: or_(and_(own(q), subst(w, {p: q})), had(q))
                if old is None:
                    some = [g[k][0] for c, g in good if g[k][0] is not None]
                    old = lambda q, some=some: some[0].sub({p: q})
                m.val = (lambda q, old=old, k=k: merge(it.search, [
                    (and_(own(q), subst(c, {p: q})), old(q) if g[k][0] is None else g[k][0].sub({p: q})) for c, g in good] + [(TRUE, old(q))]))
        for n in list(stored) + [x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)]:
            env.vars[n] = Left()

    def fill(self, it, st, env, wrap):
        """loops over nodes that write the cell of a matrix they are at"""
        p = N.new('l')
        own, outer = self.pred, it.in_sub

        def body():
            keep, it.search.writes = getattr(it.search, 'writes', None), []
            try:
                e = ip.Env(env.module, dict(env.vars), env.parent, env.node)
                it.assign(st.target, wrap(p), e)
                try:
                    it.exec_block(st.body, e)
                except ip.Continue:
                    pass
                except (ip.Break, ip.Return):
                    raise Unsupported('break')
                return list(it.search.writes)
            finally:
                it.search.writes = keep
        outs = it.sub_explore(body, [N.member(p), own(p)])
        bad = [(and_(*c), v[1]) for c, v in outs if v[0] == 'raise']
        if bad:
            if it.branch(any_(N, lambda q: and_(own(q), subst(or_(*[b[0] for b in bad]), {p: q})))):
                raise ip.PyExc(bad[0][1].cls, ('in a loop',))
        good = [(and_(*c), v[1]) for c, v in outs if v[0] == 'return']
        finish_cells(it, good, [p], and_(N.member(p), own(p)), outer)
        stored, _ = loops.stored_names(st.body)
        for n in list(stored) + [x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)]:
            env.vars[n] = Left()


def finish_cells(it, good, bound, member, outer):
    """the cells written by the rounds of a loop"""
    if any(len(g) > 1 for _, g in good):
        raise Unsupported('cells')
    ws = [(m, a, b, x, and_(member, c, c2), bound + more) for c, g in good for m, a, b, x, c2, more in g]
    if outer:
        it.search.writes += ws[:1]
        if len(ws) > 1:
            m, a, b, x, c, more = ws[0]
            if any(w[:3] != (m, a, b) or w[5] != more for w in ws):
                raise Unsupported('cells')
            for w in ws[1:]:
                x, c = ite(w[4], w[3], x), or_(c, w[4])
            it.search.writes[-1] = (m, a, b, x, c, more)
        return
    for m, a, b, x, c, more in ws:
        if {a, b} != set(more) or len(more) != 2 or m.val is not None:
            raise Unsupported('cells')
        kn, nu = m.known, m.num
        cond = lambda u, v, c=c, a=a, b=b: subst(c, {a: u, b: v})
        m.known = lambda u, v, cond=cond, kn=kn: or_(cond(u, v), kn(u, v))
        m.num = lambda u, v, cond=cond, nu=nu, x=x, a=a, b=b: ite(cond(u, v), subst(x, {a: u, b: v}), nu(u, v))


def lib_prove(it, goal, conds):
    return tm.prove(goal, conds)[0] != 'proved'


class Left:
    """a variable as a loop leaves it"""


class Sorted:
    def __init__(self, s, key, reverse):
        self.s, self.key, self.reverse = s, key, reverse

    def sym_getitem(self, it, k):
        if k == 0:
            return self.s.extreme(it, self.key, self.reverse)
        if k == -1:
            return self.s.extreme(it, self.key, not self.reverse)
        raise Unsupported('place in the queue')

    def sym_len(self, it):
        return self.s.sym_len(it)

    def sym_truth(self, it):
        return self.s.sym_truth(it)

    def sym_getattr(self, it, name):
        if name == 'pop':
            return Native(lambda it_, k=-1: self.sym_getitem(it_, k), 'list.pop')
        raise Unsupported('list.' + name)


class Attributes:
    """of the edges"""

    def __init__(self, attr, edge=None):
        self.attr, self.edge = attr, edge

    def sym_getitem(self, it, k):
        if self.edge is None:
            if not (isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, T) and x.sort == 'I' for x in k)):
                raise Unsupported('edge')
            if not it.branch(EDGE(*k)):
                it.raise_(KeyError, 'edge')
            return Attributes(self.attr, k)
        if k != self.attr:
            it.raise_(KeyError, 'attribute')
        return WEIGHT(*self.edge)


class Adjacent:
    def __init__(self, f):
        self.f = f

    def sym_getitem(self, it, k):
        if not it.branch(G(k)):
            it.raise_(KeyError, 'node')
        return NodeSet(lambda q: self.f(q, k))


class Edges:
    def sym_contains(self, it, k):
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Unsupported('edge')
        return it.unbool(EDGE(*k))

    def sym_for(self, it, st, env):
        if it.in_sub or not isinstance(it.search, Flow) or it.search.stage or st.orelse:
            raise Unsupported('loop over the edges')
        a, b = N.new('ea'), N.new('eb')
        member = and_(N.member(a), N.member(b), EDGE(a, b))

        def body():
            it.search.writes = []
            e = ip.Env(env.module, dict(env.vars), env.parent, env.node)
            it.assign(st.target, (a, b), e)
            try:
                it.exec_block(st.body, e)
            except ip.Continue:
                pass
            except (ip.Break, ip.Return):
                raise Unsupported('break')
            return list(it.search.writes)
        outs = it.sub_explore(body, [member])
        bad = [(and_(*c), v[1]) for c, v in outs if v[0] == 'raise']
        if bad:
            some = or_(*[x[0] for x in bad])
            if it.branch(any_(N, lambda u: any_(N, lambda v: and_(EDGE(u, v), subst(some, {a: u, b: v}))))):
                raise ip.PyExc(bad[0][1].cls, ('in a loop',))
        finish_cells(it, [(and_(*c), v[1]) for c, v in outs if v[0] == 'return'], [a, b], member, False)
        stored, _ = loops.stored_names(st.body)
        for n in list(stored) + [x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)]:
            env.vars[n] = Left()


class Search:
    def __init__(self, s):
        self.s = s
        self.count = 0

    def length(self, u, v):
        w = WEIGHT(u, v)
        return app('length_of', (w,)) if self.functions else w

    def rank(self, q):
        return app('round', (q,))

    # ---- invariants: dist (q -> Ext), succ (q -> Opt), queue (q -> B), round (q -> R), now
    def invariant(self, dist, succ, queue, rank, now):
        L = lambda u, v: Ext(self.length(u, v))
        wide = self.wide
        A = lambda f: all_(N, lambda q: implies(G(q), f(q)))
        better = (lambda a, b: b.le(a)) if wide else (lambda a, b: a.le(b))
        through = lambda u, v: (lambda a, b: Ext.ite(a.lt(b), a, b))(L(u, v), dist(v)) if wide else L(u, v).plus(dist(v))
        none = (lambda x: and_(not_(x.inf), eq(x.v, num(0)))) if wide else (lambda x: x.inf)
        t = Ext(num(0), TRUE) if wide else Ext(num(0))
        out = [
            ('the target', A(lambda q: implies(eq(q, TARGET), and_(dist(q).eq(t), succ(q).none)))),
            ('numbers', A(lambda q: and_(not_(dist(q).nan), implies(not_(dist(q).inf), not_(lt(dist(q).v, num(0)))), *([implies(not_(eq(q, TARGET)), not_(dist(q).inf))] if wide else [])))),
            ('only nodes wait', all_(N, lambda q: implies(queue(q), G(q)))),
            ('the best first', A(lambda q: implies(not_(queue(q)), A(lambda r: implies(queue(r), better(dist(q), dist(r))))))),
            ('no edge improves', A(lambda p: A(lambda q: implies(and_(EDGE(p, q), not_(queue(q))), better(dist(p), through(p, q)))))),
            ('unreached', A(lambda q: implies(not_(eq(q, TARGET)), eq(succ(q).none, none(dist(q)))))),
            ('next node', A(lambda q: implies(and_(not_(eq(q, TARGET)), not_(none(dist(q)))), and_(
                G(succ(q).node), N.member(succ(q).node), EDGE(q, succ(q).node), not_(queue(succ(q).node)), not_(none(dist(succ(q).node))), dist(q).eq(through(q, succ(q).node)),
                implies(not_(queue(q)), lt(rank(succ(q).node), rank(q))))))),
            ('rounds', A(lambda q: implies(not_(queue(q)), lt(rank(q), now)))),
        ]
        return out

    def while_contract(self, it, st, env):
        if st.orelse:
            raise Unsupported('else of a loop')
        return self.path_loop(it, st, env) if it.in_sub else self.main_loop(it, st, env)

    def seen(self, env):
        out = []
        while env is not None:
            out += list(env.vars.items())
            env = env.parent
        return out

    def oblige(self, it, kind, goal):
        self.obligations.append((kind, goal, list(it.path.conds)))

    def main_loop(self, it, st, env):
        if self.done:
            raise Unsupported('another loop')
        self.done = True
        stored, _ = loops.stored_names(st.body)
        maps = [v for n, v in env.vars.items() if isinstance(v, NodeMap)]
        q = N.new('k')
        dist = [m for m in maps if isinstance(m.val(q), Ext)]
        succ = [m for m in maps if isinstance(m.val(q), Opt)]
        sets = [(n, v) for n, v in env.vars.items() if isinstance(v, NodeSet)]
        if len(sets) > 1:
            changed = {x.func.value.id for y in st.body for x in ast.walk(y) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)}
            sets = [(n, v) for n, v in sets if n in changed or n in stored]
        if len(dist) != 1 or len(succ) != 1 or len(sets) != 1 or len(maps) != 2:
            raise Unsupported('what the rounds change')
        d, sc, (setname, u) = dist[0], succ[0], sets[0]
        for n, v in env.vars.items():
            if n in stored and n != setname:
                if not isinstance(v, (NodeMap, Left)):
                    raise Unsupported('what the rounds change')
        rank0 = lambda q: num(0)
        S = lambda q: Opt.of(sc.val(q)) if sc.val(q).node is not None else Opt(TRUE, TARGET)
        for kind, goal in self.invariant(d.val, S, u.pred, rank0, num(0)):
            self.oblige(it, 'at the start: ' + kind, goal)
        self.oblige(it, 'at the start: every node', all_(N, lambda q: and_(*[implies(G(q), f(q)) for f in (d.dom, sc.dom)])))
        self.oblige(it, 'at the start: every node waits', all_(N, lambda q: implies(G(q), u.pred(q))))
        for m in (d, sc):
            self.oblige(it, 'at the start: only nodes', all_(N, lambda q: implies(m.dom(q), G(q))))
        # an arbitrary round
        fd = lambda q: Ext(app('dist', (q,)), app('endless', (q,), 'B'))
        fs = lambda q: Opt(app('no_next', (q,), 'B'), app('next', (q,), 'I'))
        fq = lambda q: app('waits', (q,), 'B')
        now = const('now')
        self.rounds = (fd, fs, fq)
        d.val, sc.val, u.pred = fd, fs, fq
        d.dom = sc.dom = G
        for n in stored:
            if n != setname and not isinstance(env.vars.get(n), NodeMap):
                env.vars[n] = Left()
        for kind, f in self.invariant(fd, fs, fq, self.rank, now):
            it.path.assume(f)
        if not it.truth(it.eval(st.test, env)):
            return
        try:
            it.exec_block(st.body, env)
        except ip.Continue:
            pass
        except ip.Break:
            return
        u = env.vars.get(setname)
        if not isinstance(u, NodeSet) or [m for m in env.vars.values() if isinstance(m, NodeMap)] != maps:
            raise Unsupported('replaced')
        left = lambda q: and_(fq(q), not_(u.pred(q)))
        rank1 = lambda q: ite(left(q), now, self.rank(q))
        for kind, goal in self.invariant(d.val, sc.val, u.pred, rank1, add(now, num(1))):
            self.oblige(it, 'after a round: ' + kind, goal)
        self.oblige(it, 'after a round: fewer wait', and_(all_(N, lambda q: implies(u.pred(q), fq(q))), any_(N, left)))
        raise Cut()

    def path_inv(self, w, p, d, sc):
        none = (lambda x: and_(not_(x.inf), eq(x.v, num(0)))) if self.wide else (lambda x: x.inf)
        l, ln = w.last.none, w.last.node
        reached = not_(none(d(p)))
        if self.wide:
            exact = (lambda a, b: Ext.ite(a.lt(b), a, b))(w.width, d(ln)).eq(d(p))
        else:
            exact = and_(not_(w.total.inf), w.total.plus(d(ln)).eq(d(p)))
        return [('starts at the node', eq(w.first, p)),
                ('the steps are edges', implies(not_(l), and_(w.steps, w.down, N.member(ln), G(ln)))),
                ('what is left', implies(not_(l), exact)),
                ('reached', implies(not_(l), or_(eq(ln, p), and_(or_(reached, eq(p, TARGET)), not_(none(d(ln))))))),
                ('reached so far', implies(or_(reached, eq(p, TARGET)), not_(l))),
                ('the end only at the end', eq(w.hit, and_(not_(l), eq(ln, TARGET)))),
                ('alone', and_(implies(w.only, and_(not_(l), eq(ln, p))), implies(and_(not_(l), eq(ln, TARGET), eq(p, TARGET)), w.only),
                               implies(eq(p, TARGET), w.only)))]

    def path_loop(self, it, st, env):
        """the loop that lists the nodes of the path from p"""
        if not self.done or self.in_path:
            raise Unsupported('loop')
        stored, _ = loops.stored_names(st.body)
        rec = [(m, m.rec) for _, m in self.seen(env) if isinstance(m, NodeMap) and m.rec]
        if not rec:
            raise Unsupported('loop')
        p = rec[0][1][0]
        walks = []
        for n, v in list(env.vars.items()):
            if isinstance(v, list) and v and all(isinstance(y, T) and y.sort == 'I' for y in v):
                env.vars[n] = v = uniform(self, v)
            if isinstance(v, Walk):
                walks.append(v)
        if not walks:
            for m, r in rec:
                if m.val and isinstance(m.val(p), Walk):
                    walks.append(m.sym_getitem(it, p))
        if len(walks) != 1:
            raise Unsupported('paths')
        w = walks[0]
        vals = self.maps_now(env)
        d, sc = vals
        # a variable that is the last node of the path
        cur = [n for n in stored if n in env.vars and not isinstance(env.vars[n], Left)]
        at = lambda n: Opt.of(env.vars[n])
        for n in cur:
            if at(n) is None:
                raise Unsupported('what the rounds change')
        same = lambda o: or_(and_(o.none, w.last.none), and_(not_(o.none), not_(w.last.none), eq(o.node, w.last.node) if o.node is not None and w.last.node is not None else TRUE))
        for kind, goal in self.path_inv(w, p, d.val, sc.val):
            self.oblige(it, 'path at the start: ' + kind, goal)
        for n in cur:
            self.oblige(it, 'path at the start: the last node', same(at(n)))
        k = str(self.walks)
        b, r, nd = (lambda x: app(x + k, (p,), 'B')), (lambda x: app(x + k, (p,))), (lambda x: app(x + k, (p,), 'I'))
        w.first, w.last = p, Opt(b('ended'), nd('last'))
        w.steps, w.down, w.hit, w.only = b('steps'), b('down'), b('hit'), b('only')
        w.total, w.width = Ext(r('total')), Ext(r('width'), b('no_width'))
        for kind, f in self.path_inv(w, p, d.val, sc.val):
            it.path.assume(f)
        for n in cur:
            env.vars[n] = w.last.get(it)
        before = w.last
        if not it.truth(it.eval(st.test, env)):
            return
        self.in_path = True
        try:
            it.exec_block(st.body, env)
        except ip.Continue:
            pass
        except ip.Break:
            return
        finally:
            self.in_path = False
        end = w.last
        wl = w.clone()
        if wl.last.node is None:
            wl.last = Opt(TRUE, p)
        for kind, goal in self.path_inv(wl, p, d.val, sc.val):
            self.oblige(it, 'path after a step: ' + kind, goal)
        for n in cur:
            w.last = wl.last
            self.oblige(it, 'path after a step: the last node', same(at(n)))
        self.oblige(it, 'path after a step: closer to the end', implies(not_(wl.last.none), lt(self.rank(wl.last.node), self.rank(before.node))))
        raise Cut()

    def maps_now(self, env):
        ms = [m for _, m in self.seen(env) if isinstance(m, NodeMap)]
        q = N.new('k')
        ms = [m for m in ms if m.val]
        d = [m for m in ms if isinstance(m.val(q), Ext) and 'dist' in str(m.val(q).v)]
        s = [m for m in ms if isinstance(m.val(q), Opt)]
        if len({id(x) for x in d}) != 1 or len({id(x) for x in s}) != 1:
            raise Unsupported('lengths')
        return d[0], s[0]

    # ---- the functions
    def object(self, it, attr, distributed):
        o = it.new(ip.SObj(it.cls(MOD, 'Graph')))
        self.nodes = NodeSet(G)
        o.attrs.update(nodes=self.nodes, edges=Edges(), weights_distributed=distributed, edge_attributes=Attributes(attr),
                       predecessors=Adjacent(lambda q, k: EDGE(q, k)), successors=Adjacent(lambda q, k: EDGE(k, q)))
        return o

    def hyps(self):
        return [N.member(TARGET), all_(N, lambda u: all_(N, lambda v: implies(EDGE(u, v), and_(G(u), G(v), not_(lt(self.length(u, v), num(0)))))))]

    def run(self, wide):
        s = self.s
        fn = 'find_max_bottleneck_paths' if wide else 'find_shortest_paths'
        self.wide = wide
        for functions in (False, True):
            for attr in ('weight', 'foo'):
                name = 'Graph.{}[{}{}]'.format(fn, 'with functions' if functions else 'plain', '' if attr == 'weight' else ', other attribute')
                if s.only and s.only not in name:
                    continue
                self.functions = functions
                it = s.interp()
                it.target = 'Graph.' + fn
                it.search = self
                it.while_contract = lambda it_, st, env: self.while_contract(it_, st, env)
                self.obligations, self.walks = [], 0

                def go():
                    self.done, self.in_path = False, False
                    o = self.object(it, attr, TRUE)
                    kw = {} if attr == 'weight' else dict(edge_attribute=attr)
                    if functions:
                        inv = lambda it_, x: (lambda e: Ext(ite(e.inf, const('back_of_endless'), app('back', (e.v,))), FALSE, e.nan))(Ext.need(force(it_, x)))
                        kw.update(weighting_func=Native(lambda it_, x: app('length_of', (lift(force(it_, x)),)), 'length'), inverse=Native(inv, 'back'))
                    try:
                        r = it.call(it.getattr(o, fn), [TARGET], kw)
                    except Cut:
                        return None
                    return r, o, self.nodes
                outs = s.explore(it, name, go, self.hyps())
                if outs is None:
                    continue
                s.under_contract(it.target)
                seen = set()
                for kind, goal, c in self.obligations:
                    if (kind, goal, tuple(c)) in seen:
                        continue
                    seen.add((kind, goal, tuple(c)))
                    s.check('{}#{}'.format(name, kind), goal, c, FILE)
                ended = 0
                for n, (c, v) in enumerate(outs):
                    nm = '{}[{}]'.format(name, n)
                    if v[0] == 'raise':
                        s.check(nm + '#no exception', FALSE, c, FILE)
                    elif v[1] is not None:
                        ended += 1
                        self.result(nm, c, *v[1])
                if not ended:
                    s.unsup(name, 'no end')

    def back(self, e):
        return Ext(ite(e.inf, const('back_of_endless'), app('back', (e.v,))), FALSE, e.nan) if self.functions else e

    def result(self, nm, c, r, o, nodes):
        s = self.s
        if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, NodeMap) for x in r)):
            return s.unsup(nm, 'result')
        paths, vals = r
        q = N.new('r')
        for what, m in (('paths', paths), ('values', vals)):
            s.check('{}#{} of the nodes'.format(nm, what), eq(m.dom(q), G(q)), list(c) + [N.member(q)], FILE)
        s.check(nm + '#nodes unchanged', and_(lift(o.attrs['nodes'] is nodes), eq(nodes.pred(q), G(q))), list(c) + [N.member(q)], FILE)
        fd = self.rounds[0]
        d, w, e = fd(q), paths.val(q), vals.val(q)
        if not isinstance(w, Walk) or not isinstance(e, Ext):
            return s.unsup(nm, 'result')
        h = list(c) + [N.member(q), G(q)]
        none = and_(not_(d.inf), eq(d.v, num(0))) if self.wide else d.inf
        if self.wide:
            want = self.back(d)
        else:
            b = self.back(d)
            want = Ext.ite(and_(not_(d.inf), eq(d.v, num(0))), Ext(num(0), FALSE, TRUE), b)
        s.check(nm + '#value', e.eq(want), h, FILE)
        other = not_(eq(q, TARGET))
        s.check(nm + '#path starts at the node', eq(w.first, q), h, FILE)
        at = implies(not_(w.last.none), eq(w.last.node, TARGET))
        s.check(nm + '#path ends at the target', and_(not_(w.last.none), at, w.steps, w.down), h + [or_(not_(none), not_(other))], FILE)
        s.check(nm + '#path of the target', w.only, h + [not_(other)], FILE)
        s.check(nm + '#path attains the value', (w.width if self.wide else w.total).eq(d), h + [other, not_(none)], FILE)
        s.check(nm + '#not reached', and_(w.last.none, not_(w.hit)), h + [other, none], FILE)
        # lemma: no path is better (a path from u that goes on from v with the value rest)
        u, v = N.new('u'), N.new('v')
        rest, L = Ext(const('rest')), Ext(self.length(u, v))
        du, dv = fd(u), fd(v)
        h = list(c) + [N.member(u), N.member(v), G(u), G(v), EDGE(u, v), not_(lt(rest.v, num(0)))]
        if self.wide:
            rest.inf = const('rest_wide', 'B')
            s.check(nm + '#no wider path: one more edge', Ext.ite(L.lt(rest), L, rest).le(du), h + [rest.le(dv)], FILE)
            s.check(nm + '#no wider path: the target', Ext(num(0), TRUE).le(fd(TARGET)), list(c) + [G(TARGET)], FILE)
        else:
            s.check(nm + '#no shorter path: one more edge', and_(not_(du.inf), du.le(L.plus(rest))), h + [dv.le(rest)], FILE)
            s.check(nm + '#no shorter path: the target', fd(TARGET).le(Ext(num(0))), list(c) + [G(TARGET)], FILE)

    def refused(self):
        s = self.s
        for fn in ('find_max_bottleneck_paths', 'find_shortest_paths'):
            for what in ('no weights', 'no inverse', 'no function', 'negative'):
                name = 'Graph.{}[{}]'.format(fn, what)
                if s.only and s.only not in name or what == 'negative':
                    continue
                self.wide, self.functions = 'max' in fn, False
                it = s.interp()
                it.target = 'Graph.' + fn
                it.search = self
                it.while_contract = lambda it_, st, env: self.while_contract(it_, st, env)
                self.obligations, self.walks = [], 0

                def go():
                    self.done, self.in_path = False, False
                    o = self.object(it, 'weight', FALSE if what == 'no weights' else TRUE)
                    f = Native(lambda it_, x: x, 'f')
                    kw = dict(weighting_func=f) if what == 'no inverse' else dict(inverse=f) if what == 'no function' else {}
                    try:
                        it.call(it.getattr(o, fn), [TARGET], kw)
                    except Cut:
                        pass
                outs = s.explore(it, name, go, self.hyps())
                if outs is None:
                    continue
                for n, (c, v) in enumerate(outs):
                    s.check('{}[{}]#refused'.format(name, n), TRUE if v[0] == 'raise' and excname(v[1]) == 'AssertionError' else FALSE, c, FILE)


class Flow(Search):
    """get_max_flow: the residual capacities, and the flow found so far, against an arbitrary cut (a set of nodes with the source, without the target)

    The total over the cut is ghost state of the matrix: a sum over the pairs from inside to outside, changed by every write at one of them."""

    def __init__(self, s):
        super().__init__(s)
        self.functions = False

    def start(self):
        self.done, self.in_path, self.mats, self.bfs, self.stage = False, False, [], None, 0

    # ---- loops
    def while_contract(self, it, st, env):
        if st.orelse or it.in_sub:
            raise Unsupported('loop')
        if self.stage == 0:
            return self.main(it, st, env)
        if self.stage == 1:
            return self.search(it, st, env)
        if self.stage == 3:
            return self.along(it, st, env)
        raise Unsupported('loop')

    def mat(self, env):
        ms = [v for _, v in self.seen(env) if isinstance(v, Matrix)]
        if len({id(m) for m in ms}) != 1:
            raise Unsupported('matrices')
        m = ms[0]
        if m.val is None and m.fill.nan is FALSE and m.fill.inf is FALSE:
            kn, nu = m.known, m.num
            m.val = lambda u, v: ite(kn(u, v), nu(u, v), m.fill.v)
        return m

    def cap_ok(self, m):
        return all_(N, lambda u: all_(N, lambda v: implies(and_(G(u), G(v)), not_(lt(m.val(u, v), num(0))))))

    def main(self, it, st, env):
        m = self.mat(env)
        stored, _ = loops.stored_names(st.body)
        nums = [n for n in stored if n in env.vars and Ext.of(env.vars[n]) is not None]
        if len(nums) != 1 or any(n in env.vars and n not in nums and not isinstance(env.vars[n], Left) for n in stored):
            raise Unsupported('what the rounds change')
        f = nums[0]
        F0 = Ext.of(env.vars[f])
        self.oblige(it, 'at the start: capacities of the edges', all_(N, lambda u: all_(N, lambda v: implies(and_(G(u), G(v)), eq(m.val(u, v), ite(EDGE(u, v), self.length(u, v), num(0)))))))
        self.oblige(it, 'at the start: nothing flows', F0.eq(Ext(num(0))))
        flow = const('flow')
        m.val = lambda u, v: app('left', (u, v))
        m.cut = const('left_of_cut')
        inv = lambda c, x: [('no negative capacity left', self.cap_ok(c)), ('the flow and what is left of any cut', eq(add(x.v, c.cut), CUT)), ('a number', and_(not_(x.inf), not_(x.nan), not_(lt(x.v, num(0)))))]
        env.vars[f] = Ext(flow)
        for _, h in inv(m, env.vars[f]):
            it.path.assume(h)
        if not it.truth(it.eval(st.test, env)):
            raise Unsupported('end of the rounds')
        self.stage, self.f0, self.cap0 = 1, flow, m.val
        self.given = set(env.vars) - set(stored)
        try:
            it.exec_block(st.body, env)
        except ip.Continue:
            pass
        except ip.Break:
            return
        F1 = Ext.of(env.vars[f])
        if F1 is None or env.lookup([n for n, v in env.vars.items() if v is m][0]) is not m:
            raise Unsupported('flow')
        for kind, g in inv(m, F1):
            self.oblige(it, 'after a round: ' + kind, g)
        raise Cut()

    # the breadth-first search
    def bfs_inv(self, st, u=None, gone=None):
        """st: visited, pred (dom, val), waiting, found"""
        vis, dom, pred, wait, found, order, now = st
        A = lambda f: all_(N, lambda q: implies(G(q), f(q)))
        c = self.cap0
        open_ = lambda q: or_(wait(q), eq(q, u)) if u is not None else wait(q)
        out = [('visited nodes', all_(N, lambda q: and_(implies(vis(q), G(q)), implies(wait(q), vis(q)), implies(dom(q), vis(q))))),
               ('the source', and_(vis(SOURCE), not_(dom(SOURCE)))),
               ('reached by what is left', A(lambda q: implies(and_(vis(q), not_(eq(q, SOURCE))), and_(
                   dom(q), N.member(pred(q)), vis(pred(q)), lt(num(0), c(pred(q), q)), lt(order(pred(q)), order(q)))))),
               ('order', A(lambda q: implies(vis(q), lt(order(q), now)))),
               ('found', eq(found, vis(TARGET))),
               ('nothing missed', or_(found, A(lambda q: implies(and_(vis(q), not_(open_(q))), A(lambda r: implies(lt(num(0), c(q, r)), vis(r)))))))]
        if u is not None:
            out.append(('the node is visited', and_(N.member(u), G(u), vis(u))))
            out.append(('nothing missed from the node', or_(found, A(lambda r: implies(and_(gone(r), lt(num(0), c(u, r))), vis(r))))))
        return out

    def bfs_state(self, env):
        vis = [(n, v) for n, v in env.vars.items() if type(v) is NodeSet and n not in self.given]
        wait = [(n, v) for n, v in env.vars.items() if isinstance(v, Queue)]
        pred = [(n, v) for n, v in env.vars.items() if isinstance(v, NodeMap)]
        flag = [(n, v) for n, v in env.vars.items() if isinstance(v, bool) or isinstance(v, T) and v.sort == 'B']
        if not all(len(x) == 1 for x in (vis, wait, pred, flag)):
            raise Unsupported('what the search changes {}'.format({n: type(v).__name__ for n, v in env.vars.items()}))
        return vis[0], pred[0], wait[0], flag[0]

    def havoc(self, env, state, tag):
        (_, vis), (_, pred), (_, wait), (fn, _) = state
        vis.pred, wait.pred = (lambda q: app('visited' + tag, (q,), 'B')), (lambda q: app('queued' + tag, (q,), 'B'))
        pred.dom, pred.val = (lambda q: app('has_before' + tag, (q,), 'B')), (lambda q: Opt(FALSE, app('before' + tag, (q,), 'I')))
        env.vars[fn] = const('found' + tag, 'B')

    def now_state(self, state, env, order, now):
        (vn, _), (pn, _), (wn, _), (fn, _) = state
        vis, pred, wait, found = (env.vars[n] for n in (vn, pn, wn, fn))
        P = (lambda q: pred.val(q).node if pred.val(q).node is not None else SOURCE) if pred.val else (lambda q: SOURCE)
        return vis.pred, pred.dom, P, wait.pred, lift(found), order, now

    def search(self, it, st, env):
        for n, v in list(env.vars.items()):
            if isinstance(v, dict) and not v:
                env.vars[n] = NodeMap(lambda q: FALSE, None)
            els = list(v) if isinstance(v, (set, frozenset, list)) and v else lib.elements(it, v.arr) if isinstance(v, lib.SetOf) else None
            if els and all(isinstance(x, T) and x.sort == 'I' for x in els):
                f = lambda q, els=els: or_(*[eq(q, x) for x in els])
                env.vars[n] = Queue(f) if isinstance(v, list) else NodeSet(f)
        state = self.bfs_state(env)
        for kind, g in self.bfs_inv(self.now_state(state, env, lambda q: num(0), num(1))):
            self.oblige(it, 'search at the start: ' + kind, g)
        self.havoc(env, state, '')
        order, now = (lambda q: app('order', (q,))), const('next_order')
        self.order = order
        stored, _ = loops.stored_names(st.body)
        names = {n for n, _ in state}
        for n in stored:
            if n not in names:
                env.vars[n] = Left()
        for _, h in self.bfs_inv(self.now_state(state, env, order, now)):
            it.path.assume(h)
        self.vis0 = state[0][1].pred
        if not it.truth(it.eval(st.test, env)):
            self.stage, self.bfs = 3, (state[0][1], state[1][1])
            return
        self.stage, self.head = 2, (state, order, now)
        try:
            it.exec_block(st.body, env)
        except ip.Continue:
            pass
        except ip.Break:
            raise Unsupported('break')
        if self.stage != 4:
            raise Unsupported('no loop over the nodes')
        for kind, g in self.bfs_inv(self.now_state(state, env, *self.tail)):
            self.oblige(it, 'search after a round: ' + kind, g)
        # fewer wait or more are visited: a node left the queue for good
        raise Cut()

    def for_nodes(self, it, st, env):
        """the loop over the neighbours, with a break: an arbitrary round"""
        if self.stage != 2 or st.orelse:
            raise Unsupported('loop over nodes')
        state, order, now = self.head
        us = [n for n, v in env.vars.items() if isinstance(v, T) and v is self.taken]
        if not us or self.taken is None:
            raise Unsupported('node of the round')
        u = self.taken
        none = lambda q: FALSE
        for kind, g in self.bfs_inv(self.now_state(state, env, order, now), u, none):
            self.oblige(it, 'neighbours at the start: ' + kind, g)
        self.havoc(env, state, '_b')
        order, now = (lambda q: app('order_b', (q,))), const('next_order_b')
        gone = lambda q: app('gone', (q,), 'B')
        S0 = self.now_state(state, env, order, now)
        for _, h in self.bfs_inv(S0, u, gone):
            it.path.assume(h)
        it.path.assume(N.member(u))
        stored, _ = loops.stored_names(st.body)
        names = {n for n, _ in state}
        it.search.count += 1
        if not it.branch(const('another_round{}'.format(it.search.count), 'B')):
            it.path.assume(all_(N, lambda q: implies(G(q), gone(q))))
            for n in list(stored) + [st.target.id]:
                if n not in names:
                    env.vars[n] = Left()
            self.stage, self.tail = 4, (order, now)
            return
        v = mk('const', ('neighbour{}'.format(it.search.count),), 'I')
        for h in (N.member(v), G(v), not_(gone(v))):
            it.path.assume(h)
        for n in stored:
            if n not in names:
                env.vars[n] = Left()
        it.assign(st.target, v, env)
        broke = False
        try:
            it.exec_block(st.body, env)
        except ip.Continue:
            pass
        except ip.Break:
            broke = True
        (vn, _), _, _, _ = state
        new = lambda q: and_(env.vars[vn].pred(q), not_(S0[0](q)))
        order1, now1 = (lambda q: ite(new(q), now, order(q))), add(now, num(1))
        if broke:
            self.stage, self.tail = 4, (order1, now1)
            for n in list(stored) + [st.target.id]:
                if n not in names:
                    env.vars[n] = Left()
            return
        g1 = lambda q: or_(eq(q, v), gone(q))
        for kind, g in self.bfs_inv(self.now_state(state, env, order1, now1), u, g1):
            self.oblige(it, 'neighbours after one: ' + kind, g)
        raise Cut()

    # the path that was found, from the target back to the source
    def along(self, it, st, env):
        m = self.mat(env)
        vis, pred = self.bfs
        P = lambda q: pred.val(q).node
        stored, _ = loops.stored_names(st.body)
        subs = any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for y in st.body for x in ast.walk(y))
        have = {n: env.vars[n] for n in stored if n in env.vars and not isinstance(env.vars[n], Left)}
        curs = [n for n, v in have.items() if isinstance(v, T) and v.sort == 'I']
        nums = [n for n, v in have.items() if n not in curs and Ext.of(v) is not None]
        if subs:
            return self.augment(it, st, env, m, P, curs, nums, stored)
        if len(nums) != 1 or len(curs) + len(nums) != len(have) or not curs:
            raise Unsupported('what the rounds change')
        tested = [n for n in curs if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(st.test))]
        if len(tested) != 1 or len(curs) != 1:
            raise Unsupported('the node of the round')
        cur, fl = curs[0], nums[0]

        def inv(x, w, on):
            return [('on the path', and_(N.member(x), G(x), vis.pred(x), or_(eq(x, TARGET), on(TARGET)))),
                    ('nodes passed', all_(N, lambda q: implies(on(q), and_(G(q), vis.pred(q), not_(eq(q, SOURCE)), lt(self.order(x), self.order(q)), or_(eq(P(q), x), on(P(q))))))),
                    ('the narrowest so far', all_(N, lambda q: implies(on(q), w.le(Ext(m.val(P(q), q)))))),
                    ('positive', and_(not_(w.nan), or_(w.inf, lt(num(0), w.v)), implies(on(TARGET), not_(w.inf))))]
        for kind, g in inv(env.vars[cur], Ext.of(env.vars[fl]), lambda q: FALSE):
            self.oblige(it, 'path at the start: ' + kind, g)
        on = lambda q: app('on_path', (q,), 'B')
        x, w = mk('const', ('at',), 'I'), Ext(const('narrowest'), const('endless_path', 'B'))
        env.vars[cur], env.vars[fl] = x, w
        for n in stored:
            if n not in have:
                env.vars[n] = Left()
        for _, h in inv(x, w, on):
            it.path.assume(h)
        if not it.truth(it.eval(st.test, env)):
            self.on, self.narrow = on, (fl, w)
            return
        try:
            it.exec_block(st.body, env)
        except ip.Continue:
            pass
        except ip.Break:
            raise Unsupported('break')
        on1 = lambda q: or_(eq(q, x), on(q))
        y = env.vars[cur]
        if not (isinstance(y, T) and y.sort == 'I') or Ext.of(env.vars[fl]) is None:
            raise Unsupported('the node of the round')
        for kind, g in inv(y, Ext.of(env.vars[fl]), on1):
            self.oblige(it, 'path after a step: ' + kind, g)
        self.oblige(it, 'path after a step: closer to the source', lt(self.order(y), self.order(x)))
        raise Cut()

    def augment(self, it, st, env, m, P, curs, nums, stored):
        if nums or len(curs) < 1 or not hasattr(self, 'on') or self.stage != 3:
            raise Unsupported('what the rounds change')
        tested = [n for n in curs if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(st.test))]
        if len(tested) != 1:
            raise Unsupported('the node of the round')
        cur, on, w = tested[0], self.on, self.narrow[1].v
        out = lambda q: not_(INSIDE(q))

        def inv(x):
            return [('on the path', and_(N.member(x), G(x), or_(eq(x, SOURCE), on(x)))),
                    ('room ahead', all_(N, lambda q: implies(and_(on(q), not_(lt(self.order(x), self.order(q)))), not_(lt(m.val(P(q), q), w))))),
                    ('no negative capacity left', self.cap_ok(m)),
                    ('what is left of any cut', eq(m.cut, add(self.cut0, neg(ite(out(x), num(0), w)))))]
        self.cut0 = m.cut
        for kind, g in inv(env.vars[cur]):
            self.oblige(it, 'flow at the start: ' + kind, g)
        m.val, m.cut = (lambda u, v: app('left_b', (u, v))), const('left_of_cut_b')
        x = mk('const', ('at_b',), 'I')
        for n in stored:
            env.vars[n] = Left()
        env.vars[cur] = x
        for _, h in inv(x):
            it.path.assume(h)
        if not it.truth(it.eval(st.test, env)):
            self.stage = 5
            return
        try:
            it.exec_block(st.body, env)
        except ip.Continue:
            pass
        except ip.Break:
            raise Unsupported('break')
        y = env.vars[cur]
        if not (isinstance(y, T) and y.sort == 'I'):
            raise Unsupported('the node of the round')
        for kind, g in inv(y):
            self.oblige(it, 'flow after a step: ' + kind, g)
        self.oblige(it, 'flow after a step: closer to the source', lt(self.order(y), self.order(x)))
        raise Cut()

    @staticmethod
    def node_sets(it):
        old = it.sym_set

        def sym_set(vs):
            if all(isinstance(x, T) and x.sort == 'I' for x in vs):
                return it.new(NodeSet(lambda q: or_(*[eq(q, x) for x in vs])))
            return old(vs)
        it.sym_set = sym_set

    def make_frame(self, it, *args, **kw):
        if args or set(kw) - {'index', 'columns', 'data', 'dtype'}:
            raise Unsupported('DataFrame')
        for k in ('index', 'columns'):
            if isinstance(kw.get(k), set):
                raise Unsupported('DataFrame of other things')
            if not isinstance(kw.get(k), NodeSet):
                raise Unsupported('DataFrame of other things')
            q = N.new('q')
            self.oblige(it, 'a row and a column per node', all_(N, lambda q: eq(kw[k].pred(q), G(q))))
        d = force(it, kw.get('data'))
        if d is not None and Ext.of(d) is None:
            raise Unsupported('DataFrame')
        return it.new(Matrix(Ext.of(d) if d is not None else Ext(num(0), FALSE, TRUE)))

    def lemmas(self):
        """about the total over a cut, a sum over pairs of nodes"""
        s = self.s
        name = 'lemma(total over a cut)'
        if s.only and s.only not in name:
            return
        # (applied to a row, then to the totals of the rows)
        g = lambda u: app('cell', (u,))
        s.check(name + '#not negative', not_(lt(sum_(N, lambda u: ite(lt(g(u), num(0)), num(0), g(u))), num(0))), [], FILE)
        s.check(name + '#nothing', eq(sum_(N, lambda u: ite(eq(g(u), num(0)), g(u), num(0))), num(0)), [], FILE)

    def all(self):
        s = self.s
        for functions in (False, True):
            name = 'Graph.get_max_flow[{}]'.format('with functions' if functions else 'plain')
            if s.only and s.only not in name:
                continue
            self.functions = functions
            it = s.interp()
            it.target = 'Graph.get_max_flow'
            it.search = self
            it.while_contract = lambda it_, st, env: self.while_contract(it_, st, env)
            it.frame_of_nodes = self.make_frame
            self.node_sets(it)
            pdm.install(it)
            self.obligations = []

            def go():
                self.start()
                self.taken = None
                self.__dict__.pop('on', None)
                o = self.object(it, 'weight', TRUE)
                kw = {}
                if functions:
                    inv = lambda it_, x: (lambda e: Ext(ite(e.inf, const('back_of_endless'), app('back', (e.v,))), FALSE, e.nan))(Ext.need(force(it_, x)))
                    kw.update(weighting_func=Native(lambda it_, x: app('length_of', (lift(force(it_, x)),)), 'length'), inverse=Native(inv, 'back'))
                try:
                    r = it.call(it.getattr(o, 'get_max_flow'), [SOURCE, TARGET], kw)
                except Cut:
                    return None
                return r, self.mats[-1] if self.mats else None, self.vis0, self.f0
            outs = s.explore(it, name, go, self.hyps() + [N.member(SOURCE), G(SOURCE), not_(eq(SOURCE, TARGET)), INSIDE(SOURCE), not_(INSIDE(TARGET))])
            if outs is None:
                continue
            s.under_contract(it.target)
            seen = set()
            for kind, goal, c in self.obligations:
                if (kind, goal, tuple(c)) not in seen:
                    seen.add((kind, goal, tuple(c)))
                    s.check('{}#{}'.format(name, kind), goal, c, FILE)
            ended = 0
            for n, (c, v) in enumerate(outs):
                nm = '{}[{}]'.format(name, n)
                if v[0] == 'raise':
                    s.check(nm + '#no exception', FALSE, c, FILE)
                elif v[1] is not None:
                    ended += 1
                    r, m, vis, f0 = v[1]
                    r = Ext.of(r)
                    if r is None:
                        s.unsup(nm, 'result')
                        continue
                    s.check(nm + '#value', r.eq(self.back(Ext(f0))), c, FILE)
                    # at most the capacity of any cut: a sum of numbers that are not negative is not negative
                    s.check(nm + '#not more than any cut', not_(lt(CUT, f0)), list(c) + [not_(lt(const('left_of_cut'), num(0)))], FILE)
                    # the visited nodes are a cut of which nothing is left
                    u, w = N.new('u'), N.new('w')
                    s.check(nm + '#the visited nodes are a cut', and_(vis(SOURCE), not_(vis(TARGET))), list(c) + [G(TARGET)], FILE)
                    s.check(nm + '#nothing left of the cut', eq(app('left', (u, w)), num(0)), list(c) + [N.member(u), N.member(w), G(u), G(w), vis(u), not_(vis(w))], FILE)
            if not ended:
                s.unsup(name, 'no end')


SOURCE = mk('const', ('source',), 'I')
CUT = const('capacity_of_cut')
INSIDE = lambda q: app('inside', (q,), 'B')


class Queue(NodeSet):
    """a list of nodes, used as a queue: which nodes are in it"""

    def sym_getattr(self, it, name):
        if name == 'pop':
            def pop(it_, k=-1):
                self.change(it_)
                if not it_.branch(any_(N, self.pred)):
                    it_.raise_(IndexError, 'pop')
                it_.search.count += 1
                m = mk('const', ('taken{}'.format(it_.search.count),), 'I')
                it_.path.assume(N.member(m))
                it_.path.assume(self.pred(m))
                it_.search.taken = m
                p = self.pred
                self.pred = lambda q: and_(not_(eq(q, m)), p(q))
                return m
            return Native(pop, 'list.pop')
        if name == 'append':
            return super().sym_getattr(it, 'add')
        raise Unsupported('list.' + name)


class Matrix:
    """a frame with a row and a column per node"""

    def __init__(self, fill):
        self.fill = fill                       # Ext: not a number where nothing is written
        self.val = None
        self.known = lambda u, v: FALSE
        self.num = lambda u, v: fill.v
        self.cut = CUT
        self.rec = None

    def key(self, k):
        if not (isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, T) and x.sort == 'I' for x in k)):
            raise Unsupported('cell')
        return k

    def sym_getattr(self, it, name):
        if name in ('at', 'loc'):
            return Cells(self, name)
        if name in ('index', 'columns'):
            return NodeSet(G)
        if name == 'fillna':
            def fillna(it_, x=None, **kw):
                x = Ext.need(force(it_, x))
                r = Matrix(x)
                kn, nu = self.known, self.num
                r.val = lambda u, v: ite(kn(u, v), nu(u, v), x.v)
                r.known, r.num = (lambda u, v: TRUE), r.val
                it_.search.mats.append(r)
                return r
            return Native(fillna, name)
        if name in ('astype', 'copy'):
            return Native(lambda it_, *a: self, name)
        raise Unsupported('DataFrame.' + name)

    def get(self, it, k):
        u, v = self.key(k)
        for x in (u, v):
            if not it.branch(G(x)):
                it.raise_(KeyError, 'node')
        if it.in_sub:
            raise Unsupported('cell read in a loop')
        if self.val is None:
            raise Unsupported('cell')
        return Ext(self.val(u, v))

    def set(self, it, k, x):
        u, v = self.key(k)
        x = Ext.need(force(it, x))
        for y in (u, v):
            if not it.branch(G(y)):
                raise Unsupported('new row')
        if not it.branch(not_(or_(x.inf, x.nan))):
            raise Unsupported('not a number')
        if it.in_sub:
            it.search.writes.append((self, u, v, x.v, TRUE, []))
            return
        if self.val is None:
            raise Unsupported('cell')
        f = self.val
        # the sum over the pairs of the cut changes by what one of them does
        self.cut = add(self.cut, ite(and_(INSIDE(u), not_(INSIDE(v))), add(x.v, neg(f(u, v))), num(0)))
        self.val = lambda a, b: ite(and_(eq(a, u), eq(b, v)), x.v, f(a, b))


class Cells:
    def __init__(self, m, how):
        self.m, self.how = m, how

    def sym_getitem(self, it, k):
        if isinstance(k, T) and k.sort == 'I' and self.how == 'loc':
            if not it.branch(G(k)):
                it.raise_(KeyError, 'node')
            return Row(self.m, k)
        return self.m.get(it, k)

    def sym_setitem(self, it, k, v):
        self.m.set(it, k, v)


class Row:
    def __init__(self, m, u):
        self.m, self.u = m, u

    def sym_getattr(self, it, name):
        if name == 'index':
            return NodeSet(G)
        raise Unsupported('row')

    def sym_getitem(self, it, k):
        return self.m.get(it, (self.u, k))


def generate(s):
    s.trusted.add('a sum over pairs of nodes changes by the change of one of its terms; the maximum flow is the smallest capacity of a cut (Ford and Fulkerson)')
    s.assumptions.add('C19: lengths and capacities are exact reals or infinite; the searches end: Dijkstra\'s rounds and the paths by a variant, the rounds of get_max_flow are not shown to end')
    w = Search(s)
    w.refused()
    w.run(False)
    w.run(True)
    Flow(s).lemmas()
    Flow(s).all()
