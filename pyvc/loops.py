"""Loops and comprehensions over collections of unknown size.

The body is executed for one arbitrary element. Rules (each is the induction of a loop of this shape, done once and for all):
  map     a cell of an array that belongs to the element is assigned (no other cell is read or written)
  fold    x = x + f(element), x = x * f(element), flag = True / False under a condition
  filter  list.append(f(element)) at most once per element, list comprehensions with conditions
  exits   raise, and return of a value which does not depend on the element
The loop variable ranges over an axis, so the result holds for every number of elements."""
import ast
from values import *
import terms as tm
from terms import *
from interp import Env, Return, Break, Continue, PyExc, SObj
from maps import SymMap, NeedHavocMap
from lib import SymRange, ZipOf, EnumOf, as_arr, elements, compare, SetOf, check_write


class NeedHavoc(BaseException):
    def __init__(self, arr):
        self.arr = arr


def subst_val(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, (int, str, bool, Fraction)) or v is None:
        return v
    if isinstance(v, tuple):
        return tuple(subst_val(x, m) for x in v)
    if isinstance(v, list):
        return [subst_val(x, m) for x in v]
    if isinstance(v, dict):
        return {k: subst_val(x, m) for k, x in v.items()}
    if isinstance(v, Arr):
        f = v.frozen()
        dims = [subst_dim(d, m) for d in v.dims]
        return Arr(dims, lambda *i: subst_val(f(*i), m), kind=v.kind, dtype=v.dtype)
    if isinstance(v, SObj) and hasattr(v, 'sym_subst'):
        return v.sym_subst(m)
    if isinstance(v, SObj):
        o = SObj(v.cls, {k: subst_val(x, m) for k, x in v.attrs.items()})
        return o
    if isinstance(v, Opaque):
        return v
    if isinstance(v, Dyn):
        return Dyn(v.name, [(subst(c, m), subst_val(x, m)) for c, x in v.cases])
    if hasattr(v, 'sym_subst'):
        return v.sym_subst(m)
    raise Unsupported('element of type {}'.format(type(v).__name__))


def subst_dim(d, m):
    if isinstance(d, Sub):
        p = d.pred
        v = const('sd!', 'I')
        if subst(p(v), m) is p(v):
            return d
        return Sub(d.base, lambda i: subst(p(i), m))
    if isinstance(d, Cat):
        return Cat([subst_dim(x, m) for x in d.parts])
    return d


def mentions(v, t):
    if isinstance(v, T):
        return t in walk(v)
    if isinstance(v, (tuple, list)):
        return any(mentions(x, t) for x in v)
    if isinstance(v, dict):
        return any(mentions(x, t) for x in v.values())
    if isinstance(v, Arr):
        f = v.frozen()
        return any(mentions(f(*p), t) for p in positions(v.dims, 'm'))
    if isinstance(v, SObj):
        return any(mentions(x, t) for x in v.attrs.values())
    if hasattr(v, 'sym_subst'):
        return True
    return False


def element_of(it, x):
    """(dimension, function position -> element)"""
    if isinstance(x, SymRange):
        return x.axis, (lambda i: i)
    if isinstance(x, Arr):
        f = x.frozen()
        if len(x.dims) == 1:
            return x.dims[0], f
        return x.dims[0], (lambda i: Arr(x.dims[1:], lambda *r: f(i, *r)))
    if isinstance(x, ZipOf):
        es = [element_of(it, a) for a in x.arrs]
        return es[0][0], (lambda i: tuple(e[1](i) for e in es))
    if isinstance(x, EnumOf):
        d, f = element_of(it, x.arr)
        return d, (lambda i: (i, f(i)))
    if isinstance(x, SetOf):
        raise Unsupported('iteration over a set')
    if hasattr(x, 'sym_iter'):
        return x.sym_iter(it)
    raise Unsupported('iteration over {}'.format(type(x).__name__))


def stored_names(body):
    out, calls = set(), set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.attr in ('append', 'add', 'update', 'extend', 'pop', 'remove', 'discard', 'insert', 'setdefault'):
                calls.add((n.func.value.id, n.func.attr))
    return out, calls


class Rec:
    """list (or set) of the enclosing scope to which the body appends"""

    def __init__(self, kind):
        self.kind = kind
        self.items = []

    def sym_getattr(self, it, name):
        from interp import Native
        if name == ('append' if self.kind == 'list' else 'add'):
            def app_(it_, x):
                self.items.append(x)
            return Native(app_, name)
        raise Unsupported('{} of a list that the loop fills'.format(name))


def over(dim, fn, how):
    """sum / prod / any / all over a dimension"""
    if how in ('sum', 'prod'):
        unit = num(0 if how == 'sum' else 1)
        b = sum_ if how == 'sum' else prod_
        return b(dim.base, lambda i: as_real(ite(dim.pred(i), as_real(fn(i)), unit)))
    if how == 'any':
        return any_(dim.base, lambda i: and_(dim.pred(i), fn(i)))
    return all_(dim.base, lambda i: implies(dim.pred(i), fn(i)))


def run(it, st, seq, env):
    dim, fn = element_of(it, seq)
    if getattr(seq, 'order', None) is not None:
        before = dict(env.vars)
        run_in(it, st, dim, fn, env)
        for n, v in env.vars.items():
            if isinstance(v, Arr) and v is not before.get(n) and v.kind == 'list':
                v.order = 'unknown' if getattr(v, 'order', None) == 'unknown' else seq.order
        return
    run_in(it, st, dim, fn, env)


def run_in(it, st, dim, fn, env):
    if isinstance(dim, Cat):
        # one stretch after the other
        for q, part in enumerate(dim.parts):
            if part is ONE:
                it.assign(st.target, fn((q, None)), env)
                try:
                    it.exec_block(st.body, env)
                except Break:
                    return
                except Continue:
                    pass
            else:
                run_axis(it, st, part, lambda i, q=q: fn((q, i)), env)
        it.exec_block(st.orelse, env)
        return
    run_axis(it, st, dim, fn, env)
    it.exec_block(st.orelse, env)


def run_axis(it, st, dim, fn, env):
    stored, calls = stored_names(st.body)
    target = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
    accs, recs, before = {}, {}, {}
    for name in stored - target:
        if name in env.vars:
            v = env.vars[name]
            before[name] = v
            if isinstance(v, (T, int, Fraction)):
                lv = lift(v)
                accs[name] = const('acc_{}_{}'.format(name, next(values_n)), lv.sort if lv.sort in 'BSI' else 'R')
    for name, attr in calls:
        if name in env.vars and isinstance(env.vars[name], (list, set)) and name not in stored:
            if (attr == 'append' and isinstance(env.vars[name], list)) or (attr == 'add' and isinstance(env.vars[name], set)):
                recs[name] = env.vars[name]
        elif name in env.vars and isinstance(env.vars[name], Arr) and env.vars[name].kind == 'list' and attr == 'append':
            recs[name] = env.vars[name]
    havocked, hmaps = {}, {}
    loopn = next(values_n)
    me = object()
    for _ in range(20):
        j = dim.new('j')
        outs = []

        def body():
            for a, old, marker in havocked.values():
                a.buf.fn = marker
            for m, od, ov, md, mv in hmaps.values():
                m.dom, m.val = md, mv
            e = Env(env.module, dict(env.vars), env.parent, env.node)
            e.vars.update(accs)
            rr = {n: Rec('list' if not isinstance(v, set) else 'set') for n, v in recs.items()}
            e.vars.update(rr)
            it.assign(st.target, fn(j), e)
            kind = 'next'
            ret = None
            try:
                it.exec_block(st.body, e)
            except Continue:
                pass
            except Break:
                kind = 'break'
            except Return as r:
                kind, ret = 'ret', r.v
            cells = {k: (a.buf.fn, a) for k, (a, old, marker) in havocked.items()}
            cells.update({k: (h[0].dom, h[0].val) for k, h in hmaps.items()})
            return kind, ret, {n: e.vars[n] for n in accs}, {n: r.items for n, r in rr.items()}, cells
        saved = getattr(it, 'havocked', {}), getattr(it, 'loop_write', None)
        saved_maps = getattr(it, 'havocked_maps', {})
        saved_id, it.loop_id = it.loop_id, me
        it.havocked_maps = {k: h[0] for k, h in hmaps.items()}
        it.havocked = {id(a.buf): a for a, _, _ in havocked.values()}
        try:
            outs = it.sub_explore(body, [dim.member(j)])
        except NeedHavoc as h:
            if id(h.arr.buf) in havocked or h.arr.get_ is not None:
                raise Unsupported('array written in a loop')
            a = h.arr
            old = a.buf.fn
            mname = 'cell{}_{}'.format(loopn, len(havocked))
            havocked[id(a.buf)] = (a, old, make_marker(mname, a))
            havocked[id(a.buf)][2].name = mname
            continue
        except NeedHavocMap as h:
            m = h.m
            if id(m) in hmaps:
                raise Unsupported('dictionary written in a loop')
            n = '{}_{}'.format(loopn, len(hmaps))
            vs = lift(m.val(const('sample!', 'I'))).sort
            hmaps[id(m)] = (m, m.dom, m.val, (lambda k, n=n: app('mapdom' + n, (k,), 'B')), (lambda k, n=n, vs=vs: app('mapval' + n, (k,), vs)))
            continue
        finally:
            it.havocked_maps = saved_maps
            it.loop_id = saved_id
            for m, od, ov, md, mv in hmaps.values():
                m.dom, m.val = od, ov
            it.havocked, it.loop_write = saved
            for a, old, marker in havocked.values():
                a.buf.fn = old
        break
    else:
        raise Unsupported('loop')
    if hmaps:
        map_names = {x for q in hmaps.values() for x in (q[3](const('k!', 'I')).args[0], q[4](const('k!', 'I')).args[0])}
    # exits
    exits = [(and_(*c), v) for c, v in outs if v[0] == 'raise' or v[1][0] in ('ret', 'break')]
    stay = [(and_(*c), v[1]) for c, v in outs if v[0] == 'return' and v[1][0] == 'next']
    uses = list(accs.values())
    for c, _ in exits + stay:
        if any(mentions(c, a) for a in uses):
            raise Unsupported('condition on an accumulated value')
    if any(v[0] == 'return' and v[1][0] == 'break' for _, v in exits):
        raise Unsupported('break out of a loop over an unknown number of elements')
    # the dimension of every written array that belongs to the element: other cells are left alone by this iteration
    own, accumulated = {}, {}
    for key, (a, old, marker) in (havocked.items() if stay else ()):
        idx = []
        for d in a.dims:
            if isinstance(d, Cat):
                raise Unsupported('array over a concatenation written in a loop')
            idx.append(const('ix{}_{}'.format(loopn, len(idx)), 'I'))
        for w in [k for k, d in enumerate(a.dims) if d.base is dim.base]:
            for c, (k, r, vals, items, cells) in reversed(stay):
                v = lift(cells[key][0](*idx))
                if prove(eq(v, lift(marker(*idx))), [not_(eq(idx[w], j)), c], 1500)[0] != 'proved':
                    break
            else:
                own[key] = (w, idx)
                break
        else:
            if hmaps:
                raise Unsupported('array cells written by a loop')
            accumulated[key] = (idx, accumulate(a, marker, key, idx, j, exits, stay))

    def clean(t):
        for key, (a, old, marker) in havocked.items():
            if any(x.op == 'app' and x.args[0] == marker.name for x in walk(t)):
                if key in accumulated:
                    raise Unsupported('cells accumulated by a loop read in it')
                if key not in own:
                    raise Unsupported('cells of a loop that always ends')
                t = resolve(t, old, marker, j, own[key][0])
        return t
    if exits and hmaps:
        for c, v in exits:
            if any(t.op == 'app' and t.args[0] in map_names for t in walk(c)):
                raise Unsupported('exit depends on a dictionary that the loop fills')
    if exits:
        dep = all(v[0] != 'raise' for _, v in exits) and any(mentions(v[1][1], j) for _, v in exits)
        kinds = {('raise', getattr(v[1], 'cls', None)) if v[0] == 'raise' else ('ret', repr(v[1][1]) if not isinstance(v[1][1], T) else v[1][1]) for _, v in exits}
        dep = dep or len(kinds) > 1
        cond = or_(*[c for c, _ in exits])
        cond = clean(cond)
        leave = it.branch(over(dim, lambda i: subst(cond, {j: i}), 'any'))
        if leave and dep:
            # the value for the first element that leaves
            from lib import first_position
            w = first_position(it, Sub(dim, lambda i: subst(cond, {j: i})), 0)
            it.path.assume(and_(dim.member(w), subst(cond, {j: w})))
            es = list(exits)
            while len(es) > 1 and not it.branch(subst(clean(es[0][0]), {j: w})):
                es.pop(0)
            v = es[0][1]
            exits = [(es[0][0], v if v[0] == 'raise' else ('return', ('ret', subst_val(v[1][1], {j: w}))))]
        if leave:
            v = exits[0][1]
            for h in hmaps.values():
                h[0].write(it)
            for a, old, marker in havocked.values():
                check_write(it, a)
            for h in hmaps.values():
                h[0].dom, h[0].val = (lambda k: app('junk_dom{}'.format(loopn), (k,), 'B')), (lambda k: app('junk_val{}'.format(loopn), (k,)))
            for a, old, marker in havocked.values():
                a.buf.fn = make_marker('junk_after_exit{}'.format(loopn), a)
            if v[0] == 'raise':
                raise PyExc(v[1].cls, ('in a loop',))
            raise Return(v[1][1])
    if not stay:
        # every element leaves: the loop was empty
        return
    # accumulated scalars
    for name, a in accs.items():
        deltas, how = [], None
        for c, (k, r, vals, items, cells) in stay:
            v = vals[name]
            if v is a:
                deltas.append((c, None))
                continue
            if not isinstance(v, (T, int, Fraction)):
                how = 'none'
                break
            v = lift(v)
            h, d = delta(v, a)
            if h is None or (how not in (None, h)):
                how = 'none'
                break
            how = h
            deltas.append((c, d))
        if how is None:
            continue
        if how == 'none':
            env.vars.pop(name, None)  # reading it later is not supported
            continue
        old = lift(before[name])
        if how in ('sum', 'prod'):
            unit = num(0 if how == 'sum' else 1)
            expr = unit
            for c, d in reversed(deltas):
                expr = ite(c, unit if d is None else as_real(d), expr)
            expr = clean(expr)
            r = over(dim, lambda i: subst(expr, {j: i}), how)
            env.vars[name] = add(old, r) if how == 'sum' else mul(old, r)
        else:
            cond = or_(*[c for c, d in deltas if d is not None])
            cond = clean(cond)
            some = over(dim, lambda i: subst(cond, {j: i}), 'any')
            env.vars[name] = it.unbool(or_(old, some) if how == 'any' else and_(old, not_(some)))
    # filled lists
    for name, old in recs.items():
        conds, value = [], None
        nmax = max(len(items[name]) for _, (_, _, _, items, _) in stay)
        if nmax == 0:
            continue
        if nmax > 1:
            raise Unsupported('several elements appended per iteration')
        for c, (k, r, vals, items, cells) in stay:
            if items[name]:
                conds.append((c, items[name][0]))
        cond = clean(or_(*[c for c, _ in conds]))
        value = it.merge([([c], ('return', v)) for c, v in conds])
        if havocked and isinstance(value, T):
            value = clean(value)
        sub = dim if cond is TRUE else Sub(dim, lambda i: subst(cond, {j: i}))
        new = Arr([sub], lambda i: subst_val(value, {j: i}), kind='list')
        if isinstance(old, set):
            if old:
                raise Unsupported('set filled by a loop')
            env.vars[name] = SetOf(new)
            continue
        if isinstance(old, Arr) or old:
            from lib import concat
            new = concat(it, [old, new], kind='list')
        env.vars[name] = it.new(new)
    # arrays
    for key, (a, old, marker) in havocked.items():
        if key in accumulated:
            idx, (how, d) = accumulated[key]
            d = clean(d)

            def accfn(*q, d=d, how=how, idx=idx, old=old):
                e = subst(d, dict(zip(idx, q)))
                r = over(dim, lambda i: subst(e, {j: i}), how)
                return add(lift(old(*q)), r) if how == 'sum' else mul(lift(old(*q)), r)
            check_write(it, a)
            a.buf.fn = accfn
            a.buf.version += 1
            continue
        w, idx = own[key]
        val = None
        for c, (k, r, vals, items, cells) in reversed(stay):
            at = lift(cells[key][0](*(idx[:w] + [j] + idx[w + 1:])))
            val = at if val is None else ite(c, at, val)
        val = clean(val)

        def newfn(*q, val=val, w=w, idx=idx, old=old):
            m = {idx[k]: q[k] for k in range(len(idx)) if k != w}
            m[j] = q[w]
            inside = dim.pred(q[w])
            return ite(inside, lift(subst(val, m)), lift(old(*q)))
        check_write(it, a)
        a.buf.fn = newfn
        a.buf.version += 1
    for key, h in hmaps.items():
        close_map(it, dim, j, key, h, [(c, v[4][key]) for c, v in stay], map_names)
    for n in target | stored:
        if n not in accs and n in env.vars and n not in before:
            env.vars.pop(n, None)


def close_map(it, dim, j, key, h, outs, map_names):
    """contents of a dictionary after the loop, from those after one arbitrary iteration"""
    m, od, ov, md, mv = h
    m.write(it)
    ka = const('key!{}'.format(next(values_n)), 'I')
    mine = (md(ka), mv(ka))

    def at(k):
        d, v = None, None
        for c, (nd, nv) in reversed(outs):
            a, b = lift(nd(k)), lift(nv(k))
            d, v = (a, b) if d is None else (ite(c, a, d), ite(c, b, v))
        return d, v

    def only(ts, k):
        """the terms read the old contents of the dictionary at k only"""
        return not any(t.op == 'app' and t.args[0] in map_names and t not in (md(k), mv(k)) for x in ts for t in walk(x))
    if dim.base is m.axis:
        # every iteration belongs to the key it is about
        d1, v1 = at(ka)
        other = [not_(eq(ka, j))]
        dj, vj = at(j)
        if only((dj, vj), j) and prove(eq(d1, md(ka)), other, 1500)[0] == 'proved' and prove(eq(v1, mv(ka)), other + [md(ka)], 1500)[0] == 'proved':
            def fill(t, q):
                return subst(subst(t, {md(j): const('od!', 'B'), mv(j): const('ov!', mv(j).sort)}), {j: q, const('od!', 'B'): od(q), const('ov!', mv(j).sort): lift(ov(q))})
            m.dom = lambda q: ite(dim.pred(q), fill(dj, q), od(q))
            m.val = lambda q: ite(dim.pred(q), fill(vj, q), lift(ov(q)))
            return
    # accumulation: a key gets the sum of what the elements contribute to it
    d1, v1 = at(ka)
    if not only((d1, v1), ka) or mv(ka).sort != 'R':
        raise Unsupported('dictionary filled by a loop')
    E0 = ite(md(ka), mv(ka), num(0))
    g = subst(d1, {md(ka): FALSE})
    inc = subst(subst(ite(d1, v1, num(0)), {md(ka): FALSE}), {mv(ka): num(0)})
    if any(t in mine for x in (g, inc) for t in walk(x)):
        raise Unsupported('dictionary filled by a loop: not an accumulation')
    ok = prove(eq(d1, or_(md(ka), g)), [], 2000)[0] == 'proved' and prove(eq(ite(d1, v1, num(0)), add(E0, inc)), [], 3000)[0] == 'proved'
    if not ok:
        raise Unsupported('dictionary filled by a loop: not an accumulation')
    m.dom = lambda q: or_(od(q), over(dim, lambda i: subst(g, {j: i, ka: q}), 'any'))
    m.val = lambda q: add(ite(od(q), lift(ov(q)), num(0)), over(dim, lambda i: subst(inc, {j: i, ka: q}), 'sum'))


def accumulate(a, marker, key, idx, j, exits, stay):
    '''every iteration adds to / multiplies each cell by something that does not depend on the cells: (how, what)'''
    no = Unsupported('array cells written by a loop')
    if a.dtype == 'B':
        raise no
    cell = lift(marker(*idx))

    def has(t):
        return isinstance(t, T) and any(x.op == 'app' and x.args[0] == marker.name for x in walk(t))

    def split(v):
        if v is cell:
            return None, None
        if v.op == 'ite' and not has(v.args[0]):
            (h1, d1), (h2, d2) = split(v.args[1]), split(v.args[2])
            how = h1 or h2
            if how is None:
                return None, None
            if h1 and h2 and h1 != h2:
                raise no
            unit = num(0 if how == 'sum' else 1)
            return how, ite(v.args[0], unit if h1 is None else d1, unit if h2 is None else d2)
        if v.op in ('add', 'mul') and v.args.count(cell) == 1:
            d = (add if v.op == 'add' else mul)(*[x for x in v.args if x is not cell])
            if not has(d):
                return 'sum' if v.op == 'add' else 'prod', d
        raise no
    parts = []
    for c, x in exits:
        if has(c):
            raise no
    for c, (k, r, vals, items, cells) in stay:
        if has(c) or any(has(v) for v in vals.values()) or any(has(v) for l in items.values() for v in l):
            raise no
        parts.append((c, split(lift(cells[key][0](*idx)))))
    hows = {h for _, (h, d) in parts if h}
    if len(hows) != 1:
        raise no
    how = hows.pop()
    unit = num(0 if how == 'sum' else 1)
    expr = unit
    for c, (h, d) in reversed(parts):
        expr = ite(c, unit if h is None else as_real(d), expr)
    return how, expr


def make_marker(name, a):
    sort = 'B' if a.dtype == 'B' else 'R'

    def m(*idx):
        return app(name, tuple(i for i in idx if i is not None), sort)
    m.name = name
    return m


def resolve(t, old, marker, j, w):
    """the old contents for the marker cells; only the cells of this element may have been read"""
    m = {}
    for x in walk(t):
        if x.op == 'app' and x.args[0] == marker.name:
            args = x.args[1:]
            if args[w] is not j:
                raise Unsupported('loop reads cells of other elements')
            m[x] = lift(old(*args))
    return subst(t, m) if m else t


def delta(v, a):
    if v.op == 'add' and v.args.count(a) == 1:
        rest = [x for x in v.args if x is not a]
        d = add(*rest)
        if not mentions(d, a):
            return 'sum', d
    if v.op == 'mul' and v.args.count(a) == 1:
        d = mul(*[x for x in v.args if x is not a])
        if not mentions(d, a):
            return 'prod', d
    if v is TRUE:
        return 'any', TRUE
    if v is FALSE:
        return 'all', FALSE
    return None, None


def comprehension(it, e, seq, inner, kind):
    gens = e.generators
    if len(gens) > 1:
        raise Unsupported('nested comprehension over unknown collections')
    g = gens[0]
    dim, fn = element_of(it, seq)

    def piece(part, f):
        if part is ONE:
            raise Unsupported('comprehension over a mixed collection')
        j = part.new('c')

        def body():
            e2 = Env(inner.module, dict(inner.vars), inner.parent, inner.node)
            it.assign(g.target, f(j), e2)
            for c in g.ifs:
                if not it.truth(it.eval(c, e2)):
                    return ('skip', None)
            if kind == 'dict':
                return ('val', (it.eval(e.key, e2), it.eval(e.value, e2)))
            return ('val', it.eval(e.elt, e2))
        outs = it.sub_explore(body, [part.member(j)])
        bad = [(and_(*c), v[1]) for c, v in outs if v[0] == 'raise']
        if bad:
            if len({b[1].cls for b in bad}) > 1:
                raise Unsupported('different exceptions')
            if it.branch(over(part, lambda i: subst(or_(*[b[0] for b in bad]), {j: i}), 'any')):
                raise PyExc(bad[0][1].cls, ('in a comprehension',))
        good = [(c, ('return', v[1][1])) for c, v in outs if v[0] == 'return' and v[1][0] == 'val']
        skips = [and_(*c) for c, v in outs if v[0] == 'return' and v[1][0] == 'skip']
        if not good:
            return None
        if kind == 'dict':
            key = it.merge([(c, ('return', v[1][0])) for c, v in good])
            val = it.merge([(c, ('return', v[1][1])) for c, v in good])
            value = (key, val)
        else:
            value = it.merge(good)
        cond = TRUE if not skips else or_(*[and_(*c) for c, _ in good])
        sub = part if cond is TRUE else Sub(part, lambda i: subst(cond, {j: i}))
        return sub, (lambda i: subst_val(value, {j: i}))
    if isinstance(dim, Cat):
        ps = [(q, p) for q, p in enumerate(dim.parts)]
        raise Unsupported('comprehension over a concatenation')
    p = piece(dim, fn)
    if p is None:
        return it.new([] if kind == 'list' else (set() if kind == 'set' else {}))
    sub, f = p
    if kind == 'dict' and type(sub.base) is Axis:
        q = sub.new('s')
        v = f(q)[1]
        k0 = f(q)[0]
        if isinstance(k0, T) and k0.op == 'app' and k0.args[1:] == (q,):
            from pandas_ import KEYTEXT, Named
            if k0.args[0] in KEYTEXT:
                return it.new(Named(sub.base, k0.args[0], FALSE, sub.pred, lambda i: lift(f(i)[1])))
        if f(q)[0] == q and (isinstance(v, T) or isinstance(v, (int, float, Fraction, str))):
            # the keys are the elements themselves
            return it.new(SymMap(sub.base, lambda i: and_(*([sub.pred(i)] if sub is not sub.base else [])), lambda i: lift(f(i)[1]), 'dict'))
    if kind == 'dict':
        return it.new(MapOf(sub, lambda i: f(i)[0], lambda i: f(i)[1]))
    sample = f(sub.new('s'))
    r = Arr([sub], f, kind='list', dtype=sample.sort if isinstance(sample, T) else 'O')
    if kind == 'set':
        return SetOf(r)
    return it.new(r)


class MapOf:
    """dictionary made of one entry per element of a dimension (later entries win)"""

    def __init__(self, dim, key, val):
        self.dim, self.key, self.val = dim, key, val

    def sym_getitem(self, it, k):
        raise Unsupported('look-up in a dictionary of unknown size')


import itertools
values_n = itertools.count()
