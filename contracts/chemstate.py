"""Contracts of the state of a Chemistry: C01 (disabling), C08 (copies, saved states)."""
import ast
from terms import *
from values import *
import terms as tm
import interp as ip
import lib
import numeval
import pandas_ as pdm
from pandas_ import Ent, Ser, PosSet, Index
from lib import SetOf
from chem import Kit, SP, RE, CH, lhs, rhs, name, charge, special, present, pos_of, tables, keep_tables, keep_state, excname, selected

RQ = pdm.axis('rq')
RR = pdm.axis('rr')
pdm.POSITIONS['req_sp'], pdm.POSITIONS['req_re'], pdm.POSITIONS['spof'] = SP, RE, SP
inv = lambda r, i: lt(num(0), add(lhs(r, i), rhs(r, i)))
ion = lambda i: and_(not_(special(i)), lt(num(0), charge(i)))
X = lambda i: app('ghost_sp', (i,), 'B')
Y = lambda r: app('ghost_re', (r,), 'B')


def closed(E, R):
    """no reaction of R has a species outside of E; each species of E is in a reaction of R"""
    return and_(all_(RE, lambda r: all_(SP, lambda i: implies(and_(R(r), inv(r, i)), E(i)))),
                all_(SP, lambda i: implies(E(i), any_(RE, lambda r: and_(R(r), inv(r, i))))))


def some_ion(E):
    return any_(SP, lambda i: and_(E(i), ion(i)))


def single(E, i):
    return and_(E(i), ion(i), all_(SP, lambda j: implies(and_(E(j), ion(j)), eq(j, i))))


class State:
    """what the public observers (and a reset) say"""

    def __init__(self, k, o):
        st = k.observe(o)
        self.E = lambda i: not_(st.dis_sp(i))
        self.R = lambda r: not_(st.dis_r(r))
        self.P = st.prot
        self.st = st
        c = clone(k, o)
        k.m(c, 'reset')
        self.X = k.pred(k.m(c, 'get_protected_species'), SP)


def clone(k, o):
    it = k.it
    c = it.new(ip.SObj(o.cls))
    for a, v in o.attrs.items():
        if isinstance(v, Ser) and isinstance(v.dim, (Axis, Sub)):
            c.attrs[a] = it.new(Ser(v.dim, it.new(Arr([v.dim], v.arr.frozen(), dtype=v.arr.dtype))))
        else:
            c.attrs[a] = v
    return c


def members(it, coll):
    """collection of positions -> predicate"""
    coll = lib.force(it, coll)
    if isinstance(coll, (tuple, list, set, frozenset)):
        xs = list(coll)
        if not all(isinstance(x, T) and x.sort == 'I' for x in xs):
            raise Unsupported('collection of other things')
        return lambda i: or_(*[eq(i, x) for x in xs])
    if isinstance(coll, Index):
        return (lambda i: coll.dim.member(i)) if isinstance(coll.dim, (Axis, Sub)) else bad('index')
    if isinstance(coll, PosSet):
        return lambda i: and_(coll.axis.member(i), coll.pred(i))
    if isinstance(coll, Arr) and len(coll.dims) == 1 and coll.dims[0].base is not None:
        d, f = coll.dims[0], coll.frozen()
        if f(d.base.new('t')).op == 'const' and d.base in (SP, RE):
            return d.member
        return lambda i: any_(d.base, lambda q: and_(d.pred(q), eq(f(q), i)))
    bad(type(coll).__name__)


def bad(w):
    raise Unsupported('collection: ' + w)


def recursive(k):
    """the private function behind disable that calls itself"""
    ms = {f.name: f for f in k.CH.node.body if isinstance(f, ast.FunctionDef)}

    def calls(f):
        return {n.func.attr for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
                and n.func.value.id == 'self'}
    out = [n for n in calls(ms['disable']) if n in ms and n in calls(ms[n])]
    if len(out) != 1:
        raise Unsupported('disable does not rest on one recursive function')
    f = ms[out[0]]
    args = [a.arg for a in f.args.args[1:]]
    sp, re = [a for a in args if 'sp' in a], [a for a in args if 'sp' not in a and 'r' in a]
    if len(args) != 2 or len(sp) != 1 or len(re) != 1:
        raise Unsupported('recursive function of other arguments')
    return out[0], args, sp[0], re[0]


def ghost(S, Q, E, R):
    return and_(all_(SP, lambda i: implies(X(i), and_(E(i), not_(S(i))))), all_(RE, lambda r: implies(Y(r), and_(R(r), not_(Q(r))))), closed(X, Y))


def unjust(S, E, P, rc):
    """the ghost keeps all the protected species and an ion: no reason to refuse"""
    return and_(all_(SP, lambda i: implies(and_(P(i), or_(E(i), S(i))), X(i))), some_ion(X) if rc else TRUE)


def asked(S, Q, a):
    return or_(any_(SP, lambda i: and_(S(i), a.E(i))), any_(RE, lambda r: and_(Q(r), a.R(r))))


def post(S, Q, a, b, rc):
    """named clauses; a: state before, b: after; each: (axis or None, function of the position)"""
    ch = asked(S, Q, a)
    return {
        'only_disables_species': (SP, lambda i: implies(b.E(i), a.E(i))),
        'only_disables_reactions': (RE, lambda r: implies(b.R(r), a.R(r))),
        'disables_the_species': (SP, lambda i: implies(S(i), not_(b.E(i)))),
        'disables_the_reactions': (RE, lambda r: implies(Q(r), not_(b.R(r)))),
        'reactions_closed': (RE, lambda r: all_(SP, lambda i: implies(and_(ch, b.R(r), inv(r, i)), b.E(i)))),
        'species_connected': (SP, lambda i: implies(and_(ch, b.E(i)), any_(RE, lambda r: and_(b.R(r), inv(r, i))))),
        'nothing_asked_species': (SP, lambda i: implies(not_(ch), eq(a.E(i), b.E(i)))),
        'nothing_asked_reactions': (RE, lambda r: implies(not_(ch), eq(a.R(r), b.R(r)))),
        'protected_kept': (SP, lambda i: implies(and_(a.P(i), a.E(i)), b.E(i))),
        'protections': (SP, lambda i: eq(b.P(i), or_(a.P(i), and_(ch, single(b.E, i)) if rc else FALSE))),
        'explicit_protections': (SP, lambda i: eq(b.X(i), a.X(i))),
        'special': (SP, lambda i: eq(b.st.spec(i), a.st.spec(i))),
        'ion_left': (None, implies(ch, some_ion(b.E)) if rc else TRUE),
        'no_species_without_need': (SP, lambda i: implies(and_(ghost(S, Q, a.E, a.R), X(i)), b.E(i))),
        'no_reaction_without_need': (RE, lambda r: implies(and_(ghost(S, Q, a.E, a.R), Y(r)), b.R(r))),
    }


def havoc(k, o, tag):
    it = k.it
    for a, v in list(o.attrs.items()):
        if a in k.mutable and isinstance(v, Ser) and isinstance(v.dim, Axis) and v.arr.dtype == 'B':
            o.attrs[a] = it.new(Ser(v.dim, it.new(Arr([v.dim], lambda i, a=a: app('{}_{}'.format(tag, a), (i,), 'B'), dtype='B'))))


def c01(s):
    import os
    if os.environ.get('FAST'):
        return disabling(s, os.environ['FAST'], True)
    for cls in ('Chemistry', 'NeutralChemistry'):
        disabling(s, cls)


def disabling(s, cls, fast=False):
    k = Kit(s, cls)
    it = k.it
    k.prepare()
    rc = bool(k.charged())
    fname, order, a_sp, a_re = recursive(k)
    q = 'Chemistry.' + fname
    DE = k.exc('ChemistryDisableError')
    sid, rid = (lambda n: app('req_sp', (n,), 'I')), (lambda n: app('req_re', (n,), 'I'))
    S = lambda i: any_(RQ, lambda n: eq(sid(n), i))
    Q = lambda r: any_(RR, lambda n: eq(rid(n), r))
    req_facts = [all_(RQ, lambda n: SP.member(sid(n))), all_(RR, lambda n: RE.member(rid(n)))]
    n = [0]
    calls = []

    def by_contract(it_, o, *a, **kw):
        args = dict(zip(order, a))
        args.update(kw)
        S1, Q1 = members(it, args.get(a_sp, ())), members(it, args.get(a_re, ()))
        pre = State(k, o)
        n[0] += 1
        tag = 'rec{}'.format(n[0])
        calls.append((list(it.path.conds), pre, S1, Q1))
        if it.branch(const(tag + '_refuses', 'B')):
            havoc(k, o, 'junk_' + tag)
            it.path.assume(not_(and_(ghost(S1, Q1, pre.E, pre.R), unjust(S1, pre.E, pre.P, rc))))
            it.raise_(DE)
        havoc(k, o, tag)
        b = State(k, o)
        for nm, (ax, f) in post(S1, Q1, pre, b, rc).items():
            it.path.assume(all_(ax, f) if ax is not None else f)
        return None

    def fn(o, st):
        a = State(k, o)
        t0 = tables(o)
        e = None
        try:
            k.m(o, fname, **{a_sp: it.new(Arr([RQ], sid, kind='tuple', dtype='I')), a_re: it.new(Arr([RR], rid, kind='tuple', dtype='I'))})
        except ip.PyExc as x:
            e = x
        return e, a, State(k, o), t0, tables(o), list(calls)

    def wrapped(o, st):
        del calls[:]
        n[0] = 0
        return fn(o, st)
    # the recursive function, its own call by the contract
    it.contracts[q] = by_contract
    outs = [] if fast else k.run('{}.{}'.format(cls, fname), wrapped, q, req_facts)
    for m, (c, v) in enumerate(outs):
        nm = '{}.disable.recursion#post[{}]'.format(cls, m)
        c = list(c)
        if v[0] == 'raise':
            s.check(nm + '.setup', FALSE, c, CH)
            continue
        e, a, b, t0, t1, cl = v[1][0]
        for z, (pc, pre, S1, Q1) in enumerate(cl):
            i, r = SP.new('i'), RE.new('r')
            s.check('{}.call{}.members'.format(nm, z), SP.member(i), pc + [S1(i)], CH)
            s.check('{}.call{}.members_r'.format(nm, z), RE.member(r), pc + [Q1(r)], CH)
            # termination: fewer items are enabled than before
            s.check('{}.call{}.terminates'.format(nm, z), or_(any_(SP, lambda i: and_(a.E(i), not_(pre.E(i)))), any_(RE, lambda r: and_(a.R(r), not_(pre.R(r))))), pc, CH)
        if e is not None:
            s.check(nm + '.documented_error', TRUE if excname(e) == 'ChemistryDisableError' else FALSE, c, CH)
            s.check(nm + '.refused_only_if_needed', FALSE, c + [ghost(S, Q, a.E, a.R), unjust(S, a.E, a.P, rc)], CH)
            continue
        keep_tables(k, nm, t0, t1, c)
        clauses(s, nm, post(S, Q, a, b, rc), c)


    # disable, the recursion by its contract
    it.contracts['Chemistry.assert_consistency'] = lambda it_, o: consistent(k, o, rc)
    kinds = {'id': (lambda n: sid(n), lambda n: SP.member(sid(n)), sid),
             'object': (lambda n: Ent(k.RP, SP, sid(n)), lambda n: TRUE, sid),
             'name': (lambda n: app('req_name', (n,), 'S'), lambda n: present(app('req_name', (n,), 'S')), lambda n: pos_of(app('req_name', (n,), 'S')))}
    for kind, (elem, known, posn) in kinds.items():
        Sk = lambda i: any_(RQ, lambda n: eq(posn(n), i))
        arr = Arr([RQ], elem, kind='list', dtype={'id': 'I', 'object': 'O', 'name': 'S'}[kind])
        facts = [all_(RQ, lambda n: SP.member(sid(n)))] if kind == 'object' else []

        def fn2(o, st):
            a = State(k, o)
            it.path.assume(closed(a.E, a.R))
            if not rc:
                it.path.assume(neutral(a.E))
            else:
                it.path.assume(and_(present('e'), special(pos_of('e')), a.E(pos_of('e')), a.P(pos_of('e')), some_ion(a.E)))
            t0 = tables(o)
            e = None
            n[0] = 0
            try:
                k.m(o, 'disable', species=it.new(arr), reactions=it.new(Arr([RR], rid, kind='list', dtype='I')))
            except ip.PyExc as x:
                e = x
            return e, a, State(k, o), t0, tables(o)
        asked_known = and_(all_(RQ, known), all_(RR, lambda n: RE.member(rid(n))))
        outs = k.run('{}.disable[{}]'.format(cls, kind), fn2, 'Chemistry.disable', facts)
        for m, (c, v) in enumerate(outs):
            nm = '{}.disable[{}]#post[{}]'.format(cls, kind, m)
            c = list(c)
            if v[0] == 'raise':
                s.check(nm + '.setup', FALSE, c, CH)
                continue
            e, a, b, t0, t1 = v[1][0]
            keep_tables(k, nm, t0, t1, c)
            if e is None:
                s.check(nm + '.all_known', asked_known, c, CH)
                cl = post(Sk, Q, a, b, rc)
                cl['reactions_closed'] = (RE, lambda r: all_(SP, lambda i: implies(and_(b.R(r), inv(r, i)), b.E(i))))
                cl['species_connected'] = (SP, lambda i: implies(b.E(i), any_(RE, lambda r: and_(b.R(r), inv(r, i)))))
                if rc:
                    cl['electron_kept'] = (None, and_(b.E(pos_of('e')), b.P(pos_of('e'))))
                    cl['ion_left'] = (None, some_ion(b.E))
                clauses(s, nm, cl, c)
                continue
            for w, ax in (('E', SP), ('R', RE), ('P', SP), ('X', SP)):
                i = ax.new('i')
                s.check('{}.refused_changes_nothing_{}'.format(nm, w), eq(getattr(a, w)(i), getattr(b, w)(i)), c + [ax.member(i)], CH)
            if excname(e) == 'ChemistryDisableError':
                s.check(nm + '.refused_only_if_needed', FALSE, c + [asked_known, ghost(Sk, Q, a.E, a.R), unjust(Sk, a.E, a.P, rc)], CH)
            else:
                s.check(nm + '.documented_error', TRUE if excname(e) in ('ChemistrySpeciesNotPresentError', 'ChemistryReactionNotPresentError') else FALSE, c, CH)
                s.check(nm + '.refused_only_if_absent', not_(asked_known), c, CH)
    del it.contracts[q]
    # reset
    def fn3(o, st):
        a = State(k, o)
        t0 = tables(o)
        e = None
        try:
            k.m(o, 'reset')
        except ip.PyExc as x:
            e = x
        return e, a, State(k, o), t0, tables(o)
    for m, (c, v) in enumerate(k.run(cls + '.reset', fn3, 'Chemistry.reset')):
        nm = '{}.reset#post[{}]'.format(cls, m)
        c = list(c)
        if v[0] == 'raise' or v[1][0][0] is not None:
            s.check(nm + '.no_exception', FALSE, c, CH)
            continue
        e, a, b, t0, t1 = v[1][0]
        keep_tables(k, nm, t0, t1, c)
        clauses(s, nm, {'enables_species': (SP, b.E), 'enables_reactions': (RE, b.R), 'explicit_kept': (SP, lambda i: eq(b.X(i), a.X(i))),
                        'only_explicit': (SP, lambda i: eq(b.P(i), a.X(i))), 'explicit_are_protected': (SP, lambda i: implies(a.X(i), a.P(i)))}, c)
    # protecting
    n1 = const('arg_id', 'I')

    def fn4(o, st):
        a = State(k, o)
        k.m(o, 'set_protected_species', n1)
        return a, State(k, o)
    for m, (c, v) in enumerate(k.run(cls + '.set_protected_species', fn4, 'Chemistry.set_protected_species', [SP.member(n1)])):
        nm = '{}.set_protected_species#post[{}]'.format(cls, m)
        c = list(c)
        if v[0] == 'raise':
            s.check(nm + '.no_exception', FALSE, c, CH)
            continue
        a, b = v[1][0]
        clauses(s, nm, {'explicit': (SP, lambda i: eq(b.X(i), or_(a.X(i), eq(i, n1)))), 'keeps_E': (SP, lambda i: eq(a.E(i), b.E(i))),
                        'keeps_R': (RE, lambda i: eq(a.R(i), b.R(i)))}, c)
    # a new chemistry
    it.contracts['Chemistry.assert_consistency'] = lambda it_, o: consistent(k, o, rc)

    def fn5():
        o = k.build()
        return State(k, o)
    it.target = None
    outs = s.explore(it, cls + '()', fn5) or []
    for m, (c, v) in enumerate(outs):
        nm = '{}()#post[{}]'.format(cls, m)
        c = list(c)
        if v[0] == 'raise':
            s.check(nm + '.refused_only_if_inconsistent', not_(and_(cons(lambda i: TRUE, lambda r: TRUE, rc), TRUE if rc else neutral(lambda i: TRUE))), c, CH)
            s.check(nm + '.documented_error', TRUE if excname(v[1]) == 'ChemistryConsistencyError' else FALSE, c, CH)
            continue
        b = v[1]
        clauses(s, nm, {'consistent': (None, and_(cons(b.E, b.R, rc), TRUE if rc else neutral(b.E))), 'all_enabled': (SP, b.E), 'all_reactions': (RE, b.R),
                        'protected': (SP, lambda i: eq(b.P(i), or_(eq(i, pos_of('e')), single(b.E, i)) if rc else FALSE)),
                        'explicitly': (SP, lambda i: eq(b.X(i), b.P(i)))}, c)


def cons(E, R, rc):
    c = closed(E, R)
    return and_(present('e'), E(pos_of('e')), some_ion(E), c) if rc else c


def neutral(E):
    return all_(SP, lambda i: implies(and_(E(i), not_(special(i))), eq(charge(i), num(0))))


def consistent(k, o, rc):
    """contract of assert_consistency"""
    st = k.observe(o)
    if not k.it.branch(cons(lambda i: not_(st.dis_sp(i)), lambda r: not_(st.dis_r(r)), rc)):
        k.it.raise_(k.exc('ChemistryConsistencyError'))


def clauses(s, nm, cl, c):
    for w, (ax, f) in cl.items():
        if ax is None:
            s.check('{}.{}'.format(nm, w), f, c, CH)
            continue
        i = ax.new('i')
        g = f(i)
        h = list(c) + [ax.member(i)]
        # an implication: its premises become hypotheses
        s.check('{}.{}'.format(nm, w), g, h, CH)


# ---------------------------------------------------------------------------------------------- C08
def shared(k, o, c):
    """state attributes of c, stored into in place by some method, that are objects of o too"""
    inplace = set()
    for f in k.CH.node.body:
        if isinstance(f, ast.FunctionDef) and f.name != '__init__':
            for n in ast.walk(f):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
                for t in ts:
                    for u in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        while isinstance(u, ast.Subscript) or isinstance(u, ast.Attribute) and isinstance(u.value, (ast.Subscript, ast.Attribute)):
                            u = u.value
                            if isinstance(u, ast.Attribute) and isinstance(u.value, ast.Name) and u.value.id == 'self':
                                inplace.add(u.attr)

    def bufs(v):
        out = {id(v)}
        if isinstance(v, Ser) and not isinstance(v, pdm.DictSer):
            out |= {id(v.arr), id(v.arr.buf)}
        elif isinstance(v, pdm.Part) and v.axis is not None:
            out |= {id(v.dom), id(v.dom.buf)} | ({id(v.val), id(v.val.arr), id(v.val.arr.buf)} if v.kind == 'num' else {id(v.val), id(v.val.none.buf), id(v.val.dom2.buf), id(v.val.val2.buf)})
        elif isinstance(v, dict):
            for x in v.values():
                out |= bufs(x)
        return out
    return [a for a in sorted(inplace) if a in o.attrs and a in c.attrs and isinstance(o.attrs[a], (Ser, dict, pdm.Part)) and bufs(o.attrs[a]) & bufs(c.attrs[a])]


def full_tables(o):
    """the overrides with dictionaries: attribute -> (axis, which items, {name: function of the item (and another)})"""
    out = {}
    for t, ax in (('adhoc_species_attributes', SP), ('adhoc_reactions_attributes', RE)):
        d = o.attrs.get(t)
        if not isinstance(d, dict):
            raise Unsupported('override tables of another kind')
        for a, p in d.items():
            if not isinstance(p, pdm.Part):
                raise Unsupported('override table of another kind')
            if p.axis is None:
                out[t, a] = (ax, lambda i: FALSE, {})
            elif p.axis is not ax:
                raise Unsupported('override table of another axis')
            elif p.kind == 'num':
                out[t, a] = (ax, p.dom.frozen(), {'value': p.val.arr.frozen()})
            else:
                out[t, a] = (ax, p.dom.frozen(), {'none': p.val.none.frozen(), 'has': p.val.dom2.frozen(), 'coef': p.val.val2.frozen()})
    return out


def same_tables(s, nm, t0, t1, c):
    if set(t0) != set(t1):
        return s.check(nm + '.the same overridable attributes', FALSE, c, CH)
    for a in t0:
        ax, d0, v0 = t0[a]
        _, d1, v1 = t1[a]
        i, q = ax.new('i'), SP.new('q')
        h = list(c) + [ax.member(i)]
        n = '{}.{}'.format(nm, a[1])
        s.check(n + ' overridden', eq(d0(i), d1(i)), h, CH)
        if not v0 or not v1:
            if bool(v0) != bool(v1):
                s.check(n + ' overridden not at all', not_(or_(d0(i), d1(i))), h, CH)
            continue
        if 'value' in v0:
            s.check(n + ' value', eq(v0['value'](i), v1['value'](i)), h + [d0(i)], CH)
        else:
            h += [d0(i), SP.member(q)]
            s.check(n + ' none', eq(v0['none'](i), v1['none'](i)), h, CH)
            s.check(n + ' names', eq(v0['has'](i, q), v1['has'](i, q)), h + [not_(v0['none'](i))], CH)
            s.check(n + ' coefficients', eq(v0['coef'](i, q), v1['coef'](i, q)), h + [not_(v0['none'](i)), v0['has'](i, q)], CH)


def same_state(s, nm, a, b, c):
    clauses(s, nm, {'enabled species': (SP, lambda i: eq(a.E(i), b.E(i))), 'enabled reactions': (RE, lambda r: eq(a.R(r), b.R(r))),
                    'protected': (SP, lambda i: eq(a.P(i), b.P(i))), 'explicitly protected': (SP, lambda i: eq(a.X(i), b.X(i)))}, c)


def c08(s):
    for cls in ('Chemistry', 'NeutralChemistry'):
        copies(s, cls)
        saved(s, cls)


def believed(it):
    """the chemistries are consistent (that is C01): the check of it finds nothing"""
    for q in ('Chemistry.assert_consistency', 'NeutralChemistry.assert_consistency'):
        it.contracts[q] = lambda it_, o: None


def assume_consistent(k, o, cls):
    a = State(k, o)
    if cls == 'NeutralChemistry':
        k.it.path.assume(neutral(a.E))
    else:
        k.it.path.assume(and_(present('e'), special(pos_of('e')), a.E(pos_of('e')), a.P(pos_of('e')), some_ion(a.E)))


def tables_equal(t0, t1):
    if set(t0) != set(t1):
        return FALSE
    out = []
    for a in t0:
        ax, d0, v0 = t0[a]
        _, d1, v1 = t1[a]
        out.append(all_(ax, lambda i, d0=d0, d1=d1: eq(d0(i), d1(i))))
        if not v0 or not v1:
            continue
        if 'value' in v0:
            none = lambda f, i: pdm.isnan(f(i))
            some = lambda f, i: pdm.strip_nan(f(i))
            out.append(all_(ax, lambda i, d0=d0, f=v0['value'], g=v1['value']: implies(d0(i), and_(eq(none(f, i), none(g, i)), or_(none(f, i), eq(some(f, i), some(g, i)))))))
            continue
        out.append(all_(ax, lambda i, d0=d0, f=v0['none'], g=v1['none']: implies(d0(i), eq(f(i), g(i)))))
        for w in ('has', 'coef'):
            out.append(all_(ax, lambda i, d0=d0, n=v0['none'], h=v0['has'], f=v0[w], g=v1[w], w=w:
                            implies(and_(d0(i), not_(n(i))), all_(SP, lambda q: implies(h(i, q) if w == 'coef' else TRUE, eq(f(i, q), g(i, q)))))))
    return and_(*out)


def copies(s, cls):
    k = Kit(s, cls)
    it = k.it
    believed(it)
    k.prepare()

    def fn(o, st):
        assume_consistent(k, o, cls)
        o.attrs['xml_path'] = 'the file'
        c = k.m(o, 'copy')
        a, b = State(k, o), State(k, c)
        return c, a, b, full_tables(o), full_tables(c), shared(k, o, c), c.attrs.get('xml_path')
    if s.only and s.only not in cls + '.copy':
        return
    for m, (c, v) in enumerate(k.run(cls + '.copy', fn, 'Chemistry.copy')):
        nm = '{}.copy#post[{}]'.format(cls, m)
        c = list(c)
        if v[0] == 'raise':
            s.check(nm + '.no exception', FALSE, c, CH)
            continue
        (cp, a, b, t0, t1, sh, xp), st, o = v[1]
        s.check(nm + '.the same class', lift(isinstance(cp, ip.SObj) and cp.cls is o.cls), c, CH)
        s.check(nm + '.another object', lift(cp is not o), c, CH)
        s.check(nm + '.the same file', lift(xp == 'the file'), c, CH)
        same_state(s, nm, a, b, c)
        same_tables(s, nm, t0, t1, c)
        s.check(nm + '.shares nothing that is changed in place', lift(not sh), c, CH)


def saved(s, cls):
    """dump and load; the state of one chemistry loaded into another instance of it"""
    k = Kit(s, cls)
    it = k.it
    believed(it)
    it.contracts['Chemistry.xml_hash'] = lambda it_, *a: box['hash']
    k.prepare()
    box = {}
    it.simple_contexts = True

    def opened(it_, p, mode='r', *a, **kw):
        return lib.Stub('stream', {'mode': mode, 'path': p, 'close': lib.Native(lambda it2: None, 'close')})

    def dump(it_, x, stream=None, *a, **kw):
        if not isinstance(stream, lib.Stub) or stream.ns.get('mode') != 'w':
            raise Unsupported('yaml.dump')
        box['file'] = x

    def load(it_, stream=None, *a, **kw):
        if 'file' not in box:
            raise Unsupported('yaml.load')
        return lib.py_deepcopy(it_, box['file'])
    lib.BUILTINS['open'] = lib.Native(opened, 'open')
    it.libs['yaml'] = ip.Lib('yaml', {'dump': lib.Native(dump, 'dump'), 'safe_dump': lib.Native(dump, 'dump'), 'load': lib.Native(load, 'load'), 'safe_load': lib.Native(load, 'load'),
                                      'FullLoader': None, 'SafeLoader': None})
    path = ip.Lib('os.path', {'isfile': lib.Native(lambda it_, p: it_.unbool(const('file_exists', 'B')), 'isfile')})
    it.libs['os'] = ip.Lib('os', {'path': path})
    it.libs['os.path'] = path
    EX = const('file_exists', 'B')

    def other(tag, overrides):
        """another instance of the same chemistry in another state"""
        o2 = k.state(overrides, pre='p')
        havoc(k, o2, tag)
        return o2
    for what in ('load', 'check_coherence'):
        for same_file in ((True, False) if what == 'load' else (True,)):
            name = '{}.{}{}'.format(cls, what, '' if same_file else '[another file]')
            if s.only and s.only not in name:
                continue

            def fn(o, st):
                box.clear()
                assume_consistent(k, o, cls)
                # class invariant: what set_adhoc_reactions_attributes accepts is not negative
                it.path.assume(all_(RE, lambda r: implies(and_(app("o_arrh_has", (r,), "B"), not_(app("o_arrh_none", (r,), "B"))), not_(lt(app("o_arrh_v", (r,)), num(0))))))
                box['hash'] = 'hash' if same_file else 'another hash'
                o.attrs['xml_path'] = 'the file'
                box['hash'] = 'hash'
                k.m(o, 'dump_chemistry_attributes', 'saved')
                o2 = other('other', True)
                o2.attrs['xml_path'] = 'the file'
                box['hash'] = 'hash' if same_file else 'another hash'
                before = State(k, o2), full_tables(o2)
                e = r = None
                try:
                    r = k.m(o2, 'load_chemistry_attributes' if what == 'load' else what, 'saved')
                except ip.PyExc as x:
                    e = x
                return e, r, State(k, o), State(k, o2), full_tables(o), full_tables(o2), before
            for m, (c, v) in enumerate(k.run(name, fn, 'Chemistry.load_chemistry_attributes' if what == 'load' else 'Chemistry.check_coherence', overrides=True)):
                nm = '{}#post[{}]'.format(name, m)
                c = list(c)
                if v[0] == 'raise':
                    s.check(nm + '.no exception', FALSE, c, CH)
                    continue
                s.under_contract('Chemistry.dump_chemistry_attributes')
                e, r, a, b, t0, t1, (b0, tb) = v[1][0]
                if what == 'check_coherence':
                    if e is not None:
                        s.check(nm + '.no exception', FALSE, c, CH)
                        continue
                    got = lift(r)
                    for w, ax, f, g in (('enabled species', SP, a.E, b0.E), ('enabled reactions', RE, a.R, b0.R), ('explicitly protected', SP, a.X, b0.X), ('protected', SP, a.P, b0.P)):
                        x = ax.new('i')
                        s.check('{}.accepts only the same {}'.format(nm, w), eq(f(x), g(x)), c + [got, ax.member(x)], CH)
                    same_tables(s, nm + '.accepts only the same', t0, tb, c + [got])
                    s.check(nm + '.accepts the same state', got, c + [and_(*[all_(q.dim.base, lambda i, f=f, g=g: eq(f(i), g(i))) for q, f, g in raw_pairs(k, v[1][2])]), tables_equal(t0, tb)], CH)
                    same_state(s, nm + '.changes nothing', b0, b, c)
                    same_tables(s, nm + '.changes nothing', tb, t1, c)
                    continue
                fits = and_(EX, lift(same_file))
                if e is not None:
                    s.check(nm + '.refused only if it does not belong', not_(fits), c, CH)
                    s.check(nm + '.documented error', lift(excname(e) == 'ChemistryAttributeError'), c, CH)
                    same_state(s, nm + '.refused changes nothing', b0, b, c)
                    same_tables(s, nm + '.refused changes nothing', tb, t1, c)
                    continue
                s.check(nm + '.refused if it does not belong', fits, c, CH)
                same_state(s, nm, a, b, c)
                same_tables(s, nm, t0, t1, c)


def raw_pairs(k, o):
    """the series of the state of o and those of the other instance"""
    out = []
    for a, v in o.attrs.items():
        if a in k.mutable and isinstance(v, Ser) and isinstance(v.dim, Axis) and v.arr.dtype == 'B':
            out.append((v, v.arr.frozen(), lambda i, a=a: app('other_' + a, (i,), 'B')))
    return out


def generate(s):
    if s.prop == 'C08':
        s.assumptions |= {'YAML returns the plain data that was written (texts, numbers, None, lists, dictionaries)'}
    {'C01': c01, 'C08': c08}[s.prop](s)
