"""Symbolic execution of the real source text (parsed from /repo on every run).

Every path of a function is executed; branches on symbolic conditions fork the execution (the function is re-executed with a recorded list of
decisions). Calls of functions which have a contract use the contract; other functions of the repository are inlined."""
import ast
import os
import sys
import builtins
import itertools
from fractions import Fraction
from values import *
import terms as tm

sys.setrecursionlimit(20000)


class Module:
    def __init__(self, name, tree, interp):
        self.name, self.tree, self.interp = name, tree, interp
        self.ns = {}
        self.defs = {}
        self.tree = tree
        for st in tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    self.defs[a.asname or a.name.split('.')[0]] = (st, a)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = st
            elif isinstance(st, ast.Try):
                for s2 in st.body:
                    if isinstance(s2, (ast.Import, ast.ImportFrom)):
                        for a in s2.names:
                            self.defs[a.asname or a.name.split('.')[0]] = (s2, a)

    def has(self, name):
        return name in self.ns or name in self.defs

    def lookup(self, name):
        if name in self.ns:
            return self.ns[name]
        d = self.defs[name]
        it = self.interp
        if isinstance(d, ast.FunctionDef):
            v = Func(d, self, None, None)
        elif isinstance(d, ast.ClassDef):
            v = ClassInfo(d, self)
        elif isinstance(d, tuple):
            st, a = d
            if isinstance(st, ast.ImportFrom):
                v = it.import_from(st.module, a.name)
            else:
                v = it.import_module(a.name if a.asname else a.name.split('.')[0])
        else:
            v = it.eval(d.value, Env(self, {}))
        self.ns[name] = v
        return v


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.ns = None
        self._mro = None

    @property
    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.node.bases:
                b = self.module.interp.eval(b, Env(self.module, {}))
                out += b.mro if isinstance(b, ClassInfo) else [b]
            self._mro = out
        return self._mro

    def namespace(self):
        if self.ns is None:
            self.ns = {}
            env = Env(self.module, self.ns)
            for st in self.node.body:
                if isinstance(st, ast.FunctionDef):
                    decs = [ast.unparse(d) for d in st.decorator_list]
                    f = Func(st, self.module, self, None)
                    f.static = 'staticmethod' in decs
                    f.classm = 'classmethod' in decs
                    f.prop = 'property' in decs
                    if any(d.endswith('.setter') for d in decs):
                        self.ns['@set:' + st.name] = f
                    else:
                        self.ns[st.name] = f
                elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.For, ast.If)) or \
                        isinstance(st, ast.Expr) and not isinstance(st.value, ast.Constant):
                    self.module.interp.exec_stmt(st, env)
        return self.ns

    def find(self, name):
        for c in self.mro:
            if isinstance(c, ClassInfo):
                if name in c.namespace():
                    return c.namespace()[name]
        return None

    def issub(self, other):
        return any(c is other for c in self.mro) or any(isinstance(c, type) and isinstance(other, type) and issubclass(c, other) for c in self.mro)

    def __repr__(self):
        return 'class ' + self.name


class Func:
    static = classm = prop = False

    def __init__(self, node, module, cls, env):
        self.node, self.module, self.cls, self.env = node, module, cls, env
        self.name = getattr(node, 'name', '<lambda>')

    @property
    def qualname(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return 'function ' + self.qualname


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class Native:
    """function of a library, under an assumed contract (a Python function working on symbolic values)"""

    def __init__(self, fn, name):
        self.fn, self.name = fn, name

    def __repr__(self):
        return 'native ' + self.name


class Lib:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns


class Env:
    def __init__(self, module, vars_, parent=None, node=None):
        self.module, self.vars, self.parent, self.node = module, vars_, parent, node
        self.globals_ = set()

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        if self.module.has(name):
            return self.module.lookup(name)
        if name in BUILTINS:
            return BUILTINS[name]
        if hasattr(builtins, name) and isinstance(getattr(builtins, name), type) and issubclass(getattr(builtins, name), BaseException):
            return getattr(builtins, name)
        if not hasattr(builtins, name) and not self.bound(name):
            raise PyExc(NameError, (name,))
        raise Unsupported('name ' + name)

    def bound(self, name):
        """some statement of the function, of a function around it, or of the module binds the name"""
        e = self
        while e is not None:
            if e.node is None and e.parent is None or e.node is not None and name in binds(e.node):
                return True
            e = e.parent
        tree = getattr(self.module, 'tree', None)
        return tree is None or name in binds(tree) or '*' in binds(tree)


def binds(node):
    """the names which a function (or the statements of a module outside its functions) may bind"""
    if not hasattr(node, 'binds_'):
        out = set()
        todo = list(node.body) if isinstance(node.body, list) else [node.body]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                out.add(n.id)
            elif isinstance(n, ast.alias):
                out.add(n.asname or n.name.split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                if isinstance(node, ast.Module):
                    out |= {x for g in ast.walk(n) if isinstance(g, ast.Global) for x in g.names}
                    continue
            elif isinstance(n, (ast.Global, ast.Nonlocal, ast.Match if hasattr(ast, 'Match') else ast.Global)):
                out.add('*')
            todo.extend(ast.iter_child_nodes(n))
        node.binds_ = out
    return node.binds_


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Infeasible(Exception):
    pass


class Path:
    def __init__(self, trace, todo, base=()):
        self.trace, self.todo, self.pos = list(trace), todo, 0
        self.conds = list(base)

    def assume(self, c):
        if c is not TRUE and c not in self.conds:
            self.conds.append(c)


BUILTINS = {}
EXPLORE_LIMIT = 4000


class Interp:
    def __init__(self, repo, contracts=None):
        self.repo = repo
        self.modules = {}
        self.contracts = contracts or {}
        self.path = None
        self.libs = {}
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()
        self.target = None
        self.in_target = 0
        self.pre_failures = []
        self.fresh = set()
        self.loop_id = None
        self.depth = 0
        self.keep = []
        self.loop_rules = {}
        self.in_sub = 0
        self.items = []   # the positions of the elements that the loops around are run for
        self.empty_dict = None
        self.types = TYPES

    # ------------------------------------------------------------------ modules
    def import_module(self, name):
        if name in self.libs:
            return self.libs[name]
        p = os.path.join(self.repo, *name.split('.'))
        for q in (p + '.py', os.path.join(p, '__init__.py')):
            if os.path.isfile(q):
                if name not in self.modules:
                    self.modules[name] = Module(name, ast.parse(open(q).read(), q), self)
                return self.modules[name]
        return Lib(name, {})

    def import_from(self, mod, name):
        if mod == '__future__':
            return None
        m = self.import_module(mod)
        if isinstance(m, Lib):
            if name in m.ns:
                return m.ns[name]
            full = mod + '.' + name
            if full in self.libs:
                return self.libs[full]
            return Lib(full, {})
        if m.has(name):
            return m.lookup(name)
        return self.import_module(mod + '.' + name)

    def cls(self, mod, name):
        return self.import_module(mod).lookup(name)

    # ------------------------------------------------------------------ paths
    def branch(self, c):
        if isinstance(c, bool):
            return c
        if not isinstance(c, T):
            return bool(c)
        c = truth(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        p = self.path
        if c in p.conds:
            return True
        if not_(c) in p.conds:
            return False
        if p.pos < len(p.trace):
            v = p.trace[p.pos]
        else:
            can_t = self.feasible(c)
            can_f = self.feasible(not_(c)) if can_t else True
            if can_t and can_f:
                if len(p.todo) > EXPLORE_LIMIT:
                    raise Unsupported('too many paths')
                p.todo.append(p.trace[:p.pos] + [False])
                v = True
            else:
                v = can_t  # decided by the path condition
            p.trace.append(v)
        p.pos += 1
        p.conds.append(c if v else not_(c))
        return v

    def feasible(self, c):
        try:
            n = NF(self.path.conds)
            if n.bool(c) == {}:
                return False
        except tm.TooBig:
            pass
        if tm.quantified(list(self.path.conds) + [c]):
            import fol
            return fol.check(self.path.conds, not_(c), 400) != 'unsat'
        r, _ = z3_check(self.path.conds, not_(c), 300)
        return r != 'unsat'

    def explore(self, run, base=()):
        """[(conditions, ('return', value) | ('raise', PyExc))] over all the paths of run()"""
        todo, out = [[]], []
        outer = self.path
        while todo:
            trace = todo.pop()
            self.path = Path(trace, todo, base)
            try:
                v = ('return', run())
            except PyExc as e:
                v = ('raise', e)
            except Infeasible:
                continue
            finally:
                path, self.path = self.path, outer
            out.append((path.conds, v))
            if len(out) > EXPLORE_LIMIT:
                raise Unsupported('too many paths')
        return out

    def sub_explore(self, run, extra=()):
        """paths of a fragment run for an arbitrary element (its conditions are relative to the current path)"""
        base = list(self.path.conds) + [x for x in extra if x is not TRUE]
        n = len(base)
        self.in_sub += 1
        its = [x.args[1] for x in extra if x.op == 'app' and str(x.args[0]).startswith('in_') and len(x.args) == 2]
        self.items.extend(its)
        keep = self.fresh
        self.fresh = set()
        try:
            return [(conds[n:], v) for conds, v in self.explore(run, base)]
        finally:
            self.in_sub -= 1
            del self.items[len(self.items) - len(its):]
            self.fresh = keep

    def merge(self, outcomes):
        """one value from the outcomes of a fragment (all of them returning)"""
        vals = [(and_(*c), v[1]) for c, v in outcomes]
        if len(vals) == 1:
            return vals[0][1]
        v0 = vals[0][1]
        if all(v is v0 or (not isinstance(v, T) and not isinstance(v0, T) and type(v) is type(v0) and v == v0) for _, v in vals):
            return v0
        if all(isinstance(v, list) and len(v) == len(v0) for _, v in vals):
            return self.new([self.merge_any([(c, v[q]) for c, v in vals]) for q in range(len(v0))])
        out = None
        for c, v in reversed(vals):
            if not (isinstance(v, T) or isinstance(v, (int, bool, Fraction, str)) or v is None):
                raise Unsupported('merging {}'.format(type(v).__name__))
            v = lift(v)
            out = v if out is None else ite(c, v, out)
        return out

    def merge_any(self, vals):
        v0 = vals[0][1]
        if all(v is v0 or (not isinstance(v, T) and not isinstance(v0, T) and type(v) is type(v0) and v == v0) for _, v in vals):
            return v0
        if any(not (isinstance(v, (T, int, Fraction, str)) or v is None or hasattr(v, 'sym_subst')) for _, v in vals):
            raise Unsupported('merging {}'.format([type(v).__name__ for _, v in vals]))
        return Dyn('merged', list(vals))

    def raise_(self, cls, *args):
        raise PyExc(cls, args)

    def prove_now(self, goal, why):
        """an obligation that has to hold at this point of the execution"""
        st, back, model = prove(goal, self.path.conds if self.path else ())
        if st != 'proved':
            raise Unsupported('could not establish: ' + why)

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        k = type(st).__name__
        f = getattr(self, 'st_' + k, None)
        if f is None:
            raise Unsupported('statement ' + k)
        try:
            return f(st, env)
        except Unsupported as e:
            if not getattr(e, 'where', None):
                e.where = '{}:{}'.format(env.module.name, st.lineno)
                e.args = ('{} (at {})'.format(e.args[0] if e.args else '', e.where),)
            raise

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_FunctionDef(self, st, env):
        env.vars[st.name] = Func(st, env.module, None, env)

    def st_Import(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name.split('.')[0]] = self.import_module(a.name if a.asname else a.name.split('.')[0])

    def st_ImportFrom(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name] = self.import_from(st.module, a.name)

    def st_Return(self, st, env):
        raise Return(None if st.value is None else self.eval(st.value, env))

    def st_Break(self, st, env):
        raise Break()

    def st_Continue(self, st, env):
        raise Continue()

    def st_Global(self, st, env):
        raise Unsupported('global')

    def st_Nonlocal(self, st, env):
        raise Unsupported('nonlocal')

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def st_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.Name(t.id, ast.Load()), env)
            new = self.inplace(st.op, old, self.eval(st.value, env))
            if new is not old:
                self.assign(t, new, env)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, env)
            old = self.getattr(obj, t.attr)
            new = self.inplace(st.op, old, self.eval(st.value, env))
            if new is not old:
                self.setattr(obj, t.attr, new)
        elif isinstance(t, ast.Subscript):
            obj, key = self.eval(t.value, env), self.eval_key(t.slice, env)
            old = self.getitem(obj, key)
            new = self.inplace(st.op, old, self.eval(st.value, env))
            self.setitem(obj, key, new)
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, old, val):
        from lib import set_all
        if isinstance(old, Arr) and old.kind == 'array':
            set_all(self, old, self.binop(op, old, val))
            return old
        if isinstance(old, list) and isinstance(op, ast.Add):
            self.check_mutable(old)
            old.extend(self.iterate(val))
            return old
        if isinstance(old, set):
            self.check_mutable(old)
            from lib import force
            val = force(self, val)
            ops = {ast.BitOr: 'update', ast.BitAnd: 'intersection_update', ast.Sub: 'difference_update'}
            if type(op) not in ops or not isinstance(val, (set, frozenset)) or any(
                    isinstance(x, (T, SObj)) for x in list(old) + list(val)):
                raise Unsupported('in-place operation on a set')
            getattr(old, ops[type(op)])(val)
            return old
        return self.binop(op, old, val)

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id)
            elif isinstance(t, ast.Subscript):
                obj, key = self.eval(t.value, env), self.eval_key(t.slice, env)
                if hasattr(obj, 'sym_delitem'):
                    obj.sym_delitem(self, key)
                    continue
                if not isinstance(obj, (dict, list)) or isinstance(key, T) and not isinstance(obj, dict):
                    raise Unsupported('del')
                self.check_mutable(obj)
                if isinstance(obj, dict):
                    from lib import dict_key
                    k = dict_key(self, obj, key)
                    if k is None:
                        self.raise_(KeyError, key)
                    key = k[0]
                del obj[key]
            else:
                raise Unsupported('del')

    def st_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def st_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            self.raise_(AssertionError)

    def st_Raise(self, st, env):
        if st.exc is None:
            if not getattr(self, 'handling', None):
                raise Unsupported('raise without exception')
            raise self.handling[-1]
        v = self.eval(st.exc, env)
        if isinstance(v, PyExc):
            raise v
        if isinstance(v, ClassInfo) or (isinstance(v, type) and issubclass(v, BaseException)):
            raise PyExc(v)
        if isinstance(v, SObj):
            raise PyExc(v.cls, v.attrs.get('args', ()))
        raise Unsupported('raise {}'.format(v))

    def exc_matches(self, e, cls):
        if isinstance(cls, (tuple, list)):
            return any(self.exc_matches(e, c) for c in cls)
        if isinstance(e.cls, ClassInfo):
            return e.cls.issub(cls)
        return isinstance(cls, type) and issubclass(e.cls, cls)

    def st_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e, self.eval(h.type, env)):
                        if h.name:
                            env.vars[h.name] = e
                        self.__dict__.setdefault('handling', []).append(e)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env)

    def st_With(self, st, env):
        if not getattr(self, 'simple_contexts', False):
            raise Unsupported('with')
        for w in st.items:
            v = self.eval(w.context_expr, env)
            if w.optional_vars is not None:
                self.assign(w.optional_vars, v, env)
        self.exec_block(st.body, env)

    def st_While(self, st, env):
        if getattr(self, 'while_contract', None):
            return self.while_contract(self, st, env)
        n = 0
        while True:
            c = self.eval(st.test, env)
            if isinstance(c, T) and truth(c) not in (TRUE, FALSE):
                raise Unsupported('while loop without an invariant')
            if not self.truth(c):
                break
            n += 1
            if n > 200:
                raise Unsupported('while loop')
            try:
                self.exec_block(st.body, env)
            except Break:
                return
            except Continue:
                pass
        self.exec_block(st.orelse, env)

    def st_For(self, st, env):
        it = self.forced(self.eval(st.iter, env))
        if hasattr(it, 'sym_for'):
            return it.sym_for(self, st, env)
        seq = self.try_concrete(it)
        if seq is None:
            import loops
            return loops.run(self, st, it, env)
        for x in seq:
            self.assign(st.target, x, env)
            try:
                self.exec_block(st.body, env)
            except Break:
                return
            except Continue:
                continue
        self.exec_block(st.orelse, env)

    def try_concrete(self, it):
        """the elements if their number is known, else None"""
        from lib import force
        it = force(self, it)
        if isinstance(it, (list, tuple, str, range, set, frozenset)):
            return list(it)
        if isinstance(it, dict):
            return list(it)
        if type(it).__name__ in ('dict_items', 'dict_keys', 'dict_values', 'zip', 'enumerate', 'odict_items', 'odict_keys', 'odict_values'):
            return list(it)
        from lib import concrete_items
        return concrete_items(self, it)

    def iterate(self, it):
        from lib import force
        it = force(self, it)
        r = self.try_concrete(it)
        if r is None:
            raise Unsupported('iteration over {}'.format(type(it).__name__))
        return r

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_key(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            if any(isinstance(x, ast.Starred) for x in t.elts) or len(vs) != len(t.elts):
                raise Unsupported('unpacking')
            for a, b in zip(t.elts, vs):
                self.assign(a, b, env)
        else:
            raise Unsupported('assignment')

    def check_mutable(self, obj):
        if self.in_sub and id(obj) not in self.fresh:
            raise Unsupported('mutation of an outer object inside a loop over an unknown number of elements')

    def new(self, obj):
        if self.in_sub:
            self.fresh.add(id(obj))
            self.keep.append(obj)
            if isinstance(obj, Arr):
                self.fresh.add(id(obj.buf))
        return obj

    def setattr(self, obj, name, v):
        if isinstance(obj, SObj):
            s = obj.cls.find('@set:' + name) if isinstance(obj.cls, ClassInfo) else None
            if s is not None:
                return self.call(Bound(obj, s), [v], {})
            if self.in_sub and id(obj) not in self.fresh:
                raise Unsupported('attribute of an outer object changed in a loop')
            obj.attrs[name] = v
        elif isinstance(obj, ClassInfo):
            raise Unsupported('class attribute assignment')
        else:
            from lib import set_attr
            set_attr(self, obj, name, v)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, env):
        f = getattr(self, 'ex_' + type(e).__name__, None)
        if f is None:
            raise Unsupported('expression ' + type(e).__name__)
        return f(e, env)

    def ex_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return num(v)
        return v

    def ex_Name(self, e, env):
        return env.lookup(e.id)

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ex_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def ex_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval_key(e.slice, env))

    def eval_key(self, s, env):
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_key(x, env) for x in s.elts)
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, env)
            return slice(g(s.lower), g(s.upper), g(s.step))
        return self.eval(s, env)

    def ex_Slice(self, e, env):
        return self.eval_key(e, env)

    def ex_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.eval(x.value, env))
            else:
                out.append(self.eval(x, env))
        return out

    def ex_List(self, e, env):
        return self.new(self.elts(e.elts, env))

    def ex_Set(self, e, env):
        vs = self.elts(e.elts, env)
        if any(isinstance(v, T) for v in vs):
            return self.sym_set(vs)
        return self.new(set(vs))

    def ex_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v, env)
                if not isinstance(m, dict):
                    raise Unsupported('** in a dict display')
                d.update(m)
            else:
                self.dict_store(d, self.eval(k, env), self.eval(v, env))
        if not d and self.empty_dict is not None:
            return self.new(self.empty_dict())
        return self.new(d)

    def dict_store(self, d, k, v):
        from lib import dict_key, force
        k = force(self, k)
        old = dict_key(self, d, k)
        d[k if old is None else old[0]] = v

    def sym_set(self, vs):
        from lib import SetOf, as_arr
        return SetOf(as_arr(self, list(vs)))

    def ex_JoinedStr(self, e, env):
        vals = [self.eval(x.value, env) for x in e.values if isinstance(x, ast.FormattedValue)]
        from lib import format_
        parts = []
        i = 0
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                parts.append(vals[i])
                i += 1
        return format_(self, 'fstring', parts)

    def ex_Lambda(self, e, env):
        return Func(e, env.module, None, env)

    def ex_IfExp(self, e, env):
        c = self.eval(e.test, env)
        return self.eval(e.body, env) if self.truth(c) else self.eval(e.orelse, env)

    def ex_BoolOp(self, e, env):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return False if isinstance(v, T) and v.sort == 'B' else v
            if isinstance(e.op, ast.Or) and t:
                return True if isinstance(v, T) and v.sort == 'B' else v
        return v

    def truth(self, v):
        if isinstance(v, T):
            from lib import nonempty
            ne = nonempty(v)
            return self.branch(v if ne is None else ne)
        if v is None or isinstance(v, (bool, int, str, list, tuple, dict, set, frozenset, Fraction)):
            return bool(v)
        from lib import truth_of
        return self.branch(truth_of(self, v))

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, T):
                from lib import nonempty
                ne = nonempty(v)
                return self.unbool(not_(truth(v) if ne is None else ne))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.map1(lambda x: neg(x) if isinstance(x, T) else -x, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, int) and not isinstance(v, bool):
                return ~v
            return self.map1(lambda x: not_(lift(x)), v)
        raise Unsupported('unary operator')

    def map1(self, f, v):
        from lib import lift_elementwise
        return lift_elementwise(self, f, v)

    @staticmethod
    def unbool(t):
        return True if t is TRUE else False if t is FALSE else t

    def ex_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        from lib import binop
        return binop(self, op, a, b)

    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            v = self.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            if not self.truth(v):
                return False
            left, res = right, v
        return res

    def compare(self, op, a, b):
        from lib import compare
        return compare(self, op, a, b)

    # comprehensions
    def ex_ListComp(self, e, env):
        return self.comp(e, env, 'list')

    def ex_GeneratorExp(self, e, env):
        return self.comp(e, env, 'list')

    def ex_SetComp(self, e, env):
        r = self.comp(e, env, 'set')
        return r

    def ex_DictComp(self, e, env):
        return self.comp(e, env, 'dict')

    def forced(self, x):
        return x.force(self) if isinstance(x, Dyn) else x

    def comp(self, e, env, kind):
        inner = Env(env.module, {}, env)
        gens = e.generators
        it = self.forced(self.eval(gens[0].iter, env))
        if hasattr(it, 'sym_comp'):
            return it.sym_comp(self, e, inner, kind)
        if self.try_concrete(it) is None:
            import loops
            return loops.comprehension(self, e, it, inner, kind)
        out = []

        def go(k):
            if k == len(gens):
                if kind == 'dict':
                    out.append((self.eval(e.key, inner), self.eval(e.value, inner)))
                else:
                    out.append(self.eval(e.elt, inner))
                return
            seq = it if k == 0 else self.forced(self.eval(gens[k].iter, inner))
            for x in self.iterate(seq):
                self.assign(gens[k].target, x, inner)
                if all(self.truth(self.eval(c, inner)) for c in gens[k].ifs):
                    go(k + 1)
        go(0)
        if kind == 'dict':
            d = {}
            for k, v in out:
                self.dict_store(d, k, v)
            return self.new(d)
        if kind == 'set':
            if any(isinstance(k, T) for k in out):
                return self.sym_set(out)
            return self.new(set(out))
        return self.new(out)

    # ------------------------------------------------------------------ attributes, items
    def getattr(self, obj, name):
        if isinstance(obj, SObj):
            if name in obj.attrs:
                v = obj.attrs[name]
                return v
            if name == '__class__':
                return obj.cls
            f = obj.cls.find(name) if isinstance(obj.cls, ClassInfo) else None
            if f is None:
                h = obj.cls.find('__getattr__') if isinstance(obj.cls, ClassInfo) else None
                if h is not None:
                    return self.call(Bound(obj, h), [name], {})
                if getattr(obj, 'stub', None):
                    return obj.stub(name)
                self.raise_(AttributeError, name)
            if isinstance(f, Func):
                if f.static:
                    return f
                if f.classm:
                    return Bound(obj.cls, f)
                if f.prop:
                    return self.call(Bound(obj, f), [], {})
                return Bound(obj, f)
            return f
        if isinstance(obj, ClassInfo):
            f = obj.find(name)
            if f is None:
                if name == '__name__':
                    return obj.name
                raise Unsupported('attribute {} of {}'.format(name, obj))
            if isinstance(f, Func) and f.classm:
                return Bound(obj, f)
            return f
        if isinstance(obj, Module):
            if obj.has(name):
                return obj.lookup(name)
            return self.import_module(obj.name + '.' + name)
        if isinstance(obj, Lib):
            if name in obj.ns:
                return obj.ns[name]
            full = obj.name + '.' + name
            if full in self.libs:
                return self.libs[full]
            if obj.name == 'scipy.constants':
                return const('c_' + name)
            raise Unsupported('{}.{}'.format(obj.name, name))
        from lib import get_attr
        return get_attr(self, obj, name)

    def getitem(self, obj, key):
        from lib import getitem
        return getitem(self, obj, key)

    def setitem(self, obj, key, v):
        from lib import setitem
        return setitem(self, obj, key, v)

    # ------------------------------------------------------------------ calls
    def ex_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            if e.args:
                raise Unsupported('super with arguments')
            return self.super_(env)
        f = self.eval(e.func, env)
        args = self.elts(e.args, env)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unsupported('** of an unknown dict')
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def super_(self, env):
        e = env
        while e is not None and '@cls' not in e.vars:
            e = e.parent
        if e is None:
            raise Unsupported('super')
        return Super(e.vars['@self'], e.vars['@cls'])

    def call(self, f, args, kwargs):
        if isinstance(f, Native):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, Bound):
            if isinstance(f.func, Native):
                return f.func.fn(self, f.obj, *args, **kwargs)
            return self.call_func(f.func, [f.obj] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, ClassInfo):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return PyExc(f, args)
        if isinstance(f, SObj):
            h = f.cls.find('__call__')
            if h is not None:
                return self.call(Bound(f, h), args, kwargs)
        if callable(f) and not isinstance(f, (T, Arr)):
            return f(*args, **kwargs)
        raise Unsupported('call of {}'.format(f))

    def instantiate(self, cls, args, kwargs):
        q = cls.name + '.__init__'
        if any(isinstance(c, type) and issubclass(c, BaseException) for c in cls.mro):
            return PyExc(cls, args)
        if cls.name in self.contracts:
            self.used_contracts.add(cls.name)
            return self.contracts[cls.name](self, *args, **kwargs)
        o = self.new(SObj(cls))
        init = cls.find('__init__')
        if init is not None:
            self.call(Bound(o, init), args, kwargs)
        elif args or kwargs:
            raise Unsupported('constructor arguments')
        return o

    def call_func(self, f, args, kwargs):
        q = f.qualname
        c = self.contracts.get(q)
        if c is not None and (q != self.target or self.in_target):
            self.used_contracts.add(q)
            return c(self, *args, **kwargs)
        if q != self.target:
            self.inlined.add(q)
            return self.run_body(f, args, kwargs)
        self.in_target += 1  # a recursive call is made by contract, if there is one
        try:
            return self.run_body(f, args, kwargs)
        finally:
            self.in_target -= 1

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        if len(args) > len(names):
            if not a.vararg:
                self.raise_(TypeError)
            vars_[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            vars_[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vars_[n] = v
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vars_:
                    self.raise_(TypeError)
                vars_[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_(TypeError, k)
        if a.kwarg:
            vars_[a.kwarg.arg] = extra
        denv = f.env or Env(f.module, {})
        if f.cls is not None:
            denv = Env(f.module, f.cls.namespace(), f.env)
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in vars_:
                vars_[n] = self.eval(d, denv)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vars_ and d is not None:
                vars_[x.arg] = self.eval(d, denv)
        for n in names:
            if n not in vars_:
                self.raise_(TypeError, n)
        return vars_

    def run_body(self, f, args, kwargs):
        vars_ = self.bind(f, args, kwargs)
        env = Env(f.module, vars_, f.env, f.node)
        if f.cls is not None and not f.static and args:
            env.vars['@cls'], env.vars['@self'] = f.cls, args[0]
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, env)
        if not hasattr(f.node, 'is_gen'):
            f.node.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
        if f.node.is_gen:
            raise Unsupported('generator ' + f.name)
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported('recursion without a contract: ' + f.qualname)
        try:
            self.exec_block(f.node.body, env)
        except Return as r:
            return r.v
        finally:
            self.depth -= 1
        return None


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls
