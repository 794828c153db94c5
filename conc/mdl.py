"""Helpers for the model checks: chemistries given by the documented interface, and a stand-in for the ODE solver (which is outside
the scope of every property) that returns an arbitrary trajectory."""
import contextlib
import numpy as np
import eqref


class Chem(eqref.FakeChemistry):
    dumped = None

    def dump_chemistry_attributes(self, path):
        with open(path, 'w') as f:
            f.write('{}\n')


def chem(d):
    return Chem(d)


class Raw:
    def __init__(self, t, y, success=True, message='done'):
        self.t, self.y, self.success, self.message = t, y, success, message
        self.nfev = self.njev = self.nlu = 1
        self.status = 0 if success else -1


@contextlib.contextmanager
def solver(fn):
    """replaces scipy's solve_ivp, under every name the model module may have bound."""
    import scipy.integrate
    import pygmo_fwork.pygmol.model as m
    old = scipy.integrate.solve_ivp
    had = {k: v for k, v in vars(m).items() if v is old}
    scipy.integrate.solve_ivp = fn
    for k in had:
        setattr(m, k, fn)
    try:
        yield
    finally:
        scipy.integrate.solve_ivp = old
        for k, v in had.items():
            setattr(m, k, v)


def call_args(args, kwargs):
    """(fun, t_span, y0, method, ...) of a call of solve_ivp."""
    names = ['fun', 't_span', 'y0', 'method', 't_eval']
    d = dict(zip(names, args))
    d.update(kwargs)
    return d


def trajectory(rng, d, y0, t_end, neutral=False, steps=None):
    k = steps or rng.randint(2, 6)
    t = np.array([0.] + sorted(rng.uniform(0, t_end) for _ in range(k - 2)) + [t_end], dtype=float)
    y = np.array([list(eqref.gen_y(rng, d, neutral)) for _ in range(k)]).T
    return t, y
