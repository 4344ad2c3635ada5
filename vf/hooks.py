"""Interception of scipy.optimize.least_squares (installed before rt1 is imported).

The wrapper delegates to scipy unless a callback is installed; a callback observes exactly what
the optimiser is given (residual function, start values, jacobian function, bounds, options) and
decides what the optimiser returns.
"""
import functools

import numpy as np
import scipy.optimize as _so
from scipy.optimize import OptimizeResult

_orig = _so.least_squares
_stack = []


@functools.wraps(_orig)
def _least_squares(fun, x0, *args, **kwargs):
    if not _stack:
        return _orig(fun, x0, *args, **kwargs)
    return _stack[-1](fun, x0, *args, **kwargs)


def install():
    import sys

    assert not any(m == "rt1" or m.startswith("rt1.") for m in sys.modules), "install the hook before rt1 is imported"
    _so.least_squares = _least_squares
    import scipy.optimize._lsq as _lsq

    _lsq.least_squares = _least_squares


class Call:
    def __init__(self, fun, x0, jac, bounds, args, kwargs):
        self.fun, self.x0, self.jac, self.bounds, self.args, self.kwargs = fun, np.array(x0, float), jac, bounds, args, kwargs
        self.result = None

    def lohi(self):
        n = len(self.x0)
        return np.broadcast_to(np.asarray(self.bounds[0], float), n), np.broadcast_to(np.asarray(self.bounds[1], float), n)


class capture:
    """record every call of the optimiser; choose(call) -> x skips the real optimisation"""

    def __init__(self, choose=None, evals=None):
        self.choose, self.calls, self.evals = choose, [], evals

    def __enter__(self):
        _stack.append(self._cb)
        return self

    def __exit__(self, *exc):
        _stack.remove(self._cb)

    def _cb(self, fun, x0, *args, jac="2-point", bounds=(-np.inf, np.inf), **kwargs):
        args = list(args)
        if args:
            jac = args.pop(0)
        if args:
            bounds = args.pop(0)
        c = Call(fun, x0, jac, bounds, args, kwargs)
        self.calls.append(c)
        if self.choose is None:
            c.result = _orig(fun, x0, jac, bounds, *args, **kwargs)
            return c.result
        x = np.array(self.choose(c), float)
        c.result = OptimizeResult(x=x, fun=np.zeros(0), jac=None, cost=0.0, grad=np.zeros_like(x), optimality=0.0,
                                  active_mask=np.zeros_like(x), nfev=1, njev=1, status=1, message="captured", success=True)
        return c.result
