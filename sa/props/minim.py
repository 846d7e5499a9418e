"""Shared driver text for the minimizer properties: scipy's entry points are
replaced by recorders which note what they are given and return a symbol."""

HEAD = '''
import numpy as np
import sympy
import scipy.optimize
from symfit.core.objectives import *
from symfit.core.objectives import BaseObjective, GradientObjective, HessianObjective
from symfit.core.minimizers import *
from symfit.core.minimizers import (
    BaseMinimizer, BoundedMinimizer, ConstrainedMinimizer, GradientMinimizer,
    HessianMinimizer, GlobalMinimizer, ScipyMinimize, ScipyGradientMinimize,
    ScipyBoundedMinimizer, ScipyHessianMinimize, ScipyConstrainedMinimize)


class FakeResults(object):
    def __init__(self, **kw):
        self.kw = kw
        self.constraints = kw.get('constraints', [])
        self.minimizer_output = {'nit': spec_sym('nit'), 'nfev': spec_sym('nfev'),
                                 'niter': spec_sym('niter')}


class Answer(object):
    """an optimiser's answer: a mapping with attribute access"""
    def __init__(self):
        self.d = {'x': spec_sym('ans_x'),
                  'message': spec_sym('ans_message'),
                  'success': spec_sym('ans_success'),
                  'fun': spec_sym('ans_fun'),
                  'nit': spec_sym('ans_nit'),
                  'nfev': spec_sym('ans_nfev'),
                  'status': spec_sym('ans_status')}

    @property
    def x(self):
        return self.d['x']

    @x.setter
    def x(self, v):
        self.d['x'] = v

    @property
    def message(self):
        return self.d['message']

    @message.setter
    def message(self, v):
        self.d['message'] = v

    @property
    def success(self):
        return self.d['success']

    @success.setter
    def success(self, v):
        self.d['success'] = v

    @property
    def fun(self):
        return self.d['fun']

    @fun.setter
    def fun(self, v):
        self.d['fun'] = v

    @property
    def nit(self):
        return self.d['nit']

    @nit.setter
    def nit(self, v):
        self.d['nit'] = v

    @property
    def nfev(self):
        return self.d['nfev']

    @nfev.setter
    def nfev(self, v):
        self.d['nfev'] = v

    @property
    def status(self):
        return self.d['status']

    @status.setter
    def status(self, v):
        self.d['status'] = v

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def __iter__(self):
        return iter(self.d)

    def __contains__(self, k):
        return k in self.d

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def get(self, k, default=None):
        return self.d.get(k, default)

    def pop(self, k, *default):
        return self.d.pop(k, *default)

    def setdefault(self, k, v=None):
        return self.d.setdefault(k, v)


def applied(f, *args):
    if isinstance(f, scipy.optimize.BFGS):
        return f
    return f(*args) if callable(f) else f


def free_of(ps):
    return [p for p in ps if not p.fixed]


def merged(ps, x):
    """fixed parameters keep their value, the others take x in order"""
    x = np.atleast_1d(x)
    out, k = [], 0
    for p in ps:
        if p.fixed:
            out.append(p.value)
        else:
            out.append(x[k])
            k += 1
    return out


def masked(ps, g):
    """the entries of a gradient which belong to the non-fixed parameters"""
    g = np.atleast_1d(np.squeeze(g))
    return np.array([g[k] for k in range(len(ps)) if not ps[k].fixed])


def masked_rows(ps, J):
    J = np.atleast_2d(J)
    keep = [k for k in range(len(ps)) if not ps[k].fixed]
    return np.array([np.array([row[k] for k in keep]) for row in J])


def masked2(ps, H):
    """rows and columns of a Hessian of the non-fixed parameters"""
    H = np.atleast_2d(np.squeeze(H))
    keep = [k for k in range(len(ps)) if not ps[k].fixed]
    return np.atleast_2d(np.array([np.array([H[i][j] for j in keep]) for i in keep]))


def values(x):
    return [y for y in x]

'''

SCIPY = ('scipy.optimize.minimize', 'scipy.optimize.differential_evolution',
         'scipy.optimize.basinhopping', 'scipy.optimize.least_squares')


def fakes(body_min='', body_de='', body_bh='', body_ls=''):
    """recorders; each body is the spec_note statement(s) to run"""
    return '''
def fake_minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None,
                  bounds=None, constraints=(), tol=None, callback=None,
                  options=None, **other):
    x = spec_sym('x')
%s
    return Answer()


def fake_de(func, bounds, args=(), **other):
    x = spec_sym('x')
%s
    return Answer()


def fake_bh(func, x0, minimizer_kwargs=None, **other):
    x = spec_sym('x')
    method = minimizer_kwargs.get('method')
    jac = minimizer_kwargs.get('jac')
    bounds = minimizer_kwargs.get('bounds')
    constraints = minimizer_kwargs.get('constraints')
%s
    return Answer()


def fake_ls(fun, x0, jac='2-point', bounds=None, method='trf', **other):
    x = spec_sym('x')
%s
    return Answer()

''' % tuple('\n'.join('    ' + l for l in (b or 'pass').strip().splitlines())
            for b in (body_min, body_de, body_bh, body_ls))


INTERCEPT = {'FitResults': 'FakeResults',
             'scipy.optimize.minimize': 'fake_minimize',
             'scipy.optimize.differential_evolution': 'fake_de',
             'scipy.optimize.basinhopping': 'fake_bh',
             'scipy.optimize.least_squares': 'fake_ls'}

OPAQUE = {'LeastSquares.__call__', 'LeastSquares.eval_jacobian',
          'LeastSquares.eval_hessian', 'VectorLeastSquares.__call__',
          'VectorLeastSquares.eval_jacobian', 'MinimizeModel.__call__',
          'MinimizeModel.eval_jacobian', 'MinimizeModel.eval_hessian'}
SIMPLE = ['BFGS', 'SLSQP', 'COBYLA', 'LBFGSB', 'NelderMead', 'Powell', 'TrustConstr']
