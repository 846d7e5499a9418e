from ..check import Obl

DRIVER = '''
import numpy as np
import sympy
from collections import OrderedDict
from symfit.core.argument import Parameter, Variable
from symfit.core.fit_results import FitResults
from symfit.core.fit import Fit, TakesData, HasCovarianceMatrix
from symfit.core.models import Model, CallableModel, CallableNumericalModel
from symfit.core.objectives import (LeastSquares, MinimizeModel, LogLikelihood,
    VectorLeastSquares, HessianObjectiveJacApprox, BaseObjective)


class Par(object):
    def __init__(self, name, fixed):
        self.name = name
        self.fixed = fixed

    def __str__(self):
        return self.name


class Mod(object):
    """a model with parameters p, q, r"""
    def __init__(self, *fixed):
        self.params = [Par(n, f) for n, f in zip('pqr', fixed)]
        self.free_params = [p for p in self.params if not p.fixed]
        self.dependent_vars = [spec_var('y')]
        self.independent_vars = [spec_var('x')]


class H(HasCovarianceMatrix):
    def __init__(self, model, objective, absolute):
        self.model = model
        self.objective = objective
        self.absolute_sigma = absolute
        self.data = {spec_var('x'): np.asarray(spec_sym('x', 'Seq')),
                     spec_var('y'): np.asarray(spec_sym('y', 'Seq'))}
        self.sigmas_provided = spec_sym('given')


def entry(approx, i, j):
    return spec_scalar('%s%d%d' % ('approx' if approx else 'h', i, j))


def evaluated_at(a, k, n):
    return len(a) == 0 and sorted(k.items()) == sorted(args(n).items())


def own_data(o):
    """the data of the objective, which need not be those of the fit"""
    return spec_var('own') in o.data


def hess3(self, *a, **k):
    if not evaluated_at(a, k, 3) or not own_data(self):
        raise RuntimeError('evaluated elsewhere')
    return np.array([[entry(isinstance(self, HessianObjectiveJacApprox), i, j)
                      for j in range(3)] for i in range(3)])


def hess1(self, *a, **k):
    if not evaluated_at(a, k, 1) or not own_data(self):
        raise RuntimeError('evaluated elsewhere')
    return np.array([[[[entry(isinstance(self, HessianObjectiveJacApprox), 0, 0)]]]])


def nothing(*a, **k):
    return None


def value(self, *a, **k):
    if not evaluated_at(a, k, len(k)):
        raise RuntimeError('evaluated elsewhere')
    return spec_scalar('S')


def none3(self, *a, **k):
    """no Hessian of the model: the Jacobian approximation only"""
    if isinstance(self, HessianObjectiveJacApprox):
        return hess3(self, *a, **k)
    return None


def init(self, model, data):
    self.model = model
    self.data = data


def cov(cls, absolute, *fixed):
    m = Mod(*fixed)
    o = cls.__new__(cls)
    o.model = m
    o.data = {spec_var('x'): np.asarray(spec_sym('x', 'Seq')),
              spec_var('y'): np.asarray(spec_sym('y', 'Seq')), spec_var('own'): None}
    return H(m, o, absolute).covariance_matrix(OrderedDict(
        [(p, spec_scalar('v' + p.name)) for p in m.params]))


def free_idx(fixed):
    return [k for k in range(len(fixed)) if not fixed[k]]


def inverse(hess, fixed):
    """inverse of the block of the free parameters, zero elsewhere"""
    idx = free_idx(fixed)
    try:
        inv = np.linalg.inv(np.array([[hess[i][j] for j in idx] for i in idx]))
    except np.linalg.LinAlgError:
        return None
    return [[inv[idx.index(i)][idx.index(j)] if i in idx and j in idx else 0
             for j in range(len(fixed))] for i in range(len(fixed))]


def args(n):
    return dict([(p, spec_scalar('v' + p)) for p in 'pqr'[:n]])


def scaled(inv, absolute, fixed):
    if inv is None:
        return None
    n = np.asarray(spec_sym('y', 'Seq')).size
    S = value(None, **args(len(fixed)))
    if absolute:
        s2 = 1
    else:
        s2 = 2 * S / (n - len(free_idx(fixed)))
    return np.array([[s2 * e for e in row] for row in inv])


def plain(inv):
    return None if inv is None else np.array([[e for e in row] for row in inv])


def attempt(approx, cls, absolute, fixed):
    n = len(fixed)
    h = [[entry(approx, i, j) for j in range(n)] for i in range(n)]
    inv = inverse(h, fixed)
    if cls is LeastSquares:
        return scaled(inv, absolute, fixed)
    return plain(inv)


def expected(cls, absolute, fixed, nohess):
    """exact Hessian, or else the Jacobian approximation"""
    r = None
    if cls is VectorLeastSquares:
        cls = LeastSquares
    elif not nohess:
        r = attempt(False, cls, absolute, fixed)
    if r is None:
        r = attempt(True, cls, absolute, fixed)
    return r
'''
OBLIGATIONS = []
NAMES = []
K = 0


def add(name, cls, absolute, fixed, hess, rule):
    global DRIVER, K
    K += 1
    DRIVER += '''
def g%(k)d(%(a)s):
    return cov(%(c)s, %(b)s, *%(f)s)


def w%(k)d(%(a)s):
    return expected(%(c)s, %(b)s, %(f)s, %(n)s)
''' % {'k': K, 'c': cls, 'a': 'absolute' if absolute is None else '',
       'b': 'absolute' if absolute is None else absolute, 'f': fixed, 'n': hess == 'none3'}
    base = 'LeastSquares' if cls == 'VectorLeastSquares' else cls
    OBLIGATIONS.append(Obl(
        name, 'g%d' % K, 'w%d' % K, rule, 'HasCovarianceMatrix._covariance_matrix',
        raises=True, intercept={base + '.eval_hessian': hess, base + '.__call__': 'value',
                                'BaseObjective.__init__': 'init'}))



add('relative sigmas', 'LeastSquares', False, (False, False, False), 'hess3',
    'inverse Hessian times the residual variance')
add('absolute sigmas', 'LeastSquares', True, (False, False, False), 'hess3', 'inverse Hessian')
add('any sigmas', 'LeastSquares', None, (False, False, False), 'hess3',
    'depends on absolute_sigma only')
add('first fixed', 'LeastSquares', None, (True, False, False), 'hess3',
    'fixed parameters are constants')
add('middle fixed', 'LeastSquares', None, (False, True, False), 'hess3',
    'fixed parameters are constants')
add('two fixed', 'LeastSquares', None, (True, True, False), 'hess3',
    'fixed parameters are constants')
add('likelihood', 'LogLikelihood', None, (False, True, False), 'hess3', 'inverse Hessian')
add('model objective', 'MinimizeModel', None, (False, False, True), 'hess3', 'inverse Hessian')
add('one parameter', 'LeastSquares', None, (False,), 'hess1', 'is squeezed to a matrix')
add('one parameter of a model', 'MinimizeModel', None, (False,), 'hess1',
    'is squeezed to a matrix')
add('vector objective', 'VectorLeastSquares', None, (False, True, False), 'hess3',
    'uses the Jacobian approximation of least squares')
add('no Hessian', 'LeastSquares', None, (False, True, False), 'none3',
    'uses the Jacobian approximation')
add('no Hessian of a likelihood', 'LogLikelihood', None, (False, False, False), 'none3',
    'uses the Jacobian approximation')

DRIVER += '''
class Mod2(Mod):
    """two components"""
    def __init__(self):
        super(Mod2, self).__init__(False, True, False)
        self.dependent_vars = [spec_var('y'), spec_var('z')]


class H2(HasCovarianceMatrix):
    def __init__(self, absolute, y, z):
        self.model = Mod2()
        self.absolute_sigma = absolute
        self.data = {spec_var('x'): np.asarray(spec_sym('x', 'Seq')),
                     spec_var('y'): y, spec_var('z'): z}
        self.objective = LeastSquares.__new__(LeastSquares)
        self.objective.model = self.model
        self.objective.data = {spec_var('x'): np.asarray(spec_sym('x', 'Seq')),
                               spec_var('y'): np.asarray(spec_sym('y', 'Seq')), spec_var('own'): None}


def got_two(absolute):
    y = np.asarray(spec_sym('y', 'Seq'))
    h = H2(absolute, y, y)
    return h.covariance_matrix(OrderedDict(
        [(p, spec_scalar('v' + p.name)) for p in h.model.params]))


def want_n(absolute, n):
    fixed = (False, True, False)
    r = None
    for approx in [False, True]:
        if r is None:
            inv = inverse([[entry(approx, i, j) for j in range(3)] for i in range(3)], fixed)
            if inv is not None:
                s2 = 1 if absolute else 2 * value(None, **args(3)) / (n - 2)
                r = np.array([[s2 * e for e in row] for row in inv])
    return r


def want_two(absolute):
    return want_n(absolute, 2 * np.asarray(spec_sym('y', 'Seq')).size)


def variant_two(absolute):
    return want_n(absolute, np.asarray(spec_sym('y', 'Seq')).size)


def got_none(absolute):
    y = np.asarray(spec_sym('y', 'Seq'))
    h = H2(absolute, y, None)
    return h.covariance_matrix(OrderedDict(
        [(p, spec_scalar('v' + p.name)) for p in h.model.params]))


def got_nohessian(absolute):
    """an objective without a Hessian has no covariance"""
    h = H2(absolute, None, None)
    return h._covariance_matrix(OrderedDict(), Par('p', False))


def want_nohessian(absolute):
    return None


class FakeMin(object):
    def execute(self, **options):
        spec_note('run', sorted(options.items()))
        return FitResults(Mod(False, True), [spec_scalar('vp'), spec_scalar('vq')], None,
                          'minimizer', spec_sym('minimized'), 'done', fun=1)


class FakeFit(Fit):
    def __init__(self):
        self.model = Mod(False, True)
        self.minimizer = FakeMin()

    def covariance_matrix(self, best):
        spec_note('covariance of', [(p.name, v) for p, v in best.items()])
        return spec_sym('covariance')


def got_execute():
    f = FakeFit()
    r = f.execute(maxiter=3)
    return r.covariance_matrix, r.model is f.model, r.minimizer is f.minimizer


def want_execute():
    spec_note('run', [('maxiter', 3)])
    spec_note('covariance of', [('p', spec_scalar('vp')), ('q', spec_scalar('vq'))])
    return spec_sym('covariance'), True, True
'''
ICPT = {'LeastSquares.eval_hessian': 'hess3', 'LeastSquares.__call__': 'value',
        'BaseObjective.__init__': 'init'}
OBLIGATIONS += [
    Obl('two components of one shape', 'got_two', 'want_two',
        'all data points of all components count', 'HasCovarianceMatrix._covariance_matrix',
        raises=True, intercept=ICPT, variants={'dof': 'variant_two'}),
    Obl('component without data', 'got_none', 'variant_two',
        'components without data have no data points',
        'HasCovarianceMatrix._covariance_matrix', raises=True, intercept=ICPT),
    Obl('no Hessian at all', 'got_nohessian', 'want_nohessian',
        'gives no covariance', 'HasCovarianceMatrix._covariance_matrix', raises=True),
    Obl('attached to the result', 'got_execute', 'want_execute',
        'of the best fit values', 'Fit.execute', notes=True),
]
