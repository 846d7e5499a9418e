from ..check import Obl

DRIVER = '''
import numpy as np
from collections import OrderedDict
from symfit.core.argument import Parameter, Variable
from symfit.core.fit_results import FitResults, r_squared
from symfit.core.models import ModelOutput
from symfit.core.objectives import (LeastSquares, MinimizeModel, LogLikelihood,
    VectorLeastSquares, BaseObjective)


class Mod(object):
    """a model of two components and an interdependent variable"""
    def __init__(self):
        self.params = [spec_par('p'), spec_par('q'), spec_par('r')]
        self.independent_vars = [spec_var('t'), spec_var('x')]
        self.dependent_vars = [spec_var('y'), spec_var('z')]

    def __call__(self, *args, **kwargs):
        out = [spec_sym(n)(list(args), sorted(kwargs.items())) for n in ('Y', 'A', 'Z')]
        return ModelOutput([spec_var('y'), spec_var('a'), spec_var('z')], out)


def arr(n):
    return np.asarray(spec_sym(n, 'Seq'))


def data():
    return {spec_var('x'): arr('xd'), spec_var('y'): arr('yd'), spec_var('z'): arr('zd'),
            spec_var('t'): arr('td')}


def popt():
    return [spec_scalar('vp'), spec_scalar('vq'), spec_scalar('vr')]


def obj(cls, data):
    if cls is None:
        return spec_sym('minimized')
    o = cls.__new__(cls)
    o.model = Mod()
    o.data = data
    return o


def matrix():
    return np.array([[spec_scalar('c%d%d' % (i, j)) for j in range(3)] for i in range(3)])


def result(cls=None, cov=None, fun=None, msg='done', d=None, **kw):
    return FitResults(Mod(), popt(), cov, 'minimizer', obj(cls, data() if d is None else d),
                      msg, fun=fun, **kw)


def lookup_got():
    r = result(MinimizeModel, matrix())
    return [[r.value(p), r.variance(p)] for p in r.model.params] + [
        list(r.params.items()), [v for k, v in r.params.items()]]


def lookup_want():
    c = matrix()
    v = popt()
    return [[v[k], c[k][k]] for k in range(3)] + [list(zip('pqr', v)), v]


def stdev_got():
    r = result(MinimizeModel, matrix())
    return [r.stdev(p) for p in r.model.params]


def stdev_want():
    c = matrix()
    return [np.sqrt(c[k][k]) for k in range(3)]


def cov_got():
    r = result(MinimizeModel, matrix())
    return [[r.covariance(p, q) for q in r.model.params] for p in r.model.params]


def cov_want():
    return [[spec_scalar('c%d%d' % (i, j)) for j in range(3)] for i in range(3)]


def nocov_got():
    r = result(MinimizeModel)
    p, q = r.model.params[:2]
    return r.variance(p), r.stdev(p), r.covariance(p, q), r.value(p), r.covariance_matrix


def nocov_want():
    return None, None, None, popt()[0], None


def later_got():
    """as Fit.execute does"""
    r = result(MinimizeModel)
    r.covariance_matrix = matrix()
    return [r.stdev(p) for p in r.model.params]


def foreign_got():
    result(MinimizeModel, matrix()).variance(spec_par('other'))


def foreign_want():
    raise ValueError('not a parameter of the model')


def value_foreign_got():
    result(MinimizeModel).value(spec_par('other'))


def value_foreign_want():
    raise KeyError('other')


def gofs(r):
    return sorted(r.gof_qualifiers.items(), key=lambda i: i[0])


def ls_got(fun):
    r = result(LeastSquares, fun=fun)
    return gofs(r), r.r_squared, r.chi_squared, r.objective_value


def residual(names):
    args = [arr('td'), arr('xd')]
    f = {n: spec_sym(n.upper())(args, list(zip('pqr', popt()))) for n in names}
    res = 0
    tot = 0
    for n in names:
        y = arr(n + 'd')
        res = res + np.sum((y - f[n]) ** 2)
        tot = tot + np.sum((y - np.mean(y)) ** 2)
    return 1 - res / tot


def ls_want(fun):
    R2 = residual('yz')
    return ([('chi_squared', 2 * fun), ('objective_value', fun), ('r_squared', R2)],
            R2, 2 * fun, fun)


def vls_got(fun):
    return gofs(result(VectorLeastSquares, fun=fun))


def vls_want(fun):
    return [('chi_squared', np.sum(fun ** 2)), ('objective_value', fun),
            ('r_squared', residual('yz'))]


def partial_got(fun):
    d = data()
    d[spec_var('y')] = None
    return result(LeastSquares, fun=fun, d=d).r_squared


def partial_want(fun):
    return residual('z')


def ll_got(fun):
    return gofs(result(LogLikelihood, fun=fun))


def ll_want(fun):
    return [('likelihood', np.exp(-fun)), ('log_likelihood', -fun), ('objective_value', fun)]


def mm_got(fun):
    return gofs(result(MinimizeModel, fun=fun))


def mm_want(fun):
    return [('objective_value', fun)]


class Own(LeastSquares):
    pass


class OwnLikelihood(LogLikelihood):
    pass


def own_got(fun):
    return gofs(result(Own, fun=fun)), gofs(result(OwnLikelihood, fun=fun))


def own_want(fun):
    return ls_want(fun)[0], ll_want(fun)


def absent_got(fun):
    return result(MinimizeModel, fun=fun).chi_squared


def absent_want(fun):
    raise AttributeError('chi_squared')


def raw_got(fun, n):
    r = result(MinimizeModel, fun=fun, nit=n, other=fun)
    s = result(MinimizeModel, fun=fun)
    return r.iterations, sorted(r.minimizer_output.items()), s.iterations


def raw_want(fun, n):
    return n, [('fun', fun), ('nit', n), ('other', fun)], None


def message_got(msg):
    return (result(MinimizeModel, msg='stopped').status_message,
            result(MinimizeModel, msg=b'bytes').status_message)


def message_want(msg):
    return 'stopped', 'bytes'


def parts_got(con):
    r = FitResults(Mod(), popt(), None, 'minimizer', obj(MinimizeModel, {}), 'm',
                   constraints=con, fun=1)
    s = result(MinimizeModel, fun=1)
    return r.constraints, s.constraints, r.minimizer, len(r.model.params)


def parts_want(con):
    return ([] if con is None else con), [], 'minimizer', 3
'''
R = 'FitResults.__init__'
G = 'FitResults._gof_qualifiers'
KW = dict(raises=True)
OBLIGATIONS = [
    Obl('values and variances', 'lookup_got', 'lookup_want',
        'belong to the parameter at that position of the model', 'FitResults.variance', **KW),
    Obl('standard deviations', 'stdev_got', 'stdev_want', 'are roots of the variances',
        'FitResults.stdev', **KW),
    Obl('covariances', 'cov_got', 'cov_want', 'have the rows and columns of the parameters',
        'FitResults.covariance', **KW),
    Obl('no covariance matrix', 'nocov_got', 'nocov_want', 'gives None', 'FitResults.variance', **KW),
    Obl('covariance matrix set later', 'later_got', 'stdev_want', 'is used', 'FitResults.stdev', **KW),
    Obl('unknown parameter', 'foreign_got', 'foreign_want', 'is refused', 'FitResults.variance', **KW),
    Obl('value of an unknown parameter', 'value_foreign_got', 'value_foreign_want', 'is refused',
        'FitResults.value', **KW),
    Obl('least squares', 'ls_got', 'ls_want',
        'R squared over all components, chi squared twice the objective', G, **KW),
    Obl('vector least squares', 'vls_got', 'vls_want', 'chi squared is the sum of squares', G, **KW),
    Obl('component without data', 'partial_got', 'partial_want', 'is no part of R squared',
        'r_squared', **KW),
    Obl('likelihood', 'll_got', 'll_want', 'is the exponential of minus the objective', G, **KW),
    Obl('minimization', 'mm_got', 'mm_want', 'has the objective value only', G, **KW),
    Obl('derived objectives', 'own_got', 'own_want', 'have the qualifiers of their base', G, **KW),
    Obl('absent qualifier', 'absent_got', 'absent_want', 'is an AttributeError',
        'FitResults.__getattr__', **KW),
    Obl('minimizer output', 'raw_got', 'raw_want', 'is kept', R, **KW),
    Obl('message', 'message_got', 'message_want', 'is text', R, **KW),
    Obl('parts', 'parts_got', 'parts_want', 'are kept', R, **KW),
]
# shared obligations
ALSO = {'C01': ['BFGS_got', 'SLSQP_got', 'TrustConstr_got', 'bh_got', 'mp_got', 'de_got']}
