from ..check import Obl

DRIVER = '''
import numpy as np
from symfit.core.objectives import (
    BaseObjective, GradientObjective, HessianObjective, VectorLeastSquares,
    LeastSquares, LogLikelihood, MinimizeModel, HessianObjectiveJacApprox)


def components(obj, p, a):
    """model components, one per dependent variable"""
    ys = BaseObjective.__call__(obj, p, a=a)
    spec_injective(obj.model.sigmas)
    spec_size(obj.model.dependent_vars)
    spec_size(ys)
    ys = BaseObjective.__call__(obj, p, a=a)
    spec_same_length(obj.model.dependent_vars, ys)
    return ys


def chi2_terms(obj, p, a):
    """weighted squared residuals of the components which have data"""
    m = obj.model
    return [(f - obj.data[v])**2 / obj.data[m.sigmas[v]]**2
            for v, f in zip(m.dependent_vars, components(obj, p, a))
            if obj.data[v] is not None]


def ls_got(obj: LeastSquares, p, a):
    components(obj, p, a)
    return obj(p, a=a)


def ls_want(obj: LeastSquares, p, a):
    return sum(np.sum(x) for x in chi2_terms(obj, p, a)) / 2


def lsk_got(obj: LeastSquares, p, a):
    components(obj, p, a)
    return obj(ordered_parameters=p, flatten_components=True, a=a)


def lsc_got(obj: LeastSquares, p, a):
    components(obj, p, a)
    return obj(p, flatten_components=False, a=a)


def lsc_want(obj: LeastSquares, p, a):
    m = obj.model
    return [np.sum((f - obj.data[v])**2 / obj.data[m.sigmas[v]]**2) / 2
            if obj.data[v] is not None else 0
            for v, f in zip(m.dependent_vars, components(obj, p, a))]


def vls_got(obj: VectorLeastSquares, p, a):
    components(obj, p, a)
    return obj(p, a=a)


def vls_want(obj: VectorLeastSquares, p, a):
    return np.sqrt(sum(x.flatten() for x in chi2_terms(obj, p, a)))


def vlsn_got(obj: VectorLeastSquares, p, a):
    components(obj, p, a)
    return obj(p, flatten_components=False, a=a)


def vlsn_want(obj: VectorLeastSquares, p, a):
    return np.sqrt(sum(chi2_terms(obj, p, a)))


def ll_got(obj: LogLikelihood, p, a):
    components(obj, p, a)
    return obj(p, a=a)


def ll_want(obj: LogLikelihood, p, a):
    return -sum(np.nansum(np.log(f)) for f in components(obj, p, a))


def mm_got(obj: MinimizeModel, p, a):
    return obj(p, a=a)


def mm_want(obj: MinimizeModel, p, a):
    return BaseObjective.__call__(obj, p, a=a)[0]


def mmi_got(model, data):
    MinimizeModel(model, data)


def mmi_want(model, data):
    if len(model.dependent_vars) > 1:
        raise TypeError('only scalar functions')
    MinimizeModel.__mro__
'''

OP = {'BaseObjective.__call__', 'GradientObjective.eval_jacobian',
      'HessianObjective.eval_hessian'}
OBLIGATIONS = [
    Obl('least-squares value', 'ls_got', 'ls_want',
        'S = 1/2 * sum over components with data of sum((f - y)^2 / sigma^2)',
        'LeastSquares.__call__', opaque=OP),
    Obl('least-squares value, keyword form', 'lsk_got', 'ls_want',
        'S by keyword arguments is S',
        'LeastSquares.__call__', opaque=OP),
    Obl('least-squares per component', 'lsc_got', 'lsc_want',
        'flatten_components=False returns S per component, 0 without data',
        'LeastSquares.__call__', opaque=OP),
    Obl('vector least-squares value', 'vls_got', 'vls_want',
        'sqrt of the summed squared weighted residuals, per data point',
        'VectorLeastSquares.__call__', opaque=OP),
    Obl('vector least-squares value, shaped', 'vlsn_got', 'vlsn_want',
        'the same, in the shape of the data',
        'VectorLeastSquares.__call__', opaque=OP),
    Obl('log-likelihood value', 'll_got', 'll_want',
        'minus the NaN-ignoring sum of logarithms of all components',
        'LogLikelihood.__call__', opaque=OP),
    Obl('model value', 'mm_got', 'mm_want',
        'the (only) component of the model',
        'MinimizeModel.__call__', opaque=OP),
    Obl('model objective is scalar only', 'mmi_got', 'mmi_want',
        'TypeError when the model has more than one dependent variable',
        'MinimizeModel.__init__', opaque=OP | {'BaseObjective.__init__'},
        raises=True),
]
# shared obligations
ALSO = {'C05': ['call3_got', 'call2_got', 'call1_got', 'callshape*_got']}
