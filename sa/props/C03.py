from ..check import Obl

DRIVER = '''
import numpy as np
from symfit.core.objectives import (
    BaseObjective, GradientObjective, HessianObjective, VectorLeastSquares,
    LeastSquares, LogLikelihood, MinimizeModel, HessianObjectiveJacApprox)


def parts(obj, p, a, hess=False):
    """(variable, component, jacobian, hessian) of every dependent variable"""
    m = obj.model
    spec_injective(m.sigmas)
    spec_size(m.dependent_vars)
    spec_size(m.params, 2)
    ys = BaseObjective.__call__(obj, p, a=a)
    js = GradientObjective.eval_jacobian(obj, p, a=a)
    spec_size(ys)
    spec_size(js)
    ys = BaseObjective.__call__(obj, p, a=a)
    js = GradientObjective.eval_jacobian(obj, p, a=a)
    spec_same_length(m.dependent_vars, ys)
    spec_same_length(m.dependent_vars, js)
    spec_row_length(js, m.params)
    hs = js
    if hess:
        hs = HessianObjective.eval_hessian(obj, p, a=a)
        spec_size(hs)
        hs = HessianObjective.eval_hessian(obj, p, a=a)
        spec_same_length(m.dependent_vars, hs)
        spec_row_length(hs, m.params)
    return zip(m.dependent_vars, ys, js, hs)


def ls_jac_got(obj: LeastSquares, p, a):
    parts(obj, p, a)
    return obj.eval_jacobian(p, a=a)


def ls_jac_want(obj: LeastSquares, p, a):
    total = 0
    for v, f, J, _ in parts(obj, p, a):
        y = obj.data[v]
        if y is not None:
            s = obj.data[obj.model.sigmas[v]]
            g = J * ((f - y) / s**2)[np.newaxis, ...]
            total += np.sum(g, axis=tuple(range(1, len(g.shape))))
    return np.atleast_1d(np.squeeze(total))


def ls_hess_got(obj: LeastSquares, p, a):
    parts(obj, p, a, True)
    return obj.eval_hessian(p, a=a)


def ls_hess_want(obj: LeastSquares, p, a):
    total = 0
    for v, f, J, H in parts(obj, p, a, True):
        y = obj.data[v]
        if y is not None:
            s = obj.data[obj.model.sigmas[v]]
            JJ = np.einsum('i...,j...->ij...', J, J)
            h = (JJ + H * (f - y)[np.newaxis, np.newaxis, ...]) / s[np.newaxis, np.newaxis, ...]**2
            total += np.sum(h, axis=tuple(range(2, len(h.shape))))
    return np.atleast_2d(np.squeeze(total))


def vls_jac_got(obj: VectorLeastSquares, p, a):
    parts(obj, p, a)
    return obj.eval_jacobian(p, a=a)


def vls_jac_want(obj: VectorLeastSquares, p, a):
    m = obj.model
    rows = []
    chi = np.sqrt(sum((obj.data[v] - f)**2 / obj.data[m.sigmas[v]]**2
                      for v, f, J, _ in parts(obj, p, a) if obj.data[v] is not None))
    for k in range(len(m.params)):
        g = sum(J[k] * ((obj.data[v] - f) / obj.data[m.sigmas[v]]**2)
                for v, f, J, _ in parts(obj, p, a) if obj.data[v] is not None)
        rows.append(g)
    rows = np.nan_to_num(np.array(rows) * (1 / chi))
    return -np.array([r.flatten() for r in rows]).T


def ll_jac_got(obj: LogLikelihood, p, a):
    parts(obj, p, a)
    return obj.eval_jacobian(p, a=a)


def ll_jac_want(obj: LogLikelihood, p, a):
    r = [[-np.nansum(d / f) for d in J] for v, f, J, _ in parts(obj, p, a)]
    return np.atleast_1d(np.squeeze(np.sum(r, axis=0)))


def ll_jac2_got(obj: LogLikelihood, p, a, g):
    parts(obj, p, a)
    return obj.eval_jacobian(p, apply_func=g, a=a)


def ll_jac2_want(obj: LogLikelihood, p, a, g):
    r = [[-g(d / f) for d in J] for v, f, J, _ in parts(obj, p, a)]
    return np.atleast_1d(np.squeeze(np.sum(r, axis=0)))


def ll_hess_got(obj: LogLikelihood, p, a):
    parts(obj, p, a, True)
    return obj.eval_hessian(p, a=a)


def ll_hess_want(obj: LogLikelihood, p, a):
    total = 0
    for v, f, J, H in parts(obj, p, a, True):
        JJ = np.einsum('i...,j...->ij...', J, J)
        h = JJ / (f**2)[np.newaxis, np.newaxis, ...] - H / f[np.newaxis, np.newaxis, ...]
        total += np.sum(h, axis=tuple(range(2, len(h.shape))))
    return np.atleast_2d(np.squeeze(total))


def mm_jac_got(obj: MinimizeModel, p, a):
    return obj.eval_jacobian(p, a=a)


def mm_jac_want(obj: MinimizeModel, p, a):
    if not hasattr(obj.model, 'eval_jacobian'):
        return None
    return np.array(GradientObjective.eval_jacobian(obj, p, a=a)[0])


def mm_hess_got(obj: MinimizeModel, p, a):
    return obj.eval_hessian(p, a=a)


def mm_hess_want(obj: MinimizeModel, p, a):
    if not hasattr(obj.model, 'eval_hessian'):
        return None
    return np.array(HessianObjective.eval_hessian(obj, p, a=a)[0])


def ja_got(obj: HessianObjectiveJacApprox, p, a):
    return obj.eval_hessian(p, a=a)


def ja_want(obj: HessianObjectiveJacApprox, p, a):
    n = len(obj.model.params)
    return [np.broadcast_to(np.zeros_like(c), (n, n) + c.shape)
            for c in BaseObjective.__call__(obj, p, a=a)]
'''

OP = {'BaseObjective.__call__', 'GradientObjective.eval_jacobian',
      'HessianObjective.eval_hessian'}
OBLIGATIONS = [
    Obl('least-squares gradient', 'ls_jac_got', 'ls_jac_want',
        'dS/dp_j = sum over components with data of sum((f - y)/sigma^2 * J_j)',
        'LeastSquares.eval_jacobian', opaque=OP),
    Obl('least-squares Hessian', 'ls_hess_got', 'ls_hess_want',
        'd2S/dp_i dp_j = sum of (J_i J_j + (f - y) H_ij)/sigma^2',
        'LeastSquares.eval_hessian', opaque=OP),
    Obl('vector least-squares jacobian', 'vls_jac_got', 'vls_jac_want',
        'derivative of the per-point chi: -sum((y - f)/sigma^2 J_j)/chi, NaN to 0',
        'VectorLeastSquares.eval_jacobian', opaque=OP),
    Obl('log-likelihood gradient', 'll_jac_got', 'll_jac_want',
        'minus the NaN-ignoring sum of J_j/f, summed over components',
        'LogLikelihood.eval_jacobian', opaque=OP),
    Obl('log-likelihood gradient, custom reduction', 'll_jac2_got', 'll_jac2_want',
        'apply_func replaces the sum over data points',
        'LogLikelihood.eval_jacobian', opaque=OP),
    Obl('log-likelihood Hessian', 'll_hess_got', 'll_hess_want',
        'sum of J_i J_j/f^2 - H_ij/f',
        'LogLikelihood.eval_hessian', opaque=OP),
    Obl('model gradient', 'mm_jac_got', 'mm_jac_want',
        'jacobian of the only component; None when the model has none',
        'MinimizeModel.eval_jacobian', opaque=OP),
    Obl('model Hessian', 'mm_hess_got', 'mm_hess_want',
        'Hessian of the only component; None when the model has none',
        'MinimizeModel.eval_hessian', opaque=OP),
    Obl('jacobian approximation', 'ja_got', 'ja_want',
        'without a model Hessian its terms are zeros of the Hessian shape',
        'HessianObjectiveJacApprox.eval_hessian', opaque=OP),
]
# shared obligations
ALSO = {'C05': ['jac3_got', 'jac2_got', 'jac1_got', 'jacshape*_got', 'hess3_got', 'hess2_got',
         'hess1_got', 'hessshape*_got']}
