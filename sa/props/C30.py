from ..check import Obl
from .minim import HEAD, fakes, INTERCEPT, OPAQUE

NOTE = "spec_note('derivatives', applied(jac, x), applied(hess, x))"
DRIVER = HEAD + fakes(NOTE, 'pass', "spec_note('jac', applied(jac, x))",
                      "spec_note('jac', applied(jac, x))") + '''
def jac_of(obj, x):
    return obj.eval_jacobian(x)


def hess_of(obj, x):
    return obj.eval_hessian(x)


def grad_want(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares, x):
    spec_note('derivatives', masked(ps, o2.eval_jacobian(x)), None)


def none_want(obj: LeastSquares, ps: "Seq"):
    spec_note('derivatives', None, None)


def user_want(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares):
    spec_note('derivatives', '2-point', None)


def tc_got(obj: LeastSquares, ps: "Seq"):
    TrustConstr(obj, ps).execute()


def tc_want(obj: LeastSquares, ps: "Seq"):
    import scipy.optimize
    spec_note('derivatives', 'cs',
              scipy.optimize.BFGS(exception_strategy='damp_update'))


def tcj_got(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares):
    TrustConstr(obj, ps, jacobian=o2.eval_jacobian).execute()


def tcj_want(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares, x):
    spec_note('derivatives', masked(ps, o2.eval_jacobian(x)), 'cs')


def tch_got(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares):
    TrustConstr(obj, ps, jacobian=o2.eval_jacobian, hessian=o3.eval_hessian).execute()


def tch_want(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares, x):
    spec_note('derivatives', masked(ps, o2.eval_jacobian(x)),
              masked2(ps, o3.eval_hessian(x)))


def tchn_got(obj: LeastSquares, ps: "Seq", o3: LeastSquares):
    TrustConstr(obj, ps, hessian=o3.eval_hessian).execute()


def tchn_want(obj: LeastSquares, ps: "Seq", x, o3: LeastSquares):
    spec_note('derivatives', None, masked2(ps, o3.eval_hessian(x)))


def tcn_got(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares):
    m = TrustConstr(obj, ps, jacobian=o2.eval_jacobian, hessian=o3.eval_hessian)
    m.execute()
    m.execute(hessian='2-point')
    m.execute()


def tcn_want(obj: LeastSquares, ps: "Seq", x, o2: LeastSquares, o3: LeastSquares):
    j, h = masked(ps, o2.eval_jacobian(x)), masked2(ps, o3.eval_hessian(x))
    spec_note('derivatives', j, h)
    spec_note('derivatives', j, '2-point')
    spec_note('derivatives', j, h)


def tcu_got(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares, strategy):
    TrustConstr(obj, ps, jacobian=o2.eval_jacobian, hessian=o3.eval_hessian
                ).execute(jacobian='3-point', hessian=strategy)


def tcu_want(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares, x, strategy):
    if strategy is None:
        spec_note('derivatives', '3-point', masked2(ps, o3.eval_hessian(x)))
    else:
        spec_note('derivatives', '3-point', applied(strategy, x))


def tcs_got(obj: LeastSquares, ps: "Seq", strategy):
    TrustConstr(obj, ps).execute(jacobian='3-point', hessian=strategy)


def tcs_want(obj: LeastSquares, ps: "Seq", x, strategy):
    import scipy.optimize
    if strategy is None:
        spec_note('derivatives', '3-point',
                  scipy.optimize.BFGS(exception_strategy='damp_update'))
    else:
        spec_note('derivatives', '3-point', applied(strategy, x))


def tcg_got(obj: LeastSquares, ps: "Seq", o2: LeastSquares, strategy):
    TrustConstr(obj, ps, jacobian=o2.eval_jacobian).execute(hessian=strategy)


def tcg_want(obj: LeastSquares, ps: "Seq", o2: LeastSquares, x, strategy):
    if strategy is None:
        spec_note('derivatives', masked(ps, o2.eval_jacobian(x)), 'cs')
    else:
        spec_note('derivatives', masked(ps, o2.eval_jacobian(x)), applied(strategy, x))


def mp_got(obj: VectorLeastSquares, ps: "Seq"):
    MINPACK(obj, ps).execute()


def mp_want(obj: VectorLeastSquares, ps: "Seq"):
    spec_note('jac', 'cs')


def mpj_got(obj: VectorLeastSquares, ps: "Seq", o2: VectorLeastSquares):
    MINPACK(obj, ps, jacobian=o2.eval_jacobian).execute()


def mpj_want(obj: VectorLeastSquares, ps: "Seq", o2: VectorLeastSquares, x):
    spec_note('jac', masked_rows(ps, o2.eval_jacobian(x)))


def mpu_got(obj: VectorLeastSquares, ps: "Seq", o2: VectorLeastSquares):
    MINPACK(obj, ps, jacobian=o2.eval_jacobian).execute(jacobian='3-point')


def mpu_want(obj: VectorLeastSquares, ps: "Seq", o2: VectorLeastSquares):
    spec_note('jac', '3-point')


def bh_got(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares):
    BasinHopping(obj, ps, local_minimizer=BFGS(obj, ps, jacobian=o2.eval_jacobian)
                 ).execute()


def bh_want(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares, x):
    spec_note('jac', masked(ps, o2.eval_jacobian(x)))


def bhc_got(obj: LeastSquares, ps: "Seq"):
    BasinHopping(obj, ps, local_minimizer=BFGS).execute()


def bhn_got(obj: LeastSquares, ps: "Seq"):
    BasinHopping(obj, ps, local_minimizer=NelderMead(obj, ps)).execute()


def bhc_want(obj: LeastSquares, ps: "Seq"):
    spec_note('jac', None)


def bhu_got(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares, j):
    BasinHopping(obj, ps, local_minimizer=BFGS(obj, ps, jacobian=o2.eval_jacobian)
                 ).execute(minimizer_kwargs={'jac': j})


def bhu_want(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares, j, x):
    spec_note('jac', applied(j, x))
'''
GR = ('BFGS', 'SLSQP', 'LBFGSB')
for c in GR:
    DRIVER += '''
def %(c)s_jac(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares):
    %(c)s(obj, ps, jacobian=o2.eval_jacobian).execute()


def %(c)s_nojac(obj: LeastSquares, ps: "Seq"):
    %(c)s(obj, ps).execute()


def %(c)s_user(obj: LeastSquares, ps: "Seq", o2: LeastSquares, o3: LeastSquares):
    %(c)s(obj, ps, jacobian=o2.eval_jacobian).execute(jacobian='2-point')
''' % {'c': c}
for c in ('COBYLA', 'NelderMead', 'Powell'):
    DRIVER += '''
def %(c)s_nojac(obj: LeastSquares, ps: "Seq"):
    %(c)s(obj, ps).execute()
''' % {'c': c}

KW = dict(raises=True, opaque=OPAQUE, intercept=INTERCEPT, notes=True)
OBLIGATIONS = []
for c in GR:
    OBLIGATIONS += [
        Obl('gradient for ' + c, c + '_jac', 'grad_want',
            'the gradient restricted to the free parameters, in order',
            'GradientMinimizer.resize_jac', **KW),
        Obl('no gradient for ' + c, c + '_nojac', 'none_want',
            'nothing is invented when no jacobian is given',
            'ScipyGradientMinimize.execute', **KW),
        Obl('explicit scheme for ' + c, c + '_user', 'user_want',
            'a scheme given upon execute wins', 'ScipyGradientMinimize.execute', **KW)]
for c in ('COBYLA', 'NelderMead', 'Powell'):
    OBLIGATIONS.append(Obl(
        'no derivatives for ' + c, c + '_nojac', 'none_want',
        'derivative-free algorithms get no derivatives', 'ScipyMinimize.execute', **KW))
for n, g, w, r, a in [
        ('TrustConstr without derivatives', 'tc_got', 'tc_want',
         'complex step and damped BFGS updates',
         'TrustConstr._get_jacobian_hessian_strategy'),
        ('TrustConstr with gradient', 'tcj_got', 'tcj_want',
         'restricted gradient, complex step Hessian',
         'TrustConstr._get_jacobian_hessian_strategy'),
        ('TrustConstr with Hessian', 'tch_got', 'tch_want',
         'restricted gradient and Hessian (rows and columns)',
         'HessianMinimizer.resize_hess'),
        ('TrustConstr with Hessian only', 'tchn_got', 'tchn_want',
         'restricted Hessian', 'HessianMinimizer.__init__'),
        ('TrustConstr, repeated', 'tcn_got', 'tcn_want',
         'a scheme is for one execution', 'TrustConstr.execute'),
        ('TrustConstr, explicit schemes', 'tcu_got', 'tcu_want',
         'schemes given upon execute win', 'TrustConstr.execute'),
        ('TrustConstr without derivatives, explicit schemes', 'tcs_got', 'tcs_want',
         'schemes given upon execute win', 'TrustConstr.execute'),
        ('TrustConstr with gradient, explicit scheme', 'tcg_got', 'tcg_want',
         'schemes given upon execute win', 'TrustConstr.execute'),
        ('MINPACK without jacobian', 'mp_got', 'mp_want', 'complex step',
         'MINPACK.execute'),
        ('MINPACK with jacobian', 'mpj_got', 'mpj_want',
         'columns of the free parameters', 'MINPACK.resize_jac'),
        ('MINPACK, explicit scheme', 'mpu_got', 'mpu_want',
         'a scheme given upon execute wins', 'MINPACK.execute'),
        ('BasinHopping, local gradient', 'bh_got', 'bh_want',
         'restricted gradient of the local minimizer', 'BasinHopping.execute'),
        ('BasinHopping, local class', 'bhc_got', 'bhc_want',
         'no gradient', 'BasinHopping.execute'),
        ('BasinHopping, derivative-free local', 'bhn_got', 'bhc_want',
         'no gradient', 'BasinHopping.execute'),
        ('BasinHopping, explicit gradient', 'bhu_got', 'bhu_want',
         'the gradient given upon execute wins', 'BasinHopping.execute')]:
    OBLIGATIONS.append(Obl(n, g, w, r, a, **KW))
# shared obligations
ALSO = {'C11': ['tc_got', 'tc2_got', 'tc4_got', 'slsqp4_got', 'tcrun_got'],
 'C12': ['plain_got', 'grad_got', 'ghess_got', 'vhess_got', 'basinp_got'],
 'C31': ['BFGS_opt_got', 'SLSQP_opt_got', 'LBFGSB_opt_got', 'NelderMead_opt_got',
         'Powell_opt_got', 'COBYLA_opt_got', 'TrustConstr_opt_got']}
