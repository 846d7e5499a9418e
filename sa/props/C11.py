from ..check import Obl
from .minim import HEAD, fakes, INTERCEPT, OPAQUE

CON = '''
for c in constraints:
    spec_note('constraint', c['type'], c['fun'](x), applied(c['jac'], x))
'''
DRIVER = HEAD + '''
from symfit.core.models import BaseModel, BaseNumericalModel, Model, CallableModel, ModelError
from symfit.core.fit import Fit


class FakeNL(object):
    """records what a NonlinearConstraint is built from"""
    def __init__(self, fun, lb, ub, jac='2-point', hess=None, **other):
        x = spec_sym('x')
        v = spec_sym('v')
        self.fun, self.lb, self.ub, self.jac, self.hess = fun, lb, ub, jac, hess
        if not spec_sym('quiet'):
            spec_note('nonlinear', fun(x), lb, ub, applied(jac, x), applied(hess, x, v))


def kind(c):
    return {sympy.Eq: 'eq', sympy.Ge: 'ineq'}[c]


def jac_of(c, ps, x):
    if hasattr(c.model, 'eval_jacobian'):
        return masked(ps, c.eval_jacobian(x))
    return None

''' + fakes('''
for c in constraints:
    if method == 'trust-constr':
        if spec_sym('quiet'):
            v = spec_sym('v')
            spec_note('given', c.fun(x), c.lb, c.ub, applied(c.jac, x),
                      applied(c.hess, x, v))
    elif method == 'COBYLA':
        spec_note('constraint', c['type'], c['fun'](x))
    else:
        spec_note('constraint', c['type'], c['fun'](x), applied(c['jac'], x))
''', 'pass', '''
for c in constraints:
    spec_note('constraint', c['type'], c['fun'](x))
''', 'pass') + '''

def slsqp_got(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    SLSQP(obj, ps, constraints=[c1, c2]).execute()


def slsqp_want(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    x = spec_sym('x')
    kind(c1.model.constraint_type), kind(c2.model.constraint_type)
    for c in (c1, c2):
        spec_note('constraint', kind(c.model.constraint_type), c(x), jac_of(c, ps, x))


def cobyla_got(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    COBYLA(obj, ps, constraints=[c1, c2]).execute()


def cobyla_want(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    x = spec_sym('x')
    kind(c1.model.constraint_type), kind(c2.model.constraint_type)
    for c in (c1, c2):
        spec_note('constraint', kind(c.model.constraint_type), c(x))


def bh_got(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    BasinHopping(obj, ps, local_minimizer=COBYLA(obj, ps, constraints=[c1, c2])
                 ).execute()


def tc_got(obj: LeastSquares, ps: "Seq", c1: MinimizeModel):
    spec_assume(not spec_sym('quiet'))
    TrustConstr(obj, ps, constraints=[c1]).execute()


def tc_want(obj: LeastSquares, ps: "Seq", c1: MinimizeModel):
    spec_assume(not spec_sym('quiet'))
    x, v = spec_sym('x'), spec_sym('v')
    if kind(c1.model.constraint_type) == 'eq':
        up = 0
    else:
        up = np.inf
    j = jac_of(c1, ps, x) if hasattr(c1.model, 'eval_jacobian') else '2-point'
    h = masked2(ps, c1.eval_hessian(x)) * v if hasattr(c1.model, 'eval_hessian') else None
    spec_note('nonlinear', c1(x), 0, up, j, h)


def tc2_got(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    spec_assume(not spec_sym('quiet'))
    spec_assume(hasattr(c1.model, 'eval_jacobian') and hasattr(c2.model, 'eval_jacobian'))
    spec_assume(hasattr(c1.model, 'eval_hessian') and hasattr(c2.model, 'eval_hessian'))
    spec_assume(c1.model.constraint_type is sympy.Eq)
    spec_assume(c2.model.constraint_type is sympy.Ge)
    cons = TrustConstr(obj, ps, constraints=[c1, c2]).wrapped_constraints


def tc2_want(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    spec_assume(not spec_sym('quiet'))
    spec_assume(hasattr(c1.model, 'eval_jacobian') and hasattr(c2.model, 'eval_jacobian'))
    spec_assume(hasattr(c1.model, 'eval_hessian') and hasattr(c2.model, 'eval_hessian'))
    spec_assume(c1.model.constraint_type is sympy.Eq)
    spec_assume(c2.model.constraint_type is sympy.Ge)
    x, v = spec_sym('x'), spec_sym('v')
    spec_note('nonlinear', c1(x), 0, 0, masked(ps, c1.eval_jacobian(x)),
              masked2(ps, c1.eval_hessian(x)) * v)
    spec_note('nonlinear', c2(x), 0, np.inf, masked(ps, c2.eval_jacobian(x)),
              masked2(ps, c2.eval_hessian(x)) * v)


def types(*cs):
    ks = (sympy.Ge, sympy.Eq, sympy.Ge, sympy.Eq)
    for c, k in zip(cs, ks):
        spec_assume(c.model.constraint_type is k)
        spec_assume(not hasattr(c.model, 'eval_jacobian'))
        spec_assume(not hasattr(c.model, 'eval_hessian'))


def tc4_got(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel,
            c3: MinimizeModel, c4: MinimizeModel):
    spec_assume(not spec_sym('quiet'))
    types(c1, c2, c3, c4)
    TrustConstr(obj, ps, constraints=[c1, c2, c3, c4])


def tc4_want(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel,
             c3: MinimizeModel, c4: MinimizeModel):
    spec_assume(not spec_sym('quiet'))
    types(c1, c2, c3, c4)
    x = spec_sym('x')
    spec_note('nonlinear', c1(x), 0, np.inf, '2-point', None)
    spec_note('nonlinear', c2(x), 0, 0, '2-point', None)
    spec_note('nonlinear', c3(x), 0, np.inf, '2-point', None)
    spec_note('nonlinear', c4(x), 0, 0, '2-point', None)


def slsqp4_got(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel,
               c3: MinimizeModel, c4: MinimizeModel):
    types(c1, c2, c3, c4)
    SLSQP(obj, ps, constraints=(c1, c2, c3, c4)).execute()


def slsqp4_want(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel,
                c3: MinimizeModel, c4: MinimizeModel):
    types(c1, c2, c3, c4)
    x = spec_sym('x')
    spec_note('constraint', 'ineq', c1(x), None)
    spec_note('constraint', 'eq', c2(x), None)
    spec_note('constraint', 'ineq', c3(x), None)
    spec_note('constraint', 'eq', c4(x), None)


def tcrun_got(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    spec_assume(spec_sym('quiet'))
    spec_assume(c1.model.constraint_type is sympy.Eq and c2.model.constraint_type is sympy.Ge)
    TrustConstr(obj, ps, constraints=[c1, c2]).execute()


def tcrun_want(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    spec_assume(spec_sym('quiet'))
    spec_assume(c1.model.constraint_type is sympy.Eq and c2.model.constraint_type is sympy.Ge)
    x, v = spec_sym('x'), spec_sym('v')
    for c, up in ((c1, 0), (c2, np.inf)):
        j = jac_of(c, ps, x) if hasattr(c.model, 'eval_jacobian') else '2-point'
        h = masked2(ps, c.eval_hessian(x)) * v if hasattr(c.model, 'eval_hessian') else None
        spec_note('given', c(x), 0, up, j, h)


def model_got(obj: LeastSquares, ps: "Seq", cm: Model):
    spec_assume(hasattr(cm, 'constraint_type'))
    con, = COBYLA(obj, ps, constraints=[cm]).wrapped_constraints
    return con['type'], con['fun'].model, con['fun'].data


def model_want(obj: LeastSquares, ps: "Seq", cm: Model):
    spec_assume(hasattr(cm, 'constraint_type'))
    if ps != cm.params:
        raise AssertionError('other parameters')
    t = kind(cm.constraint_type)
    o = MinimizeModel(cm, data=obj.data)
    return t, o.model, o.data


class FakeCM(object):
    """a constraint model; its sign is what __neg__ flips"""
    def __init__(self, expr, model, kw, sign, cls=None):
        self.cls = cls
        self.expr = expr
        self.dependency = model
        self.kw = kw
        self.sign = sign
        self.dependent_vars = spec_sym('dvars', 'Seq')
        self.params = spec_sym('cparams', 'Seq')

    def __neg__(self):
        return FakeCM(self.expr, self.dependency, self.kw, -self.sign, self.cls)


def fake_dep(cls, expr, dependency_model, **kw):
    return FakeCM(expr, dependency_model, kw, 1, cls)


def asc_rel_got(rel, model: Model):
    spec_assume(isinstance(rel, sympy.Rel))
    m = Model.as_constraint(rel, model)
    return m.cls, m.expr, m.dependency, m.sign, m.constraint_type is sympy.Eq, m.constraint_type is sympy.Ge, m.params


def asc_rel_want(rel, model: Model):
    spec_assume(isinstance(rel, sympy.Rel))
    k = rel.__class__
    if k not in (sympy.Eq, sympy.Ge, sympy.Le):
        raise ModelError('type')
    e = rel.lhs - rel.rhs
    s = -1 if k is sympy.Le else 1
    if len(spec_sym('dvars', 'Seq')) != 1:
        raise ModelError('scalar')
    if not set(spec_sym('cparams', 'Seq')) <= set(model.params):
        raise ModelError('params')
    return Model, e, model, s, k is sympy.Eq, k is not sympy.Eq, model.params


def asc_expr_got(expr, model: Model, k):
    spec_assume(not isinstance(expr, sympy.Rel))
    m = CallableModel.as_constraint(expr, model, constraint_type=k)
    return m.cls, m.expr, m.dependency, m.sign, m.constraint_type is sympy.Eq, m.constraint_type is sympy.Ge, m.params


def asc_expr_want(expr, model: Model, k):
    spec_assume(not isinstance(expr, sympy.Rel))
    if k not in (sympy.Eq, sympy.Ge, sympy.Le):
        raise ModelError('type')
    s = -1 if k is sympy.Le else 1
    if len(spec_sym('dvars', 'Seq')) != 1:
        raise ModelError('scalar')
    if not set(spec_sym('cparams', 'Seq')) <= set(model.params):
        raise ModelError('params')
    return CallableModel, expr, model, s, k is sympy.Eq, k is not sympy.Eq, model.params


def rel_got(obj: LeastSquares, ps: "Seq", rel, model: Model):
    obj.model = model
    spec_assume(isinstance(rel, sympy.Rel) and not isinstance(rel, MinimizeModel))
    spec_assume(not hasattr(rel, 'constraint_type'))
    con, = COBYLA(obj, ps, constraints=[rel]).wrapped_constraints
    m = con['fun'].model
    return con['type'], m.cls is obj.model.__class__, m.expr, m.dependency, m.sign, con['fun'].data


def rel_want(obj: LeastSquares, ps: "Seq", rel, model: Model):
    obj.model = model
    spec_assume(isinstance(rel, sympy.Rel) and not isinstance(rel, MinimizeModel))
    spec_assume(not hasattr(rel, 'constraint_type'))
    m = as_want(rel, obj.model)
    t = kind(m.constraint_type)
    o = MinimizeModel(m, data=obj.data)
    return t, True, m.expr, m.dependency, m.sign, o.data


def as_want(rel, model):
    k = rel.__class__
    if k not in (sympy.Eq, sympy.Ge, sympy.Le):
        raise ModelError('type')
    if len(spec_sym('dvars', 'Seq')) != 1:
        raise ModelError('scalar')
    if not set(spec_sym('cparams', 'Seq')) <= set(model.params):
        raise ModelError('params')
    m = FakeCM(rel.lhs - rel.rhs, model, {}, -1 if k is sympy.Le else 1)
    m.constraint_type = sympy.Eq if k is sympy.Eq else sympy.Ge
    m.params = model.params
    return m


def init_got(fit: Fit, a, b, model: Model):
    spec_assume(isinstance(a, sympy.Rel) and not hasattr(a, 'constraint_type'))
    spec_assume(not isinstance(b, sympy.Rel) and hasattr(b, 'constraint_type'))
    ca, cb = fit._init_constraints([a, b], model)
    return cb, ca.cls is model.__class__, ca.expr, ca.dependency, ca.sign, ca.constraint_type is sympy.Eq, ca.constraint_type is sympy.Ge, ca.params


def init_want(fit: Fit, a, b, model: Model):
    spec_assume(isinstance(a, sympy.Rel) and not hasattr(a, 'constraint_type'))
    spec_assume(not isinstance(b, sympy.Rel) and hasattr(b, 'constraint_type'))
    ca = as_want(a, model)
    return b, True, ca.expr, ca.dependency, ca.sign, ca.constraint_type is sympy.Eq, ca.constraint_type is sympy.Ge, ca.params


def num_got(fit: Fit, a, model: BaseNumericalModel):
    spec_assume(isinstance(a, sympy.Rel) and not hasattr(a, 'constraint_type'))
    ca, = fit._init_constraints([a], model)
    return ca.cls, ca.expr, ca.dependency, ca.sign, ca.constraint_type is sympy.Eq, ca.constraint_type is sympy.Ge, ca.params


def num_want(fit: Fit, a, model: BaseNumericalModel):
    spec_assume(isinstance(a, sympy.Rel) and not hasattr(a, 'constraint_type'))
    ca = as_want(a, model)
    return CallableModel, ca.expr, ca.dependency, ca.sign, ca.constraint_type is sympy.Eq, ca.constraint_type is sympy.Ge, ca.params


def other_got(obj: LeastSquares, ps: "Seq", c):
    spec_assume(not isinstance(c, MinimizeModel))
    spec_assume(not hasattr(c, 'constraint_type'))
    spec_assume(not isinstance(c, sympy.Rel))
    COBYLA(obj, ps, constraints=[c])


def other_want(obj: LeastSquares, ps: "Seq", c):
    spec_assume(not isinstance(c, MinimizeModel))
    spec_assume(not hasattr(c, 'constraint_type'))
    spec_assume(not isinstance(c, sympy.Rel))
    raise TypeError('Unknown type for a constraint.')
'''

KW = dict(opaque=OPAQUE, intercept=dict(
    INTERCEPT, **{'scipy.optimize.NonlinearConstraint': 'FakeNL',
                  'BaseModel.with_dependencies': 'fake_dep'}),
    notes=True, raises=True)
OBLIGATIONS = [
    Obl('SLSQP', 'slsqp_got', 'slsqp_want',
        "equalities are 'eq' and inequalities 'ineq', with the value and the "
        'restricted gradient of the same constraint',
        'ScipyConstrainedMinimize.scipy_constraints', **KW),
    Obl('COBYLA', 'cobyla_got', 'cobyla_want', 'type and value of each constraint',
        'ScipyConstrainedMinimize.scipy_constraints', **KW),
    Obl('BasinHopping', 'bh_got', 'cobyla_want',
        'the constraints of the local minimizer', 'BasinHopping.execute', **KW),
    Obl('TrustConstr', 'tc_got', 'tc_want',
        'lower bound 0; upper bound 0 for equalities, infinity for inequalities; '
        'own gradient and Hessian', 'TrustConstr.scipy_constraints', **KW),
    Obl('TrustConstr, two constraints', 'tc2_got', 'tc2_want',
        'every constraint has its own value, gradient and Hessian',
        'TrustConstr.scipy_constraints', **KW),
    Obl('TrustConstr, four constraints', 'tc4_got', 'tc4_want',
        'every constraint has its own bounds', 'TrustConstr.scipy_constraints', **KW),
    Obl('SLSQP, four constraints', 'slsqp4_got', 'slsqp4_want',
        'every constraint has its own type', 'ScipyConstrainedMinimize.scipy_constraints', **KW),
    Obl('TrustConstr execution', 'tcrun_got', 'tcrun_want',
        'gets every constraint with its own derivatives', 'TrustConstr.scipy_constraints', **KW),
    Obl('relations for a minimizer', 'rel_got', 'rel_want',
        'become constraints of the model and data of the objective',
        'ScipyConstrainedMinimize.scipy_constraints', **KW),
    Obl('constraint models', 'model_got', 'model_want',
        'a constraint model with the parameters of the fit is evaluated on its data',
        'ScipyConstrainedMinimize.scipy_constraints', **KW),
    Obl('relations', 'asc_rel_got', 'asc_rel_want',
        'Eq and Ge are lhs - rhs, Le is rhs - lhs as Ge, others are refused; the '
        'parameters become those of the model', 'BaseModel.as_constraint', **KW),
    Obl('expressions with explicit type', 'asc_expr_got', 'asc_expr_want',
        'Le flips the sign, others are refused', 'BaseModel.as_constraint', **KW),
    Obl('unknown constraints', 'other_got', 'other_want',
        'anything else is a TypeError',
        'ScipyConstrainedMinimize.scipy_constraints', **KW),
    Obl('Fit constraints', 'init_got', 'init_want',
        'constraint models are kept, relations are converted, in order',
        'Fit._init_constraints', **KW),
    Obl('Fit constraints of a numerical model', 'num_got', 'num_want',
        'relations are converted with the model as dependency',
        'Fit._init_constraints', **KW),
]
# shared obligations
ALSO = {'C16': ['con_got', 'le_got', 'strict_got', 'numle_got'], 'C17': ['con_got', 'conhess_got']}
