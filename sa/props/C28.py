from ..check import Obl
from .minim import HEAD, OPAQUE, fakes, INTERCEPT

DRIVER = HEAD + '''
from symfit.core.models import BaseModel, Model, CallableNumericalModel


def custom(f):
    """a plain callable"""
    spec_assume(not isinstance(f, (BaseObjective, BaseModel)))
    spec_assume(not isinstance(f.__self__, BaseObjective))
    spec_assume(not isinstance(f, sympy.Basic))
    return f


def kind_got(f):
    p, q = spec_par('p'), spec_par('q')
    m = NelderMead(custom(f), [p, q])
    o = m.objective
    return (type(o), type(o.model), [c for c in o.model.model_dict.values()],
            [sorted(v, key=lambda s: s.name)
             for v in o.model.connectivity_mapping.values()],
            [n for n in o.data if o.data[n] is not None], [x for x in o.model.params])


def kind_want(f):
    custom(f)
    p, q = spec_par('p'), spec_par('q')
    return MinimizeModel, CallableNumericalModel, [f], [[p, q]], [], [p, q]


def value_got(f, a, b):
    p, q = spec_par('p'), spec_par('q')
    m = NelderMead(custom(f), [q, p])
    return m.objective(**{'p': a, 'q': b})


def value_want(f, a, b):
    custom(f)
    p, q = spec_par('p'), spec_par('q')
    return np.atleast_1d(f(p=p.value if p.fixed else a, q=q.value if q.fixed else b))


def order_got(f, a, b, d):
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    for k in (p, q, r):
        spec_assume(not k.fixed)
    m = NelderMead(custom(f), [r, p, q])
    return m.objective([a, b, d]), [g for g in m.initial_guesses]


def order_want(f, a, b, d):
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    for k in (p, q, r):
        spec_assume(not k.fixed)
    custom(f)
    return np.atleast_1d(f(r=a, p=b, q=d)), [r.value, p.value, q.value]


def fixed_got(f, a, b):
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    spec_assume(not p.fixed)
    spec_assume(not r.fixed)
    spec_assume(q.fixed)
    m = NelderMead(custom(f), [r, q, p])
    return m.objective([a, b]), [g for g in m.initial_guesses]


def fixed_want(f, a, b):
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    spec_assume(not p.fixed)
    spec_assume(not r.fixed)
    spec_assume(q.fixed)
    custom(f)
    return np.atleast_1d(f(r=a, p=b, q=q.value)), [r.value, p.value]


def own_got(obj: BaseObjective, ps: "Seq"):
    return NelderMead(obj, ps).objective


def own_want(obj: BaseObjective, ps: "Seq"):
    return obj


def bound_got(obj: LeastSquares, ps: "Seq"):
    m = BFGS(obj, ps, jacobian=obj.eval_jacobian)
    return m.objective, m.jacobian


def bound_want(obj: LeastSquares, ps: "Seq"):
    return obj, obj.eval_jacobian


def hess_got(obj: LeastSquares, ps: "Seq"):
    m = TrustConstr(obj, ps, jacobian=obj.eval_jacobian, hessian=obj.eval_hessian)
    return m.objective, m.jacobian, m.hessian


def hess_want(obj: LeastSquares, ps: "Seq"):
    return obj, obj.eval_jacobian, obj.eval_hessian


def model_got(model: Model):
    p, q = spec_par('p'), spec_par('q')
    o = NelderMead(model, [p, q]).objective
    return type(o), o.model, [n for n in o.data if o.data[n] is not None]


def model_want(model: Model):
    return MinimizeModel, model, []


def jac_got(f, g):
    p, q = spec_par('p'), spec_par('q')
    spec_assume(not isinstance(g, (BaseObjective, BaseModel)))
    spec_assume(not isinstance(g.__self__, BaseObjective))
    spec_assume(g is not None)
    m = BFGS(custom(f), [p, q], jacobian=g)
    j = m.jacobian
    return type(j), [c for c in j.model.model_dict.values()], [x for x in j.model.params]


def jac_want(f, g):
    custom(f)
    spec_assume(not isinstance(g, (BaseObjective, BaseModel)))
    spec_assume(not isinstance(g.__self__, BaseObjective))
    spec_assume(g is not None)
    return MinimizeModel, [g], [spec_par('p'), spec_par('q')]
'''
KW = dict(orders=True)
OBLIGATIONS = [
    Obl('wrapped callable', 'kind_got', 'kind_want',
        'is minimized as a model of all parameters', 'BaseMinimizer._baseobjective_from_callable', **KW),
    Obl('value of a wrapped callable', 'value_got', 'value_want',
        'is called with every parameter by name', 'BaseMinimizer._baseobjective_from_callable', **KW),
    Obl('vector of values', 'order_got', 'order_want',
        'is in the order of the given parameters',
        'BaseMinimizer._baseobjective_from_callable', **KW),
    Obl('vector of values without fixed parameters', 'fixed_got', 'fixed_want',
        'is in the order of the given parameters',
        'BaseMinimizer._baseobjective_from_callable', **KW),
    Obl('symfit objective', 'own_got', 'own_want', 'is used as it is',
        'BaseMinimizer._baseobjective_from_callable', **KW),
    Obl('bound method of an objective', 'bound_got', 'bound_want', 'is used as it is',
        'BaseMinimizer._baseobjective_from_callable', **KW),
    Obl('bound hessian of an objective', 'hess_got', 'hess_want', 'is used as it is',
        'BaseMinimizer._baseobjective_from_callable', **KW),
    Obl('a model', 'model_got', 'model_want', 'is minimized itself',
        'BaseMinimizer._baseobjective_from_callable', **KW),
    Obl('custom gradient', 'jac_got', 'jac_want', 'is wrapped the same way',
        'GradientMinimizer.__init__', **KW),
]
