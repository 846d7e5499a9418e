from ..check import Obl
from .minim import HEAD

DRIVER = HEAD + '''
from collections import OrderedDict
from symfit.core.fit import Fit, TakesData, HasCovarianceMatrix
from symfit.core.models import Model, BaseModel, BaseNumericalModel, CallableNumericalModel


class FakeBound(object):
    def __init__(self, kw):
        self.arguments = OrderedDict(kw)


class FakeSig(object):
    def bind_partial(self, *a, **kw):
        return FakeBound(kw)


def fake_sig(self):
    return FakeSig()


def fake_data(self, model, *ordered, absolute_sigma=None, **named):
    """stands for the data binding"""
    self.model = model
    self.data = spec_sym('data', 'Dict')
    self.absolute_sigma = absolute_sigma
    self.given = named


def choose_got(fit: Fit):
    spec_typed(fit.model, Model)
    return fit._determine_minimizer()


def choose_want(fit: Fit):
    spec_typed(fit.model, Model)
    if fit.constraints:
        return SLSQP
    c = BFGS
    for lo, hi in fit.model.bounds:
        if lo is not None or hi is not None:
            c = LBFGSB
    return c


def names_of(model):
    return [v.name for v in model.dependent_vars + list(model.sigmas.values())]


def obj_got(model: Model, minimizer, bound):
    b = FakeBound(bound)
    o = Fit._determine_objective(model, None, minimizer, b)
    return o, [n for n in b.arguments]


def refuse(model, bound):
    for v in model.dependent_vars + list(model.sigmas.values()):
        if v.name in bound:
            raise TypeError('data')


def obj_want(model: Model, minimizer, bound):
    if minimizer is MINPACK:
        return VectorLeastSquares
    if len(model) != 1 or len(model.independent_vars) != 0:
        return LeastSquares
    if model.dependent_vars[0].name in bound:
        return LeastSquares
    return MinimizeModel


# one dependent variable with its sigma
class OneVar(object):
    def __init__(self, n):
        self.name = n


class FakeM(object):
    """a model with the given numbers of variables"""
    def __init__(self, ndep, nind):
        self.dependent_vars = [OneVar('y%d' % k) for k in range(ndep)]
        self.independent_vars = [OneVar('x%d' % k) for k in range(nind)]
        self.sigmas = OrderedDict(
            [(v, OneVar('sigma_' + v.name)) for v in self.dependent_vars])

    def __len__(self):
        return len(self.dependent_vars)


def pick(ndep, nind, objective, minimizer, data):
    b = FakeBound(data)
    o = Fit._determine_objective(FakeM(ndep, nind), objective, minimizer, b)
    return o, [(k, b.arguments[k]) for k in sorted(b.arguments)]


def o1_got(a):
    return pick(1, 0, None, None, {})


def o1_want(a):
    return MinimizeModel, [('sigma_y0', None), ('y0', None)]


def o2_got(a):
    return pick(1, 0, None, BFGS, {'y0': a})


def o2_want(a):
    return LeastSquares, [('y0', a)]


def o3_got(a):
    return pick(1, 1, None, BFGS, {'x0': a})


def o3_want(a):
    return LeastSquares, [('x0', a)]


def o4_got(a):
    return pick(2, 0, None, None, {})


def o4_want(a):
    return LeastSquares, []


def o5_got(a):
    return pick(1, 0, None, MINPACK, {'y0': a})


def o5_want(a):
    return VectorLeastSquares, [('y0', a)]


def o6_got(a):
    return pick(2, 1, LogLikelihood, None, {'x0': a})


def o6_want(a):
    return LogLikelihood, [('sigma_y0', None), ('sigma_y1', None), ('x0', a),
                           ('y0', None), ('y1', None)]


def o7_got(a):
    return pick(2, 1, LogLikelihood, None, {'x0': a, 'y1': a})


def o8_got(a):
    return pick(1, 1, MinimizeModel, None, {'x0': a, 'sigma_y0': a})


def o7_want(a):
    raise TypeError('no data for the dependent variable')


def o9_got(m: MinimizeModel, l: LogLikelihood, s: LeastSquares, f, a):
    spec_assume(not isinstance(f, (MinimizeModel, LogLikelihood)))
    spec_assume(f is not MinimizeModel and f is not LogLikelihood and f is not None)
    return (pick(1, 1, m, None, {'x0': a}), pick(1, 1, l, None, {'x0': a}),
            pick(1, 1, s, None, {'x0': a}), pick(1, 1, f, MINPACK, {'x0': a}))


def o9_want(m: MinimizeModel, l: LogLikelihood, s: LeastSquares, f, a):
    spec_assume(not isinstance(f, (MinimizeModel, LogLikelihood)))
    spec_assume(f is not MinimizeModel and f is not LogLikelihood and f is not None)
    none = [('sigma_y0', None), ('x0', a), ('y0', None)]
    return (m, none), (l, none), (s, [('x0', a)]), (f, [('x0', a)])


def handed(m):
    x = spec_sym('x')
    return (type(m), m.objective, [p for p in m.parameters],
            applied(getattr(m, 'jacobian', None), x),
            applied(getattr(m, 'hessian', None), x),
            [(c.model, c.data) for c in m.constraints])


def hand_got(fit: Fit, obj: LeastSquares, c1: Model, c2: Model, cls):
    fit.objective = obj
    fit.constraints = [c1, c2]


def stop(self, minimizer, **kw):
    """stands for the initialisation of a minimizer"""
    if isinstance(minimizer, BaseMinimizer):
        return minimizer
    return Started(minimizer, self.objective, kw)


class Started(object):
    def __init__(self, cls, objective, kw):
        self.cls = cls
        self.objective = objective
        self.kw = kw


def show(m):
    if isinstance(m, Started):
        return m.cls, m.objective, [k for k in m.kw]
    return m, None, None


def auto_got(model: Model, o: LeastSquares):
    f = Fit(model, objective=o)
    return f.model, f.objective, show(f.minimizer)


def auto_want(model: Model, o: LeastSquares):
    c = BFGS
    for lo, hi in model.bounds:
        if lo is not None or hi is not None:
            c = LBFGSB
    return model, o, (c, o, [])


def autoc_got(model: Model, o: LeastSquares, c):
    spec_assume(hasattr(c, 'constraint_type'))
    f = Fit(model, objective=o, constraints=[c])
    return f.constraints, show(f.minimizer)


def autoc_want(model: Model, o: LeastSquares, c):
    spec_assume(hasattr(c, 'constraint_type'))
    [v for v in c.vars]
    return [c], (SLSQP, o, [])


def expl_got(model: Model, o: LeastSquares):
    return [show(Fit(model, objective=o, minimizer=m).minimizer)
            for m in (NelderMead, COBYLA, DifferentialEvolution, BFGS)]


def expl_want(model: Model, o: LeastSquares):
    return [(m, o, []) for m in (NelderMead, COBYLA, DifferentialEvolution, BFGS)]


def inst_got(model: Model, o: LeastSquares, m: NelderMead):
    return Fit(model, objective=o, minimizer=m).minimizer


def inst_want(model: Model, o: LeastSquares, m: NelderMead):
    return m


def chain_got(model: Model, o: LeastSquares, m: NelderMead):
    r = Fit(model, objective=o, minimizer=[DifferentialEvolution, m, BFGS]).minimizer
    return r.cls, r.objective, [show(k) for k in r.kw['minimizers']], [k for k in r.kw]


def chain_want(model: Model, o: LeastSquares, m: NelderMead):
    return (ChainedMinimizer, o, [(DifferentialEvolution, o, []), (m, None, None), (BFGS, o, [])],
            ['minimizers'])


def chain1_got(model: Model, o: LeastSquares, m: NelderMead):
    out = []
    for minis in ([BFGS], (BFGS,), [m], (DifferentialEvolution, m), (m, BFGS, SLSQP)):
        r = Fit(model, objective=o, minimizer=minis).minimizer
        out.append((r.cls, r.objective, [show(k) for k in r.kw['minimizers']]))
    return out


def chain1_want(model: Model, o: LeastSquares, m: NelderMead):
    B, I, S = (BFGS, o, []), (m, None, None), (SLSQP, o, [])
    D = (DifferentialEvolution, o, [])
    return [(ChainedMinimizer, o, k) for k in ([B], [B], [I], [D, I], [I, B, S])]


def class_got(model: Model, xs):
    spec_assume(len(model) == 1 and len(model.independent_vars) != 0)
    f = Fit(model, x=xs, absolute_sigma=True)
    return (type(f.objective), f.objective.model, f.objective.data is f.data,
            f.given, f.absolute_sigma)


def class_want(model: Model, xs):
    spec_assume(len(model) == 1 and len(model.independent_vars) != 0)
    return LeastSquares, model, True, {'x': xs}, True


def minpack_got(model: Model, xs):
    spec_assume(len(model) == 1 and len(model.independent_vars) != 0)
    f = Fit(model, x=xs, minimizer=MINPACK)
    return type(f.objective), f.objective.model, f.objective.data is f.data, show(f.minimizer)[0]


def minpack_want(model: Model, xs):
    spec_assume(len(model) == 1 and len(model.independent_vars) != 0)
    return VectorLeastSquares, model, True, MINPACK


def chains_got(model: Model, xs):
    spec_assume(len(model) == 1 and len(model.independent_vars) != 0)
    return [type(Fit(model, x=xs, minimizer=minis).objective) for minis in (
        [NelderMead, MINPACK], [MINPACK, BFGS], (DifferentialEvolution, BFGS),
        (BFGS, MINPACK, SLSQP), [MINPACK, BFGS, MINPACK])]


def chains_want(model: Model, xs):
    spec_assume(len(model) == 1 and len(model.independent_vars) != 0)
    return [LeastSquares] * 5


def callable_got(model: Model, xs, f):
    spec_assume(not isinstance(f, (BaseObjective, MinimizeModel, LogLikelihood, type)))
    spec_assume(f is not None and f is not LogLikelihood and f is not MinimizeModel)
    return Fit(model, objective=f, x=xs).objective


def callable_want(model: Model, xs, f):
    spec_assume(not isinstance(f, (BaseObjective, MinimizeModel, LogLikelihood, type)))
    spec_assume(f is not None and f is not LogLikelihood and f is not MinimizeModel)
    return f(model, spec_sym('data', 'Dict'))


def hand(fit, obj, cls, *cons):
    fit.objective = obj
    fit.constraints = list(cons)
    return fit._init_minimizer(cls)


class Plain(BaseMinimizer):
    def __init__(self, objective, parameters, **kw):
        self.objective = objective
        self.parameters = parameters
        self.kw = kw


class Grad(GradientMinimizer):
    def __init__(self, objective, parameters, **kw):
        self.objective = objective
        self.parameters = parameters
        self.kw = kw


class Hess(HessianMinimizer):
    def __init__(self, objective, parameters, **kw):
        self.objective = objective
        self.parameters = parameters
        self.kw = kw


class Cons(ConstrainedMinimizer):
    def __init__(self, objective, parameters, **kw):
        self.objective = objective
        self.parameters = parameters
        self.kw = kw


class Basin(BasinHopping):
    def __init__(self, objective, parameters, **kw):
        self.objective = objective
        self.parameters = parameters
        self.kw = kw


class Both(HessianMinimizer, ConstrainedMinimizer):
    def __init__(self, objective, parameters, **kw):
        self.objective = objective
        self.parameters = parameters
        self.kw = kw


def out(m):
    x = spec_sym('x')
    return (m.objective, [p for p in m.parameters], sorted(k for k in m.kw),
            [m.kw[k](x) for k in ('jacobian', 'hessian') if k in m.kw],
            [(c.model, c.data) for c in m.kw.get('constraints', [])])


def plain_got(fit: Fit, o: LeastSquares, c: Model):
    return out(hand(fit, o, Plain, c))


def plain_want(fit: Fit, o: LeastSquares, c: Model):
    return o, [p for p in fit.model.params], [], [], []


def grad_got(fit: Fit, o: LeastSquares, c: Model):
    return out(hand(fit, o, Grad, c))


def grad_want(fit: Fit, o: LeastSquares, c: Model):
    x = spec_sym('x')
    if hasattr(fit.model, 'eval_jacobian'):
        return o, [p for p in fit.model.params], ['jacobian'], [o.eval_jacobian(x)], []
    return o, [p for p in fit.model.params], [], [], []


def ghess_got(fit: Fit, o: LeastSquares, c: Model):
    spec_assume(hasattr(fit.model, 'eval_jacobian'))
    return out(hand(fit, o, Hess, c))


def ghess_want(fit: Fit, o: LeastSquares, c: Model):
    spec_assume(hasattr(fit.model, 'eval_jacobian'))
    x = spec_sym('x')
    ps = [p for p in fit.model.params]
    if hasattr(fit.model, 'eval_hessian'):
        return o, ps, ['hessian', 'jacobian'], [o.eval_jacobian(x), o.eval_hessian(x)], []
    return o, ps, ['jacobian'], [o.eval_jacobian(x)], []


def vhess_got(fit: Fit, o: VectorLeastSquares):
    spec_assume(not hasattr(o, 'eval_hessian'))
    spec_assume(hasattr(fit.model, 'eval_jacobian'))
    return out(hand(fit, o, Hess))


def vhess_want(fit: Fit, o: VectorLeastSquares):
    spec_assume(not hasattr(o, 'eval_hessian'))
    spec_assume(hasattr(fit.model, 'eval_jacobian'))
    return o, [p for p in fit.model.params], ['jacobian'], [o.eval_jacobian(spec_sym('x'))], []


def cons_got(fit: Fit, o: LeastSquares, c: Model, d: Model):
    return out(hand(fit, o, Cons, c, d))


def cons_want(fit: Fit, o: LeastSquares, c: Model, d: Model):
    k1, k2 = MinimizeModel(c, fit.data), MinimizeModel(d, fit.data)
    return (o, [p for p in fit.model.params], ['constraints'], [],
            [(k1.model, k1.data), (k2.model, k2.data)])


def both_got(fit: Fit, o: LeastSquares, c: Model):
    spec_assume(hasattr(fit.model, 'eval_jacobian') and hasattr(fit.model, 'eval_hessian'))
    return out(hand(fit, o, Both, c))


def both_want(fit: Fit, o: LeastSquares, c: Model):
    spec_assume(hasattr(fit.model, 'eval_jacobian') and hasattr(fit.model, 'eval_hessian'))
    x = spec_sym('x')
    k = MinimizeModel(c, fit.data)
    return (o, [p for p in fit.model.params], ['constraints', 'hessian', 'jacobian'],
            [o.eval_jacobian(x), o.eval_hessian(x)], [(k.model, k.data)])


def keep_got(fit: Fit, o: LeastSquares, m: NelderMead):
    r = hand(fit, o, m)
    return r is m, m.objective, m.params, m.parameters, m.constraints


def keep_want(fit: Fit, o: LeastSquares, m: NelderMead):
    return True, m.objective, m.params, m.parameters, m.constraints


def basin_got(fit: Fit, o: LeastSquares, c: Model):
    spec_assume(hasattr(fit.model, 'eval_jacobian'))
    m = hand(fit, o, Basin, c)
    l = m.kw['local_minimizer']
    return (type(l), l.objective, [p for p in l.parameters], m.objective,
            [k.model for k in l.constraints])


def basin_want(fit: Fit, o: LeastSquares, c: Model):
    spec_assume(hasattr(fit.model, 'eval_jacobian'))
    k = MinimizeModel(c, fit.data)
    return SLSQP, o, [p for p in fit.model.params], o, [k.model]


def basinp_got(fit: Fit, o: LeastSquares):
    spec_typed(fit.model, Model)
    spec_assume(hasattr(fit.model, 'eval_jacobian'))
    m = hand(fit, o, Basin)
    l = m.kw['local_minimizer']
    return type(l), l.objective, [p for p in l.parameters], m.objective, l.jacobian(spec_sym('x'))


def basinp_want(fit: Fit, o: LeastSquares):
    spec_typed(fit.model, Model)
    spec_assume(hasattr(fit.model, 'eval_jacobian'))
    c = BFGS
    for pair in fit.model.bounds:
        for bound in pair:
            if bound is not None:
                c = LBFGSB
    return c, o, [p for p in fit.model.params], o, o.eval_jacobian(spec_sym('x'))
'''
OP = {'LeastSquares.__call__', 'LeastSquares.eval_jacobian',
      'LeastSquares.eval_hessian', 'VectorLeastSquares.eval_jacobian',
      'VectorLeastSquares.__call__'}
KW = dict(opaque=OP, raises=True)
IN = dict(opaque=OP, raises=True, intercept={
    'Fit._make_signature': 'fake_sig', 'TakesData._make_signature': 'fake_sig',
    'HasCovarianceMatrix.__init__': 'fake_data', 'TakesData.__init__': 'fake_data',
    'Fit._init_minimizer': 'stop'})
D, I, M = 'Fit._determine_objective', 'Fit._init_minimizer', 'Fit.__init__'
OBLIGATIONS = [
    Obl('automatic minimizer', 'choose_got', 'choose_want',
        'SLSQP with constraints, LBFGSB with any bound, BFGS otherwise',
        'Fit._determine_minimizer', **KW),
]
for k, r in [('1', 'a scalar model without any data is minimized'),
             ('2', 'a scalar model with data is a least-squares fit'),
             ('3', 'a model with independent variables is a least-squares fit'),
             ('4', 'several components are a least-squares fit'),
             ('5', 'MINPACK needs the vector objective'),
             ('6', 'a likelihood gets no data for dependent variables and sigmas')]:
    OBLIGATIONS.append(Obl('automatic objective ' + k, 'o%s_got' % k, 'o%s_want' % k, r, D, **KW))
OBLIGATIONS += [
    Obl('data for a likelihood', 'o7_got', 'o7_want', 'is refused', D, **KW),
    Obl('sigma for a model objective', 'o8_got', 'o7_want', 'is refused', D, **KW),
    Obl('explicit objectives', 'o9_got', 'o9_want', 'are kept', D, **KW),
    Obl('Fit chooses', 'auto_got', 'auto_want',
        'the automatic minimizer is initialised', M, **IN),
    Obl('Fit chooses with constraints', 'autoc_got', 'autoc_want',
        'the automatic minimizer is initialised', M, **IN),
    Obl('explicit minimizer class', 'expl_got', 'expl_want', 'is honoured', M, **IN),
    Obl('explicit minimizer instance', 'inst_got', 'inst_want', 'is honoured', M, **IN),
    Obl('sequence of minimizers', 'chain_got', 'chain_want',
        'is chained in order', M, **IN),
    Obl('sequences of any length and kind', 'chain1_got', 'chain1_want',
        'are chained', M, **IN),
    Obl('objective class', 'class_got', 'class_want',
        'is instantiated on the model and the data of the fit', M, **IN),
    Obl('objective for MINPACK', 'minpack_got', 'minpack_want',
        'is the vector objective', M, **IN),
    Obl('objective for a sequence', 'chains_got', 'chains_want',
        'which contains minimizers of scalars is least squares', [M, D], **IN),
    Obl('objective factory', 'callable_got', 'callable_want',
        'is called with the model and the data of the fit', M, **IN),
    Obl('plain minimizers', 'plain_got', 'plain_want',
        'get the objective and the parameters of the model only', I, **KW),
    Obl('gradient minimizers', 'grad_got', 'grad_want',
        'get the gradient of the objective when the model has one', I, **KW),
    Obl('Hessian minimizers', 'ghess_got', 'ghess_want',
        'get the Hessian of the objective when the model has one', I, **KW),
    Obl('objectives without Hessian', 'vhess_got', 'vhess_want',
        'hand over no Hessian', I, **KW),
    Obl('constrained minimizers', 'cons_got', 'cons_want',
        'get every constraint as an objective on the data of the fit', I, **KW),
    Obl('everything', 'both_got', 'both_want', 'is handed over together', I, **KW),
    Obl('instances', 'keep_got', 'keep_want', 'are left alone', I, **KW),
    Obl('basin hopping', 'basin_got', 'basin_want',
        'gets the automatic local minimizer', I, **KW),
    Obl('basin hopping without constraints', 'basinp_got', 'basinp_want',
        'gets the automatic local minimizer with its gradient', I, **KW),
]
# shared obligations
ALSO = {'C11': ['init_got', 'num_got']}
