from ..check import Obl
from .minim import HEAD, OPAQUE

DRIVER = HEAD + '''
from collections import OrderedDict
from symfit.core.models import (
    BaseModel, Model, ModelOutput, CallableModel, CallableNumericalModel, ODEModel)
from symfit.core.fit_results import FitResults
from symfit.core.argument import Parameter, Variable
from symfit.core.support import cached_property


def revive(m):
    """what unpickling does with the state of m"""
    new = object.__new__(m.__class__)
    if hasattr(m, '__setstate__'):
        new.__setstate__(m.__getstate__())
    else:
        new.__dict__.update(m.__getstate__())
    return new


def shape(m):
    x = spec_sym('x')
    return (type(m), m.objective, [p for p in m.parameters], [p for p in m.params],
            [g for g in m.initial_guesses])


def derivs(m):
    x = spec_sym('x')
    return (m.jacobian, applied(m.wrapped_jacobian, x))


def hessian(m):
    x = spec_sym('x')
    return (m.hessian, applied(m.wrapped_hessian, x))


def cons(m):
    x = spec_sym('x')
    return [(c['type'], c['fun'](x), applied(c.get('jac'), x))
            for c in m.wrapped_constraints]


def names(m):
    return sorted(k for k, v in m.__getstate__().items()
                  if k.startswith('wrapped_') and v is not None)


def state_want(obj: LeastSquares, ps: "Seq", c1: MinimizeModel):
    return []


def model_with(cls):
    """a model as it is after some use, without the symbolic machinery"""
    m = object.__new__(cls)
    y, x, a, b = spec_var('y'), spec_var('x'), spec_par('a'), spec_par('b')
    m.model_dict = OrderedDict([(y, spec_sym('expr'))])
    m.dependent_vars = [y]
    m.independent_vars = [x]
    m.interdependent_vars = []
    m.sigmas = {y: spec_var('sigma_y')}
    m.params = [a, b]
    m.constraint_type = spec_sym('ct')
    m.__dict__[cached_property.base_str + '_numerical_components'] = spec_sym('lambdas')
    m.__dict__[cached_property.base_str + '_jacobian'] = spec_sym('jacobian')
    if hasattr(m, '_make_signature'):
        m.__signature__ = m._make_signature()
    return m


def kept(m):
    return (type(m), [(k, v) for k, v in m.model_dict.items()],
            [v for v in m.dependent_vars], [v for v in m.independent_vars],
            [v for v in m.interdependent_vars], [v for v in m.params],
            [(k, v) for k, v in m.sigmas.items()], m.constraint_type,
            [n for n in m.__signature__.parameters] if hasattr(m, '_make_signature') else None)


def base_got():
    return kept(revive(model_with(BaseModel)))


def base_want():
    return kept(model_with(BaseModel))


def bm_got():
    return kept(revive(model_with(Model)))


def bm_want():
    return kept(model_with(Model))


def bms_got():
    s = model_with(Model).__getstate__()
    return sorted(k for k in s if k.startswith(cached_property.base_str))


def bms_want():
    return []


def num_got():
    m = model_with(CallableNumericalModel)
    m._connectivity_mapping = spec_sym('conn')
    r = revive(m)
    return kept(r), r.connectivity_mapping


def num_want():
    return kept(model_with(CallableNumericalModel)), spec_sym('conn')


def alive_got():
    m = model_with(Model)
    s = m.__getstate__()
    return kept(m), m.__dict__[cached_property.base_str + '_jacobian']


def alive_want():
    return kept(model_with(Model)), spec_sym('jacobian')


def out_got(a, b):
    y, z = spec_var('y'), spec_var('z')
    m = ModelOutput([y, z], [a, b])
    r = revive(m)
    return (r.y, r.z, r[0], r[1], [v for v in r.variables], len(r),
            [(k, v) for k, v in r._asdict().items()])


def out_want(a, b):
    y, z = spec_var('y'), spec_var('z')
    return a, b, a, b, [y, z], 2, [(y, a), (z, b)]


def outnew_got(a, b):
    y, z = spec_var('y'), spec_var('z')
    v, o = ModelOutput([y, z], [a, b]).__getnewargs__()
    return [x for x in v], [x for x in o]


def outnew_want(a, b):
    return [spec_var('y'), spec_var('z')], [a, b]


def par_got(p: Parameter):
    s = p.__getstate__()
    return [s[k] for k in ('value', 'min', 'max', 'fixed')]


def par_want(p: Parameter):
    return [p.value, p.min, p.max, p.fixed]


def parset_got(q: Parameter, a, b, c, d):
    q.__setstate__({'value': a, 'min': b, 'max': c, 'fixed': d})
    return q.value, q.min, q.max, q.fixed


def parset_want(q: Parameter, a, b, c, d):
    return a, b, c, d


def results(minimizer):
    r = object.__new__(FitResults)
    r.minimizer = minimizer
    for n in ('model', 'objective', 'status_message', '_popt', 'params',
              'covariance_matrix', 'gof_qualifiers', 'constraints', 'minimizer_output'):
        r.__dict__[n] = spec_sym('r_' + n)
    return r


def contents(r):
    return [r.__dict__[n] for n in (
        'model', 'objective', 'status_message', '_popt', 'params',
        'covariance_matrix', 'gof_qualifiers', 'constraints', 'minimizer_output')]


def fr_got(obj: LeastSquares, ps: "Seq"):
    r = revive(results(BFGS(obj, ps, jacobian=obj.eval_jacobian)))
    return contents(r), shape(r.minimizer)


def fr_want(obj: LeastSquares, ps: "Seq"):
    return contents(results(None)), shape(BFGS(obj, ps))


def frc_got(obj: LeastSquares, ps: "Seq"):
    c = ChainedMinimizer(obj, ps, minimizers=[NelderMead(obj, ps), BFGS(obj, ps)])
    r = revive(results(c))
    return (contents(r), type(r.minimizer), r.minimizer.objective,
            [p for p in r.minimizer.parameters],
            [shape(m) for m in r.minimizer.minimizers])


def frc_want(obj: LeastSquares, ps: "Seq"):
    return (contents(results(None)), ChainedMinimizer, obj, [p for p in ps],
            [shape(NelderMead(obj, ps)), shape(BFGS(obj, ps))])


class MyChain(ChainedMinimizer):
    """somebody's own chain"""


class MyBFGS(BFGS):
    """somebody's own minimizer"""


def frown_got(obj: LeastSquares, ps: "Seq"):
    c = MyChain(obj, ps, minimizers=[NelderMead(obj, ps), MyBFGS(obj, ps)])
    r, s = revive(results(c)), revive(results(MyBFGS(obj, ps)))
    return (contents(r), type(r.minimizer) is MyChain, r.minimizer.objective,
            [p for p in r.minimizer.parameters],
            [type(m) for m in r.minimizer.minimizers], type(s.minimizer), contents(s))


def frown_want(obj: LeastSquares, ps: "Seq"):
    return (contents(results(None)), True, obj, [p for p in ps],
            [NelderMead, MyBFGS], MyBFGS, contents(results(None)))


def fralive_got(obj: LeastSquares, ps: "Seq", m: BFGS):
    r = results(m)
    r.__getstate__()
    return r.minimizer is m, contents(r)


def fralive_want(obj: LeastSquares, ps: "Seq", m: BFGS):
    return True, contents(results(None))


def chain_got(obj: LeastSquares, ps: "Seq", a: NelderMead, b: BFGS):
    c = revive(ChainedMinimizer(obj, ps, minimizers=[a, b]))
    return (shape(c), [m for m in c.minimizers],
            [n for n in c.__signature__.parameters])


def chain_want(obj: LeastSquares, ps: "Seq", a: NelderMead, b: BFGS):
    c = ChainedMinimizer(obj, ps, minimizers=[a, b])
    return shape(c), [a, b], [n for n in c.__signature__.parameters]


def guess_got(obj: LeastSquares, ps: "Seq", guess: "Seq"):
    m = NelderMead(obj, ps)
    m.initial_guesses = guess
    return [g for g in revive(m).initial_guesses]


def guess_want(obj: LeastSquares, ps: "Seq", guess: "Seq"):
    return [g for g in guess]


def basin_got(obj: LeastSquares, ps: "Seq", l: BFGS):
    r = revive(BasinHopping(obj, ps, local_minimizer=l))
    return shape(r), r.local_minimizer


def basin_want(obj: LeastSquares, ps: "Seq", l: BFGS):
    return shape(BasinHopping(obj, ps, local_minimizer=l)), l


def mp_got(obj: VectorLeastSquares, ps: "Seq", o2: VectorLeastSquares):
    m = revive(MINPACK(obj, ps, jacobian=o2.eval_jacobian))
    return shape(m), derivs(m)


def mp_want(obj: VectorLeastSquares, ps: "Seq", o2: VectorLeastSquares):
    m = MINPACK(obj, ps, jacobian=o2.eval_jacobian)
    return shape(m), derivs(m)
'''
KW = dict(opaque=OPAQUE, raises=True)
OBLIGATIONS = []
MAKE = {
    'BFGS': ('obj, ps, jacobian=o2.eval_jacobian', ['derivs']),
    'LBFGSB': ('obj, ps, jacobian=o2.eval_jacobian', ['derivs']),
    'SLSQP': ('obj, ps, jacobian=o2.eval_jacobian, constraints=[c1]', ['derivs', 'cons']),
    'COBYLA': ('obj, ps, constraints=[c1]', ['cons']),
    'TrustConstr': ('obj, ps, jacobian=o2.eval_jacobian, hessian=o3.eval_hessian',
                    ['derivs', 'hessian']),
    'NelderMead': ('obj, ps', []),
    'Powell': ('obj, ps', []),
    'DifferentialEvolution': ('obj, ps', []),
}
for c, (a, fs) in sorted(MAKE.items()):
    tail = ''.join(', %s(m)' % f for f in fs)
    DRIVER += '''
def %(c)s_got(obj: LeastSquares, ps: "Seq", c1: MinimizeModel,
        o2: LeastSquares, o3: LeastSquares):
    m = revive(%(c)s(%(a)s))
    return shape(m)%(t)s,


def %(c)s_want(obj: LeastSquares, ps: "Seq", c1: MinimizeModel,
        o2: LeastSquares, o3: LeastSquares):
    m = %(c)s(%(a)s)
    return shape(m)%(t)s,


def %(c)s_state(obj: LeastSquares, ps: "Seq", c1: MinimizeModel,
        o2: LeastSquares, o3: LeastSquares):
    return names(%(c)s(%(a)s))
''' % dict(c=c, a=a, t=tail)
    OBLIGATIONS += [
        Obl('revived ' + c, c + '_got', c + '_want',
            'objective, parameters, guesses, derivatives and constraints survive',
            ['BaseMinimizer.__getstate__', 'BaseMinimizer.__setstate__'], **KW),
        Obl('state of ' + c, c + '_state', 'state_want',
            'wrapped functions, which cannot be pickled, stay out of the state',
            'BaseMinimizer.__getstate__', **KW)]
OBLIGATIONS += [
    Obl('revived MINPACK', 'mp_got', 'mp_want', 'including its gradient',
        'BaseMinimizer.__setstate__', **KW),
    Obl('revived BasinHopping', 'basin_got', 'basin_want',
        'including the local minimizer', 'BaseMinimizer.__setstate__', **KW),
    Obl('revived chain', 'chain_got', 'chain_want',
        'including its minimizers and signature', 'ChainedMinimizer.__getstate__', **KW),
    Obl('revived initial guesses', 'guess_got', 'guess_want', 'survive',
        'BaseMinimizer.__setstate__', **KW),
    Obl('revived plain model', 'base_got', 'base_want',
        'keeps its definition and gets its signature back',
        ['BaseModel.__getstate__', 'BaseModel.__setstate__'], **KW),
    Obl('revived model', 'bm_got', 'bm_want',
        'keeps its definition and gets its signature back',
        ['BaseModel.__getstate__', 'BaseModel.__setstate__'], **KW),
    Obl('state of a model', 'bms_got', 'bms_want',
        'has no cached values, which cannot be pickled', 'BaseModel.__getstate__', **KW),
    Obl('revived numerical model', 'num_got', 'num_want',
        'keeps its connectivity', 'BaseModel.__setstate__', **KW),
    Obl('a pickled model', 'alive_got', 'alive_want', 'is left as it was',
        'BaseModel.__getstate__', **KW),
    Obl('revived model output', 'out_got', 'out_want', 'keeps its components',
        ['ModelOutput.__getstate__', 'ModelOutput.__setstate__'], **KW),
    Obl('new arguments of a model output', 'outnew_got', 'outnew_want',
        'are variables and output', 'ModelOutput.__getnewargs__', **KW),
    Obl('state of a parameter', 'par_got', 'par_want',
        'has value, bounds and fixedness', 'Argument.__getstate__', **KW),
    Obl('revived parameter', 'parset_got', 'parset_want',
        'has value, bounds and fixedness', 'Argument.__setstate__', **KW),
    Obl('revived results', 'fr_got', 'fr_want',
        'keep all their contents and a minimizer of the same kind',
        ['FitResults.__getstate__', 'FitResults.__setstate__'], **KW),
    Obl('revived results of own minimizers', 'frown_got', 'frown_want',
        'keep their classes', 'FitResults.__setstate__', **KW),
    Obl('revived results of a chain', 'frc_got', 'frc_want',
        'keep all their contents and the chain',
        ['FitResults.__getstate__', 'FitResults.__setstate__'], **KW),
    Obl('pickled results', 'fralive_got', 'fralive_want', 'are left as they were',
        'FitResults.__getstate__', **KW),
]
# shared obligations
ALSO = {'C22': ['copied_got']}
