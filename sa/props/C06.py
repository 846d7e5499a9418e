from ..check import Obl

DRIVER = '''
import inspect
import numpy as np
import sympy
from symfit.core.argument import Parameter, Variable
from symfit.core.support import D, seperate_symbols
from symfit.core.models import (ODEModel, Model, CallableModel, GradientModel, HessianModel,
    CallableNumericalModel, BaseModel)


def syms():
    return (spec_var('x10'), spec_var('x2'), spec_var('X'), spec_var('b'), spec_var('Z'),
            spec_par('q'), spec_par('P'), spec_par('a'), spec_par('p1'))


def model(cls):
    x10, x2, X, b, Z, q, P, a, p1 = syms()
    return cls({b: spec_expr('e1', [x2, x10, q, a]), Z: spec_expr('e2', [X, P, p1, x2])})


def order_got():
    m = model(Model)
    return ([v.name for v in m], [v.name for v in m.independent_vars],
            [v.name for v in m.dependent_vars], m.interdependent_vars,
            [p.name for p in m.params])


def order_want():
    return ['Z', 'b'], ['X', 'x10', 'x2'], ['Z', 'b'], [], ['P', 'a', 'p1', 'q']


def lists():
    x, y = spec_var('x'), spec_var('y')
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    return [spec_expr('e2', [y, p]), spec_expr('e0', [x, q]), spec_expr('e1', [x, y, r]),
            spec_expr('e0', [x, q])] + [spec_expr('f%d' % k, [x, p]) for k in range(8)]


def list_got():
    m = Model(lists())
    c = CallableModel(tuple(lists()[:1]))
    s = CallableModel(lists()[1])
    return (list(m.values()), [m[v] for v in m.dependent_vars], len(m), len(m.sigmas),
            list(c.values()), list(s.values()), [p.name for p in m.params])


def list_want():
    e = lists()
    return e, e, 12, 12, e[:1], e[1:2], ['p', 'q', 'r']


def callables():
    def make(k):
        return lambda x, p: spec_sym('g%d' % k)(x, p)
    return [make(k) for k in range(12)]


def fs_got(i, j):
    m = CallableNumericalModel(callables(), [spec_var('x')], [spec_par('p')])
    n = CallableNumericalModel(callables()[5], [spec_var('x')], [spec_par('p')])
    return [c for c in m(x=i, p=j)], [c for c in n(x=i, p=j)]


def fs_want(i, j):
    r = [np.atleast_1d(spec_sym('g%d' % k)(i, j)) for k in range(12)]
    return r, r[5:6]


def constant_got(i, j):
    m = Model({spec_var('z'): spec_expr('two', []), spec_var('y'): spec_expr('e1', [spec_var('x'), spec_par('p')]),
               spec_var('a'): spec_expr('one', [])})
    return ([v.name for v in m], [v.name for v in m.independent_vars], [p.name for p in m.params],
            list(inspect.signature(m).parameters), [c for c in m(i, j)])


def constant_want(i, j):
    return (['a', 'y', 'z'], ['x'], ['p'], ['x', 'p'],
            [np.atleast_1d(spec_expr('one', [])()),
             np.atleast_1d(spec_expr('e1', [spec_var('x'), spec_par('p')])(x=i, p=j)),
             np.atleast_1d(spec_expr('two', [])())])


def list_call_got(i, j, k, l):
    return [c for c in CallableModel(lists()[:4])(i, j, k, l, 0)]


def list_call_want(i, j, k, l):
    return [np.atleast_1d(n) for n in (
        lists()[0](y=j, p=k), lists()[1](x=i, q=l), lists()[2](x=i, y=j, r=0),
        lists()[3](x=i, q=l))]


def sig_got():
    m = model(CallableModel)
    return [n for n in inspect.signature(m).parameters]


def sig_want():
    return ['X', 'x10', 'x2', 'P', 'a', 'p1', 'q']


def vars_got():
    return [v.name for v in model(Model).vars]


def vars_want():
    return ['X', 'x10', 'x2', 'Z', 'b', 'sigma_Z', 'sigma_b']


def call_got(i, j, k, l, m_, n, o):
    return [c for c in model(CallableModel)(i, j, k, l, m_, n, o)]


def call_want(i, j, k, l, m_, n, o):
    x10, x2, X, b, Z, q, P, a, p1 = syms()
    return [np.atleast_1d(spec_expr('e2', [X, P, p1, x2])(X=i, x2=k, P=l, p1=n)),
            np.atleast_1d(spec_expr('e1', [x2, x10, q, a])(x10=j, x2=k, a=m_, q=o))]


def mixed_got(i, j, k, l, m_, n, o):
    return [c for c in model(CallableModel)(i, j, k, q=o, a=m_, P=l, p1=n)]


def mixed_want(i, j, k, l, m_, n, o):
    return call_want(i, j, k, l, m_, n, o)


def jac_got():
    return model(GradientModel).jacobian


def jac_want():
    x10, x2, X, b, Z, q, P, a, p1 = syms()
    e, f = spec_expr('e2', [X, P, p1, x2]), spec_expr('e1', [x2, x10, q, a])
    return [[e.diff(P), 0, e.diff(p1), 0], [0, f.diff(a), 0, f.diff(q)]]


def hess_got():
    return [c[3] for c in model(HessianModel).hessian]


def hess_want():
    x10, x2, X, b, Z, q, P, a, p1 = syms()
    f = spec_expr('e1', [x2, x10, q, a])
    return [[0, 0, 0, 0], [0, f.diff(q, a), 0, f.diff(q, q)]]


def free_got():
    return model(Model).free_params


def free_want():
    x10, x2, X, b, Z, q, P, a, p1 = syms()
    return [p for p in [P, a, p1, q] if not p.fixed]


def num_got(f, i, j, k, l):
    x, y = spec_var('x'), spec_var('Y')
    q, P, a = spec_par('q'), spec_par('P'), spec_par('a')
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    m = CallableNumericalModel({y: f}, connectivity_mapping={y: {q, x, P, a}})
    return [c for c in m(i, j, k, l)], m.params, m.independent_vars


def num_want(f, i, j, k, l):
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    return ([np.atleast_1d(f(x=i, P=j, a=k, q=l))],
            [spec_par('P'), spec_par('a'), spec_par('q')], [spec_var('x')])


def old_got(f, i, j, k, l):
    x, y, v = spec_var('x'), spec_var('Y'), spec_var('v')
    q, P = spec_par('q'), spec_par('P')
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    m = CallableNumericalModel({y: f}, [x, v], [q, P])
    return [c for c in m(i, j, k, l)]


def old_want(f, i, j, k, l):
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    return [np.atleast_1d(f(v=i, x=j, P=k, q=l))]


def odenames_got():
    """names of which one starts with the other"""
    t, p, q = spec_var('t'), spec_par('P'), spec_par('a')
    y, y1, Y, y_ = [spec_var(n) for n in ('y', 'y1', 'Y', 'y_')]
    m = ODEModel({D(v, t): spec_expr('e' + v.name, [t, v, p, q]) for v in (y1, y_, y, Y)},
                 initial={t: 0, y: 1, y1: 2, Y: 3, y_: 4})
    return ([v.name for v in m], list(m.values()), [m[v] for v in m], [p.name for p in m.params],
            [v.name for v in m.sigmas])


def odenames_want():
    t, p, q = spec_var('t'), spec_par('P'), spec_par('a')
    n = ['Y', 'y', 'y1', 'y_']
    es = [spec_expr('e' + v, [t, spec_var(v), p, q]) for v in n]
    return n, es, es, ['P', 'a'], n


def sep_got():
    x10, x2, X, b, Z, q, P, a, p1 = syms()
    return seperate_symbols(spec_expr('e', [q, x2, X, a, x10, P]))


def sep_want():
    x10, x2, X, b, Z, q, P, a, p1 = syms()
    return [X, x10, x2], [P, a, q]


def bad_got(v):
    m = model(CallableModel)
    m(v, v, v, v, v, v, v, v)


def bad_want(v):
    raise TypeError('too many')


def missing_got(v):
    model(CallableModel)(v, v, v, P=v, a=v, p1=v)


def missing_want(v):
    raise TypeError('missing')


def unknown_got(v):
    model(CallableModel)(v, v, v, P=v, a=v, p1=v, q=v, zz=v)


def unknown_want(v):
    raise TypeError('unexpected')
'''
I = 'BaseModel._init_from_dict'
C = 'BaseCallableModel.eval_components'
S = 'BaseCallableModel._make_signature'
KW = dict(raises=True, orders=True)
OBLIGATIONS = [
    Obl('symbols of a model', 'order_got', 'order_want',
        'are in alphabetical order per group', I, **KW),
    Obl('signature', 'sig_got', 'sig_want',
        'independent variables before parameters', S, **KW),
    Obl('vars', 'vars_got', 'vars_want',
        'independent, dependent, then sigmas', 'BaseModel.vars', **KW),
    Obl('positional call', 'call_got', 'call_want',
        'binds in the order of the signature', C, **KW),
    Obl('mixed call', 'mixed_got', 'mixed_want', 'binds by name', C, **KW),
    Obl('jacobian order', 'jac_got', 'jac_want',
        'rows by component, columns by parameter', 'GradientModel.jacobian', **KW),
    Obl('hessian order', 'hess_got', 'hess_want',
        'rows and columns by parameter', 'HessianModel.hessian', **KW),
    Obl('free parameters', 'free_got', 'free_want',
        'keep the order of the parameters', 'BaseModel.free_params', **KW),
    Obl('numerical model', 'num_got', 'num_want',
        'follows the same convention', I, **KW),
    Obl('numerical model with lists', 'old_got', 'old_want',
        'follows the same convention', 'BaseNumericalModel.__init__', **KW),
    Obl('separated symbols', 'sep_got', 'sep_want',
        'are in alphabetical order', 'seperate_symbols', **KW),
    Obl('differential equations', 'odenames_got', 'odenames_want', 'are sorted by variable',
        'ODEModel.__init__', **KW),
    Obl('list of expressions', 'list_got', 'list_want',
        'components keep the order of the list', I, **KW),
    Obl('list of callables', 'fs_got', 'fs_want', 'components keep the order of the list',
        'BaseNumericalModel.__init__', **KW),
    Obl('constant components', 'constant_got', 'constant_want', 'are no arguments', I, **KW),
    Obl('calling a model made of a list', 'list_call_got', 'list_call_want',
        'components keep the order of the list', C, **KW),
    Obl('too many arguments', 'bad_got', 'bad_want', 'are refused', C, **KW),
    Obl('a missing argument', 'missing_got', 'missing_want', 'is refused', C,
        **KW),
    Obl('an unknown argument', 'unknown_got', 'unknown_want', 'is refused', C,
        **KW),
]
# shared obligations
ALSO = {'C05': ['call3_got', 'call2_got'],
 'C16': ['other_got', 'unconnected_got', 'unnamed_got'],
 'C07': ['pos_got', 'fpos_got'],
 'C17': ['evaljac_got', 'evalhess_got'],
 'C18': ['order_got', 'params_got', 'call_got'],
 'C32': ['plain_got', 'deriv_got', 'items_got', 'sigma_got']}
