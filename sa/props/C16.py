from ..check import Obl

DRIVER = '''
import numpy as np
import sympy
from toposort import CircularDependencyError
from symfit.core.argument import Parameter, Variable
from symfit.core.models import (Model, CallableModel, GradientModel, BaseModel,
    CallableNumericalModel, ModelError, BaseGradientModel)


def chain_got(a, b, X):
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    p, q = spec_par('p'), spec_par('q')
    e1 = spec_expr('e1', [x, p])
    e2 = spec_expr('e2', [z, q])
    e3 = spec_expr('e3', [w, p, x])
    m = CallableModel({y: e2, w: e1, z: e3})
    return [c for c in m(x=X, p=a, q=b)]


def chain_want(a, b, X):
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    p, q = spec_par('p'), spec_par('q')
    W = spec_expr('e1', [x, p])(x=X, p=a)
    Z = spec_expr('e3', [w, p, x])(w=W, p=a, x=X)
    Y = spec_expr('e2', [z, q])(z=Z, q=b)
    return [np.atleast_1d(W), np.atleast_1d(Y), np.atleast_1d(Z)]


def names_got(a, b, X):
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    p, q = spec_par('p'), spec_par('q')
    m = CallableModel({y: spec_expr('e2', [z, q]), w: spec_expr('e1', [x, p]),
                       z: spec_expr('e3', [w, p, x])})
    return (m.independent_vars, m.dependent_vars, m.interdependent_vars, m.params,
            [s for s in m.sigmas], [m.sigmas[s].name for s in m.sigmas])


def names_want(a, b, X):
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    p, q = spec_par('p'), spec_par('q')
    return [x], [y], [w, z], [p, q], [y], ['sigma_y']


def diamond_got(a, b, X):
    x, y, u, v = spec_var('x'), spec_var('y'), spec_var('u'), spec_var('v')
    p, q = spec_par('p'), spec_par('q')
    m = Model({y: spec_expr('e1', [u, v, q]), u: spec_expr('e2', [x, p]),
               v: spec_expr('e3', [x, p, q])})
    return [c for c in m(X, a, b)]


def diamond_want(a, b, X):
    x, y, u, v = spec_var('x'), spec_var('y'), spec_var('u'), spec_var('v')
    p, q = spec_par('p'), spec_par('q')
    U = spec_expr('e2', [x, p])(x=X, p=a)
    V = spec_expr('e3', [x, p, q])(x=X, p=a, q=b)
    Y = spec_expr('e1', [u, v, q])(u=U, v=V, q=b)
    return [np.atleast_1d(U), np.atleast_1d(V), np.atleast_1d(Y)]


def case_got(a, X):
    """variables whose names differ in case only, or begin alike"""
    x, y, Y, y1 = spec_var('x'), spec_var('y'), spec_var('Y'), spec_var('y1')
    p = spec_par('p')
    m = CallableModel({Y: spec_expr('e1', [y, y1]), y: spec_expr('e2', [x, p]),
                       y1: spec_expr('e3', [x, y])})
    return [c for c in m(X, a)]


def case_want(a, X):
    x, y, y1 = spec_var('x'), spec_var('y'), spec_var('y1')
    p = spec_par('p')
    U = spec_expr('e2', [x, p])(x=X, p=a)
    V = spec_expr('e3', [x, y])(x=X, y=U)
    return [np.atleast_1d(spec_expr('e1', [y, y1])(y=U, y1=V)),
            np.atleast_1d(U), np.atleast_1d(V)]


def mixed_got(f, a, b, X):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    p, q = spec_par('p'), spec_par('q')
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    m = CallableNumericalModel({z: f, y: spec_expr('e1', [x, p])},
                               connectivity_mapping={z: {y, p, q}})
    return [c for c in m(x=X, p=a, q=b)], m.params, m.independent_vars


def mixed_want(f, a, b, X):
    x, y = spec_var('x'), spec_var('y')
    p, q = spec_par('p'), spec_par('q')
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    Y = spec_expr('e1', [x, p])(x=X, p=a)
    return ([np.atleast_1d(Y), np.atleast_1d(f(y=Y, p=a, q=b))], [p, q], [x])


def numeric_got(f, g, a, b, X):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    p, q = spec_par('p'), spec_par('q')
    for k in (f, g):
        spec_assume(not isinstance(k, sympy.Basic))
        spec_assume(not isinstance(k, sympy.Expr))
    m = CallableNumericalModel({y: f, z: g},
                               connectivity_mapping={y: {z, p}, z: {x, q}})
    return [c for c in m(X, a, b)]


def numeric_want(f, g, a, b, X):
    for k in (f, g):
        spec_assume(not isinstance(k, sympy.Basic))
        spec_assume(not isinstance(k, sympy.Expr))
    Z = g(x=X, q=b)
    return [np.atleast_1d(f(z=Z, p=a)), np.atleast_1d(Z)]


def flat_got(f, a, b, X):
    """an expression of a component that is a callable"""
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    p, q = spec_par('p'), spec_par('q')
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    m = CallableNumericalModel({z: f, y: spec_expr('e1', [z, q, w]), w: spec_expr('e2', [z, x])},
                               connectivity_mapping={z: {x, p}})
    return [c for c in m(x=X, p=a, q=b)], m.params, m.independent_vars


def flat_want(f, a, b, X):
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    p, q = spec_par('p'), spec_par('q')
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    Z = f(x=X, p=a)
    W = spec_expr('e2', [z, x])(z=Z, x=X)
    return ([np.atleast_1d(W), np.atleast_1d(spec_expr('e1', [z, q, w])(z=Z, q=b, w=W)),
             np.atleast_1d(Z)], [p, q], [x])


def dep_got(a, b, X):
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    p, q = spec_par('p'), spec_par('q')
    base = Model({z: spec_expr('e2', [w, q]), w: spec_expr('e1', [x, p])})
    m = CallableModel.with_dependencies({y: spec_expr('e3', [z, q])}, base)
    return ([v for v in m], [m[v] for v in m], m.dependent_vars, m.params,
            [c for c in m(x=X, p=a, q=b)])


def dep_want(a, b, X):
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    p, q = spec_par('p'), spec_par('q')
    e1, e2, e3 = spec_expr('e1', [x, p]), spec_expr('e2', [w, q]), spec_expr('e3', [z, q])
    W = e1(x=X, p=a)
    Z = e2(w=W, q=b)
    Y = e3(z=Z, q=b)
    return ([w, y, z], [e1, e3, e2], [y], [p, q],
            [np.atleast_1d(W), np.atleast_1d(Y), np.atleast_1d(Z)])


def indep_got():
    x, y, z, u = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('u')
    p, q = spec_par('p'), spec_par('q')
    base = Model({z: spec_expr('e2', [x, q])})
    m = CallableModel.with_dependencies({y: spec_expr('e3', [u, q])}, base)
    return [v for v in m], [m[v] for v in m], m.independent_vars


def indep_want():
    x, y, u = spec_var('x'), spec_var('y'), spec_var('u')
    q = spec_par('q')
    return [y], [spec_expr('e3', [u, q])], [u]


def part_got():
    x, y, z, w, v = (spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w'),
                     spec_var('v'))
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    base = Model({z: spec_expr('e2', [w, q]), w: spec_expr('e1', [x, p]),
                  v: spec_expr('e4', [z, r])})
    m = CallableModel.with_dependencies({y: spec_expr('e3', [w, q])}, base)
    return [k for k in m], [m[k] for k in m], m.params


def part_want():
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    p, q = spec_par('p'), spec_par('q')
    return [w, y], [spec_expr('e1', [x, p]), spec_expr('e3', [w, q])], [p, q]


def con_got(a, b, c, X):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    base = Model({y: spec_expr('e2', [x, q, p, r])})
    m = Model.as_constraint(sympy.Ge(spec_expr('e3', [y, q]), spec_expr('e4', [p])), base)
    out = m(x=X, p=a, q=b, r=c)
    return (m.constraint_type is sympy.Ge, m.params, [d.name for d in m.dependent_vars] == ['y'],
            len(out), out[0] if m.dependent_vars[0] is not [k for k in m][1] else out[1],
            [k for k in m][0] is y or [k for k in m][1] is y)


def con_want(a, b, c, X):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    Y = spec_expr('e2', [x, q, p, r])(x=X, q=b, p=a, r=c)
    C = (spec_expr('e3', [y, q]) - spec_expr('e4', [p]))(y=Y, q=b, p=a)
    return True, [p, q, r], False, 2, np.atleast_1d(C), True


def le_got(a, b, c, X):
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    x, y = spec_var('x'), spec_var('y')
    base = Model({y: spec_expr('e2', [x, q, p, r])})
    m = Model.as_constraint(sympy.Le(spec_expr('e3', [r, q]), spec_expr('e4', [p])), base)
    out = m(p=a, q=b, r=c)
    return m.constraint_type is sympy.Ge, m.params, len(out), out[0]


def le_want(a, b, c, X):
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    C = -1 * (spec_expr('e3', [r, q]) - spec_expr('e4', [p]))
    return True, [p, q, r], 1, np.atleast_1d(C(q=b, p=a, r=c))


def strict_got():
    p, q = spec_par('p'), spec_par('q')
    x, y = spec_var('x'), spec_var('y')
    base = Model({y: spec_expr('e2', [x, q, p])})
    Model.as_constraint(sympy.Ne(spec_expr('e3', [q]), spec_expr('e4', [p])), base)


def strict_want():
    raise ModelError('type')


def foreign_got():
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    x, y = spec_var('x'), spec_var('y')
    base = Model({y: spec_expr('e2', [x, q, p])})
    Model.as_constraint(sympy.Eq(spec_expr('e3', [q]), spec_expr('e4', [r])), base)


def foreign_want():
    raise ModelError('params')


def vector_got():
    p, q = spec_par('p'), spec_par('q')
    x, y = spec_var('x'), spec_var('y')
    base = Model({y: spec_expr('e2', [x, q, p])})
    Model.as_constraint([spec_expr('e3', [q]), spec_expr('e4', [p])], base,
                        constraint_type=sympy.Eq)


def vector_want():
    raise ModelError('scalar')


def cycle_got():
    y, z = spec_var('y'), spec_var('z')
    p = spec_par('p')
    Model({y: spec_expr('e1', [z, p]), z: spec_expr('e2', [y, p])})


def cycle_want():
    raise CircularDependencyError('circular')


def pardep_got():
    y = spec_var('y')
    p, q = spec_par('p'), spec_par('q')
    Model({p: spec_expr('e1', [y, q])})


def pardep_want():
    raise ModelError('role')


class Plain(sympy.Symbol):
    """a symbol which is neither a Variable nor a Parameter"""


def other_got(a, b, X, W):
    w, x, y, z = spec_typed(spec_var('w'), Plain), spec_var('x'), spec_var('y'), spec_var('z')
    p, q = spec_par('p'), spec_par('q')
    m = CallableModel({y: spec_expr('e1', [z, w, p]), z: spec_expr('e2', [x, q])})
    return (m.independent_vars == [w, x], m.params, m.interdependent_vars, [c for c in m(W, X, a, b)])


def other_want(a, b, X, W):
    w, x, y, z = spec_typed(spec_var('w'), Plain), spec_var('x'), spec_var('y'), spec_var('z')
    p, q = spec_par('p'), spec_par('q')
    Z = spec_expr('e2', [x, q])(x=X, q=b)
    return (True, [p, q], [z],
            [np.atleast_1d(spec_expr('e1', [z, w, p])(z=Z, w=W, p=a)), np.atleast_1d(Z)])


def numle_got(f, a, b, X):
    """a callable as a constraint on a model"""
    x, y, c, p, q = spec_var('x'), spec_var('y'), spec_var('c'), spec_par('p'), spec_par('q')
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    base = Model({y: spec_expr('e2', [x, q, p])})
    out = []
    for kind in (sympy.Le, sympy.Ge, sympy.Eq):
        m = CallableNumericalModel.as_constraint({c: f}, base, kind,
                                                 connectivity_mapping={c: {q}})
        r = m(p=a, q=b)
        out += [m.constraint_type is sympy.Ge, m.constraint_type is sympy.Eq, m.params,
                [v for v in r]]
    return out


def numle_want(f, a, b, X):
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    ps, v = [spec_par('p'), spec_par('q')], np.atleast_1d(f(q=b))
    return [True, False, ps, [np.atleast_1d(-f(q=b))], True, False, ps, [v], False, True, ps, [v]]


def unconnected_got(f):
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    CallableNumericalModel({spec_var('y'): f})


def unconnected_want(f):
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    raise TypeError('connectivity_mapping')


def unnamed_got(f):
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    y = spec_var('y')
    CallableNumericalModel([f], connectivity_mapping={y: {spec_var('x')}})


def unnamed_want(f):
    return unconnected_want(f)
'''
W = 'BaseCallableModel.eval_components'
KW = dict(raises=True, orders=True)
OBLIGATIONS = [
    Obl('chain of dependencies', 'chain_got', 'chain_want',
        'components are evaluated in dependency order', W, **KW),
    Obl('roles of the symbols', 'names_got', 'names_want',
        'independent, interdependent and dependent variables', 'BaseModel._init_from_dict', **KW),
    Obl('similar names', 'case_got', 'case_want', 'are told apart',
        'BaseCallableModel.eval_components', **KW),
    Obl('diamond of dependencies', 'diamond_got', 'diamond_want',
        'components are evaluated in dependency order', W, **KW),
    Obl('expression of a callable', 'flat_got', 'flat_want',
        'symbolic components feed numerical ones', W, **KW),
    Obl('mixed numerical model', 'mixed_got', 'mixed_want',
        'symbolic components feed numerical ones', W, **KW),
    Obl('numerical model', 'numeric_got', 'numeric_want',
        'numerical components feed each other', W, **KW),
    Obl('with_dependencies', 'dep_got', 'dep_want',
        'takes over everything depended upon', 'BaseModel.with_dependencies', **KW),
    Obl('with_dependencies unrelated', 'indep_got', 'indep_want',
        'takes over nothing else', 'BaseModel.with_dependencies', **KW),
    Obl('with_dependencies partially', 'part_got', 'part_want',
        'takes over what comes before', 'BaseModel.with_dependencies', **KW),
    Obl('constraint on a dependent variable', 'con_got', 'con_want',
        'evaluates the model first', 'BaseModel.as_constraint', **KW),
    Obl('less-or-equal constraint', 'le_got', 'le_want',
        'is the negated greater-or-equal', 'BaseModel.as_constraint', **KW),
    Obl('other relations', 'strict_got', 'strict_want', 'are refused',
        'BaseModel.as_constraint', **KW),
    Obl('foreign parameters', 'foreign_got', 'foreign_want', 'are refused',
        'BaseModel.as_constraint', **KW),
    Obl('vector constraint', 'vector_got', 'vector_want', 'is refused',
        'BaseModel.as_constraint', **KW),
    Obl('circular dependency', 'cycle_got', 'cycle_want', 'is refused',
        'BaseModel._init_from_dict', **KW),
    Obl('parameter as dependent variable', 'pardep_got', 'pardep_want', 'is refused',
        'BaseModel._init_from_dict', **KW),
    Obl('other symbols', 'other_got', 'other_want', 'are independent variables',
        'BaseModel._init_from_dict', **KW),
    Obl('callables as constraints', 'numle_got', 'numle_want',
        'have the value of the callable; less-or-equal is negated greater-or-equal',
        ['BaseModel.as_constraint', 'BaseNumericalModel.__neg__'], **KW),
    Obl('callables without connectivity', 'unconnected_got', 'unconnected_want', 'are refused',
        'BaseNumericalModel.__init__', **KW),
    Obl('callables without names', 'unnamed_got', 'unnamed_want', 'are refused',
        'BaseNumericalModel.__init__', **KW),
]

ALSO = {'C29': ['dep_got']}
