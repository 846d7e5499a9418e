from ..check import Obl

DRIVER = '''
import numpy as np
import sympy
from symfit.core.argument import Parameter, Variable
from symfit.core.models import (Model, CallableModel, GradientModel, BaseModel,
    CallableNumericalModel, ODEModel, HessianModel)
from symfit.core.objectives import (LeastSquares, LogLikelihood, MinimizeModel,
    VectorLeastSquares)


class Der(object):
    """the derivative of y"""
    def __init__(self, y, *t):
        self.y = y
        self.variables = t
        self.free_symbols = {y} | set(t)


def close(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    """np.allclose, up to the roles of its arguments"""
    if a is None or b is None:
        raise TypeError('isfinite')
    if (rtol, atol, equal_nan) == (1e-5, 1e-8, False):
        return spec_scalar('close') == np.sum(a) * np.sum(b)
    return spec_scalar('other tolerances') == np.sum(a) * np.sum(b)


class Squares(LeastSquares):
    """somebody's own objective"""


def E(name, *more):
    return spec_expr(name, [spec_var('x'), spec_par('p')] + list(more))


def equal_got(a):
    y, z = spec_var('y'), spec_var('z')
    out = []
    for cls in (Model, CallableModel, GradientModel, HessianModel):
        m = cls({y: E('e'), z: E('f')})
        out += [m == m, m == cls({z: E('f'), y: E('e')}), m != cls({z: E('f'), y: E('e')})]
    return out


def equal_want(a):
    return [True, True, False] * 4


def expand_got(a):
    """what is the same after multiplying out, is the same"""
    y = spec_var('y')
    e, g = E('e'), E('e').expand()
    f = E('f', spec_var('u')).expand()
    return (Model({y: e}) == Model({y: g}), Model({y: g}) == Model({y: e}),
            Model({y: e}) != Model({y: g}), Model({y: e}) == Model({y: f}))


def expand_want(a):
    return True, True, False, False


def differ_got(a):
    y, z, u = spec_var('y'), spec_var('z'), spec_var('u')
    m = Model({y: E('e'), z: E('f')})
    return [m == Model({y: E('e'), z: E('g')}), m == Model({y: E('g'), z: E('f')}),
            m == Model({y: E('f'), z: E('e')}), m == Model({y: E('e'), u: E('f')}),
            m == Model({u: E('e'), z: E('f')}), m == Model({y: E('e')}),
            Model({y: E('e')}) == m, m == Model({z: E('f')}), Model({z: E('f')}) == m,
            m == Model({y: E('e'), z: E('f'), u: E('g')}), m == Model({y: -E('e'), z: E('f')}),
            m == -m, m != Model({y: E('e'), z: E('g')}), m != Model({y: E('e')}),
            Model({u: E('f')}) == Model({z: E('f')})]


def differ_want(a):
    return [False] * 12 + [True, True, False]


def inter_got(a):
    """models whose components depend on one another"""
    y, z = spec_var('y'), spec_var('z')
    m = Model({y: E('e', z), z: E('f')})
    return (m == Model({z: E('f'), y: E('e', z)}), m == Model({y: E('e', z), z: E('g')}),
            m == Model({y: E('h', z), z: E('f')}), m == Model({y: E('e', z)}))


def inter_want(a):
    return True, False, False, False


def num(y, f, g, *more):
    z = spec_var('z')
    for k in (f, g):
        spec_assume(not isinstance(k, sympy.Basic))
        spec_assume(not isinstance(k, sympy.Expr))
    x, p, q = spec_var('x'), spec_par('p'), spec_par('q')
    return CallableNumericalModel({y: f, z: g}, connectivity_mapping={
        y: {x, p, *more}, z: {q, x}})


def numeq_got(f, g, h):
    y, u, q = spec_var('y'), spec_var('u'), spec_par('q')
    spec_assume(f != g)
    spec_assume(g != h)
    spec_assume(f != h)
    m = num(y, f, g)
    return (m == m, m == num(y, f, g), m == num(y, g, f), m == num(y, h, g), m == num(y, f, h),
            m == num(u, f, g), m == num(y, f, g, q), m != num(y, f, g), m != num(y, f, h))


def numeq_want(f, g, h):
    num(spec_var('y'), f, g)
    num(spec_var('y'), f, h)
    spec_assume(f != g)
    spec_assume(g != h)
    spec_assume(f != h)
    return True, True, False, False, False, False, False, False, True


class Call(object):
    """a callable, not an expression"""
    def __call__(self, **kwargs):
        return spec_sym('called')(self, kwargs)


def crossed_got(f, g):
    y, z, x, p = spec_var('y'), spec_var('z'), spec_var('x'), spec_par('p')
    n = CallableNumericalModel({y: Call(), z: Call()},
                               connectivity_mapping={y: {x, p}, z: {x, p}})
    m = Model({y: E('e'), z: E('f')})
    return m == n, n == m, m != n, n != m


def crossed_want(f, g):
    return False, False, True, True


def ode(e, f, t0, y0, z0, **kw):
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    return ODEModel({Der(z, t): f, Der(y, t): e}, initial={z: z0, t: t0, y: y0}, **kw)


def odeq_got(t0, y0, z0, o0):
    spec_assume(o0 != t0)
    spec_assume(o0 != y0)
    spec_assume(o0 != z0)
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    e, f, g = E('e', t), E('f', y, z), E('g', t)
    m = ode(e, f, t0, y0, z0)
    return (m == m, m == ode(e, f, t0, y0, z0), m == ode(g, f, t0, y0, z0),
            m == ode(e, g, t0, y0, z0), m == ode(f, e, t0, y0, z0),
            m == ode(e, f, o0, y0, z0), m == ode(e, f, t0, o0, z0),
            m == ode(e, f, t0, y0, o0), m != ode(e, f, t0, y0, o0))


def odeq_want(t0, y0, z0, o0):
    spec_assume(o0 != t0)
    spec_assume(o0 != y0)
    spec_assume(o0 != z0)
    return True, True, False, False, False, False, False, False, True


def explicit_got(t0, y0, z0):
    """an ODE is not the explicit model with the same right hand sides"""
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    e, f = E('e', t), E('f', t)
    m, n = ode(e, f, t0, y0, z0), Model({y: e, z: f})
    return m == n, n == m


def explicit_want(t0, y0, z0):
    return False, False


def neg_got(a, b, X):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    out = []
    for cls in (Model, CallableModel, GradientModel):
        m = cls({y: E('e'), z: E('f', spec_par('q'))})
        n = -m
        out += [type(n) is cls, n is m, dict(n), dict(m), n.params, n.dependent_vars,
                [c for c in n(X, a, b)], -n == m]
    return out


def neg_want(a, b, X):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    e, f = E('e'), E('f', spec_par('q'))
    return [True, False, {y: -e, z: -f}, {y: e, z: f}, [spec_par('p'), spec_par('q')],
            [y, z], [np.atleast_1d(-e(x=X, p=a)), np.atleast_1d(-f(x=X, p=a, q=b))],
            True] * 3


def negint_got(a, b, X):
    """interdependent components are input of others, so they keep their sign"""
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    m = Model({y: spec_expr('e', [z, spec_par('q')]), z: E('f')})
    n = -m
    return dict(n), dict(m), n.dependent_vars, n.interdependent_vars, [c for c in n(X, a, b)]


def negint_want(a, b, X):
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    e, f, g = spec_expr('e', [z, spec_par('q')]), E('f'), E('g')
    Z = f(x=X, p=a)
    return ({y: -e, z: f}, {y: e, z: f}, [y], [z],
            [np.atleast_1d(-e(z=Z, q=b)), np.atleast_1d(Z)])


def negjac_got(a, b, X):
    """the derivatives have the opposite sign as well"""
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    n = -Model({y: E('e'), z: E('f', spec_par('q'))})
    return n.jacobian


def negjac_want(a, b, X):
    p, q = spec_par('p'), spec_par('q')
    e, f = E('e'), E('f', spec_par('q'))
    return [[-e.diff(p), 0], [-f.diff(p), -f.diff(q)]]


def negnum_got(f, g, a, b, X):
    y, z = spec_var('y'), spec_var('z')
    m = num(y, f, g)
    n = -m
    return (type(n), n.params, n.independent_vars, n.dependent_vars, [c for c in n(X, a, b)],
            [c for c in m(X, a, b)])


def negnum_want(f, g, a, b, X):
    y, z = spec_var('y'), spec_var('z')
    num(y, f, g)
    F, G = f(x=X, p=a), g(x=X, q=b)
    return (CallableNumericalModel, [spec_par('p'), spec_par('q')], [spec_var('x')], [y, z],
            [np.atleast_1d(-F), np.atleast_1d(-G)], [np.atleast_1d(F), np.atleast_1d(G)])


def negmix_got(f, a, b, X):
    """callables and expressions, depending on one another"""
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    p, q = spec_par('p'), spec_par('q')
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    m = CallableNumericalModel({z: f, y: E('e')}, connectivity_mapping={z: {y, p, q}})
    return [c for c in (-m)(x=X, p=a, q=b)]


def negmix_want(f, a, b, X):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    Y = E('e')(x=X, p=a)
    return [np.atleast_1d(Y), np.atleast_1d(-f(y=Y, p=a, q=b))]


def negdep_got(f, a, b, X):
    """callables and expressions which are both components of the model"""
    y, z, w = spec_var('y'), spec_var('z'), spec_var('w')
    x, p, q = spec_var('x'), spec_par('p'), spec_par('q')
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    m = CallableNumericalModel({z: f, y: E('e'), w: E('g')},
                               connectivity_mapping={z: {x, q}})
    n = -m
    return ([c for c in n(x=X, p=a, q=b)], [c for c in m(x=X, p=a, q=b)],
            [c for c in (-n)(x=X, p=a, q=b)], m[y], n[y], n[w])


def negdep_want(f, a, b, X):
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    G, Y, Z = E('g')(x=X, p=a), E('e')(x=X, p=a), f(x=X, q=b)
    return ([np.atleast_1d(-G), np.atleast_1d(-Y), np.atleast_1d(-Z)],
            [np.atleast_1d(G), np.atleast_1d(Y), np.atleast_1d(Z)],
            [np.atleast_1d(G), np.atleast_1d(Y), np.atleast_1d(Z)],
            E('e'), -E('e'), -E('g'))


def negode_got(t0, y0, u):
    spec_assume(not isinstance(t0, Parameter))
    spec_assume(not isinstance(y0, Parameter))
    z0 = spec_par('r')
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    m = ode(E('e', t), E('f', y, z), t0, y0, z0, rtol=u)
    n = -m
    return (type(n), [n[y], n[z]], [m[y], m[z]], [n.initial[v] for v in (t, y, z)], n.integrator_kwargs,
            n.params, n is m, -n == m)


def negode_want(t0, y0, u):
    spec_assume(not isinstance(t0, Parameter))
    spec_assume(not isinstance(y0, Parameter))
    z0 = spec_par('r')
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    e, f = E('e', t), E('f', y, z)
    return (ODEModel, [-e, -f], [e, f], [t0, y0, z0],
            {'method': 'LSODA', 'rtol': u, 'atol': 1.49012e-8}, [spec_par('p'), z0], False, True)


def arr(s):
    return spec_array(np.asarray(s))


def problem(cls, a, b, c, name='e'):
    x, y = spec_var('x'), spec_var('y')
    m = Model({y: E(name)})
    return cls(m, {x: arr(a), y: arr(b), m.sigmas[y]: arr(c)})


def obj_got(a: "Seq", b: "Seq", c: "Seq", A: "Seq", B: "Seq", C: "Seq"):
    return problem(LeastSquares, a, b, c) == problem(LeastSquares, A, B, C)


def obj_want(a: "Seq", b: "Seq", c: "Seq", A: "Seq", B: "Seq", C: "Seq"):
    return bool(close(arr(a), arr(A)) and close(arr(b), arr(B)) and close(arr(c), arr(C)))


def objdiff_got(a: "Seq", b: "Seq", c: "Seq"):
    p = problem(LeastSquares, a, b, c)
    return (p == problem(LeastSquares, a, b, c, 'f'), p == problem(VectorLeastSquares, a, b, c),
            problem(VectorLeastSquares, a, b, c) == p, p != problem(LeastSquares, a, b, c, 'f'),
            p == problem(Squares, a, b, c), problem(Squares, a, b, c) == p)


def objdiff_want(a: "Seq", b: "Seq", c: "Seq"):
    return False, False, False, True, False, False


def shapes(a, b):
    """np.allclose for arrays which can not be broadcast together"""
    raise ValueError('broadcast')


def objshape_got(a: "Seq", b: "Seq", c: "Seq", A: "Seq"):
    p, q = problem(LeastSquares, a, b, c), problem(LeastSquares, A, b, c)
    return p == q, p != q


def objshape_want(a: "Seq", b: "Seq", c: "Seq", A: "Seq"):
    return False, True


def absent(x_data, y_data=None, s_data=None):
    x, y = spec_var('x'), spec_var('y')
    m = Model({y: E('e')})
    return LeastSquares(m, {x: x_data, y: y_data, m.sigmas[y]: s_data})


def objnone_got(a: "Seq", b: "Seq", c: "Seq", A: "Seq", C: "Seq"):
    """data which is absent equals absent data only"""
    return (absent(arr(a)) == absent(arr(A)),
            absent(arr(a), None, arr(c)) == absent(arr(A), None, arr(C)),
            absent(arr(a), arr(b)) == absent(arr(A)),
            absent(arr(a)) == absent(arr(A), arr(b)),
            absent(arr(a), arr(b)) == absent(arr(A), arr(b), arr(c)))


def objnone_want(a: "Seq", b: "Seq", c: "Seq", A: "Seq", C: "Seq"):
    same = close(arr(a), arr(A))
    return (bool(same), bool(same and close(arr(c), arr(C))), False, False, False)


def objkeys_got(a: "Seq", b: "Seq", c: "Seq"):
    """more data is other data"""
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    m = Model({y: E('e')})
    d = {x: arr(a), y: arr(b), m.sigmas[y]: arr(c)}
    p, q = LeastSquares(m, d), LeastSquares(m, {**d, z: arr(a)})
    return p == q, q == p


def objkeys_want(a: "Seq", b: "Seq", c: "Seq"):
    return False, False
'''

KW = dict(raises=True, orders=True)
EQ, NEG = 'BaseModel.__eq__', 'BaseModel.__neg__'
OKW = dict(raises=True, orders=True, intercept={'numpy.allclose': 'close'})
OBLIGATIONS = [
    Obl('equal models', 'equal_got', 'equal_want', 'are equal', EQ, **KW),
    Obl('equal after expansion', 'expand_got', 'expand_want', 'are equal', EQ, **KW),
    Obl('different models', 'differ_got', 'differ_want', 'are not equal', EQ, **KW),
    Obl('interdependent models', 'inter_got', 'inter_want', 'are compared in full', EQ, **KW),
    Obl('numerical models', 'numeq_got', 'numeq_want',
        'are equal when they have the same callables and connections',
        'BaseNumericalModel.__eq__', **KW),
    Obl('symbolic and numerical', 'crossed_got', 'crossed_want', 'are not equal',
        [EQ, 'BaseNumericalModel.__eq__'], **KW),
    Obl('ODE models', 'odeq_got', 'odeq_want',
        'are equal when equations and initial conditions are', EQ, **KW),
    Obl('ODE and explicit model', 'explicit_got', 'explicit_want', 'are not equal', EQ, **KW),
    Obl('negated models', 'neg_got', 'neg_want', 'are new models of the opposite sign', NEG, **KW),
    Obl('negated interdependent models', 'negint_got', 'negint_want',
        'change the sign of dependent components only', NEG, **KW),
    Obl('derivatives of negated models', 'negjac_got', 'negjac_want',
        'have the opposite sign', NEG, **KW),
    Obl('negated numerical models', 'negnum_got', 'negnum_want',
        'are new models of the opposite sign', 'BaseNumericalModel.__neg__', **KW),
    Obl('negated mixed models', 'negmix_got', 'negmix_want',
        'change the sign of dependent components only', 'BaseNumericalModel.__neg__', **KW),
    Obl('negated components of both kinds', 'negdep_got', 'negdep_want',
        'change the sign of dependent components only', 'BaseNumericalModel.__neg__', **KW),
    Obl('negated ODE models', 'negode_got', 'negode_want',
        'negate the right hand sides and keep the rest', 'ODEModel.__neg__', **KW),
    Obl('objectives', 'obj_got', 'obj_want', 'are equal when all their data is',
        'BaseObjective.__eq__', **OKW),
    Obl('different objectives', 'objdiff_got', 'objdiff_want',
        'are not equal for another model or type', 'BaseObjective.__eq__', **OKW),
    Obl('objectives without data', 'objnone_got', 'objnone_want',
        'are equal when the same data is absent', 'BaseObjective.__eq__', **OKW),
    Obl('data of other shapes', 'objshape_got', 'objshape_want', 'is not equal',
        'BaseObjective.__eq__', raises=True, orders=True,
        intercept={'numpy.allclose': 'shapes'}),
    Obl('objectives with more data', 'objkeys_got', 'objkeys_want', 'are not equal',
        'BaseObjective.__eq__', **OKW),
]
