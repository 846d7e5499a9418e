from ..check import Obl
from .minim import HEAD

DRIVER = HEAD + '''
import inspect
from symfit.core.support import D, sympy_to_py, seperate_symbols
from symfit.core.models import (Model, CallableModel, GradientModel, HessianModel,
    BaseModel, CallableNumericalModel, ODEModel, jacobian_from_model, hessian_from_model)
from symfit.core.minimizers import BaseMinimizer, NelderMead


def syms():
    return [spec_var(n) for n in 'x u v'.split()], [spec_par(n) for n in 'c a b'.split()]


def model(cls):
    (x, u, v), (c, a, b) = syms()
    y, z, w, k = spec_var('y'), spec_var('z'), spec_var('w'), spec_var('k')
    return cls({y: spec_expr('e1', [z, w, c, x]), z: spec_expr('e2', [u, v, b, a]),
                w: spec_expr('e3', [v, x, c, b]), k: spec_expr('e4', [w, z, a])})


def roles_got():
    m = model(Model)
    return ([v.name for v in m], [v.name for v in m.independent_vars],
            [v.name for v in m.dependent_vars], [v.name for v in m.interdependent_vars],
            [p.name for p in m.params], [p.name for p in inspect.signature(m).parameters.values()])


def roles_want():
    return (['k', 'w', 'y', 'z'], ['u', 'v', 'x'], ['k', 'y'], ['w', 'z'], ['a', 'b', 'c'],
            ['u', 'v', 'x', 'a', 'b', 'c'])


def names(*s):
    return [k.name for k in s]


def funcs_got():
    f = model(Model).vars_as_functions
    return [[str(k) for k in f[spec_var(n)].args] for n in 'wz']


def funcs_want():
    return [['v', 'x', 'b', 'c'], ['u', 'v', 'a', 'b']]


def funcs2_got():
    f = model(Model).vars_as_functions
    return [[str(k) for k in f[spec_var(n)].args] for n in 'yk']


def funcs2_want():
    return [['w(v, x, b, c)', 'x', 'z(u, v, a, b)', 'c'],
            ['w(v, x, b, c)', 'z(u, v, a, b)', 'a']]


def comp_got():
    return [[n for n in inspect.signature(f).parameters]
            for f in model(CallableModel).numerical_components]


def comp_want():
    return [['w', 'z', 'a'], ['v', 'x', 'b', 'c'], ['w', 'x', 'z', 'c'], ['u', 'v', 'a', 'b']]


def jac_got():
    return [k.name for k in model(GradientModel).jacobian_model]


def jac_want():
    return ['d%s_d%s' % (v, p) for v in 'kwyz' for p in 'abc'] + ['k', 'w', 'y', 'z']


def call_got(X, U, V, A, B, C):
    return [k for k in model(CallableModel)(U, V, X, A, B, C)]


def call_want(X, U, V, A, B, C):
    (x, u, v), (c, a, b) = syms()
    z, w = spec_var('z'), spec_var('w')
    Z = spec_expr('e2', [u, v, b, a])(u=U, v=V, a=A, b=B)
    W = spec_expr('e3', [v, x, c, b])(v=V, x=X, c=C, b=B)
    return [np.atleast_1d(spec_expr('e4', [w, z, a])(w=W, z=Z, a=A)), np.atleast_1d(W),
            np.atleast_1d(spec_expr('e1', [z, w, c, x])(z=Z, w=W, c=C, x=X)),
            np.atleast_1d(Z)]


def text_got():
    (x, u, v), (c, a, b) = syms()
    y, z = spec_var('y'), spec_var('z')
    return str(BaseModel({y: spec_expr('e1', [x, v, u, b, c, a])}))


def text_want():
    (x, u, v), (c, a, b) = syms()
    return '[y(u, v, x; a, b, c) = {}]'.format(spec_expr('e1', [x, v, u, b, c, a]))


def latex_got():
    (x, u, v), (c, a, b) = syms()
    y, z = spec_var('y'), spec_var('z')
    return BaseModel({y: spec_expr('e1', [x, v, u, b, c, a])})._repr_latex_()


def latex_want():
    from sympy.printing.latex import latex as L
    (x, u, v), (c, a, b) = syms()
    y, z = spec_var('y'), spec_var('z')
    return ('\\\\begin{align}' + '{}({}, {}, {}; {}, {}, {}) & = {}'.format(
        L(y), L(u), L(v), L(x), L(a), L(b), L(c), L(spec_expr('e1', [x, v, u, b, c, a]))) +
        '\\\\end{align}')


def sep_got():
    (x, u, v), (c, a, b) = syms()
    return seperate_symbols(spec_expr('e', [x, c, u, a, v, b]))


def sep_want():
    (x, u, v), (c, a, b) = syms()
    return [u, v, x], [a, b, c]


def long_got():
    vs = [spec_var(n) for n in ('v2', 'V', 'v10', 'v1', 'v_1', 'vw', 'D', 'dv')]
    ps = [spec_par(n) for n in ('b2', 'B', 'b10', 'b1', 'b_1', 'bw')]
    e = spec_expr('e', ps + vs)
    y = spec_var('y')
    m = Model({y: e})
    return (seperate_symbols(e), m.independent_vars, m.params,
            [n for n in inspect.signature(m).parameters])


def long_want():
    vs = ['D', 'V', 'dv', 'v1', 'v10', 'v2', 'v_1', 'vw']
    ps = ['B', 'b1', 'b10', 'b2', 'b_1', 'bw']
    V, P = [spec_var(n) for n in vs], [spec_par(n) for n in ps]
    return (V, P), V, P, vs + ps


class Der(object):
    def __init__(self, y, t):
        self.variables = (t,)
        self.free_symbols = {y, t}


def ode_got():
    t = spec_var('t')
    ys = [spec_var(n) for n in 'zwy']
    q = {n: spec_par(n) for n in ('k2', 'k10', 'r1', 'i2', 'i10', 'i1')}
    m = ODEModel({Der(y, t): spec_expr('e' + y.name, ys + [q['r1'], q['k2'], q['k10'], q['i1']])
                  for y in ys},
                 {t: 0.0, ys[0]: q['i2'], ys[1]: q['i10'], ys[2]: q['i1']})
    return ([p.name for p in m.params], [p.name for p in m.model_params],
            [p.name for p in m.initial_params], [v.name for v in m.dependent_vars],
            [str(e) for e in m.model_dict.values()],
            [n for n in inspect.signature(m).parameters])


def ode_want():
    ys = [spec_var(n) for n in 'zwy']
    q = [spec_par(n) for n in ('r1', 'k2', 'k10', 'i1')]
    ps = ['i1', 'i10', 'i2', 'k10', 'k2', 'r1']
    return (ps, ['i1', 'k10', 'k2', 'r1'], ['i1', 'i10', 'i2'], ['w', 'y', 'z'],
            [str(spec_expr('e' + n, ys + q)) for n in 'wyz'], ['t'] + ps)


def num_got(f, X, U, V, A, B, C):
    (x, u, v), (c, a, b) = syms()
    y = spec_var('y')
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    m = CallableNumericalModel({y: f}, connectivity_mapping={y: {x, v, u, c, b, a}})
    return ([k for k in m(U, V, X, A, B, C)], m.params, m.independent_vars)


def num_want(f, X, U, V, A, B, C):
    (x, u, v), (c, a, b) = syms()
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    return [np.atleast_1d(f(x=X, u=U, v=V, a=A, b=B, c=C))], [a, b, c], [u, v, x]


def wrap_got(f):
    (x, u, v), (c, a, b) = syms()
    spec_assume(not isinstance(f, (BaseObjective, BaseModel)))
    spec_assume(not hasattr(f, '__self__'))
    spec_assume(not isinstance(f, sympy.Basic))
    m = NelderMead(f, [c, a, b])
    return m.parameters, m.objective.model.params


def wrap_want(f):
    (x, u, v), (c, a, b) = syms()
    spec_assume(not isinstance(f, (BaseObjective, BaseModel)))
    spec_assume(not hasattr(f, '__self__'))
    spec_assume(not isinstance(f, sympy.Basic))
    return [c, a, b], [c, a, b]


def con_got():
    (x, u, v), (c, a, b) = syms()
    y = spec_var('y')
    base = Model({y: spec_expr('e1', [x, v, u, b, c, a])})
    k = Model.as_constraint(sympy.Ge(spec_expr('e2', [y, c, a]), 0), base)
    return k.params, k.independent_vars, len(k)


def con_want():
    (x, u, v), (c, a, b) = syms()
    return [a, b, c], [u, v, x], 2


def dep_got():
    (x, u, v), (c, a, b) = syms()
    y, z, w, k = spec_var('y'), spec_var('z'), spec_var('w'), spec_var('k')
    base = model(Model)
    m = CallableModel.with_dependencies({spec_var('n'): spec_expr('e5', [k, z, u])}, base)
    return [s.name for s in m], m.params, m.independent_vars


def dep_want():
    (x, u, v), (c, a, b) = syms()
    return ['k', 'n', 'w', 'z'], [a, b, c], [u, v, x]
'''
KW = dict(raises=True, orders=True)
I = 'BaseModel._init_from_dict'
OBLIGATIONS = [
    Obl('roles', 'roles_got', 'roles_want', 'do not depend on the order of sets', I, **KW),
    Obl('variables as functions', 'funcs_got', 'funcs_want',
        'have sorted arguments', 'BaseModel.vars_as_functions', **KW),
    Obl('nested variables as functions', 'funcs2_got', 'funcs2_want',
        'have sorted arguments', 'BaseModel.vars_as_functions', **KW),
    Obl('components', 'comp_got', 'comp_want', 'have sorted arguments',
        'CallableModel.numerical_components', **KW),
    Obl('jacobian model', 'jac_got', 'jac_want', 'has sorted components',
        'jacobian_from_model', **KW),
    Obl('model call', 'call_got', 'call_want', 'does not depend on the order of sets',
        'BaseCallableModel.eval_components', **KW),
    Obl('printed model', 'text_got', 'text_want', 'does not depend on the order of sets',
        'BaseModel.__str__', **KW),
    Obl('latex of a model', 'latex_got', 'latex_want',
        'does not depend on the order of sets', 'BaseModel._repr_latex_', **KW),
    Obl('separated symbols', 'sep_got', 'sep_want', 'are sorted', 'seperate_symbols', **KW),
    Obl('names of several characters', 'long_got', 'long_want', 'are sorted as texts',
        'seperate_symbols', **KW),
    Obl('differential equations', 'ode_got', 'ode_want', 'have sorted parameters',
        'ODEModel.__init__', **KW),
    Obl('numerical model', 'num_got', 'num_want', 'does not depend on the order of sets',
        I, **KW),
    Obl('wrapped callable', 'wrap_got', 'wrap_want', 'keeps the order of the parameters',
        'BaseMinimizer._baseobjective_from_callable', **KW),
    Obl('constraint', 'con_got', 'con_want', 'does not depend on the order of sets',
        'BaseModel.as_constraint', **KW),
    Obl('model with dependencies', 'dep_got', 'dep_want',
        'does not depend on the order of sets', 'BaseModel.with_dependencies', **KW),
]
# shared obligations
ALSO = {'C06': ['sig_got', 'call_got'],
 'C07': ['pos_got', 'fpos_got', 'twocons_got', 'con_got']}
