from ..check import Obl

DRIVER = '''
import inspect
import numpy as np
import sympy
from symfit.core.argument import Parameter, Variable
from symfit.core.support import D, sympy_to_py, seperate_symbols, key2str, jacobian
from symfit.core.models import CallableModel, CallableNumericalModel


def dummified(args, func, **kwargs):
    """what sympy does to argument names it does not like"""
    d = spec_par('_Dummy_7')
    p = spec_par('p')
    return spec_lambdify([d if s.name == 'p' else s for s in args], func.xreplace({p: d}))


def syms():
    return spec_var('x'), spec_var('B'), spec_par('p'), spec_par('A')


def expr():
    x, B, p, A = syms()
    return spec_expr('e', [p, x, A, B])


def at(a, b, c, d):
    x, B, p, A = syms()
    return expr().xreplace({B: a, x: b, A: c, p: d})


def pos_got(a, b, c, d):
    return expr()(a, b, c, d)


def named_got(a, b, c, d):
    return expr()(p=d, x=b, A=c, B=a)


def mixed_got(a, b, c, d):
    return expr()(a, b, p=d, A=c)


def extra_got(a, b, c, d, other):
    return expr()(p=d, x=b, A=c, B=a, q=other, x_1=other)


def want(a, b, c, d):
    return at(a, b, c, d)


def extra_want(a, b, c, d, other):
    return at(a, b, c, d)


def sum_got(a, b, c):
    x, B, p, A = syms()
    f = p * x + A ** 2
    return f(x=a, p=c, A=b), f(a, b, c), (-f)(x=a, p=c, A=b)


def sum_want(a, b, c):
    return c * a + b ** 2, c * a + b ** 2, -(c * a + b ** 2)


def missing_got(a, b):
    expr()(a, b, p=a)


def missing_want(a, b):
    raise TypeError('missing')


def many_got(a):
    expr()(a, a, a, a, a)


def many_want(a):
    raise TypeError('too many')


def symbol_got(a, b):
    x, B, p, A = syms()
    return x(a), x(x=a), p(b), p(p=b), p(b, q=a)


def symbol_want(a, b):
    return a, a, b, b, b


def sig_got():
    x, B, p, A = syms()
    f = sympy_to_py(expr(), [x, p, B, A])
    return [n for n in inspect.signature(f).parameters]


def sig_want():
    return ['x', 'p', 'B', 'A']


def py_got(a, b, c, d):
    x, B, p, A = syms()
    f = sympy_to_py(expr(), [x, p, B, A])
    return f(b, d, a, c), f(A=c, x=b, B=a, p=d), f(b, d, A=c, B=a)


def py_want(a, b, c, d):
    v = at(a, b, c, d)
    return v, v, v


def model_got(a, b, c, d):
    x, B, p, A = syms()
    y, z = spec_var('y'), spec_var('z')
    m = CallableModel({y: spec_expr('e1', [z, x, p]), z: expr()})
    return [k for k in m(B=a, x=b, A=c, p=d)]


def model_want(a, b, c, d):
    x, B, p, A = syms()
    z = spec_var('z')
    Z = at(a, b, c, d)
    return [np.atleast_1d(spec_expr('e1', [z, x, p]).xreplace({z: Z, x: b, p: d})),
            np.atleast_1d(Z)]


def num_got(a, b, c, d):
    x, B, p, A = syms()
    y, z = spec_var('y'), spec_var('z')
    m = CallableNumericalModel({y: spec_expr('e1', [z, x, p]), z: expr()},
        connectivity_mapping={z: {x, B, p, A}})
    return [k for k in m(B=a, x=b, A=c, p=d)]


def der_got(a, b, c):
    x, B, p, A = syms()
    y = spec_var('y')
    f = sympy_to_py(spec_expr('e', [p, x]) * D(y, p), [x, p, D(y, p)])
    return f(a, b, c), f(x=a, p=b, dy_dp=c)


def der_want(a, b, c):
    x, B, p, A = syms()
    v = spec_expr('e', [p, x]).xreplace({x: a, p: b}) * c
    return v, v


def dername_got():
    x, B, p, A = syms()
    y = spec_var('y')
    return D(y, p).name, D(y, p, A).name, D(y, p, p).name, D(y, x).name


def dername_want():
    return 'dy_dp', 'd2y_dpdA', 'd2y_dp2', 'dy_dx'


class Printer:
    # sympy's printers: doprint of a text reads the text as an expression,
    # so that the name of a function gives something else than the name
    def doprint(self, expr, assign_to=None):
        return ['interpreted', expr]

    def _print(self, expr, **kwargs):
        return expr if isinstance(expr, str) else expr.name

    def _print_Symbol(self, expr):
        return expr.name

    def emptyPrinter(self, expr):
        return str(expr)


def code_got(p: Parameter, v: Variable):
    return [s._sympystr(Printer()) for s in (p, v)] + [
        s._lambdacode(Printer()) for s in (p, v)] + [
        s._numpycode(Printer()) for s in (p, v)] + [
        s._pythoncode(Printer()) for s in (p, v)]


def code_want(p: Parameter, v: Variable):
    return [p.name, v.name] * 4


def jac_got():
    x, B, p, A = syms()
    return jacobian(expr(), [p, x, spec_par('r')])


def jac_want():
    x, B, p, A = syms()
    return [expr().diff(p), expr().diff(x), 0]


def key_got(a, b):
    x, B, p, A = syms()
    return key2str({x: a, p: b})


def key_want(a, b):
    return {'x': a, 'p': b}
'''
C = 'seperate_symbols'
P = 'sympy_to_py'
KW = dict(raises=True, orders=True)
DUM = dict(orders=True, intercept={'sympy.lambdify': 'dummified'})
OBLIGATIONS = [
    Obl('positional', 'pos_got', 'want', 'variables first, then parameters', C, **KW),
    Obl('by name', 'named_got', 'want', 'values go to the symbol of that name', C, **KW),
    Obl('mixed', 'mixed_got', 'want', 'values go to the symbol of that name', C, **KW),
    Obl('irrelevant names', 'extra_got', 'extra_want', 'are ignored', C, **KW),
    Obl('sums and products', 'sum_got', 'sum_want', 'evaluate like the formula', C, **KW),
    Obl('a missing value', 'missing_got', 'missing_want', 'is refused', C, **KW),
    Obl('too many values', 'many_got', 'many_want', 'are refused', C, **KW),
    Obl('symbols', 'symbol_got', 'symbol_want', 'evaluate to their value', C, **KW),
    Obl('signature of the function', 'sig_got', 'sig_want', 'names the symbols', P, **KW),
    Obl('python function', 'py_got', 'py_want', 'evaluates the expression', P, **KW),
    Obl('derivatives as arguments', 'der_got', 'der_want', 'have a name', P, **KW),
    Obl('names of derivatives', 'dername_got', 'dername_want', 'are unique', 'name', **KW),
    Obl('names in generated code', 'code_got', 'code_want', 'are the names themselves',
        'Argument'),
    Obl('support jacobian', 'jac_got', 'jac_want', 'is the partial derivatives',
        'jacobian', **KW),
    Obl('key2str', 'key_got', 'key_want', 'keeps every entry', 'key2str', **KW),
    Obl('positional, renamed arguments', 'pos_got', 'want',
        'variables first, then parameters', P, **DUM),
    Obl('by name, renamed arguments', 'named_got', 'want',
        'values go to the symbol of that name', P, **DUM),
    Obl('signature, renamed arguments', 'sig_got', 'sig_want', 'names the symbols', P, **DUM),
    Obl('python function, renamed arguments', 'py_got', 'py_want',
        'evaluates the expression', P, **DUM),
    Obl('model, renamed arguments', 'model_got', 'model_want',
        'evaluates its components', P, **DUM),
    Obl('numerical model, renamed arguments', 'num_got', 'model_want',
        'evaluates its components', P, **DUM),
]
