from ..check import Obl

DRIVER = '''
import numpy as np
from symfit.core.argument import Parameter, Variable
from symfit.core.models import BaseGradientModel, CallableNumericalModel, ModelOutput


class Numerical(CallableNumericalModel, BaseGradientModel):
    pass


def entry(name, *args):
    """a number which depends on the arguments"""
    return spec_number(spec_sym(name)(*args))


def f1(x, a, b):
    return entry('f', x, a, b)


def f2(x, b):
    return entry('g', x, b)


def v1(x, a, b):
    return np.array([entry('f', x, a, b), entry('f2', x, a, b)])


def v2(x, b):
    return np.array([entry('g', x, b), entry('g2', x, b), entry('g3', x, b)])


def model(f1, f2):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    a, b = spec_par('a'), spec_par('b')
    return Numerical({z: f2, y: f1}, connectivity_mapping={y: {x, a, b}, z: {x, b}})


def numbers():
    return spec_scalar('p'), spec_scalar('q')


def slope(f, p, dx):
    h = dx
    if abs(p) >= 1e-7:
        h = dx * p
    return (3 / 4. * (f(p + h) - f(p - h)) - 3 / 20. * (f(p + 2 * h) - f(p - 2 * h))
            + 1 / 60. * (f(p + 3 * h) - f(p - 3 * h))) / h


def got(x):
    p, q = numbers()
    return model(f1, f2).finite_difference(x=x, b=q, a=p)


def want(x):
    return expected(x, 1e-8)


def expected(x, dx):
    p, q = numbers()
    return [np.array([[slope(lambda a: f1(x, a, q), p, dx)],
                      [slope(lambda b: f1(x, p, b), q, dx)]]),
            np.array([[0], [slope(lambda b: f2(x, b), q, dx)]])]


def step_got(x):
    p, q = numbers()
    return model(f1, f2).finite_difference(x, p, q, dx=1e-3)


def step_want(x):
    return expected(x, 1e-3)


def arrays_got(x):
    p, q = numbers()
    return model(v1, v2).finite_difference(x, p, q)


def arrays_want(x):
    p, q = numbers()
    dx = 1e-8

    def da(name):
        return slope(lambda a: entry(name, x, a, q), p, dx)

    def db(name):
        return slope(lambda b: entry(name, x, p, b), q, dx)

    def dc(name):
        return slope(lambda b: entry(name, x, b), q, dx)
    return [np.array([[da('f'), da('f2')], [db('f'), db('f2')]]),
            np.array([[0, 0, 0], [dc('g'), dc('g2'), dc('g3')]])]


def output_got(x):
    p, q = numbers()
    m = model(v1, f2)
    r = m.eval_jacobian(b=q, x=x, a=p)
    y, z = spec_var('y'), spec_var('z')
    return isinstance(r, ModelOutput), list(r.variables), r.z


def output_want(x):
    p, q = numbers()
    return (True, [spec_var('y'), spec_var('z')],
            np.array([[0], [slope(lambda b: f2(x, b), q, 1e-8)]]))
'''

F = 'BaseGradientModel.finite_difference'
KW = dict(raises=True, orders=True)
OBLIGATIONS = [
    Obl('slopes', 'got', 'want', 'are the sixth order central differences',
        F, **KW),
    Obl('step size', 'step_got', 'step_want', 'is relative to the parameter', F, **KW),
    Obl('arrays', 'arrays_got', 'arrays_want', 'keep the shape of each component', F, **KW),
    Obl('Jacobian', 'output_got', 'output_want', 'is labelled by component',
        'BaseGradientModel.eval_jacobian', **KW),
]
