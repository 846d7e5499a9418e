from ..check import Obl

DRIVER = r'''
import numpy as np
from symfit.core.argument import Parameter, Variable
from symfit.core.fit_results import FitResults
from symfit.core.models import (Model, CallableModel, CallableNumericalModel,
    BaseModel, ODEModel, ModelOutput)
from symfit.core.minimizers import ChainedMinimizer


class Mod(object):
    def __init__(self):
        self.params = [spec_par('q'), spec_par('p')]


class Relation(object):
    def __init__(self, op):
        self.rel_op = op


class ConModel(object):
    """a constraint of one component"""
    def __init__(self, n, op):
        self.n = n
        self.dependent_vars = [spec_var('u' + n), spec_var('v' + n)]
        self.constraint_type = Relation(op)

    def __getitem__(self, var):
        return spec_sym('formula')(self.n, var)


class Con(object):
    def __init__(self, n, op):
        self.model = ConModel(n, op)

    def __call__(self, **kwargs):
        return [spec_sym('value')(self.model.n, sorted(kwargs.items())), spec_sym('wrong')]


class Printed(FitResults):
    def __init__(self, cov, constraints, qualifiers, **output):
        self.model = Mod()
        self._popt = [spec_scalar('vq'), spec_scalar('vp')]
        self.params = {'q': spec_scalar('vq'), 'p': spec_scalar('vp')}
        self.covariance_matrix = cov
        self.minimizer = spec_sym('themin')
        self.objective = spec_sym('theobj')
        self.status_message = spec_sym('themsg')
        self.minimizer_output = output
        self.constraints = constraints
        self.gof_qualifiers = qualifiers


def matrix():
    return np.array([[spec_scalar('c%d%d' % (i, j)) for j in range(2)] for i in range(2)])


def tail(n, m, s):
    return ' Status message ' + str(spec_sym('themsg')) + \
        ' Number of iterations ' + str(n) + \
        ' Objective ' + str(spec_sym('theobj')) + ' Minimizer ' + str(spec_sym('themin')) + \
        ' Goodness of fit qualifiers: chi_squared ' + str(m) + ' r_squared ' + str(s)


def row(name, value, stdev):
    return ' ' + name + ' ' + str(value) + ' ' + str(stdev)


def table_got(n, m, s):
    return spec_words(str(Printed(matrix(), [], {'r_squared': s, 'chi_squared': m}, nit=n)))


def table_want(n, m, s):
    return spec_words('Parameter Value Standard Deviation' +
        row('q', spec_scalar('vq'), np.sqrt(spec_scalar('c00'))) +
        row('p', spec_scalar('vp'), np.sqrt(spec_scalar('c11'))) + tail(n, m, s))


def nocov_got(m, s):
    return spec_words(str(Printed(None, [], {'r_squared': s, 'chi_squared': m})))


def nocov_want(m, s):
    return spec_words('Parameter Value Standard Deviation' +
        row('q', spec_scalar('vq'), None) + row('p', spec_scalar('vp'), None) +
        tail(None, m, s))


def constrained_got(n, m, s):
    return spec_words(str(Printed(None, [Con('1', '>='), Con('2', '==')],
                                  {'r_squared': s, 'chi_squared': m}, nit=n)))


def constrained_want(n, m, s):
    text = ''
    for k, op in [('1', '>='), ('2', '==')]:
        text += ' Question: ' + str(spec_sym('formula')(k, spec_var('u' + k))) + ' ' + op + \
            ' 0? Answer: ' + str(spec_sym('value')(
                k, [('p', spec_scalar('vp')), ('q', spec_scalar('vq'))]))
    return spec_words('Parameter Value Standard Deviation' +
        row('q', spec_scalar('vq'), None) + row('p', spec_scalar('vp'), None) +
        tail(n, m, s) + ' Constraints: ' + 20 * '-' + text)


class Shown(BaseModel):
    """three components, of different variables and parameters"""
    def __init__(self):
        self.params = [spec_par('p'), spec_par('q')]
        self.independent_vars = [spec_var('t'), spec_var('x')]
        self.interdependent_vars = [spec_var('y')]
        self.dependent_vars = [spec_var('w'), spec_var('z')]
        self.model_dict = dict(self.items())

    def items(self):
        return [(spec_var('y'), spec_sym('Ey')), (spec_var('z'), spec_sym('Ez')),
                (spec_var('w'), spec_sym('Ew'))]

    @property
    def connectivity_mapping(self):
        x, t, y = spec_var('x'), spec_var('t'), spec_var('y')
        p, q = spec_par('p'), spec_par('q')
        return {y: {q, x, p, t}, spec_var('z'): {y, p}, spec_var('w'): {t}}


def model_got():
    return spec_words(str(Shown()))


def model_want():
    return spec_words(
        '[y(t, x; p, q) = ' + str(spec_sym('Ey')) + ', z(y; p) = ' + str(spec_sym('Ez')) +
        ', w(t; ) = ' + str(spec_sym('Ew')) + ']')


def ltx(e, **kw):
    return '<' + e.name + '>'


class Named(object):
    def __init__(self, name):
        self.name = name


class Typeset(Shown):
    def items(self):
        return [(spec_var('y'), Named('Ey')), (spec_var('z'), Named('Ez')),
                (spec_var('w'), Named('Ew'))]


def latex_got():
    return spec_words(Typeset()._repr_latex_())


def latex_want():
    return ('\\begin{align}<y>(<t>, <x>; <p>, <q>) & = <Ey>\\\\<z>(<y>; <p>) & = <Ez>'
            '\\\\<w>(<t>; ) & = <Ew>\\end{align}')


class Rate(object):
    """a derivative, which prints itself like sympy does"""
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Rates(ODEModel):
    def __init__(self):
        self.model_params = [spec_par('p')]
        self.initial_params = [spec_par('q')]
        self.model_dict = {Rate('Derivative(y, t)'): spec_sym('Fy'),
                           Rate('Derivative(z, t)'): spec_sym('Fz')}

    @property
    def params(self):
        return [spec_par('p'), spec_par('q')]

    @params.setter
    def params(self, x):
        pass


def ode_got():
    return spec_words(str(Rates()))


def ode_want():
    return spec_words('Derivative(y, t; p, q) = ' + str(spec_sym('Fy')) +
                      ' Derivative(z, t; p, q) = ' + str(spec_sym('Fz')))


def output_got(a, b):
    return spec_words(repr(ModelOutput([spec_var('y'), spec_var('z')], [a, b])))


def output_want(a, b):
    return spec_words('ModelOutput(variables=' + str([spec_var('y'), spec_var('z')]) +
                      ', output=' + str([a, b]) + ')')


class Chain(ChainedMinimizer):
    def __init__(self, minimizers):
        self.minimizers = minimizers


def chain_got(a, b):
    return spec_words(str(Chain([a, b])))


def chain_want(a, b):
    return spec_words('Chain(minimizers=' + str([a, b]) + ')')
'''
S = 'FitResults.__str__'
KW = dict(raises=True, notes=True)
OBLIGATIONS = [
    Obl('results', 'table_got', 'table_want',
        'have a row with the value and the deviation of each parameter, and everything else',
        S, **KW),
    Obl('results without covariance', 'nocov_got', 'nocov_want',
        'say None for the deviations and the iterations', S, **KW),
    Obl('results with constraints', 'constrained_got', 'constrained_want',
        'show every constraint with its relation and its value at the best fit', S, **KW),
    Obl('model', 'model_got', 'model_want',
        'every component with the symbols it depends on', 'BaseModel.__str__', **KW),
    Obl('typeset model', 'latex_got', 'latex_want',
        'every component with the symbols it depends on', 'BaseModel._repr_latex_',
        intercept={'sympy.printing.latex.latex': 'ltx', 'sympy.latex': 'ltx'}, **KW),
    Obl('differential equations', 'ode_got', 'ode_want',
        'every equation with the parameters', 'ODEModel.__str__', **KW),
    Obl('model output', 'output_got', 'output_want', 'its variables and values',
        'ModelOutput.__repr__', **KW),
    Obl('chained minimizers', 'chain_got', 'chain_want', 'its minimizers',
        'ChainedMinimizer.__str__', **KW),
]
