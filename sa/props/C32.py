from ..check import Obl

DRIVER = '''
import inspect
import numpy as np
import sympy
from symfit.core.argument import Parameter, Variable
from symfit.core.support import seperate_symbols
from symfit.core.models import (Model, CallableModel, CallableNumericalModel, BaseModel)


class Index(sympy.Idx):
    """an index"""
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name


class Element(sympy.Expr):
    """an entry of an array, which does not print to a name"""
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name + '[i, j]'


class Odd(object):
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name


class Deriv(sympy.Derivative):
    def __init__(self, name, expr, *variables):
        self.name = name
        self.expr = expr
        self.variables = variables


class Func(object):
    def __init__(self, symbols, derivatives=()):
        self.free_symbols = symbols
        self.derivatives = derivatives

    def atoms(self, *kinds):
        return self.derivatives


def names(r):
    return [[v.name for v in part] for part in r]


def plain_got():
    return names(seperate_symbols(Func({spec_var('y'), spec_par('b'), spec_var('X'),
                                        spec_par('a10'), spec_par('a2'), spec_var('c')})))


def plain_want():
    return [['X', 'c', 'y'], ['a10', 'a2', 'b']]


def index_got():
    """indices and entries of arrays are neither"""
    out = []
    for s in ([Index('i'), spec_var('A'), spec_par('p'), Element('A')],
              [Element('A'), spec_par('p'), spec_var('A'), Index('i')],
              [spec_var('A'), Element('A'), Index('i'), spec_par('p')]):
        out.append(names(seperate_symbols(Func(s))))
    return out


def index_want():
    return [[['A'], ['p']]] * 3


def odd_got():
    return seperate_symbols(Func([spec_var('x'), Odd('o')]))


def odd_want():
    raise TypeError('unknown symbol')


def deriv_got():
    """derivatives with respect to parameters of a variable in the expression"""
    y, z, x = spec_var('y'), spec_var('z'), spec_var('x')
    p, q = spec_par('p'), spec_par('q')
    return names(seperate_symbols(Func(
        [y, x, p, q], [Deriv('dydp', y, p), Deriv('dydpdq', y, p, q), Deriv('dzdp', z, p),
                       Deriv('dydx', y, x), Deriv('dydpdx', y, p, x)])))


def deriv_want():
    return [['dydp', 'dydpdq', 'x', 'y'], ['p', 'q']]


def model(*sets, cls=Model):
    y = [spec_var('y%d' % k) for k in range(len(sets))]
    return cls({y[k]: spec_expr('e%d_' % k + '_'.join(s.name for s in sets[k]), list(sets[k])) for k in range(len(sets))})


def shared_got():
    x, p, q, r = spec_var('x'), spec_par('p'), spec_par('q'), spec_par('r')
    return [m.shared_parameters for m in (
        model([x, p]), model([x, p, q]), model([x, p], [x, q]), model([x, p], [x, p]),
        model([x, p], [q], [p, r]), model([x, p], [p, q], [r]), model([x, p], [x, q], [x, r]),
        model([p, q], [r], [q]), model([x], [x], [x]), model([q], [p], [p]))]


def shared_want():
    return [False, False, False, True, True, True, False, True, False, True]


def sharednum_got(f):
    spec_assume(not isinstance(f, sympy.Basic))
    y, x, p = spec_var('y'), spec_var('x'), spec_par('p')
    return CallableNumericalModel({y: f}, connectivity_mapping={y: {x, p}}).shared_parameters


def sharednum_want(f):
    spec_assume(not isinstance(f, sympy.Basic))
    raise NotImplementedError('numerical')


def bounds_got():
    m = model([spec_var('x'), spec_par('q'), spec_par('p')])
    return [list(b) for b in m.bounds]


def bounds_want():
    out = []
    for p in (spec_par('p'), spec_par('q')):
        if p.fixed:
            v = p.value
            out.append([np.nextafter(v, 0), v] if v >= 0 else [v, np.nextafter(v, 0)])
        else:
            out.append([p.min, p.max])
    return out


def old_got(f):
    """the deprecated way of listing variables and parameters"""
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    x, y, v = spec_var('x'), spec_var('Y'), spec_var('v')
    q, P = spec_par('q'), spec_par('P')
    m = CallableNumericalModel({y: f}, [x, v], [q, P])
    return ([s.name for s in m.independent_vars], [s.name for s in m.params],
            [s.name for s in m.dependent_vars], [n for n in inspect.signature(m).parameters],
            [sorted(s.name for s in m.connectivity_mapping[k]) for k in m.connectivity_mapping])


def old_want(f):
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    return ['v', 'x'], ['P', 'q'], ['Y'], ['v', 'x', 'P', 'q'], [['P', 'q', 'v', 'x']]


def nomap_got(f):
    """the model has to be a mapping"""
    spec_assume(not isinstance(f, sympy.Basic))
    x, q = spec_var('x'), spec_par('q')
    CallableNumericalModel([f], connectivity_mapping={spec_var('y'): {x, q}})


def nomap_want(f):
    spec_assume(not isinstance(f, sympy.Basic))
    raise TypeError('mapping')


def free_got():
    m = model([spec_var('x'), spec_par('q'), spec_par('p')], [spec_par('r')])
    return [p.name for p in m.free_params]


def free_want():
    return [p.name for p in (spec_par('p'), spec_par('q'), spec_par('r')) if not p.fixed]


def fresh():
    p, q = spec_par('p'), spec_par('q')
    p.fixed = q.fixed = False
    p.min = p.max = q.min = q.max = None
    return Model({spec_var('y'): spec_expr('e', [spec_var('x'), p, q])}), p, q


def live_got(lo, hi):
    """the parameters may be changed after the model is used"""
    m, p, q = fresh()
    before = [list(b) for b in m.bounds]
    p.min, p.max = lo, hi
    return before, [list(b) for b in m.bounds]


def live_want(lo, hi):
    return [[None, None], [None, None]], [[lo, hi], [None, None]]


def livefree_got():
    m, p, q = fresh()
    before = [k.name for k in m.free_params]
    q.fixed = True
    after = [k.name for k in m.free_params]
    p.fixed, q.fixed = True, False
    return before, after, [k.name for k in m.free_params]


def livefree_want():
    return ['p', 'q'], ['p'], ['q']


def items_got():
    """a model is a mapping in alphabetical order"""
    x, p = spec_var('x'), spec_par('p')
    y, B, a10, a2 = [spec_var(n) for n in ('y', 'B', 'a10', 'a2')]
    es = [spec_expr('e%d' % k, [x, p]) for k in range(4)]
    m = Model(dict(zip((y, B, a10, a2), es)))
    return (len(m), [k.name for k in m], [k.name for k in m.keys()], list(m.values()),
            m[a10], y in m, x in m, [k.name for k, v in m.items()], m.get(B))


def items_want():
    x, p = spec_var('x'), spec_par('p')
    es = [spec_expr('e%d' % k, [x, p]) for k in range(4)]
    n = ['B', 'a10', 'a2', 'y']
    return (4, n, n, [es[1], es[2], es[3], es[0]], es[2], True, False, n, es[1])


def sigma_got():
    x, p = spec_var('x'), spec_par('p')
    y, B = spec_var('y'), spec_var('B')
    m = Model({y: spec_expr('e1', [x, p, B]), B: spec_expr('e2', [x]), spec_var('z'): spec_expr('e3', [B, p])})
    return ([(k.name, v.name) for k, v in m.sigmas.items()], [v.name for v in m.dependent_vars],
            [v.name for v in m.interdependent_vars])


def sigma_want():
    return [('y', 'sigma_y'), ('z', 'sigma_z')], ['y', 'z'], ['B']
'''
KW = dict(raises=True, orders=True)
S, B = 'seperate_symbols', 'BaseNumericalModel.__init__'
OBLIGATIONS = [
    Obl('symbols of an expression', 'plain_got', 'plain_want',
        'variables and parameters in alphabetical order', S, **KW),
    Obl('indices', 'index_got', 'index_want',
        'indices and entries are neither variables nor parameters', S, **KW),
    Obl('unknown symbols', 'odd_got', 'odd_want', 'are refused', S, **KW),
    Obl('derivatives', 'deriv_got', 'deriv_want',
        'with respect to parameters count as variables', S, **KW),
    Obl('shared parameters', 'shared_got', 'shared_want',
        'any parameter in more than one component', 'BaseModel.shared_parameters', **KW),
    Obl('shared parameters of callables', 'sharednum_got', 'sharednum_want',
        'can not be told', 'BaseNumericalModel.shared_parameters', **KW),
    Obl('bounds', 'bounds_got', 'bounds_want',
        'of the parameters in order, tight around fixed values', 'BaseModel.bounds', **KW),
    Obl('deprecated lists', 'old_got', 'old_want', 'are sorted and connect everything', B, **KW),
    Obl('connectivity of a list', 'nomap_got', 'nomap_want', 'is refused', B, **KW),
    Obl('free parameters', 'free_got', 'free_want', 'are those which are not fixed',
        'BaseModel.free_params', **KW),
    Obl('changed bounds', 'live_got', 'live_want', 'are those of the model',
        'BaseModel.bounds', **KW),
    Obl('parameters fixed later', 'livefree_got', 'livefree_want', 'are not free',
        'BaseModel.free_params', **KW),
    Obl('mapping', 'items_got', 'items_want', 'by name, in alphabetical order',
        'BaseModel.__getitem__', **KW),
    Obl('sigmas', 'sigma_got', 'sigma_want', 'one for each dependent variable',
        'BaseModel._init_from_dict', **KW),
]
