from ..check import Obl

DRIVER = '''
import pickle
import warnings
from symfit.core.argument import Argument, Parameter, Variable
from symfit.core.support import parameters, variables


def symbol_new(cls, name, **assumptions):
    """sympy's part of making a symbol"""
    if not isinstance(name, str):
        raise TypeError('name should be a string')
    s = object.__new__(cls)
    s.name = name
    s.given = sorted(assumptions.items())
    return s


def symbol_eq(a, b):
    """sympy's comparison"""
    if not isinstance(b, Argument):
        return NotImplemented
    if type(a) is not type(b) or a.name != b.name:
        return False
    return bool(spec_sym('same_assumptions')(a.given, b.given))


def show(p):
    return (p.name, p.value, p.min, p.max, p.fixed, p.given)


def kept_got(v, lo, hi, fixed):
    return show(Parameter('a', v, lo, hi, fixed, positive=True))


def kept_want(v, lo, hi, fixed):
    if lo is not None and hi is not None and lo > hi and not fixed:
        raise ValueError('bounds')
    return ('a', v, lo, hi, fixed, [('positive', True), ('real', True)])


def keywords_got(v, lo, hi):
    return (show(Parameter('a', fixed=True, max=hi, value=v, min=lo)),
            show(Parameter('b', v)), show(Parameter('c')),
            show(Parameter('d', min=lo)), show(Parameter('e', max=hi)))


def keywords_want(v, lo, hi):
    r = [('real', True)]
    return (('a', v, lo, hi, True, r), ('b', v, None, None, False, r),
            ('c', 1.0, None, None, False, r), ('d', 1.0, lo, None, False, r),
            ('e', 1.0, None, hi, False, r))


def equal_got(v, lo, hi, w, lo2, hi2, f, f2):
    spec_assume(not (lo > hi))
    spec_assume(not (lo2 > hi2))
    spec_assume(lo is not None)
    spec_assume(lo2 is not None)
    spec_assume(hi is not None)
    spec_assume(hi2 is not None)
    a, b = Parameter('a', v, lo, hi, f), Parameter('a', w, lo2, hi2, f2)
    return a == b, b == a, a != b


def equal_want(v, lo, hi, w, lo2, hi2, f, f2):
    spec_assume(not (lo > hi))
    spec_assume(not (lo2 > hi2))
    spec_assume(lo is not None)
    spec_assume(lo2 is not None)
    spec_assume(hi is not None)
    spec_assume(hi2 is not None)
    real = [('real', True)]
    e = bool(spec_sym('same_assumptions')(real, real) and lo == lo2 and hi == hi2 and
             f == f2 and v == w)
    return e, e, not e


def other_name_got(v):
    a, b = Parameter('a', v), Parameter('b', v)
    return a == b, a != b, a == Variable('a'), a == 'a', a == None


def other_name_want(v):
    return False, True, False, False, False


def infinite_got(v, lo):
    return show(Parameter('a', v, min=lo)), show(Parameter('b', v, max=lo))


def variable_got():
    x = Variable('x')
    return x.name, x.given, type(x) is Variable, [hasattr(x, n) for n in ('value', 'min')]


def variable_want():
    return 'x', [('real', True)], True, [False, False]


def number_got():
    return Parameter(3.5)


def number_want():
    raise TypeError('the value is the second argument')


def generated_got():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p, q, x = Parameter(value=3), Parameter(), Variable()
        r = Parameter(value=2)
    return p.name, q.name, x.name, r.name, p.value, q.value, r.value


def generated_want():
    return 'par_0', 'par_1', 'var_0', 'par_2', 3, 1.0, 2


def copied_got(v, lo, hi, fixed):
    p = Parameter('a', v, lo, hi, fixed)
    state = p.__getstate__()
    q = Parameter('a')
    q.__setstate__(state)
    return show(q), p == q


def copied_want(v, lo, hi, fixed):
    if lo is not None and hi is not None and lo > hi and not fixed:
        raise ValueError('bounds')
    r = [('real', True)]
    return ('a', v, lo, hi, fixed, r), bool(spec_sym('same_assumptions')(r, r))




def many_got():
    v, w, lo, hi = numbers()
    a, b, c = parameters('a, b, c', value=[v, w, 3], min=lo, fixed=[True, False, True])
    d, e = parameters('d e', max=[hi, None], min=[None, lo])
    f, g = parameters('f, g', value=(v, w), real=True, positive=True)
    h, = parameters('h', value=v, fixed=True)
    return [show(x) for x in (a, b, c, d, e, f, g, h)]


def numbers():
    return [spec_scalar(n) for n in ('v', 'w', 'lo', 'hi')]


def many_want():
    v, w, lo, hi = numbers()
    r = [('real', True)]
    return [('a', v, lo, None, True, r), ('b', w, lo, None, False, r),
            ('c', 3, lo, None, True, r), ('d', 1.0, None, hi, False, r),
            ('e', 1.0, lo, None, False, r),
            ('f', v, None, None, False, [('positive', True)] + r),
            ('g', w, None, None, False, [('positive', True)] + r),
            ('h', v, None, None, True, r)]


def iterators_got():
    v, w, lo, hi = numbers()
    return [show(x) for x in parameters(
        'a, b', value=(x for x in [v, 1]), min=iter([w, None]), max=iter([lo, hi]))]


def iterators_want():
    v, w, lo, hi = numbers()
    r = [('real', True)]
    if w > lo:
        raise ValueError('bounds')
    return [('a', v, w, lo, False, r), ('b', 1, None, hi, False, r)]


def bounds_got():
    v, w, lo, hi = numbers()
    return [show(x) for x in parameters('a, b, c', min=[v, w, lo], max=hi,
                                        fixed=[False, True, False])]


def bounds_want():
    v, w, lo, hi = numbers()
    r = [('real', True)]
    if v > hi or lo > hi:
        raise ValueError('bounds')
    return [('a', 1.0, v, hi, False, r), ('b', 1.0, w, hi, True, r),
            ('c', 1.0, lo, hi, False, r)]


def lengths_got(which):
    v, w, lo, hi = numbers()
    if which == 0:
        parameters('a, b', value=[v])
    elif which == 1:
        parameters('a, b', min=[v, w, lo])
    elif which == 2:
        parameters('a, b', max=())
    else:
        parameters('a', fixed=[True, False])


def lengths_want(which):
    raise ValueError('length')


def variables_got():
    x, y = variables('x, y')
    z, = variables('z')
    return [(type(a) is Variable, a.name, a.given) for a in (x, y, z)]


def variables_want():
    r = [('real', True)]
    return [(True, 'x', r), (True, 'y', r), (True, 'z', r)]
'''

P = 'Parameter.__init__'
S = 'symfit.core.support.parameters'
KW = dict(raises=True, intercept={'sympy.Symbol.__new__': 'symbol_new',
                                  'sympy.Symbol.__eq__': 'symbol_eq'})
OBLIGATIONS = [
    Obl('attributes', 'kept_got', 'kept_want', 'are kept, in order', P, **KW),
    Obl('attributes by name', 'keywords_got', 'keywords_want', 'are kept', P, **KW),
    Obl('equality', 'equal_got', 'equal_want', 'covers bounds, value and fixedness',
        'Parameter.__eq__', **KW),
    Obl('other symbols', 'other_name_got', 'other_name_want', 'are not equal',
        'Parameter.__eq__', **KW),
    Obl('variables', 'variable_got', 'variable_want', 'are real', 'Argument.__new__', **KW),
    Obl('a value as name', 'number_got', 'number_want', 'is refused',
        'Parameter.__new__', **KW),
    Obl('nameless arguments', 'generated_got', 'generated_want', 'get distinct names',
        'Argument.__new__', **KW),
    Obl('state', 'copied_got', 'copied_want', 'is restored',
        ['Argument.__getstate__', 'Argument.__setstate__'], **KW),
    Obl('several parameters', 'many_got', 'many_want', 'get the value of their position', S, **KW),
    Obl('iterators', 'iterators_got', 'iterators_want', 'count as sequences', S, **KW),
    Obl('bounds of several parameters', 'bounds_got', 'bounds_want',
        'are checked one by one', S, **KW),
    Obl('sequences of a wrong length', 'lengths_got', 'lengths_want', 'are refused', S, **KW),
    Obl('several variables', 'variables_got', 'variables_want', 'keep their order',
        'symfit.core.support.variables', **KW),
]
