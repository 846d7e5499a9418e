from ..check import Obl
from .minim import HEAD

DRIVER = HEAD + '''
import sympy
from symfit.core.support import D
from symfit.core.models import (Model, CallableModel, BaseModel, CallableNumericalModel,
    ODEModel)


def is_function(f):
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))


def kind(which):
    t, x = spec_var('t'), spec_var('x')
    a, b = spec_par('a'), spec_par('b')
    y, z, w = spec_var('y'), spec_var('z'), spec_var('w')
    e1, e2 = spec_expr('e1', [x, a, w]), spec_expr('e2', [x, b])
    e3 = spec_expr('e3', [w, a, b])
    if which == 'ode':
        e1, e2, e3 = [spec_expr(n, [t, w, y, z, a, b]) for n in ('e1', 'e2', 'e3')]
        m = ODEModel({D(z, t): e1, D(w, t): e2, D(y, t): e3},
                     initial={t: 0, y: 1, z: 2, w: 3})
        return m, {'z': e1, 'w': e2, 'y': e3}
    if which == 'numerical':
        f = spec_sym('f')
        is_function(f)
        m = CallableNumericalModel({z: f, w: e2, y: e3},
                                   connectivity_mapping={z: {x, a, w}})
        return m, {'z': f, 'w': e2, 'y': e3}
    cls = {'model': Model, 'callable': CallableModel, 'base': BaseModel}[which]
    return cls({z: e1, w: e2, y: e3}), {'z': e1, 'w': e2, 'y': e3}


KINDS = ['model', 'callable', 'base', 'numerical', 'ode']


def keys_got():
    res = []
    for k in KINDS:
        m, parts = kind(k)
        res.append(([v.name for v in m], [v.name for v in m.keys()], len(m)))
    return res


def keys_want():
    is_function(spec_sym('f'))
    n = ['w', 'y', 'z']
    return [(n, n, 3) for k in KINDS]


def items_got():
    res = []
    for k in KINDS:
        m, parts = kind(k)
        res.append((list(m.values()), [(v.name, e) for v, e in m.items()],
                    [m[spec_var(n)] for n in 'yzw'],
                    [m.get(spec_var(n)) for n in 'yzw'],
                    dict(m) == {spec_var(n): e for n, e in parts.items()}))
    return res


def items_want():
    res = []
    for k in KINDS:
        m, p = kind(k)
        res.append(([p[n] for n in 'wyz'], [(n, p[n]) for n in 'wyz'],
                    [p[n] for n in 'yzw'], [p[n] for n in 'yzw'], True))
    return res


def member_got(which):
    m, parts = kind(which)
    return [v in m for v in (spec_var('y'), spec_var('z'), spec_var('w'))]


def absent_got(which):
    m, parts = kind(which)
    return [v in m for v in (spec_var('q'), spec_var('x'), spec_var('t'), spec_par('a'),
                             m.sigmas[spec_var('y')])]


def default_got(which):
    m, parts = kind(which)
    return [m.get(spec_var('q')), m.get(spec_var('q'), 7), m.get(spec_par('a'), 8)]


def namesake_got(which):
    """a parameter which is called like a component"""
    m, parts = kind(which)
    p, q = spec_par('y'), spec_par('w')
    return [p in m, q in m, m.get(p), m.get(q, 5)]


def lookup_got(which):
    m, parts = kind(which)
    return m[spec_var('q')]


def lookup2_got(which):
    m, parts = kind(which)
    return m[spec_par('a')]


def raise_want():
    raise KeyError('q')


def raise_num_want():
    f = spec_sym('f')
    is_function(f)
    raise KeyError('q')


def single_got():
    """the components of a model of one expression"""
    a, x = spec_par('a'), spec_var('x')
    e = spec_expr('e', [x, a])
    m = Model(e)
    return len(m), list(m.values()), [m[v] for v in m], m.dependent_vars == list(m)


def single_want():
    e = spec_expr('e', [spec_var('x'), spec_par('a')])
    return 1, [e], [e], True
'''
for _k in ('model', 'callable', 'base', 'numerical', 'ode'):
    DRIVER += f'''

def member_{_k}():
    return member_got({_k!r})


def absent_{_k}():
    return absent_got({_k!r})


def default_{_k}():
    return default_got({_k!r})


def namesake_{_k}():
    return namesake_got({_k!r})


def lookup_{_k}():
    return lookup_got({_k!r})


def lookup2_{_k}():
    return lookup2_got({_k!r})
'''
DRIVER += '''

def member_want():
    return [True, True, True]


def absent_want():
    return [False, False, False, False, False]


def default_want():
    return [None, 7, 8]


def namesake_want():
    return [False, False, None, 5]


def namesake_num_want():
    is_function(spec_sym('f'))
    return namesake_want()


def member_num_want():
    is_function(spec_sym('f'))
    return member_want()


def absent_num_want():
    is_function(spec_sym('f'))
    return absent_want()


def default_num_want():
    is_function(spec_sym('f'))
    return default_want()
'''
KW = dict(raises=True, orders=True)
_GET = {'ode': 'ODEModel.__getitem__'}
OBLIGATIONS = [
    Obl('keys', 'keys_got', 'keys_want', 'are the variables of the components, in order',
        ['BaseModel.__iter__', 'BaseModel.__len__', 'ODEModel.__iter__'], **KW),
    Obl('items', 'items_got', 'items_want', 'are the components of those variables',
        ['BaseModel.__getitem__', 'ODEModel.__getitem__'], **KW),
    Obl('one expression', 'single_got', 'single_want', 'is the only component',
        'BaseModel.__init__', **KW),
]
for _k in ('model', 'callable', 'base', 'numerical', 'ode'):
    _a = _GET.get(_k, 'BaseModel.__getitem__')
    _n = 'num_want' if _k == 'numerical' else 'want'
    OBLIGATIONS += [
        Obl(f'members of {_k}', f'member_{_k}', 'member_' + _n, 'are its components', _a, **KW),
        Obl(f'not in {_k}', f'absent_{_k}', 'absent_' + _n, 'are other symbols', _a, **KW),
        Obl(f'namesakes in {_k}', f'namesake_{_k}', 'namesake_' + _n,
            'of components are other symbols', _a, **KW),
        Obl(f'default of {_k}', f'default_{_k}', 'default_' + _n, 'is used for other symbols',
            _a, **KW),
        Obl(f'variable not in {_k}', f'lookup_{_k}', 'raise_' + _n, 'is a KeyError', _a, **KW),
        Obl(f'parameter not in {_k}', f'lookup2_{_k}', 'raise_' + _n, 'is a KeyError', _a, **KW),
    ]
