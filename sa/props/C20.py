from ..check import Obl

DRIVER = '''
from symfit.core.models import ModelOutput
from symfit.core.support import D


def make(u, v, w):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    return ModelOutput([z, x, y], [u, v, w])


def items_got(u, v, w):
    m = make(u, v, w)
    return m[0], m[1], m[2], m[-1], m[0:2], list(m), len(m), [a for a in m]


def items_want(u, v, w):
    return u, v, w, w, [u, v], [u, v, w], 3, [u, v, w]


def names_got(u, v, w):
    m = make(u, v, w)
    return m.x, m.y, m.z, getattr(m, 'x')


def names_want(u, v, w):
    return v, w, u, v


def similar_got(u, v, w, a):
    names = ['y_', 'y_y', 'Y', 'y']
    m = ModelOutput([spec_var(n) for n in names], [u, v, w, a])
    n = ModelOutput([spec_var(n) for n in names[:3]], [u, v, w])
    return m.y_, m.y_y, m.Y, m.y, n.y_, n.y_y, n.Y, [hasattr(n, k) for k in ('y', 'y__', 'Y_', 'yy')]


def similar_want(u, v, w, a):
    return u, v, w, a, u, v, w, [False, False, False, False]


def derivative_got(u, v, w):
    y, p, q = spec_var('y'), spec_par('p'), spec_par('q')
    m = ModelOutput([D(y, p), D(y, p, q), y], [u, v, w])
    return m.dy_dp, m.d2y_dpdq, m.y, hasattr(m, 'dy_dq'), m._asdict()[D(y, p)]


def derivative_want(u, v, w):
    return u, v, w, False, u


def unpack_got(u, v, w):
    a, b, c = make(u, v, w)
    return a, b, c


def unpack_want(u, v, w):
    return u, v, w


def star_got(u, v, w):
    return spec_sym('f')(*make(u, v, w))


def star_want(u, v, w):
    return spec_sym('f')(u, v, w)


def absent_got(u, v, w):
    return make(u, v, w).sigma_x


def absent_want(u, v, w):
    raise AttributeError('sigma_x')


def default_got(u, v, w):
    m = make(u, v, w)
    return hasattr(m, 'q'), getattr(m, 'q', u), hasattr(m, 'z')


def default_want(u, v, w):
    return False, u, True


def outside_got(u, v, w):
    return make(u, v, w)[3]


def outside_want(u, v, w):
    raise IndexError('range')


def asdict_got(u, v, w):
    m = make(u, v, w)
    d = m._asdict()
    r = list(d.items())
    d[spec_var('x')] = 3
    return r, list(m._asdict().items()), m.x


def asdict_want(u, v, w):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    p = [(z, u), (x, v), (y, w)]
    return p, p, v


def parts_got(u, v, w):
    m = make(u, v, w)
    return m.variables, m.output


def parts_want(u, v, w):
    return [spec_var('z'), spec_var('x'), spec_var('y')], [u, v, w]


def any_got(variables: 'Seq', output: 'Seq'):
    """whatever the number of components"""
    spec_same_length(variables, output)
    m = ModelOutput(variables, output)
    return list(m), m.variables, list(m.output)


def any_want(variables: 'Seq', output: 'Seq'):
    spec_same_length(variables, output)
    return list(output), list(variables), list(output)


def state_got(u, v, w):
    """as copy and pickle do it"""
    m = make(u, v, w)
    args, state = m.__getnewargs__(), m.__getstate__()
    n = ModelOutput.__new__(ModelOutput, *args)
    n.__setstate__(state)
    return list(n), n.x, n.y, n.z, n[1], len(n), n.variables, list(n._asdict().items())


def state_want(u, v, w):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    return ([u, v, w], v, w, u, v, 3, [z, x, y], [(z, u), (x, v), (y, w)])


def fresh_got(u, v, w):
    """attribute lookup on an object which is not initialized must not recurse"""
    n = ModelOutput.__new__(ModelOutput, [spec_var('x')], [u])
    return n[0]
'''

KW = dict(raises=True)
OBLIGATIONS = [
    Obl('items', 'items_got', 'items_want', 'are in the order of the components',
        'ModelOutput.__getitem__', **KW),
    Obl('derivatives', 'derivative_got', 'derivative_want',
        'are found by their name', 'ModelOutput.__getattr__', **KW),
    Obl('similar names', 'similar_got', 'similar_want', 'are found by the name of the variable',
        'ModelOutput.__getattr__', **KW),
    Obl('attributes', 'names_got', 'names_want', 'are found by the name of the variable',
        'ModelOutput.__getattr__', **KW),
    Obl('unpacking', 'unpack_got', 'unpack_want', 'keeps the order', 'ModelOutput.__new__', **KW),
    Obl('star arguments', 'star_got', 'star_want', 'keep the order', 'ModelOutput.__new__', **KW),
    Obl('unknown name', 'absent_got', 'absent_want', 'is an AttributeError',
        'ModelOutput.__getattr__', **KW),
    Obl('hasattr', 'default_got', 'default_want', 'works', 'ModelOutput.__getattr__', **KW),
    Obl('index out of range', 'outside_got', 'outside_want', 'is an IndexError',
        'ModelOutput.__getitem__', **KW),
    Obl('dictionary', 'asdict_got', 'asdict_want', 'is a copy, in order',
        'ModelOutput._asdict', **KW),
    Obl('parts', 'parts_got', 'parts_want', 'are kept', 'ModelOutput.__init__', **KW),
    Obl('any number of components', 'any_got', 'any_want', 'is kept', 'ModelOutput.__init__', **KW),
    Obl('copies', 'state_got', 'state_want', 'have the same contents',
        ['ModelOutput.__getstate__', 'ModelOutput.__setstate__', 'ModelOutput.__getnewargs__'], **KW),
]
