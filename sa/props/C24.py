from ..check import Obl

DRIVER = '''
from symfit.core.support import cached_property


class Thing(object):
    def __init__(self, x):
        self.x = x


def value(self):
    """an expensive value"""
    spec_note('value', self.x)
    return spec_sym('f')(self.x)


def other(self):
    spec_note('other', self.x)
    return spec_sym('g')(self.x)


def failing(self):
    spec_note('failing', self.x)
    if self.x is not None:
        return self.x
    raise ValueError(self.x)


def once_got(x, y):
    c = cached_property(value)
    a = Thing(x)
    r = [c.__get__(a)]
    a.x = y
    r += [c.__get__(a, Thing), c.__get__(a)]
    return r


def once_want(x, y):
    spec_note('value', x)
    f = spec_sym('f')(x)
    return [f, f, f]


def deleted_got(x, y):
    c = cached_property(value)
    a = Thing(x)
    r = [c.__get__(a)]
    a.x = y
    c.__delete__(a)
    r += [c.__get__(a), c.__get__(a)]
    return r


def deleted_want(x, y):
    spec_note('value', x)
    spec_note('value', y)
    f, g = spec_sym('f')(x), spec_sym('f')(y)
    return [f, g, g]


def empty_got(x):
    c = cached_property(value)
    a = Thing(x)
    c.__delete__(a)
    c.__delete__(a)
    r = [c.__get__(a)]
    c.__delete__(a)
    c.__delete__(a)
    return r, sorted(vars(a).items())


def empty_want(x):
    spec_note('value', x)
    return [spec_sym('f')(x)], [('x', x)]


def x(self):
    spec_note('x', self.x)
    return spec_sym('f')(self.x)


def _x(self):
    spec_note('_x', self.x)
    return spec_sym('g')(self.x)


def x_(self):
    spec_note('x_', self.x)
    return spec_sym('h')(self.x)


def X(self):
    spec_note('X', self.x)
    return spec_sym('k')(self.x)


def alike_got(u):
    """names which differ in underscores and case"""
    props = [cached_property(h) for h in (x, _x, x_, X)]
    a = Thing(u)
    r = [c.__get__(a) for c in props]
    return r + [c.__get__(a) for c in props]


def alike_want(u):
    for n in ('x', '_x', 'x_', 'X'):
        spec_note(n, u)
    r = [spec_sym(h)(u) for h in ('f', 'g', 'h', 'k')]
    return r + r


def apart_got(x, y):
    c, d = cached_property(value), cached_property(other)
    a, b = Thing(x), Thing(y)
    r = [c.__get__(a), d.__get__(a), c.__get__(b), d.__get__(b), c.__get__(a)]
    c.__delete__(a)
    a.x, b.x = y, x
    return r + [d.__get__(a), c.__get__(b), d.__get__(b), c.__get__(a)]


def apart_want(x, y):
    spec_note('value', x)
    spec_note('other', x)
    spec_note('value', y)
    spec_note('other', y)
    spec_note('value', y)
    f, g = spec_sym('f'), spec_sym('g')
    return [f(x), g(x), f(y), g(y), f(x), g(x), f(y), g(y), f(y)]


def fails_got(x, y):
    """an exception is not cached"""
    c = cached_property(failing)
    a = Thing(x)
    try:
        return c.__get__(a)
    except ValueError:
        a.x = y
        return c.__get__(a)


def fails_want(x, y):
    spec_note('failing', x)
    if x is not None:
        return x
    spec_note('failing', y)
    if y is not None:
        return y
    raise ValueError(y)


def none_got(x):
    """None is a value like any other"""
    def nothing(self):
        spec_note('nothing', self.x)
        return None
    c = cached_property(nothing)
    a = Thing(x)
    return c.__get__(a), c.__get__(a)


def none_want(x):
    spec_note('nothing', x)
    return None, None
'''

G = 'cached_property.__get__'
D = ['cached_property.__get__', 'cached_property.__delete__']
KW = dict(raises=True, notes=True)
OBLIGATIONS = [
    Obl('first access', 'once_got', 'once_want', 'computes the value, later ones do not', G, **KW),
    Obl('deletion', 'deleted_got', 'deleted_want', 'makes the next access compute it again', D, **KW),
    Obl('deletion without a value', 'empty_got', 'empty_want', 'does nothing', D, **KW),
    Obl('objects and properties', 'apart_got', 'apart_want', 'do not share values', D, **KW),
    Obl('properties of like names', 'alike_got', 'alike_want', 'do not share values', G, **KW),
    Obl('exceptions', 'fails_got', 'fails_want', 'are not kept', G, **KW),
    Obl('None', 'none_got', 'none_want', 'is kept', G, **KW),
]
