from ..check import Obl

DRIVER = '''
import numpy as np
from collections import OrderedDict
from symfit.core.models import BaseModel
from symfit.core.objectives import (
    BaseObjective, GradientObjective, HessianObjective, LeastSquares)


class Out(object):
    def __init__(self, d):
        self.d = d

    def _asdict(self):
        return self.d


class Signature(object):
    def __init__(self, names):
        self.parameters = OrderedDict([(n, n) for n in names])


class FakeModel(BaseModel):
    """components y, z and the interdependent i, yi, zi; parameters p, q, r"""
    def __init__(self, npar, nind):
        self.y, self.z, self.i = spec_var('y'), spec_var('z'), spec_var('i')
        self.yi, self.zi = spec_var('yi'), spec_var('zi')
        self.params = [spec_par(n) for n in ['p', 'q', 'r'][:npar]]
        self.independent_vars = [spec_var(n) for n in ['s', 't'][:nind]]
        self.dependent_vars = [self.y, self.z]
        self.interdependent_vars = [self.i, self.yi, self.zi]
        self.sigmas = {self.y: spec_var('sigma_y'), self.z: spec_var('sigma_z')}
        self.model_dict = OrderedDict([(v, None) for v in (
            self.i, self.y, self.yi, self.z, self.zi)])
        self.__signature__ = Signature([v.name for v in self.independent_vars + self.params])

    def answer(self, what, kw):
        spec_note(what, [(n, kw[n]) for n in sorted(kw)])
        return Out(OrderedDict([(v, spec_sym(what + '_' + v.name))
                                for v in self.model_dict]))

    def __call__(self, **kw):
        return self.answer('call', kw)

    def eval_jacobian(self, **kw):
        return self.answer('jac', kw)

    def eval_hessian(self, **kw):
        return self.answer('hess', kw)


class Objective(HessianObjective):
    def __call__(self, ordered_parameters=[], **parameters):
        return BaseObjective.__call__(self, ordered_parameters, **parameters)

    def eval_jacobian(self, ordered_parameters=[], **parameters):
        return GradientObjective.eval_jacobian(self, ordered_parameters, **parameters)

    def eval_hessian(self, ordered_parameters=[], **parameters):
        return HessianObjective.eval_hessian(self, ordered_parameters, **parameters)


def make(npar, nind, data=True):
    m = FakeModel(npar, nind)
    d = {}
    for v in m.independent_vars:
        d[v] = spec_sym('data_' + v.name)
    for v in m.dependent_vars:
        d[v] = None if not data else spec_sym('data_' + v.name)
        d[m.sigmas[v]] = None if not data else spec_sym('data_sigma_' + v.name)
    return Objective(m, d)


def kwargs(m, xs, **named):
    """the values the model has to be called with"""
    out, k = named, 0
    for p in m.params:
        if p.fixed:
            out[p.name] = p.value
        elif k < len(xs):
            out[p.name] = xs[k]
            k += 1
    for v in m.independent_vars:
        out[v.name] = spec_sym('data_' + v.name)
    return [(n, out[n]) for n in sorted(out)]


class Arr(object):
    """an array of which only the shape is known; axes: (origin, length)"""
    def __init__(self, label, axes):
        self.label = label
        self.axes = axes

    @property
    def shape(self):
        return tuple([a[1] for a in self.axes])

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        n = 1
        for a in self.axes:
            n = n * a[1]
        return n

    def __len__(self):
        return self.axes[0][1]

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        out, rest = [], list(self.axes)
        left = len(rest)
        for k in key:
            if k is None or k is Ellipsis:
                pass
            elif k == slice(None):
                left = left - 1
            else:
                spec_unknown('index')
        for k in key:
            if k is None:
                out = out + [('new', 1)]
            elif k is Ellipsis:
                out, rest = out + rest[:left], rest[left:]
            else:
                out, rest = out + rest[:1], rest[1:]
        return Arr(self.label, out + rest)


    def reshape(self, *shape):
        if len(shape) == 1 and not isinstance(shape[0], int):
            shape = tuple(shape[0])
        rest = [a for a in self.axes if a[1] != 1]
        out = []
        for n in shape:
            if n == 1:
                out = out + [('new', 1)]
            elif rest and rest[0][1] == n:
                out, rest = out + rest[:1], rest[1:]
            else:
                spec_unknown('reshape')
        return Arr(self.label, out)


def arr(label, *shape):
    return Arr(label, [(i if n > 1 else 'new', n) for i, n in enumerate(shape)])


def expand(a, axis):
    if not isinstance(a, Arr):
        return a
    if axis < 0:
        axis = len(a.axes) + 1 + axis
    return Arr(a.label, a.axes[:axis] + [('new', 1)] + a.axes[axis:])


def bcast(array, shape, subok=False):
    a = array
    shape = list(shape)
    extra = len(shape) - len(a.axes)
    if extra < 0:
        raise ValueError('too many axes')
    axes = [('new', 1)] * extra + a.axes
    out = []
    for x, n in zip(axes, shape):
        if x[1] == n:
            out = out + [x]
        elif x[1] == 1:
            out = out + [('new', n)]
        else:
            raise ValueError('shapes do not match')
    return Arr(a.label, out)


class Shaped(FakeModel):
    """components of given shapes"""
    def __init__(self, level, shapes):
        FakeModel.__init__(self, 2, 1)
        self.shapes = [[2] * level + list(s) for s in shapes]

    def answer(self, what, kw):
        y, z = self.shapes
        return Out(OrderedDict([
            (self.i, arr('i', 7)), (self.y, arr('y', *y)), (self.yi, arr('i', 8)),
            (self.z, arr('z', *z)), (self.zi, arr('i', 9))]))


def take_shape(call, level, yd, y, zd, z):
    m = Shaped(level, (y, z))
    d = {m.independent_vars[0]: arr('s', 3), m.y: arr('dy', *yd), m.z: arr('dz', *zd),
         m.sigmas[m.y]: arr('sy', *yd), m.sigmas[m.z]: arr('sz', *zd)}
    return [(c.label, c.axes) for c in call(Objective(m, d))]


def have_shape(call, level, yd, y, zd, z):
    out = []
    for label, d, c in (('y', yd, y), ('z', zd, z)):
        a = arr(label, *([2] * level + list(c)))
        while len(a.axes) < level + len(d):
            a = Arr(a.label, a.axes + [('new', 1)])
        a = bcast(a, [2] * level + list(d))
        out.append((a.label, a.axes))
    return out


def data_got():
    o = make(2, 2)
    m = o.model
    return ([(k.name, x) for k, x in o.dependent_data.items()],
            [(k.name, x) for k, x in o.independent_data.items()],
            [(k.name, x) for k, x in o.sigma_data.items()])


def data_want():
    return ([(n, spec_sym('data_' + n)) for n in ('y', 'z')],
            [(n, spec_sym('data_' + n)) for n in ('s', 't')],
            [(n, spec_sym('data_' + n)) for n in ('sigma_y', 'sigma_z')])


def absent(skip):
    m = FakeModel(1, 1)
    d = {}
    for v in m.independent_vars + m.dependent_vars + list(m.sigmas.values()):
        if v.name != skip:
            d[v] = spec_sym('data_' + v.name)
    Objective(m, d)


def absent_want():
    raise KeyError('no data')


def ab_y_got():
    absent('y')


def ab_s_got():
    absent('s')


def ab_sigma_got():
    absent('sigma_z')


def complete_got():
    absent('nothing')


def complete_want():
    pass


def twice_got():
    o = make(2, 1, False)
    o([spec_sym('x0'), spec_sym('x1')])
    return o([spec_sym('x2'), spec_sym('x3')])


def twice_want():
    m = FakeModel(2, 1)
    spec_note('call', kwargs(m, [spec_sym('x0'), spec_sym('x1')]))
    spec_note('call', kwargs(m, [spec_sym('x2'), spec_sym('x3')]))
    return [spec_sym('call_y'), spec_sym('call_z')]
'''
OBLIGATIONS = []
EV = {'call': 'o(xs)', 'jac': 'o.eval_jacobian(xs)', 'hess': 'o.eval_hessian(xs)'}
AN = {'call': 'BaseObjective.__call__', 'jac': 'GradientObjective.eval_jacobian',
      'hess': 'HessianObjective.eval_hessian'}
KW = dict(notes=True, raises=True)
# shapes of data and component, twice; there are two parameters
SHAPES = [((3,), (3,), (4,), (1,)), ((2, 2), (2, 2), (2, 2), (2,)),
          ((2, 1), (1,), (1,), (1,)), ((2, 3), (2,), (2,), (2,)),
          ((3, 4, 5), (3, 4), (3, 4, 5), (3,)), ((2, 2, 2), (2, 2), (2, 2, 2), (2,)),
          ((2, 3), (1, 3), (2, 3), (2, 1)), ((1, 2, 2), (1,), (1, 1), (1, 1))]
for level, e in enumerate(('call', 'jac', 'hess')):
    for npar, nind in ((3, 1), (2, 2), (1, 0)):
        d = dict(e=e, n=npar, i=nind, ev=EV[e], level=level)
        DRIVER += '''
def %(e)s%(n)d_got():
    o = make(%(n)d, %(i)d, False)
    xs = [spec_sym('x%%d' %% k) for k in range(%(n)d)]
    return %(ev)s


def %(e)s%(n)d_want():
    m = FakeModel(%(n)d, %(i)d)
    spec_note('%(e)s', kwargs(m, [spec_sym('x%%d' %% k) for k in range(%(n)d)]))
    return [spec_sym('%(e)s_y'), spec_sym('%(e)s_z')]
''' % d
        OBLIGATIONS.append(Obl(
            '%s with %d parameters, %d independent variables' % (e, npar, nind),
            '%s%d_got' % (e, npar), '%s%d_want' % (e, npar),
            'free parameters by position, fixed values, data; dependent components '
            'in order', AN[e], **KW))
    DRIVER += '''
def %(e)snamed_got():
    o = make(2, 1, False)
    return o%(m)s(q=spec_sym('v'), p=spec_sym('u'))


def %(e)snamed_want():
    m = FakeModel(2, 1)
    out = {}
    for p, n in zip(m.params, 'uv'):
        out[p.name] = p.value if p.fixed else spec_sym(n)
    out['s'] = spec_sym('data_s')
    spec_note('%(e)s', [(n, out[n]) for n in sorted(out)])
    return [spec_sym('%(e)s_y'), spec_sym('%(e)s_z')]
''' % dict(e=e, m='' if e == 'call' else EV[e][1:-4])
    OBLIGATIONS.append(Obl(
        '%s with keywords' % e, e + 'named_got', e + 'named_want',
        'free parameters by name, the values of the fixed ones, data', AN[e], **KW))
    for n, (yd, y, zd, z) in enumerate(SHAPES):
        d['a'] = '%d, %r, %r, %r, %r' % (level, yd, y, zd, z)
        d['k'] = n
        DRIVER += '''
def %(e)sshape%(k)d_got():
    xs = [spec_sym('x0'), spec_sym('x1')]
    return take_shape(lambda o: %(ev)s, %(a)s)


def %(e)sshape%(k)d_want():
    return have_shape(None, %(a)s)
''' % d
        OBLIGATIONS.append(Obl(
            '%s: components %r and %r for data %r and %r' % (e, y, z, yd, zd),
            '%sshape%d_got' % (e, n), '%sshape%d_want' % (e, n),
            'components take the shape of their data',
            'BaseObjective._shape_of_dependent_data', raises=True,
            intercept={'numpy.expand_dims': 'expand', 'numpy.broadcast_to': 'bcast'}))
OBLIGATIONS += [
    Obl('repeated evaluation', 'twice_got', 'twice_want',
        'an evaluation does not affect the next', AN['call'], **KW),
    Obl('data by role', 'data_got', 'data_want',
        'dependent, independent and sigma data belong to their variables',
        ['BaseObjective.dependent_data', 'BaseObjective.independent_data',
         'BaseObjective.sigma_data'], **KW),
    Obl('missing dependent data', 'ab_y_got', 'absent_want', 'is refused',
        'BaseObjective._sanity_checking', **KW),
    Obl('missing independent data', 'ab_s_got', 'absent_want', 'is refused',
        'BaseObjective._sanity_checking', **KW),
    Obl('missing sigma', 'ab_sigma_got', 'absent_want', 'is refused',
        'BaseObjective._sanity_checking', **KW),
    Obl('complete data', 'complete_got', 'complete_want', 'is accepted',
        'BaseObjective._sanity_checking', **KW),
]
