from ..check import Obl

DRIVER = '''
import numpy as np
import sympy
from symfit.core.argument import Parameter, Variable
from symfit.core.models import ODEModel, ModelError, ODEError, ModelOutput


class Der(object):
    """the derivative of y"""
    def __init__(self, y, *t):
        self.y = y
        self.variables = t
        self.expr = y
        self.free_symbols = {y} | set(t)


class Sol(object):
    def __init__(self, y):
        self.y = y
        self.success = spec_sym('success')(y)
        self.message = spec_sym('message')(y)


def solve(fun, t_span, y0, method='RK45', t_eval=None, dense_output=False,
          events=None, vectorized=False, args=None, jac=None, **options):
    """the integrator is seen through the values of what it is given"""
    t = spec_sym('time')
    u, v = spec_sym('u'), spec_sym('v')
    if args is None:
        args = ()
    return Sol(spec_sym('integral')(
        list(t_span), list(y0), method, t_eval, dense_output, events, vectorized,
        list(fun(t, [u, v], *args)), [list(r) for r in jac(t, [u, v], *args)],
        sorted(options.items())))


def exprs():
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    p, q = spec_par('p'), spec_par('q')
    return (spec_expr('e1', [t, y, z, p]), spec_expr('e2', [q, z, y]))


def model(t0, y0, z0, **kw):
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    e1, e2 = exprs()
    return ODEModel({Der(z, t): e2, Der(y, t): e1}, initial={z: z0, t: t0, y: y0}, **kw)


def integral(times, start, p, q, method='LSODA', options=None):
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    e1, e2 = exprs()
    at = {t: spec_sym('time'), y: spec_sym('u'), z: spec_sym('v'),
          spec_par('p'): p, spec_par('q'): q}
    if options is None:
        options = [('atol', 1.49012e-8), ('rtol', 1.49012e-8)]
    s = Sol(spec_sym('integral')(
        [times[0], times[-1]], start, method, times, False, None, False,
        [e1.xreplace(at), e2.xreplace(at)],
        [[e1.diff(y).xreplace(at), e1.diff(z).xreplace(at)],
         [e2.diff(y).xreplace(at), e2.diff(z).xreplace(at)]], options))
    return s


def solved(times, start, p, q, **kw):
    s = integral(times, start, p, q, **kw)
    if not s.success:
        raise ODEError(s.message)
    return s.y


def expected(ts, t0, start, p, q, **kw):
    inside = t0 in ts
    if inside:
        up, down = ts[ts >= t0], ts[ts <= t0][::-1]
    else:
        first = np.array([t0])
        up = np.concatenate((first, ts[ts > t0]))
        down = np.concatenate((first, ts[ts < t0][::-1]))
    if len(up) > 1 and len(down) > 1:
        a = integral(up, start, p, q, **kw)
        b = integral(down, start, p, q, **kw)
        if not b.success:
            raise ODEError(b.message)
        if not a.success:
            raise ODEError(a.message)
        r = np.concatenate((b.y[:, :0:-1], a.y), axis=1)
    elif len(up) > 1:
        r = solved(up, start, p, q, **kw)
    elif len(down) > 1:
        r = solved(down, start, p, q, **kw)[:, ::-1]
    else:
        r = np.atleast_2d(start).T
    if inside:
        return r
    return r[:, np.concatenate((down[::-1][:-1], up)) != t0]


def times():
    ts = np.asarray(spec_sym('ts', 'Seq'))
    spec_assume(len(ts) > 0)
    return ts


def number(n):
    return spec_scalar(n)


def got(p, q):
    t0, y0, z0 = number('t0'), number('y0'), number('z0')
    return model(t0, y0, z0).eval_components(t=times(), p=p, q=q)


def want(p, q):
    t0, y0, z0 = number('t0'), number('y0'), number('z0')
    return expected(times(), t0, [y0, z0], p, q)


def initial_got(p, q, start):
    """a parameter as initial value"""
    t0 = number('t0')
    m = model(t0, spec_par('k'), number('z0'))
    return m.eval_components(t=times(), p=p, q=q, k=start)


def initial_want(p, q, start):
    return expected(times(), number('t0'), [start, number('z0')], p, q)


def after_got(p, q, b, start):
    """initial parameters which sort before, between and after the others"""
    m = model(number('t0'), spec_par('w9'), spec_par('b'))
    return m.eval_components(t=times(), p=p, q=q, w9=start, b=b)


def after_want(p, q, b, start):
    return expected(times(), number('t0'), [start, b], p, q)


def shared_got(p, q):
    """a parameter which is an initial value and part of the equations"""
    return model(number('t0'), number('y0'), spec_par('p')).eval_components(times(), p, q)


def shared_want(p, q):
    return expected(times(), number('t0'), [number('y0'), p], p, q)


def order_got(p, q, b, c):
    m = model(number('t0'), spec_par('c'), spec_par('b'))
    return m.eval_components(times(), b, c, p, q)


def order_want(p, q, b, c):
    return expected(times(), number('t0'), [c, b], p, q)


def params_got():
    m = model(number('t0'), spec_par('c'), spec_par('p'))
    return (list(m.params), list(m.dependent_vars), list(m.independent_vars),
            [s for s in m.model_params], list(m.interdependent_vars), list(m),
            [v.name for v in m.sigmas.values()], list(m.__signature__.parameters))


def params_want():
    y, z = spec_var('y'), spec_var('z')
    return ([spec_par('c'), spec_par('p'), spec_par('q')], [y, z], [spec_var('t')],
            [spec_par('p'), spec_par('q')], [], [y, z], ['sigma_y', 'sigma_z'],
            ['t', 'c', 'p', 'q'])


def item_got():
    m = model(number('t0'), number('y0'), number('z0'))
    return m[spec_var('z')], m[spec_var('y')]


def item_want():
    e1, e2 = exprs()
    return e2, e1


def deritem_got():
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    e1, e2 = exprs()
    dy, dz = Der(y, t), Der(z, t)
    m = ODEModel({dz: e2, dy: e1}, initial={z: number('z0'), t: number('t0'), y: number('y0')})
    return m[dz], m[dy]


def apart():
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    return spec_expr('e3', [y, spec_par('p')]), spec_expr('e4', [t, z])


def apart_got(p):
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    e3, e4 = apart()
    m = ODEModel({Der(z, t): e4, Der(y, t): e3},
                 initial={z: number('z0'), t: number('t0'), y: number('y0')})
    at = spec_sym('time'), [spec_sym('u'), spec_sym('v')], p
    return list(m.system(*at)), [list(r) for r in m.diff_system(*at)]


def apart_want(p):
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    e3, e4 = apart()
    at = {t: spec_sym('time'), y: spec_sym('u'), z: spec_sym('v'), spec_par('p'): p}
    return ([e3.xreplace(at), e4.xreplace(at)],
            [[e3.diff(y).xreplace(at), 0], [0, e4.diff(z).xreplace(at)]])


def options_got(p, q, first):
    m = model(number('t0'), number('y0'), number('z0'), first_step=first, atol=3)
    return m.eval_components(times(), p, q)


def options_want(p, q, first):
    return expected(times(), number('t0'), [number('y0'), number('z0')], p, q,
                    options=[('atol', 3), ('first_step', first), ('rtol', 1.49012e-8)])


def method_got(p, q, r):
    m = model(number('t0'), number('y0'), number('z0'), method='RK23', rtol=r)
    return m.eval_components(times(), p, q)


def method_want(p, q, r):
    return expected(times(), number('t0'), [number('y0'), number('z0')], p, q,
                    method='RK23', options=[('rtol', r)])


def one_got(p, q):
    """a single time"""
    s = number('s')
    return model(number('t0'), number('y0'), number('z0')).eval_components(s, p, q)


def one_want(p, q):
    s, start = number('s'), [number('y0'), number('z0')]
    if s == number('t0'):
        return np.atleast_2d(start).T
    return expected(np.array([s]), number('t0'), start, p, q)


def call_got(p, q):
    r = model(number('t0'), number('y0'), number('z0'))(times(), p, q)
    return list(r.variables), r.output, isinstance(r, ModelOutput)


def call_want(p, q):
    r = expected(times(), number('t0'), [number('y0'), number('z0')], p, q)
    return [spec_var('y'), spec_var('z')], r, True


def two_got():
    t, y, z, x = spec_var('t'), spec_var('y'), spec_var('z'), spec_var('x')
    e1, e2 = exprs()
    ODEModel({Der(z, x): e2, Der(y, t): e1}, initial={z: 0, t: 0, y: 0, x: 0})


def two_want():
    raise ModelError('two independent variables')


def kept_got(y0):
    """evaluating does not change the model"""
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    init = {z: number('z0'), t: number('t0'), y: spec_par('k')}
    opts = {'atol': 3}
    m = ODEModel({Der(z, t): exprs()[1], Der(y, t): exprs()[0]}, initial=init, **opts)
    m.eval_components(times(), 2, y0, 1)
    return (m.initial[y], m.initial[z], m.initial[t], sorted(opts.items()),
            sorted(m.integrator_kwargs.items()))


def kept_want(y0):
    expected(times(), number('t0'), [2, number('z0')], y0, 1,
             options=[('atol', 3), ('rtol', 1.49012e-8)])
    return (spec_par('k'), number('z0'), number('t0'), [('atol', 3)],
            [('atol', 3), ('method', 'LSODA'), ('rtol', 1.49012e-8)])
'''

E = 'ODEModel.eval_components'
I = 'ODEModel.__init__'
KW = dict(raises=True, intercept={'scipy.integrate.solve_ivp': 'solve'}, orders=True)
OBLIGATIONS = [
    Obl('integration', 'got', 'want',
        'from the initial condition, forwards and backwards, in the order of time', E, **KW),
    Obl('parameter as initial value', 'initial_got', 'initial_want',
        'is its value in the call', E, **KW),
    Obl('parameters as initial values', 'after_got', 'after_want',
        'are their values in the call', E, **KW),
    Obl('parameter used twice', 'shared_got', 'shared_want',
        'is the initial value and part of the equations', E, **KW),
    Obl('order of arguments', 'order_got', 'order_want',
        'time, then all parameters, alphabetically', E, **KW),
    Obl('symbols', 'params_got', 'params_want', 'are collected and sorted', I, **KW),
    Obl('equations', 'item_got', 'item_want', 'belong to their variable',
        'ODEModel.__getitem__', **KW),
    Obl('equations by derivative', 'deritem_got', 'item_want', 'belong to their derivative',
        'ODEModel.__getitem__', **KW),
    Obl('independent equations', 'apart_got', 'apart_want',
        'have a Jacobian of full size', E, **KW),
    Obl('integrator options', 'options_got', 'options_want', 'are passed on', I, **KW),
    Obl('integrator method', 'method_got', 'method_want',
        'has no LSODA tolerances', I, **KW),
    Obl('a single time', 'one_got', 'one_want',
        'is an array of one; the initial condition is known', E, **KW),
    Obl('components', 'call_got', 'call_want', 'in the order of the variables',
        'ODEModel.__call__', **KW),
    Obl('two times', 'two_got', 'two_want', 'are refused', I, **KW),
    Obl('the model', 'kept_got', 'kept_want', 'is not changed by evaluation', E, **KW),
]
