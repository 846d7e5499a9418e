from ..check import Obl

DRIVER = r'''
import numpy as np
import matplotlib.pyplot as plt
from symfit.contrib.interactive_guess import InteractiveGuess
from symfit.core.models import ModelOutput
from symfit.contrib.interactive_guess.interactive_guess import Strategy2D, StrategynD


class Guess(InteractiveGuess):
    independent_data = None
    dependent_data = None


class FakeModel(object):
    def __init__(self, independent, dependent, params):
        self.independent_vars = independent
        self.dependent_vars = dependent
        self.params = params
        self.free_params = [p for p in params if not p.fixed]
        self.interdependent_vars = []

    def keys(self):
        return self.dependent_vars

    def __iter__(self):
        return iter(self.dependent_vars)

    def __len__(self):
        return len(self.dependent_vars)

    def __call__(self, **kwargs):
        args = sorted(kwargs.items())
        return ModelOutput(self.dependent_vars,
                           [spec_sym(v.name + '_of')(args) for v in self.dependent_vars])


class Flat(FakeModel):
    """has a component that does not depend on the variables"""
    def __call__(self, **kwargs):
        args = sorted(kwargs.items())
        y, z = self.dependent_vars
        return ModelOutput([y, z], [spec_sym('y_of')(args), Constant(kwargs['c'])])


class Constant(object):
    """a single value"""
    def __init__(self, value):
        self.value = value


def spread(array, shape, subok=False):
    """what depends on the grid has the shape of the grid already"""
    if isinstance(array, Constant):
        return spec_sym('everywhere')(array.value)
    return array


def shown(name, args):
    return spread(spec_sym(name + '_of')(args), None)


def spread_all(*arrays):
    return [spread(a, None) for a in arrays]


class Moved(object):
    """a slider"""
    def __init__(self, val):
        self.val = val


class Drawing(object):
    """stands for the strategy"""
    def __init__(self, params):
        self.params = params

    def update_plot(self, x, y):
        spec_note('update', x, y, [p.value for p in self.params])


def guess(**kw):
    g = object.__new__(Guess)
    a, b, c = spec_par('a'), spec_par('b'), spec_par('c')
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    g.model = FakeModel([x], [y, z], [c, a, b])
    g._projections = [(x, y), (x, z)]
    return g


def update_got(u, v, w):
    a, b, c = spec_par('a'), spec_par('b'), spec_par('c')
    g = guess()
    g._sliders = {a: Moved(u), b: Moved(v), c: Moved(w)}
    g._dimension_strategy = Drawing([a, b, c])
    g._update_plot(3)
    return a.value, b.value, c.value


def update_want(u, v, w):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    spec_note('update', x, y, [u, v, w])
    spec_note('update', x, z, [u, v, w])
    return u, v, w


def evaluate_got(grid, grid2):
    a, b, c = spec_par('a'), spec_par('b'), spec_par('c')
    x, t = spec_var('x'), spec_var('t')
    g = guess()
    g._x_grid = {t: grid2, x: grid}
    r = g._eval_model()
    return r.y, list(g._x_grid.items())


def evaluate_want(grid, grid2):
    a, b, c = spec_par('a'), spec_par('b'), spec_par('c')
    x, t = spec_var('x'), spec_var('t')
    args = [('a', a.value), ('b', b.value), ('c', c.value), ('t', grid2), ('x', grid)]
    return shown('y', args), [(t, grid2), (x, grid)]


class Line(object):
    def __init__(self, name):
        self.name = name

    def set_data(self, xs, ys):
        spec_note('line', self.name, xs, ys)


def plot2d_got(points, points2, grid):
    x, y, z, t = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('t')
    g = guess()
    g._x_grid = {x: grid}
    g._x_points = {t: points2, x: points}
    g._plots = {(x, y): Line('xy'), (x, z): Line('xz')}
    s = Strategy2D(g)
    s.update_plot(x, z)
    s.update_plot(x, y)


def arguments(grid):
    a, b, c = spec_par('a'), spec_par('b'), spec_par('c')
    return [('a', a.value), ('b', b.value), ('c', c.value), ('x', grid)]


def plot2d_want(points, points2, grid):
    spec_note('line', 'xz', points, shown('z', arguments(grid)))
    spec_note('line', 'xy', points, shown('y', arguments(grid)))


def flat_got(points, grid):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    g = guess()
    g.model = Flat([x], [y, z], g.model.params)
    g._x_grid = {x: grid}
    g._x_points = {x: points}
    g._plots = {(x, y): Line('xy'), (x, z): Line('xz')}
    s = Strategy2D(g)
    s.update_plot(x, z)
    s.update_plot(x, y)
    return s.plot_model((x, z), Axes()).name


def flat_want(points, grid):
    c = spec_par('c')
    spec_note('line', 'xz', points, spec_sym('everywhere')(c.value))
    spec_note('line', 'xy', points, shown('y', arguments(grid)))
    spec_note('plot', points, spec_sym('everywhere')(c.value))
    return 'new'


def flatn_got(points: 'Seq', grid, grid2):
    x, y, z, t = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('t')
    g = guess()
    g.model = Flat([x, t], [y, z], g.model.params)
    g.percentile = (5, 95)
    g._x_grid = {t: grid2, x: grid}
    g._x_points = {t: [], x: points}
    g._plots = {(x, z): (Line('xz'), Wrong(), [Wrong(), Segments()]),
                (t, y): (Line('ty'), Wrong(), [Wrong(), Wrong()])}
    StrategynD(g).update_plot(x, z)
    return StrategynD(g).plot_model((x, z), AxesN()).name


def flatn_want(points: 'Seq', grid, grid2):
    zs = spec_sym('everywhere')(spec_par('c').value)
    xs = np.array([grid[grid == p][0] for p in points])
    errors = np.array([np.percentile(zs[grid == p], (5, 95)) for p in points])
    spec_note('line', 'xz', xs, np.array([np.mean(zs[grid == p]) for p in points]))
    spec_note('segments', np.dstack((np.column_stack((xs, xs)), errors)))
    spec_note('model', grid, zs)
    return 'new'


class Axes(object):
    def scatter(self, xs, ys, **kw):
        spec_note('scatter', xs, ys)

    def plot(self, xs, ys, **kw):
        spec_note('plot', xs, ys)
        return [Line('new')]


def first2d_got(points, grid, u, v, w):
    x, y, z, t = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('t')
    g = guess()
    g._x_grid = {x: grid}
    g._x_points = {x: points}
    g.independent_data = {x: u}
    g.dependent_data = {y: v, z: w}
    s = Strategy2D(g)
    s.plot_data((x, z), Axes())
    return s.plot_model((x, z), Axes()).name


def first2d_want(points, grid, u, v, w):
    spec_note('scatter', u, w)
    spec_note('plot', points, shown('z', arguments(grid)))
    return 'new'


class Figure(object):
    def add_axes(self, rect, **kw):
        spec_note('slider at', rect[1])
        return Axes()


class FakeSlider(object):
    def __init__(self, ax, label, lo, hi, valinit=None, **kw):
        self.label = label
        self.range = (lo, hi, valinit)
        self.val = valinit
        self.callback = None

    def on_changed(self, f):
        self.callback = f


def sliders(fig):
    g = guess()
    g.fig = fig
    g._set_up_sliders()
    return g


def sliders_got():
    a, b, c = spec_par('a'), spec_par('b'), spec_par('c')
    a.fixed = True
    b.fixed = False
    b.min, b.max = None, spec_scalar('top')
    c.min, c.max = spec_scalar('bottom'), None
    g = sliders(Figure())
    return ([(p, g._sliders[p].label, g._sliders[p].range) for p in (a, b, c)],
            len(g._sliders))


def bounds(p):
    lo, hi = min(0, 2 * p.value), max(0, 2 * p.value)
    if p.min is not None:
        lo = p.min
    if p.max is not None:
        hi = p.max
    return lo, hi, p.value


def sliders_want():
    a, b, c = spec_par('a'), spec_par('b'), spec_par('c')
    spec_note('slider at', 0.05)
    spec_note('slider at', 0.1)
    spec_note('slider at', 0.15)
    return [(a, a, bounds(a)), (b, b, (min(0, 2 * b.value), spec_scalar('top'), b.value)),
            (c, c, (spec_scalar('bottom'), max(0, 2 * c.value), c.value))], 3


def drag_got(u, v):
    """dragging a slider of the figure"""
    a, b, c = spec_par('a'), spec_par('b'), spec_par('c')
    g = sliders(Figure())
    g._dimension_strategy = Drawing([a, b, c])
    g._sliders[b].val = u
    g._sliders[b].callback(u)
    g._sliders[a].val = v
    g._sliders[a].callback(v)
    return a.value, b.value


def drag_want(u, v):
    a, b, c = spec_par('a'), spec_par('b'), spec_par('c')
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    spec_note('slider at', 0.05)
    spec_note('slider at', 0.1)
    spec_note('slider at', 0.15)
    spec_note('update', x, y, [a.value, u, c.value])
    spec_note('update', x, z, [a.value, u, c.value])
    spec_note('update', x, y, [v, u, c.value])
    spec_note('update', x, z, [v, u, c.value])
    return v, u


def show(**kw):
    spec_note('show', sorted(kw.items()))


def execute_got(s, b):
    g = guess()
    g.execute(show=s, block=b)


def execute_want(s, b):
    if s:
        spec_note('show', [('block', b)])


def text_got():
    g = guess()
    return str(g)


def text_want():
    a, b, c = spec_par('a'), spec_par('b'), spec_par('c')
    return 'Guessed values:\nc: {}\na: {}\nb: {}\n'.format(c.value, a.value, b.value)


def takes_init(self, *args, **kwargs):
    """data taken over by the base class"""
    x, t, y, z = spec_var('x'), spec_var('t'), spec_var('y'), spec_var('z')
    self.model = FakeModel([x, t] if 'two' in args else [x], [y, z], [])
    if 'ode' in args:
        self.model.initial = {}
    self.independent_data = {t: spec_sym('ts'), x: spec_sym('xs')} if 'two' in args         else {x: spec_sym('xs')}
    self.dependent_data = {y: spec_sym('ys'), z: spec_sym('zs')}


def figure(self, x_mins, x_maxs, y_mins, y_maxs):
    spec_note('figure', [list(sorted(d.items(), key=lambda i: i[0].name)) for d in (x_mins, x_maxs, y_mins, y_maxs)])


def set_sliders(self):
    spec_note('sliders')


def update(self, _):
    spec_note('draw')


def built_got(n):
    g = Guess(n_points=n)
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    return (list(g._projections), g._x_points[x], g._y_points[y], g._y_points[z],
            isinstance(g._dimension_strategy, Strategy2D), g._dimension_strategy.ig is g,
            g.log_contour, list(g.percentile))


def span(v):
    return np.min(v), np.max(v)


def built_want(n):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    x0, x1 = span(spec_sym('xs'))
    y0, y1 = span(spec_sym('ys'))
    z0, z1 = span(spec_sym('zs'))
    a, b = x0 - 0.1 * (x1 - x0), x1 + 0.1 * (x1 - x0)
    c, d = y0 - 0.1 * (y1 - y0), y1 + 0.1 * (y1 - y0)
    e, f = z0 - 0.1 * (z1 - z0), z1 + 0.1 * (z1 - z0)
    spec_note('figure', [[(x, a)], [(x, b)], [(y, c), (z, e)], [(y, d), (z, f)]])
    spec_note('sliders')
    spec_note('draw')
    return ([(x, y), (x, z)], np.linspace(a, b, n), np.linspace(c, d, n),
            np.linspace(e, f, n), True, True, True, [5, 95])


def built2_got(n):
    g = Guess('two', n_points=n, log_contour=False, percentile=(1, 2))
    x, t, y, z = spec_var('x'), spec_var('t'), spec_var('y'), spec_var('z')
    return (list(g._projections), g._x_points[x], g._x_points[t],
            isinstance(g._dimension_strategy, StrategynD), g._dimension_strategy.ig is g,
            g.log_contour, list(g.percentile), g._x_grid[t], g._x_grid[x], len(g._x_grid))


def built2_want(n):
    x, t, y, z = spec_var('x'), spec_var('t'), spec_var('y'), spec_var('z')
    x0, x1 = span(spec_sym('xs'))
    t0, t1 = span(spec_sym('ts'))
    y0, y1 = span(spec_sym('ys'))
    z0, z1 = span(spec_sym('zs'))
    a, b = x0 - 0.1 * (x1 - x0), x1 + 0.1 * (x1 - x0)
    g, h = t0 - 0.1 * (t1 - t0), t1 + 0.1 * (t1 - t0)
    c, d = y0 - 0.1 * (y1 - y0), y1 + 0.1 * (y1 - y0)
    e, f = z0 - 0.1 * (z1 - z0), z1 + 0.1 * (z1 - z0)
    spec_note('figure', [[(t, g), (x, a)], [(t, h), (x, b)],
                         [(y, c), (z, e)], [(y, d), (z, f)]])
    spec_note('sliders')
    spec_note('draw')
    xs, ts = np.linspace(a, b, n), np.linspace(g, h, n)
    grid = np.meshgrid(ts, xs)
    return ([(x, y), (x, z), (t, y), (t, z)], xs, ts, True, True, False, [1, 2],
            grid[0].flatten(), grid[1].flatten(), 2)


def ode_got():
    g = Guess('ode')
    return g._x_points[spec_var('x')]


def ode_want():
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    x0, x1 = span(spec_sym('xs'))
    y0, y1 = span(spec_sym('ys'))
    z0, z1 = span(spec_sym('zs'))
    b = x1 + 0.1 * (x1 - x0)
    c, d = y0 - 0.1 * (y1 - y0), y1 + 0.1 * (y1 - y0)
    e, f = z0 - 0.1 * (z1 - z0), z1 + 0.1 * (z1 - z0)
    spec_note('figure', [[(x, x0)], [(x, b)], [(y, c), (z, e)], [(y, d), (z, f)]])
    spec_note('sliders')
    spec_note('draw')
    return np.linspace(x0, b, 50)


class Panel(object):
    def __init__(self, number, label):
        self.number = number
        self.label = label

    def get_label(self):
        return self.label

    def set_title(self, s):
        spec_note('title', s)

    def set_ylim(self, lo, hi):
        spec_note('ylim', lo, hi)

    def set_xlim(self, lo, hi):
        spec_note('xlim', lo, hi)

    def set_xlabel(self, s):
        spec_note('xlabel', s)

    def set_ylabel(self, s):
        spec_note('ylabel', s)


class Canvas(object):
    def subplots_adjust(self, **kw):
        pass

    def add_subplot(self, rows, columns, number, label=None, **kw):
        spec_note('panel', rows * columns >= number)
        return Panel(number, label)


class Plotter(object):
    def plot_data(self, proj, ax):
        spec_note('data', proj, ax.number)

    def plot_model(self, proj, ax):
        spec_note('model', proj, ax.number)
        return spec_sym('plot')(proj)


class Formula(object):
    def __init__(self, name):
        self.name = name


class Formulas(FakeModel):
    def __contains__(self, x):
        return False

    def __getitem__(self, x):
        return Formula('F' + x.name)


class Rates(Formulas):
    def __contains__(self, x):
        return True


def latex(e, **kw):
    return '<' + e.name + '>'


def figure_of(model, x0, x1, y0, y1, z0, z1):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    g = guess()
    g.model = model([x], [y, z], [spec_par('a')])
    g._dimension_strategy = Plotter()
    g._set_up_figure({x: x0}, {x: x1}, {z: z0, y: y0}, {z: z1, y: y1})
    return [(p, g._plots[p]) for p in [(x, y), (x, z)]], len(g._plots)


def figure_exp(titles, x0, x1, y0, y1, z0, z1):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    r = []
    for n, v, lo, hi in [(1, y, y0, y1), (2, z, z0, z1)]:
        spec_note('panel', True)
        spec_note('title', titles[n - 1])
        spec_note('ylim', lo, hi)
        spec_note('xlim', x0, x1)
        spec_note('xlabel', '$x$')
        spec_note('ylabel', '$' + v.name + '$')
        spec_note('data', (x, v), n)
        spec_note('model', (x, v), n)
        r.append(((x, v), spec_sym('plot')((x, v))))
    return r, 2


def figure_got(x0, x1, y0, y1, z0, z1):
    return figure_of(Formulas, x0, x1, y0, y1, z0, z1)


def figure_want(x0, x1, y0, y1, z0, z1):
    return figure_exp(['$<y>(<x>) = <Fy>$', '$<z>(<x>) = <Fz>$'], x0, x1, y0, y1, z0, z1)


def rates_got(x0, x1, y0, y1, z0, z1):
    return figure_of(Rates, x0, x1, y0, y1, z0, z1)


def rates_want(x0, x1, y0, y1, z0, z1):
    return figure_exp(['$\\frac{\\partial <%s>}{\\partial <x>} = <F%s>$' % (v, v)
                       for v in 'yz'], x0, x1, y0, y1, z0, z1)


class AxesN(object):
    def contourf(self, xs, ys, zs, levels, vmin=None, **kw):
        spec_note('contours', xs, ys, zs, vmin)

    def errorbar(self, xs, ys, **kw):
        spec_note('model', xs, ys)
        return Line('new')


class Density(object):
    def __init__(self, points):
        self.points = points

    def pdf(self, at):
        return spec_sym('density')(self.points, at)


def contours_got(log, px, pt, py, pz, u, v, w):
    x, y, z, t = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('t')
    g = guess()
    g.log_contour = log
    g._x_points = {t: pt, x: px}
    g._y_points = {z: pz, y: py}
    g.independent_data = {t: spec_sym('other'), x: u}
    g.dependent_data = {y: v, z: w}
    StrategynD(g).plot_data((x, z), AxesN())


def contours_want(log, px, pt, py, pz, u, v, w):
    xx, yy = np.meshgrid(px, pz)
    d = spec_sym('density')(np.column_stack((u, w)).T,
                            np.column_stack((xx.flatten(), yy.flatten())).T)
    if log:
        spec_note('contours', xx, yy, np.log(d).reshape(xx.shape), -7)
    else:
        spec_note('contours', xx, yy, d.reshape(xx.shape), None)


def firstn_got(grid, grid2):
    x, y, z, t = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('t')
    g = guess()
    g._x_grid = {t: grid2, x: grid}
    g._x_points = {t: spec_sym('wrong'), x: spec_sym('wrong')}
    s = StrategynD(g)
    return s.plot_model((x, z), AxesN()).name, s.plot_model((t, y), AxesN()).name


def firstn_want(grid, grid2):
    a, b, c = spec_par('a'), spec_par('b'), spec_par('c')
    args = [('a', a.value), ('b', b.value), ('c', c.value), ('t', grid2), ('x', grid)]
    spec_note('model', grid, shown('z', args))
    spec_note('model', grid2, shown('y', args))
    return 'new', 'new'


class Segments(object):
    def set_segments(self, s):
        spec_note('segments', s)


class Wrong(object):
    pass


def plotn_got(points: 'Seq', grid, grid2):
    x, y, z, t = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('t')
    g = guess()
    g.percentile = (5, 95)
    g._x_grid = {t: grid2, x: grid}
    g._x_points = {t: [], x: points}
    g._plots = {(x, y): (Line('xy'), Wrong(), [Wrong(), Segments()]),
                (t, y): (Line('ty'), Wrong(), [Wrong(), Wrong()])}
    StrategynD(g).update_plot(x, y)


def plotn_want(points: 'Seq', grid, grid2):
    a, b, c = spec_par('a'), spec_par('b'), spec_par('c')
    args = [('a', a.value), ('b', b.value), ('c', c.value), ('t', grid2), ('x', grid)]
    ys = shown('y', args)
    xs = np.array([grid[grid == p][0] for p in points])
    errors = np.array([np.percentile(ys[grid == p], (5, 95)) for p in points])
    spec_note('line', 'xy', xs, np.array([np.mean(ys[grid == p]) for p in points]))
    spec_note('segments', np.dstack((np.column_stack((xs, xs)), errors)))
'''

G = 'InteractiveGuess.'
I = {'matplotlib.pyplot.Slider': 'FakeSlider', 'matplotlib.pyplot.show': 'show'}
B = {'TakesData.__init__': 'takes_init', 'InteractiveGuess._set_up_figure': 'figure',
     'InteractiveGuess._set_up_sliders': 'set_sliders',
     'InteractiveGuess._update_plot': 'update'}
FIG = {'matplotlib.pyplot.figure': 'Canvas', 'sympy.latex': 'latex'}
KW = dict(raises=True, notes=True)
S = {'numpy.broadcast_arrays': 'spread_all', 'numpy.broadcast_to': 'spread'}
OBLIGATIONS = [
    Obl('moving a slider', 'update_got', 'update_want',
        'sets every parameter to its own slider and redraws everything', G + '_update_plot', **KW),
    Obl('model evaluation', 'evaluate_got', 'evaluate_want',
        'is by name, with the current values', G + '_eval_model', intercept=S, **KW),
    Obl('lines', 'plot2d_got', 'plot2d_want', 'show their own projection',
        'Strategy2D.update_plot', intercept=S, **KW),
    Obl('constant components', 'flat_got', 'flat_want', 'are shown everywhere',
        ['Strategy2D.update_plot', 'Strategy2D.plot_model'], intercept=S, **KW),
    Obl('constant components on a grid', 'flatn_got', 'flatn_want', 'are shown everywhere',
        ['StrategynD.update_plot', 'StrategynD.plot_model'], intercept=S, **KW),
    Obl('first plot', 'first2d_got', 'first2d_want', 'shows data and model of the projection',
        ['Strategy2D.plot_data', 'Strategy2D.plot_model'], intercept=S, **KW),
    Obl('sliders', 'sliders_got', 'sliders_want', 'span the bounds of their parameter',
        G + '_set_up_sliders', intercept=I, **KW),
    Obl('dragging', 'drag_got', 'drag_want', 'changes that parameter only',
        [G + '_set_up_sliders', G + '_update_plot'], intercept=I, **KW),
    Obl('showing', 'execute_got', 'execute_want', 'is optional', G + 'execute',
        intercept=I, **KW),
    Obl('text', 'text_got', 'text_want', 'lists every parameter', G + '__str__', **KW),
    Obl('set-up', 'built_got', 'built_want', 'covers the data', G + '__init__',
        intercept=B, **KW),
    Obl('set-up with two independent variables', 'built2_got', 'built2_want',
        'covers the data', G + '__init__', intercept=B, **KW),
    Obl('set-up for differential equations', 'ode_got', 'ode_want',
        'does not begin before the data', G + '__init__', intercept=B, **KW),
    Obl('figure', 'figure_got', 'figure_want', 'has one panel for each projection',
        G + '_set_up_figure', intercept=FIG, **KW),
    Obl('figure of differential equations', 'rates_got', 'rates_want',
        'has one panel for each projection', G + '_set_up_figure', intercept=FIG, **KW),
    Obl('contours', 'contours_got', 'contours_want',
        'show the density of the data of the projection', 'StrategynD.plot_data',
        intercept={'scipy.stats.gaussian_kde': 'Density'}, **KW),
    Obl('first plot on a grid', 'firstn_got', 'firstn_want',
        'shows the model on the grid of the projection', 'StrategynD.plot_model', intercept=S, **KW),
    Obl('error bars', 'plotn_got', 'plotn_want',
        'span the percentiles of the model at each point', 'StrategynD.update_plot', intercept=S, **KW),
]
