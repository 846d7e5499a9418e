from ..check import Obl

DRIVER = '''
import inspect
import numpy as np
import sympy
from symfit.core.argument import Parameter, Variable
from symfit.core.fit import Fit, TakesData
from symfit.core.models import Model, CallableModel, CallableNumericalModel
from symfit.core.objectives import LeastSquares, MinimizeModel, LogLikelihood


def model(cls=Model):
    x, B = spec_var('x'), spec_var('B')
    p, q = spec_par('p'), spec_par('q')
    return cls({spec_var('z'): spec_expr('e1', [x, p]),
                spec_var('A'): spec_expr('e2', [B, q, x])})


def keys(d):
    return [k if isinstance(k, str) else k.name for k in d]


def show(t):
    """data of every variable of the model by name, in a fixed order"""
    return [(v.name, t.data[v]) for v in t.model.vars]


def groups(t):
    return ([(k.name, d) for k, d in t.independent_data.items()],
            [(k.name, d) for k, d in t.dependent_data.items()],
            [(k.name, d) for k, d in t.sigma_data.items()])


def arr(x):
    """array data"""
    return np.asarray(x)


def pos_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq", f: "Seq"):
    t = TakesData(model(), arr(a), arr(b), arr(c), arr(d), arr(e), arr(f))
    return show(t), groups(t)


def want(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq", f: "Seq"):
    i = [('B', arr(a)), ('x', arr(b))]
    y = [('A', arr(c)), ('z', arr(d))]
    s = [('sigma_A', arr(e)), ('sigma_z', arr(f))]
    return i + y + s, (i, y, s)


def name_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq", f: "Seq"):
    t = TakesData(model(), sigma_z=arr(f), z=arr(d), x=arr(b), A=arr(c), B=arr(a), sigma_A=arr(e))
    return show(t), groups(t)


def mix_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq", f: "Seq"):
    t = TakesData(model(), arr(a), arr(b), sigma_A=arr(e), A=arr(c), sigma_z=arr(f), z=arr(d))
    return show(t), groups(t)


def fpos_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq", f: "Seq"):
    t = Fit(model(), arr(a), arr(b), arr(c), arr(d), arr(e), arr(f), minimizer=mini)
    return show(t), groups(t)


def fname_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq", f: "Seq"):
    t = Fit(model(), sigma_z=arr(f), z=arr(d), x=arr(b), A=arr(c), B=arr(a), sigma_A=arr(e),
            minimizer=mini)
    return show(t), groups(t)


def mini(objective, params, **kw):
    return None


def stop(self, minimizer, **kw):
    return None

def lists_got(a, b, c: "Seq"):
    t = TakesData(Model({spec_var('y'): spec_expr('e', [spec_var('x'), spec_par('p')])}),
                  x=[a, b], y=(b, a), sigma_y=arr(c))
    return show(t)


def lists_want(a, b, c: "Seq"):
    return [('x', np.array([a, b])), ('y', np.array([b, a])), ('sigma_y', arr(c))]


class Table(object):
    """data which does its own arithmetic, for example a masked array"""
    def __init__(self, values):
        self.values = values

    def __pow__(self, n):
        return Table(self.values ** n)


def duck_got(a: "Seq", c: "Seq"):
    b = Table(arr(a))
    t = TakesData(Model({spec_var('y'): spec_expr('e', [spec_var('x'), spec_par('p')])}),
                  x=b, y=b, sigma_y=arr(c))
    return show(t)


def duck_want(a: "Seq", c: "Seq"):
    return [('x', Table(arr(a))), ('y', Table(arr(a))), ('sigma_y', arr(c))]


def none_got(a: "Seq", b: "Seq"):
    t = TakesData(model(), None, arr(a), arr(b), None)
    return [(n, d) for n, d in show(t) if not n.startswith('sigma_')]


def none_want(a: "Seq", b: "Seq"):
    return [('B', None), ('x', arr(a)), ('A', arr(b)), ('z', None)]


def missing_got(a: "Seq", b: "Seq", c: "Seq"):
    return show(TakesData(model(), arr(a), arr(b), arr(c)))


def refused(a: "Seq", b: "Seq", c: "Seq"):
    raise TypeError('data')


def fmissing_got(a: "Seq", b: "Seq", c: "Seq"):
    return show(Fit(model(), A=arr(a), B=arr(b), z=arr(c)))


def surplus_got(a: "Seq", b: "Seq", c: "Seq"):
    return show(TakesData(model(), *[arr(a) for k in range(7)]))


def fsurplus_got(a: "Seq", b: "Seq", c: "Seq"):
    return show(Fit(model(), *[arr(a) for k in range(7)]))


def unknown_got(a: "Seq", b: "Seq", c: "Seq"):
    return show(TakesData(model(), arr(a), arr(b), arr(c), arr(a), w=arr(b)))


def funknown_got(a: "Seq", b: "Seq", c: "Seq"):
    return show(Fit(model(), arr(a), arr(b), arr(c), arr(a), w=arr(b)))


def twice_got(a: "Seq", b: "Seq", c: "Seq"):
    return show(Fit(model(), arr(a), arr(b), arr(c), arr(a), x=arr(b)))


def model_got(a: "Seq", b: "Seq", m: Model):
    x, y, p = spec_var('x'), spec_var('y'), spec_par('p')
    e = spec_expr('e', [x, p])
    f = Fit({y: e}, x=arr(a), y=arr(b))
    g = CallableModel({y: e})
    return type(f.model), dict(f.model), Fit(g, x=arr(a), y=arr(b)).model is g


def model_want(a: "Seq", b: "Seq", m: Model):
    return Model, {spec_var('y'): spec_expr('e', [spec_var('x'), spec_par('p')])}, True


def shared_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq"):
    f = Fit(model(), arr(a), arr(b), arr(c), arr(d))
    g = Fit(model(), arr(a), arr(b), arr(c), arr(d), objective=LeastSquares)
    o = f.objective
    return (type(o), o.model is f.model, o.data is f.data, g.objective.data is g.data,
            [(k.name, v) for k, v in o.dependent_data.items()],
            [(k.name, v) for k, v in o.independent_data.items()])


def shared_want(a: "Seq", b: "Seq", c: "Seq", d: "Seq"):
    return (LeastSquares, True, True, True, [('A', arr(c)), ('z', arr(d))],
            [('B', arr(a)), ('x', arr(b))])


def like_got(a: "Seq", b: "Seq"):
    f = Fit(model(), arr(b), arr(a), objective=LogLikelihood)
    return show(f), type(f.objective)


def like_want(a: "Seq", b: "Seq"):
    return ([('B', arr(b)), ('x', arr(a)), ('A', None), ('z', None), ('sigma_A', None),
             ('sigma_z', None)], LogLikelihood)


def min_got(a: "Seq", b: "Seq"):
    f = Fit(Model({spec_var('y'): spec_expr('e', [spec_par('p'), spec_par('q')])}))
    return show(f), type(f.objective), f.absolute_sigma


def min_want(a: "Seq", b: "Seq"):
    return [('y', None), ('sigma_y', None)], MinimizeModel, False


def likedata_got(a: "Seq", b: "Seq", c: "Seq"):
    return Fit(model(), A=arr(a), B=arr(b), x=arr(c), objective=LogLikelihood)


class Con(object):
    """a constraint model with its own independent variable"""
    constraint_type = sympy.Eq

    def __init__(self, w):
        self.independent_vars = [spec_var('x'), w]
        self.dependent_vars = [spec_var('c')]
        self.sigmas = {spec_var('c'): spec_var('sigma_c')}
        self.vars = [spec_var('x'), w, spec_var('c'), spec_var('sigma_c')]


def con_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq"):
    f = Fit(model(), x=arr(b), B=arr(a), w=arr(e), A=arr(c), z=arr(d),
            constraints=[Con(spec_var('w'))])
    return ([(v.name, f.data[v]) for v in f.constraints[0].vars], show(f)[:4],
            [k for k in f.data if isinstance(k, str)])


def con_want(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq"):
    return ([('x', arr(b)), ('w', arr(e)), ('c', None), ('sigma_c', None)],
            [('B', arr(a)), ('x', arr(b)), ('A', arr(c)), ('z', arr(d))], [])


def conmissing_got(a: "Seq", b: "Seq", c: "Seq"):
    return Fit(model(), x=arr(b), B=arr(a), A=arr(c), z=arr(a),
               constraints=[Con(spec_var('w'))]).data[spec_var('w')]


def twocons_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq"):
    f = Fit(model(), x=arr(b), B=arr(a), w=arr(e), A=arr(c), z=arr(d), v=arr(a),
            constraints=[Con(spec_var('w')), Con(spec_var('v'))])
    return [[(v.name, f.data[v]) for v in k.vars] for k in f.constraints], show(f)[:4]


def twocons_want(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq"):
    return ([[('x', arr(b)), ('w', arr(e)), ('c', None), ('sigma_c', None)],
             [('x', arr(b)), ('v', arr(a)), ('c', None), ('sigma_c', None)]],
            [('B', arr(a)), ('x', arr(b)), ('A', arr(c)), ('z', arr(d))])


def bound_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq"):
    f = Fit(model(), arr(a), arr(b), arr(c), arr(d), constraints=[
        sympy.Eq(spec_par('p'), spec_par('q'))])
    return [type(k) for k in f.constraints], [list(k.params) == list(f.model.params) for k in f.constraints]


def guess_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq"):
    f = TakesData(model(), arr(a), arr(b), arr(c), arr(d))
    return f.initial_guesses


def guess_want(a: "Seq", b: "Seq", c: "Seq", d: "Seq"):
    return np.array([spec_par('p').value, spec_par('q').value])


def shape_got(a: "Seq", b: "Seq", c: "Seq"):
    t = TakesData(Model({spec_var('y'): spec_expr('e', [spec_var('x'), spec_par('p')])}),
                  x=arr(a), y=arr(b))
    u = TakesData(Model({spec_var('y'): spec_expr('e', [spec_var('x'), spec_par('p')])}),
                  x=None, y=arr(b))
    return t.data_shapes, u.data_shapes


def shape_want(a: "Seq", b: "Seq", c: "Seq"):
    return ([arr(a).shape], [arr(b).shape]), ([], [arr(b).shape])
'''
KW = dict(raises=True, orders=True, intercept={'Fit._init_minimizer': 'stop'})
T = 'TakesData.__init__'
OBLIGATIONS = [
    Obl('positional data', 'pos_got', 'want',
        'independent, dependent, sigma; alphabetical in each group', T, **KW),
    Obl('named data', 'name_got', 'want', 'bound by name', T, **KW),
    Obl('mixed data', 'mix_got', 'want', 'bound by position and name', T, **KW),
    Obl('positional data of Fit', 'fpos_got', 'want',
        'independent, dependent, sigma; alphabetical in each group', T, **KW),
    Obl('named data of Fit', 'fname_got', 'want', 'bound by name', T, **KW),
    Obl('data in lists', 'lists_got', 'lists_want', 'becomes arrays', T, **KW),
    Obl('data with its own arithmetic', 'duck_got', 'duck_want', 'is kept', T, **KW),
    Obl('data which is None', 'none_got', 'none_want', 'stays None', T, **KW),
    Obl('missing data', 'missing_got', 'refused', 'is refused', T, **KW),
    Obl('missing data of Fit', 'fmissing_got', 'refused', 'is refused', T, **KW),
    Obl('surplus data', 'surplus_got', 'refused', 'is refused', T, **KW),
    Obl('surplus data of Fit', 'fsurplus_got', 'refused', 'is refused', T, **KW),
    Obl('unknown data', 'unknown_got', 'refused', 'is refused', T, **KW),
    Obl('unknown data of Fit', 'funknown_got', 'refused', 'is refused', T, **KW),
    Obl('data given twice', 'twice_got', 'refused', 'is refused', T, **KW),
    Obl('model of Fit', 'model_got', 'model_want', 'dicts become models', 'Fit.__init__', **KW),
    Obl('data of the objective', 'shared_got', 'shared_want',
        'is that of the fit', 'Fit.__init__', **KW),
    Obl('likelihood data', 'like_got', 'like_want',
        'dependent variables are None', 'Fit._determine_objective', **KW),
    Obl('no data at all', 'min_got', 'min_want', 'is a minimization',
        'Fit._determine_objective', **KW),
    Obl('dependent data of a likelihood', 'likedata_got', 'refused', 'is refused',
        'Fit._determine_objective', **KW),
    Obl('data of constraints', 'con_got', 'con_want',
        'is known by the variables of the constraint', 'Fit.__init__', **KW),
    Obl('missing data of constraints', 'conmissing_got', 'refused', 'is refused', 'Fit.__init__', **KW),
    Obl('data of two constraints', 'twocons_got', 'twocons_want',
        'is known by the variables of the constraints', 'Fit.__init__', **KW),
    Obl('initial guesses', 'guess_got', 'guess_want',
        'are the values of the parameters', 'TakesData.initial_guesses', **KW),
    Obl('data shapes', 'shape_got', 'shape_want',
        'per group, ignoring None', 'TakesData.data_shapes', **KW),
]
