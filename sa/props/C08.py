from ..check import Obl

DRIVER = '''
import numpy as np
import sympy
from symfit.core.argument import Parameter, Variable
from symfit.core.fit import Fit, TakesData
from symfit.core.models import Model, CallableModel, CallableNumericalModel
from symfit.core.objectives import LeastSquares, MinimizeModel, LogLikelihood


def one(cls=Model):
    return cls({spec_var('y'): spec_expr('e', [spec_var('x'), spec_par('p')])})


def two(cls=Model):
    x, p, q = spec_var('x'), spec_par('p'), spec_par('q')
    return cls({spec_var('z'): spec_expr('e1', [x, p]),
                spec_var('A'): spec_expr('e2', [q, x])})


def arr(x):
    return np.asarray(x)


def stop(self, minimizer, **kw):
    return None


def sig(t):
    return [(k.name, t.data[k]) for k in t.model.sigmas.values()]


def all_(t):
    return ([(s.name, d) for s, d in t.sigma_data.items()], t.sigmas_provided,
            t.absolute_sigma)


def both(kw, m=two, **more):
    return all_(TakesData(m(), **kw, **more)), all_(Fit(m(), **kw, **more))


def none_got(a: "Seq", b: "Seq", c: "Seq", s):
    return both(dict(x=arr(a), z=arr(b), A=arr(c)))


def none_want(a: "Seq", b: "Seq", c: "Seq", s):
    r = [('sigma_A', np.ones(arr(c).shape)), ('sigma_z', np.ones(arr(b).shape))], False, False
    return r, r


def given_got(a: "Seq", b: "Seq", c: "Seq", s: "Seq", u: "Seq"):
    return both(dict(x=arr(a), z=arr(b), A=arr(c), sigma_z=arr(s), sigma_A=arr(u)))


def given_want(a: "Seq", b: "Seq", c: "Seq", s: "Seq", u: "Seq"):
    r = [('sigma_A', arr(u)), ('sigma_z', arr(s))], True, True
    return r, r


def part_got(a: "Seq", b: "Seq", c: "Seq", s: "Seq"):
    return (both(dict(x=arr(a), z=arr(b), A=arr(c), sigma_z=arr(s))),
            both(dict(x=arr(a), z=arr(b), A=arr(c), sigma_A=arr(s))))


def part_want(a: "Seq", b: "Seq", c: "Seq", s: "Seq"):
    r = [('sigma_A', np.ones(arr(c).shape)), ('sigma_z', arr(s))], True, True
    q = [('sigma_A', arr(s)), ('sigma_z', np.ones(arr(b).shape))], True, True
    return (r, r), (q, q)


def scalar_got(a: "Seq", b: "Seq", c: "Seq"):
    return (both(dict(x=arr(a), z=arr(b), A=arr(c), sigma_z=0.5, sigma_A=3)),
            both(dict(x=arr(a), z=arr(b), A=arr(c), sigma_A=2)))


def scalar_want(a: "Seq", b: "Seq", c: "Seq"):
    r = [('sigma_A', 3 * np.ones(arr(c).shape)), ('sigma_z', 0.5 * np.ones(arr(b).shape))], True, True
    q = [('sigma_A', 2 * np.ones(arr(c).shape)), ('sigma_z', np.ones(arr(b).shape))], True, True
    return (r, r), (q, q)


def nodata_got(a: "Seq", b: "Seq", s: "Seq"):
    return (both(dict(x=arr(a), z=arr(b), A=None)),
            both(dict(x=arr(a), z=arr(b), A=None, sigma_z=arr(s))),
            both(dict(x=arr(a), z=arr(b), A=None, sigma_z=2)))


def nodata_want(a: "Seq", b: "Seq", s: "Seq"):
    r = [('sigma_A', None), ('sigma_z', np.ones(arr(b).shape))], False, False
    q = [('sigma_A', None), ('sigma_z', arr(s))], True, True
    v = [('sigma_A', None), ('sigma_z', 2 * np.ones(arr(b).shape))], True, True
    return (r, r), (q, q), (v, v)


def lists_got(a: "Seq", b: "Seq", s, u):
    return both(dict(x=arr(a), y=arr(b), sigma_y=[s, u]), one)


def lists_want(a: "Seq", b: "Seq", s, u):
    r = [('sigma_y', np.array([s, u]))], True, True
    return r, r


def explicit_got(a: "Seq", b: "Seq", s: "Seq"):
    d = dict(x=arr(a), y=arr(b))
    e = dict(x=arr(a), y=arr(b), sigma_y=arr(s))
    g = dict(x=arr(a), y=arr(b), sigma_y=4)
    return [[k[2] for k in both(f, one, absolute_sigma=v)] for f in (d, e, g)
            for v in (True, False, None)]


def explicit_want(a: "Seq", b: "Seq", s: "Seq"):
    return [[True, True], [False, False], [False, False],
            [True, True], [False, False], [True, True],
            [True, True], [False, False], [True, True]]


def single_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq", s):
    t = TakesData(two(), x=arr(a), z=arr(b), A=arr(c), sigma_z=s, sigma_A=arr(d))
    return t.absolute_sigma, t.sigmas_provided, t.data[spec_var('z')], t.data[t.model.sigmas[spec_var('A')]]


def single_want(a: "Seq", b: "Seq", c: "Seq", d: "Seq", s):
    return True, True, arr(b), arr(d)


def like_got(a: "Seq"):
    f = Fit(two(), x=arr(a), objective=LogLikelihood)
    return sig(f), f.sigmas_provided, f.absolute_sigma


def like_want(a: "Seq"):
    return [('sigma_A', None), ('sigma_z', None)], False, False


def names_got():
    return [(k.name, v.name, isinstance(v, Variable)) for k, v in two().sigmas.items()]


def names_want():
    return [('A', 'sigma_A', True), ('z', 'sigma_z', True)]


def seen_got(a: "Seq", b: "Seq", c: "Seq", s: "Seq"):
    f = Fit(two(), x=arr(a), z=arr(b), A=arr(c), sigma_z=arr(s))
    return [(k.name, v) for k, v in f.objective.sigma_data.items()]


def seen_want(a: "Seq", b: "Seq", c: "Seq", s: "Seq"):
    return [('sigma_A', np.ones(arr(c).shape)), ('sigma_z', arr(s))]
'''
KW = dict(raises=True, orders=True, intercept={'Fit._init_minimizer': 'stop'})
T = 'TakesData.__init__'
OBLIGATIONS = [
    Obl('no sigmas', 'none_got', 'none_want',
        'are ones of the shape of the data of their variable, not absolute', T, **KW),
    Obl('given sigmas', 'given_got', 'given_want', 'are kept, and absolute', T, **KW),
    Obl('one sigma', 'part_got', 'part_want',
        'is kept, the others are ones, all absolute', T, **KW),
    Obl('constant sigmas', 'scalar_got', 'scalar_want',
        'become arrays of the shape of the data', T, **KW),
    Obl('variables without data', 'nodata_got', 'nodata_want',
        'have no sigma', T, **KW),
    Obl('sigmas in lists', 'lists_got', 'lists_want', 'become arrays', T, **KW),
    Obl('explicit absolute_sigma', 'explicit_got', 'explicit_want',
        'overrides the default', T, **KW),
    Obl('sigma of any kind', 'single_got', 'single_want',
        'leaves the other data alone', T, weak=('is',), **KW),
    Obl('likelihood', 'like_got', 'like_want', 'has no sigmas', T, **KW),
    Obl('names of sigmas', 'names_got', 'names_want', 'are sigma_<variable>',
        'BaseModel._init_from_dict', **KW),
    Obl('sigmas of the objective', 'seen_got', 'seen_want', 'are those of the fit',
        'Fit.__init__', **KW),
]
