from ..check import Obl

DRIVER = '''
import numpy as np
import sympy
from symfit.core.argument import Parameter, Variable
from symfit.core.support import D
from symfit.core.models import (Model, CallableModel, GradientModel, HessianModel,
    jacobian_from_model, hessian_from_model)


def one(a, b):
    x, y = spec_var('x'), spec_var('y')
    p, q = spec_par('p'), spec_par('q')
    return {y: spec_expr('e1', [x, p, q])}


def onejac_got():
    return Model(one(0, 0)).jacobian


def onejac_want():
    e = spec_expr('e1', [spec_var('x'), spec_par('p'), spec_par('q')])
    return [[e.diff(spec_par('p')), e.diff(spec_par('q'))]]


def onehess_got():
    return Model(one(0, 0)).hessian


def onehess_want():
    p, q = spec_par('p'), spec_par('q')
    e = spec_expr('e1', [spec_var('x'), p, q])
    return [[e.diff(p, p), e.diff(p, q)], [e.diff(q, p), e.diff(q, q)]],


def onehess_want():
    p, q = spec_par('p'), spec_par('q')
    e = spec_expr('e1', [spec_var('x'), p, q])
    return [[[e.diff(p, p), e.diff(p, q)], [e.diff(q, p), e.diff(q, q)]]]


def two():
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    return {y: spec_expr('e1', [x, p, q]), z: spec_expr('e2', [q, r, x])}


def twojac_got():
    return GradientModel(two()).jacobian


def twojac_want():
    x = spec_var('x')
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    e, f = spec_expr('e1', [x, p, q]), spec_expr('e2', [q, r, x])
    return [[e.diff(p), e.diff(q), 0], [0, f.diff(q), f.diff(r)]]


def twohess_got():
    return HessianModel(two()).hessian


def twohess_want():
    x = spec_var('x')
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    e, f = spec_expr('e1', [x, p, q]), spec_expr('e2', [q, r, x])
    return [[[e.diff(p, p), e.diff(p, q), 0], [e.diff(q, p), e.diff(q, q), 0], [0, 0, 0]],
            [[0, 0, 0], [0, f.diff(q, q), f.diff(q, r)], [0, f.diff(r, q), f.diff(r, r)]]]


def nest():
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    p, q = spec_par('p'), spec_par('q')
    return {y: spec_expr('e1', [z, p, q]), z: spec_expr('e2', [x, p])}


def fnest():
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    p, q = spec_par('p'), spec_par('q')
    f = spec_expr('e2', [x, p])
    return spec_expr('e1', [z, p, q]).xreplace({z: f}), f


def point(m, X, a, b):
    return [c for c in m(x=X, p=a, q=b)]


def nestjac_got(X, a, b):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    p, q = spec_par('p'), spec_par('q')
    ans = GradientModel(nest()).jacobian_model(x=X, p=a, q=b)._asdict()
    return [[ans[D(y, p)], ans[D(y, q)]], [ans[D(z, p)]]]


def nestjac_want(X, a, b):
    p, q = spec_par('p'), spec_par('q')
    e, f = fnest()
    at = {spec_var('x'): X, p: a, q: b}
    return [[np.atleast_1d(e.diff(p).xreplace(at)), np.atleast_1d(e.diff(q).xreplace(at))],
            [np.atleast_1d(f.diff(p).xreplace(at))]]


def nesthess_got(X, a, b):
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    p, q = spec_par('p'), spec_par('q')
    ans = HessianModel(nest()).hessian_model(x=X, p=a, q=b)._asdict()
    return [[ans[D(y, p, p)], ans[D(y, p, q)], ans[D(y, q, q)]], [ans[D(z, p, p)]]]


def nesthess_want(X, a, b):
    p, q = spec_par('p'), spec_par('q')
    e, f = fnest()
    at = {spec_var('x'): X, p: a, q: b}
    return [[np.atleast_1d(k.xreplace(at)) for k in
             (e.diff(p, p), e.diff(p, q), e.diff(q, q))],
            [np.atleast_1d(f.diff(p, p).xreplace(at))]]


def fix():
    for n, f in (('p', True), ('q', False), ('r', True)):
        a = spec_par(n)
        a.fixed, a.value, a.min, a.max = f, 2.0, None, None


def fixjac_got(X, a, b):
    fix()
    return GradientModel(two()).jacobian, nestjac_got(X, a, b)


def fixjac_want(X, a, b):
    return twojac_want(), nestjac_want(X, a, b)


def fixhess_got(X, a, b):
    fix()
    return HessianModel(two()).hessian, nesthess_got(X, a, b)


def fixhess_want(X, a, b):
    return twohess_want(), nesthess_want(X, a, b)


def deep():
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    p, q = spec_par('p'), spec_par('q')
    return {y: spec_expr('e1', [z, q]), z: spec_expr('e2', [w, p]),
            w: spec_expr('e3', [x, p, q])}


def fdeep():
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    p, q = spec_par('p'), spec_par('q')
    g = spec_expr('e3', [x, p, q])
    f = spec_expr('e2', [w, p]).xreplace({w: g})
    return spec_expr('e1', [z, q]).xreplace({z: f}), f, g


def deepjac_got(X, a, b):
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    p, q = spec_par('p'), spec_par('q')
    ans = GradientModel(deep()).jacobian_model(x=X, p=a, q=b)._asdict()
    return [ans[D(v, k)] for v in (y, z, w) for k in (p, q)]


def deepjac_want(X, a, b):
    p, q = spec_par('p'), spec_par('q')
    at = {spec_var('x'): X, p: a, q: b}
    return [np.atleast_1d(v.diff(k).xreplace(at)) for v in fdeep() for k in (p, q)]


def deephess_got(X, a, b):
    x, y, z, w = spec_var('x'), spec_var('y'), spec_var('z'), spec_var('w')
    p, q = spec_par('p'), spec_par('q')
    ans = HessianModel(deep()).hessian_model(x=X, p=a, q=b)._asdict()
    return [ans[D(v, j, k)] for v in (y, z, w) for j, k in ((p, p), (p, q), (q, q))]


def deephess_want(X, a, b):
    p, q = spec_par('p'), spec_par('q')
    at = {spec_var('x'): X, p: a, q: b}
    return [np.atleast_1d(v.diff(j, k).xreplace(at)) for v in fdeep()
            for j, k in ((p, p), (p, q), (q, q))]


def vals(es, X, a, b):
    at = {spec_var('x'): X, spec_par('p'): a, spec_par('q'): b}
    return [np.atleast_1d(e.xreplace(at)) for e in es]


def evaljac_got(X, a, b):
    return [c for c in GradientModel(nest()).eval_jacobian(X, a, b)]


def evaljac_want(X, a, b):
    p, q = spec_par('p'), spec_par('q')
    e, f = fnest()
    E, Ep, Eq = vals((e, e.diff(p), e.diff(q)), X, a, b)
    F, Fp = vals((f, f.diff(p)), X, a, b)
    return [np.stack(np.broadcast_arrays(np.broadcast_to(Ep, E.shape), np.broadcast_to(Eq, E.shape))),
            np.stack(np.broadcast_arrays(np.broadcast_to(Fp, F.shape), np.broadcast_to(0, F.shape)))]


def evalhess_got(X, a, b):
    return [c for c in HessianModel(nest()).eval_hessian(X, a, b)]


def evalhess_want(X, a, b):
    p, q = spec_par('p'), spec_par('q')
    e, f = fnest()
    E, App, Apq, Aqq = vals((e, e.diff(p, p), e.diff(p, q), e.diff(q, q)), X, a, b)
    F, Bpp = vals((f, f.diff(p, p)), X, a, b)
    def row(s, *es):
        return [np.broadcast_to(v, s) for v in es]
    s, t = E.shape, F.shape
    return [np.stack(np.broadcast_arrays(row(s, App, Apq), row(s, Apq, Aqq))),
            np.stack(np.broadcast_arrays(row(t, Bpp, 0), row(t, 0, 0)))]


def inter_got(X, a, b):
    """derivatives of an interdependent variable"""
    x, y, z = spec_var('x'), spec_var('y'), spec_var('z')
    p, q = spec_par('p'), spec_par('q')
    m = HessianModel({z: spec_expr('e1', [y, p]), y: spec_expr('e2', [x, p, q])})
    return m.eval_jacobian(X, a, b)[0], m.eval_hessian(X, a, b)[0]


def inter_want(X, a, b):
    p, q = spec_par('p'), spec_par('q')
    e = spec_expr('e2', [spec_var('x'), p, q])
    E, P, Q, pp, pq, qq = vals((e, e.diff(p), e.diff(q), e.diff(p, p), e.diff(p, q),
                                e.diff(q, q)), X, a, b)
    def row(*es):
        return [np.broadcast_to(v, E.shape) for v in es]
    return (np.stack(np.broadcast_arrays(*row(P, Q))),
            np.stack(np.broadcast_arrays(row(pp, pq), row(pq, qq))))


def named_got(X, a, b):
    y, z = spec_var('y'), spec_var('z')
    m = HessianModel(nest())
    j, h = m.eval_jacobian(X, a, b), m.eval_hessian(X, a, b)
    return [[k for k in r.variables] for r in (j, h)], j.y, j.z, h.y, h.z


def named_want(X, a, b):
    m = HessianModel(nest())
    j, h = m.eval_jacobian(X, a, b), m.eval_hessian(X, a, b)
    ks = [v for v in m]
    return [ks, ks], j[0], j[1], h[0], h[1]


def conhess_got(X, a, b, c):
    x, y = spec_var('x'), spec_var('y')
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    base = Model({y: spec_expr('e2', [x, q, p, r])})
    m = Model.as_constraint(sympy.Ge(spec_expr('e3', [q]), 0), base)
    return [k for k in m.eval_hessian(p=a, q=b, r=c)]


def conhess_want(X, a, b, c):
    q = spec_par('q')
    e = spec_expr('e3', [q])
    E, G = np.atleast_1d(e(q=b)), np.atleast_1d(e.diff(q, q).xreplace({q: b}))
    z = np.broadcast_to(0, E.shape)
    return [np.stack(np.broadcast_arrays([z, z, z], [z, np.broadcast_to(G, E.shape), z], [z, z, z]))]


def six():
    x, y = spec_var('x'), spec_var('y')
    return {y: spec_expr('e6', [x] + six_pars())}


def six_pars():
    return [spec_par(n) for n in ('o', 'p', 'q', 'r', 's', 'u')]


def sixhess_got(X, a, b, c, d, k, l):
    m = HessianModel(six())
    return m.eval_jacobian(X, a, b, c, d, k, l)[0], m.eval_hessian(X, a, b, c, d, k, l)[0]


def sixhess_want(X, a, b, c, d, k, l):
    ps = six_pars()
    e = spec_expr('e6', [spec_var('x')] + ps)
    def at(f):
        return np.atleast_1d(f.xreplace({spec_var('x'): X, ps[0]: a, ps[1]: b, ps[2]: c,
                                         ps[3]: d, ps[4]: k, ps[5]: l}))
    s = at(e).shape
    return (np.stack(np.broadcast_arrays(*[np.broadcast_to(at(e.diff(p)), s) for p in ps])),
            np.stack(np.broadcast_arrays(*[[np.broadcast_to(at(e.diff(p, q)), s) for q in ps]
                                           for p in ps])))


def jacpar_got():
    m = GradientModel(two())
    j = m.jacobian_model
    h = HessianModel(two()).hessian_model
    return j.params, h.params, m.jacobian_model is j


def jacpar_want():
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    return [p, q, r], [p, q, r], True


def con_got(X, a, b, c):
    x, y = spec_var('x'), spec_var('y')
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    base = Model({y: spec_expr('e2', [x, q, p, r])})
    m = Model.as_constraint(sympy.Ge(spec_expr('e3', [q]), 0), base)
    return [k for k in m.eval_jacobian(p=a, q=b, r=c)]


def con_want(X, a, b, c):
    q = spec_par('q')
    e = spec_expr('e3', [q])
    E, G = np.atleast_1d(e(q=b)), np.atleast_1d(e.diff(q).xreplace({q: b}))
    z = np.broadcast_to(0, E.shape)
    return [np.stack(np.broadcast_arrays(z, np.broadcast_to(G, E.shape), z))]
'''
J = 'jacobian_from_model'
KW = dict(raises=True, orders=True)
OBLIGATIONS = [
    Obl('jacobian by fixed parameters', 'fixjac_got', 'fixjac_want',
        'is there like any other', 'GradientModel.jacobian', **KW),
    Obl('hessian by fixed parameters', 'fixhess_got', 'fixhess_want',
        'is there like any other', 'HessianModel.hessian', **KW),
    Obl('symbolic jacobian', 'onejac_got', 'onejac_want',
        'is the partial derivatives', 'GradientModel.jacobian', **KW),
    Obl('symbolic hessian', 'onehess_got', 'onehess_want',
        'is the second partial derivatives', 'HessianModel.hessian', **KW),
    Obl('jacobian of a vector model', 'twojac_got', 'twojac_want',
        'is the partial derivatives', 'GradientModel.jacobian', **KW),
    Obl('hessian of a vector model', 'twohess_got', 'twohess_want',
        'is the second partial derivatives', 'HessianModel.hessian', **KW),
    Obl('chain rule over one level', 'nestjac_got', 'nestjac_want',
        'evaluates to the total derivatives', J, **KW),
    Obl('chain rule over one level, second order', 'nesthess_got', 'nesthess_want',
        'evaluates to the total derivatives', 'hessian_from_model', **KW),
    Obl('chain rule over two levels', 'deepjac_got', 'deepjac_want',
        'evaluates to the total derivatives', J, **KW),
    Obl('chain rule over two levels, second order', 'deephess_got', 'deephess_want',
        'evaluates to the total derivatives', 'hessian_from_model', **KW),
    Obl('eval_jacobian', 'evaljac_got', 'evaljac_want',
        'has one row per parameter, of the shape of the component',
        'GradientModel.eval_jacobian', **KW),
    Obl('eval_hessian', 'evalhess_got', 'evalhess_want',
        'has one matrix per component', 'HessianModel.eval_hessian', **KW),
    Obl('interdependent variables', 'inter_got', 'inter_want',
        'have their own derivatives',
        ['GradientModel.eval_jacobian', 'HessianModel.eval_hessian'], **KW),
    Obl('parameters of the derivatives', 'jacpar_got', 'jacpar_want',
        'are those of the model', 'GradientModel.jacobian_model', **KW),
    Obl('jacobian of a constraint', 'con_got', 'con_want',
        'has a zero row for absent parameters', 'GradientModel.eval_jacobian', **KW),
    Obl('hessian of a constraint', 'conhess_got', 'conhess_want',
        'is zero for absent parameters', 'HessianModel.eval_hessian', **KW),
    Obl('derivatives by six parameters', 'sixhess_got', 'sixhess_want',
        'has one row per parameter, and one matrix', 'HessianModel.eval_hessian', **KW),
    Obl('names of the derivatives', 'named_got', 'named_want',
        'are those of the components', 'HessianModel.eval_hessian', **KW),
]
