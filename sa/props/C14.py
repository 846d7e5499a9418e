from ..check import Obl
from .minim import HEAD, fakes, INTERCEPT, OPAQUE

DRIVER = HEAD + fakes() + '''
from collections import OrderedDict
from symfit.core.argument import Parameter, Variable
from symfit.core.fit import Fit, TakesData
from symfit.core.fit_results import FitResults
from symfit.core.models import (
    BaseModel, BaseNumericalModel, Model, CallableModel, CallableNumericalModel,
    GradientModel, ODEModel)
from symfit.core.support import (
    key2str, parameters, variables, seperate_symbols, sympy_to_py)


def exprs():
    x, B = spec_var('x'), spec_var('B')
    p, q = spec_par('p'), spec_par('q')
    return spec_expr('e1', [x, p]), spec_expr('e2', [B, q, x])


def definition():
    e1, e2 = exprs()
    return {spec_var('z'): e1, spec_var('A'): e2}


def same(*things):
    """the definition, as it was"""
    return list(definition().items())


# ---------------------------------------------------------------- models
def build(cls, vec):
    d = definition()
    m = cls(d)
    after = list(d.items())
    m.eval_components(spec_sym('B'), spec_sym('x'), spec_sym('p'), spec_sym('q'))
    return after, list(d.items()), list(m.model_dict) == list(d), list(m.items())


def model_got():
    return build(Model, 1)


def callable_got():
    return build(CallableModel, 1)


def gradient_got():
    d = definition()
    m = GradientModel(d)
    m.eval_jacobian(spec_sym('B'), spec_sym('x'), spec_sym('p'), spec_sym('q'))
    a = list(d.items())
    m = Model(d)
    m.eval_jacobian(spec_sym('B'), spec_sym('x'), spec_sym('p'), spec_sym('q'))
    m.eval_hessian(spec_sym('B'), spec_sym('x'), spec_sym('p'), spec_sym('q'))
    return a, list(d.items())


def gradient_want():
    return same(), same()


def build_want():
    e1, e2 = exprs()
    return same(), same(), False, [(spec_var('A'), e2), (spec_var('z'), e1)]


def ordered(cls):
    d = OrderedDict(definition())
    cls(d)
    return list(d.items())


def ordered_got():
    return ordered(Model), ordered(CallableModel)


def ordered_want():
    return same(), same()


def neg_got():
    m = Model(definition())
    n = -m
    e1, e2 = exprs()
    return list(m.items()), list(n.items())


def neg_want():
    e1, e2 = exprs()
    return ([(spec_var('A'), e2), (spec_var('z'), e1)],
            [(spec_var('A'), -e2), (spec_var('z'), -e1)])


def negnum_got(f):
    x, z, y = spec_var('x'), spec_var('z'), spec_var('y')
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    given = {z: {x, spec_par('p')}}
    m = CallableNumericalModel({z: f}, connectivity_mapping=given)
    n = -m
    n.connectivity_mapping[y] = {x}
    m.connectivity_mapping[x] = {y}
    return (given, m.connectivity_mapping, n.connectivity_mapping, list(m), list(n))


def negnum_want(f):
    x, z, y = spec_var('x'), spec_var('z'), spec_var('y')
    spec_assume(not isinstance(f, sympy.Basic))
    spec_assume(not isinstance(f, sympy.Expr))
    p = spec_par('p')
    return ({z: {x, p}}, {z: {x, p}, x: {y}}, {z: {x, p}, y: {x}}, [z], [z])


def two_got():
    """models made from one definition do not affect each other"""
    d = definition()
    m = Model(d)
    d[spec_var('z')] = spec_expr('e3', [spec_var('x')])
    n = Model(d)
    d[spec_var('w')] = spec_expr('e3', [spec_var('x')])
    return list(m.items()), list(n.items()), [p.name for p in n.params]


def two_want():
    e1, e2 = exprs()
    return ([(spec_var('A'), e2), (spec_var('z'), e1)],
            [(spec_var('A'), e2), (spec_var('z'), spec_expr('e3', [spec_var('x')]))],
            ['q'])


# ----------------------------------------------------- numerical models
def fz(x, p):
    return spec_sym('fz')(x, p)


def fA(B, q, z):
    return spec_sym('fA')(B, q, z)


def fC(z, r):
    return spec_sym('fC')(z, r)


def numeric(f=fz, g=fA):
    x, B = spec_var('x'), spec_var('B')
    p, q = spec_par('p'), spec_par('q')
    d = {spec_var('z'): f, spec_var('A'): g}
    c = {spec_var('z'): {x, p}, spec_var('A'): {B, q, spec_var('z')}}
    return d, c


def flat(c):
    """the symbols of each set by name"""
    return [(k, sorted(s.name for s in v)) for k, v in c.items()]


def num_got():
    d, c = numeric()
    n = flat(c)
    m = CallableNumericalModel(d, connectivity_mapping=c)
    m.independent_vars, m.params, m.interdependent_vars
    return list(d.items()), flat(c)


def num_want():
    d, c = numeric()
    return list(d.items()), flat(c)


def mixed_got():
    """a part of the model is an expression"""
    x, p, q = spec_var('x'), spec_par('p'), spec_par('q')
    e = spec_expr('e', [x, q])
    d = {spec_var('z'): fz, spec_var('A'): e}
    c = {spec_var('z'): {x, p}}
    m = CallableNumericalModel(d, connectivity_mapping=c)
    m.params, m.independent_vars
    return list(d.items()), flat(c)


def mixed_want():
    x, p, q = spec_var('x'), spec_par('p'), spec_par('q')
    e = spec_expr('e', [x, q])
    return [(spec_var('z'), fz), (spec_var('A'), e)], [(spec_var('z'), ['p', 'x'])]


def dep():
    m = Model(definition())
    own = {spec_var('C'): fC}
    c = {spec_var('C'): {spec_var('z'), spec_par('r')}}
    return m, own, c


def dep_got():
    m, own, c = dep()
    w = CallableNumericalModel.with_dependencies(
        own, dependency_model=m, connectivity_mapping=c)
    return (list(own.items()), flat(c), list(m.items()),
            [p.name for p in m.params], flat(m.connectivity_mapping))


def dep_want():
    e1, e2 = exprs()
    return ([(spec_var('C'), fC)], [(spec_var('C'), ['r', 'z'])],
            [(spec_var('A'), e2), (spec_var('z'), e1)], ['p', 'q'],
            [(spec_var('A'), ['B', 'q', 'x']), (spec_var('z'), ['p', 'x'])])


def depnum_got():
    d, c = numeric()
    m = CallableNumericalModel(d, connectivity_mapping=c)
    own = {spec_var('C'): fC}
    mine = {spec_var('C'): {spec_var('z'), spec_par('r')}}
    CallableNumericalModel.with_dependencies(
        own, dependency_model=m, connectivity_mapping=mine)
    return (list(own.items()), flat(mine), flat(c), flat(m.connectivity_mapping),
            list(d.items()), list(m.model_dict.items()))


def depnum_want():
    d, c = numeric()
    return ([(spec_var('C'), fC)], [(spec_var('C'), ['r', 'z'])], flat(c), flat(c),
            list(d.items()), [(spec_var('A'), fA), (spec_var('z'), fz)])


def expr_got():
    m = Model(definition())
    own = {spec_var('C'): spec_expr('e3', [spec_var('z'), spec_par('p')])}
    Model.with_dependencies(own, dependency_model=m)
    return list(own.items()), list(m.items()), [v.name for v in m.dependent_vars]


def expr_want():
    e1, e2 = exprs()
    return ([(spec_var('C'), spec_expr('e3', [spec_var('z'), spec_par('p')]))],
            [(spec_var('A'), e2), (spec_var('z'), e1)], ['A', 'z'])


def con_got():
    """making a constraint leaves the model alone"""
    m = Model(definition())
    p, q = spec_par('p'), spec_par('q')
    c = Model.as_constraint(spec_expr('e3', [p, q]), m, constraint_type=sympy.Le)
    return (list(m.items()), list(m.params), hasattr(m, 'constraint_type'),
            [v.name for v in m.dependent_vars])


def con_want():
    e1, e2 = exprs()
    return ([(spec_var('A'), e2), (spec_var('z'), e1)], [spec_par('p'), spec_par('q')],
            False, ['A', 'z'])


def params_got():
    """making a constraint leaves the list of parameters to the model"""
    m = Model(definition())
    p, q = spec_par('p'), spec_par('q')
    c = Model.as_constraint(spec_expr('e3', [p]), m, constraint_type=sympy.Eq)
    return [p.name for p in m.params], [p.name for p in c.params]


def params_want():
    return ['p', 'q'], ['p', 'q']


# ------------------------------------------------------------------ ODEs
class Der(object):
    """the derivative of y"""
    def __init__(self, y, *t):
        self.y = y
        self.variables = t
        self.free_symbols = {y} | set(t)


def ode_got(a, b, c):
    t, y = spec_var('t'), spec_var('y')
    e = spec_expr('e', [t, y, spec_par('p')])
    dy = Der(y, t)
    d, init = {dy: e}, {t: a, y: spec_par('k')}
    opts = {'atol': b}
    m = ODEModel(d, init, **opts)
    return (d[dy], list(d) == [dy], init[t], init[y], len(init), list(opts.items()))


def ode_want(a, b, c):
    t, y = spec_var('t'), spec_var('y')
    return (spec_expr('e', [t, y, spec_par('p')]), True, a, spec_par('k'), 2, [('atol', b)])


def ode2_got(a, b, c):
    t, y, z = spec_var('t'), spec_var('y'), spec_var('z')
    d = {Der(y, t): spec_expr('e', [t, y, z, spec_par('p')]),
         Der(z, t): spec_expr('f', [y, z, spec_par('q')])}
    init, opts = {t: a}, {}
    k = list(d.items())
    try:
        m = ODEModel(d, init, **opts)
    except Exception:
        pass
    return list(d.items()) == k, list(init.items()), len(init), opts


def ode2_want(a, b, c):
    return True, [(spec_var('t'), a)], 1, {}


# ---------------------------------------------------------- objectives
def objective(cls, data, *calls):
    m = Model(definition())
    o = cls(m, data)
    kw = {'p': spec_sym('p'), 'q': spec_sym('q')}
    for c in calls:
        if c == '':
            o(**kw)
        elif c == 'j':
            o.eval_jacobian(**kw)
        else:
            o.eval_hessian(**kw)


def table(a, b, c, d, e, f):
    return {spec_var('x'): a, spec_var('B'): b, spec_var('A'): c, spec_var('z'): d,
            spec_var('sigma_A'): e, spec_var('sigma_z'): f}


def kept(cls, calls, a, b, c, d, e, f):
    data = table(a, b, c, d, e, f)
    objective(cls, data, *calls)
    return [(k.name, v) for k, v in data.items()]


def ls_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq", f: "Seq"):
    return kept(LeastSquares, ['', 'j', 'h'], a, b, c, d, e, f)


def ll_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq", f: "Seq"):
    return kept(LogLikelihood, ['', 'j', 'h'], a, b, c, d, e, f)


def mm_got(a, b):
    p, q = spec_par('p'), spec_par('q')
    data = {spec_var('x'): a, spec_var('y'): None, spec_var('sigma_y'): None, spec_var('w'): b}
    m = Model({spec_var('y'): spec_expr('e', [spec_var('x'), p, q])})
    less = {spec_var('x'): b}
    MinimizeModel(m, less)(p=spec_sym('p'), q=spec_sym('q'))
    o = MinimizeModel(m, data)
    o(p=spec_sym('p'), q=spec_sym('q'))
    o.eval_jacobian(p=spec_sym('p'), q=spec_sym('q'))
    o.eval_hessian(p=spec_sym('p'), q=spec_sym('q'))
    return [(k.name, v) for k, v in data.items()], [(k.name, v) for k, v in less.items()]


def mm_want(a, b):
    return [('x', a), ('y', None), ('sigma_y', None), ('w', b)], [('x', b)]


def vls_got(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq", f: "Seq"):
    return kept(VectorLeastSquares, ['', 'j'], a, b, c, d, e, f)


def kept_want(a: "Seq", b: "Seq", c: "Seq", d: "Seq", e: "Seq", f: "Seq"):
    return [('x', a), ('B', b), ('A', c), ('z', d), ('sigma_A', e), ('sigma_z', f)]


def cells(cls, calls, a, b, c, d):
    """the contents of the arrays of data"""
    m = Model({spec_var('y'): spec_expr('e', [spec_var('x'), spec_par('p')])})
    x, y, s = np.array([a, b]), np.array([c, d]), np.array([b, d])
    o = cls(m, {spec_var('x'): x, spec_var('y'): y, spec_var('sigma_y'): s})
    for k in calls:
        if k == '':
            o(p=spec_sym('p'))
        elif k == 'j':
            o.eval_jacobian(p=spec_sym('p'))
        else:
            o.eval_hessian(p=spec_sym('p'))
    return list(x), list(y), list(s)


def lscells_got(a, b, c, d):
    return cells(LeastSquares, ['', 'j', 'h'], a, b, c, d)


def vlscells_got(a, b, c, d):
    return cells(VectorLeastSquares, ['', 'j'], a, b, c, d)


def llcells_got(a, b, c, d):
    return cells(LogLikelihood, ['', 'j', 'h'], a, b, c, d)


def cells_want(a, b, c, d):
    return [a, b], [c, d], [b, d]


# ---------------------------------------------------------------- fits
def stop(self, minimizer, **kw):
    return None


def fit_got(a, b, c, d):
    """the arrays and the definition given to a fit"""
    x, y, s = np.array([a, b]), np.array([c, d]), np.array([d, b])
    k = {spec_var('y'): spec_expr('e', [spec_var('x'), spec_par('p')])}
    lst = [a, b]
    Fit(k, lst, y, sigma_y=s)
    Fit(k, x=x, y=y, sigma_y=s)
    return list(x), list(y), list(s), list(lst), list(k.items())


def fit_want(a, b, c, d):
    return ([a, b], [c, d], [d, b], [a, b],
            [(spec_var('y'), spec_expr('e', [spec_var('x'), spec_par('p')]))])


def lists_got(a, b, c, d):
    """the lists and constraints given to a fit"""
    p, q = spec_par('p'), spec_par('q')
    x, y = spec_var('x'), spec_var('y')
    m = Model({y: spec_expr('e', [x, p, q])})
    con = Model.as_constraint(spec_expr('g', [p, q]), m, constraint_type=sympy.Eq)
    n = list(con.items())
    cons, minis = [con], [BFGS, SLSQP]
    f = Fit(m, x=np.array([a, b]), y=np.array([c, d]), constraints=cons, minimizer=minis)
    return (cons == [con], len(cons), minis == [BFGS, SLSQP], len(minis), list(con.items()) == n,
            [p.name for p in m.params], list(m.items()), f.model is m)


def lists_want(a, b, c, d):
    p, q = spec_par('p'), spec_par('q')
    x, y = spec_var('x'), spec_var('y')
    return True, 1, True, 2, True, ['p', 'q'], [(y, spec_expr('e', [x, p, q]))], True


class Unbound(Exception):
    pass


def unbound(self):
    raise Unbound('the data is not of interest')


def rels_got():
    """relations given to a fit"""
    p, q = spec_par('p'), spec_par('q')
    m = Model({spec_var('y'): spec_expr('e', [spec_var('x'), p, q])})
    r1 = sympy.Ge(spec_expr('g', [p, q]), 0)
    r2 = sympy.Eq(spec_expr('h', [p]), 0)
    cons = [r1, r2]
    try:
        Fit(m, constraints=cons)
    except Unbound:
        pass
    return cons[0] is r1, cons[1] is r2, len(cons)


def rels_want():
    return True, True, 2


def pars(ps):
    return [(p.name, p.value, p.min, p.max, p.fixed) for p in ps]


def fitpars(p, a, b, c, d):
    m = Model({spec_var('y'): spec_expr('e', [spec_var('x'), p])})
    f = Fit(m, x=np.array([a, b]), y=np.array([c, d]))
    return f, m


def fitpars_got(p: Parameter, a, b, c, d):
    f, m = fitpars(spec_par('p'), a, b, c, d)
    return pars(m.params), pars([spec_par('p')])


def fitpars_want(p: Parameter, a, b, c, d):
    return pars([spec_par('p')]), pars([spec_par('p')])


# --------------------------------------------------------- minimizers
def run(cls, obj, ps, **kw):
    lst = [p for p in ps]
    n = len(lst)
    cls(obj, lst, **kw).execute()
    return len(lst), pars(lst)


def pars_want(obj: LeastSquares, ps: "Seq"):
    return len(ps), pars(ps)


def bfgs_got(obj: LeastSquares, ps: "Seq"):
    return run(BFGS, obj, ps)


def slsqp_got(obj: LeastSquares, ps: "Seq"):
    return run(SLSQP, obj, ps, constraints=[])


def lbfgsb_got(obj: LeastSquares, ps: "Seq"):
    return run(LBFGSB, obj, ps)


def de_got(obj: LeastSquares, ps: "Seq"):
    return run(DifferentialEvolution, obj, ps)


def bh_got(obj: LeastSquares, ps: "Seq"):
    return run(BasinHopping, obj, ps)


def tc_got(obj: LeastSquares, ps: "Seq"):
    return run(TrustConstr, obj, ps)


def minpack_got(obj: VectorLeastSquares, ps: "Seq"):
    return run(MINPACK, obj, ps)


def minpack_want(obj: VectorLeastSquares, ps: "Seq"):
    return len(ps), pars(ps)


def minmodel_got():
    """a model of one component given to minimizers which take more parameters"""
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    m = Model({spec_var('z'): spec_expr('e1', [p, r])})
    lst = [r, q, p]
    for cls in (NelderMead, LBFGSB, SLSQP):
        cls(m, lst)
    n = BFGS(m, lst, jacobian=m)
    return (list(m.items()), list(m.params), [v.name for v in m.dependent_vars],
            [v.name for v in m.independent_vars], hasattr(m, 'constraint_type'),
            n.objective.model is m, n.jacobian.model is m, lst)


def minmodel_want():
    p, q, r = spec_par('p'), spec_par('q'), spec_par('r')
    return ([(spec_var('z'), spec_expr('e1', [p, r]))], [p, r], ['z'], [], False,
            True, True, [r, q, p])


def cons_got(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    spec_assume(c1.model.constraint_type is sympy.Eq and c2.model.constraint_type is sympy.Ge)
    cons = [c1, c2]
    s = SLSQP(obj, ps, constraints=cons)
    s.execute()
    local = COBYLA(obj, ps, constraints=cons)
    b = BasinHopping(obj, ps, local_minimizer=local)
    b.execute()
    return (cons == [c1, c2], s.constraints == [c1, c2], b.local_minimizer is local,
            local.constraints == [c1, c2], len(local.wrapped_constraints))


def cons_want(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    spec_assume(c1.model.constraint_type is sympy.Eq and c2.model.constraint_type is sympy.Ge)
    return True, True, True, True, 2


def opt_got(obj: LeastSquares, ps: "Seq", a, b):
    """options in dicts"""
    o = {'maxiter': a}
    r = {'bounds': [(a, b)]}
    n = {'options': o}
    k = {'minimizer_kwargs': r}
    SLSQP(obj, ps, constraints=[]).execute(**n)
    NelderMead(obj, ps).execute(options=o)
    TrustConstr(obj, ps).execute(options=o)
    BFGS(obj, ps).execute(tol=b, options=o)
    return list(o.items()), list(n.items()), list(k.items())


def opt_want(obj: LeastSquares, ps: "Seq", a, b):
    return ([('maxiter', a)], [('options', {'maxiter': a})],
            [('minimizer_kwargs', {'bounds': [(a, b)]})])


def bhopt_got(obj: LeastSquares, ps: "Seq", a, b):
    k = {'options': {'maxiter': a}, 'tol': b}
    local = BFGS(obj, ps)
    BasinHopping(obj, ps, local_minimizer=local).execute(minimizer_kwargs=k, niter=a)
    return list(k['options'].items()), k['tol'], len(k)


def bhopt_want(obj: LeastSquares, ps: "Seq", a, b):
    return [('maxiter', a)], b, 2


class Recorder(BaseMinimizer):
    def execute(self, **kw):
        return FakeAnswer()


class FakeAnswer(object):
    def __init__(self):
        self.params = spec_sym('params', 'Dict')
        self.iterations = spec_sym('nit')
        self.minimizer_output = {}


def chain_got(obj: LeastSquares, ps: "Seq", a, b):
    """the minimizers and options given to a chain"""
    ms = [Recorder(obj, ps), Recorder(obj, ps)]
    minis = [m for m in ms]
    o = {'tol': a}
    k = {'Recorder': o}
    ChainedMinimizer(obj, ps, minimizers=minis).execute(**k)
    return (len(minis), minis[0] is ms[0], minis[1] is ms[1], list(o.items()),
            list(k['Recorder'].items()), len(k), pars(ps))


def chain_want(obj: LeastSquares, ps: "Seq", a, b):
    return 2, True, True, [('tol', a)], [('tol', a)], 1, pars(ps)


# ------------------------------------------------------------- results
class FakeModel(object):
    def __init__(self, ps):
        self.params = ps


def result_got(a, b, c, d, out):
    """what is given to a result and what reading it does"""
    ps = [spec_par('p'), spec_par('q')]
    m = FakeModel(ps)
    popt, cov = [a, b], np.array([[a, b], [c, d]])
    o = {'nit': a, 'success': b, 'fun': c}
    r = FitResults(m, popt, cov, minimizer=None, objective=None, message=c,
                   **o)
    p, q = ps
    r.value(p), r.stdev(p), r.variance(q), r.covariance(p, q), r.params
    n = [list(row) for row in r.covariance_matrix]
    r.stdev(p), r.covariance(q, p)
    return (list(popt), [list(row) for row in cov], n,
            [list(row) for row in r.covariance_matrix], o['nit'], o['success'],
            len(ps), pars(ps))


def result_want(a, b, c, d, out):
    ps = [spec_par('p'), spec_par('q')]
    cov = [[a, b], [c, d]]
    return [a, b], cov, cov, cov, a, b, 2, pars(ps)


def cov_got(fit: Fit, a, b):
    """the best fit given to covariance_matrix"""
    ps = [spec_par('p'), spec_par('q')]
    best = dict(zip(ps, [a, b]))
    fit.covariance_matrix(best)
    return list(best.items())


def cov_want(fit: Fit, a, b):
    return [(spec_par('p'), a), (spec_par('q'), b)]


# ------------------------------------------------------------- helpers
def key_got(a, b):
    p, q = spec_par('p'), spec_par('q')
    d = {p: a, q: b}
    r = key2str(d)
    return list(d.items()), list(r.items())


def key_want(a, b):
    return [(spec_par('p'), a), (spec_par('q'), b)], [('p', a), ('q', b)]


def par_got(v: "Seq", lo: "Seq", hi: "Seq", f: "Seq"):
    v2, l2, h2, f2 = list(v), list(lo), list(hi), list(f)
    spec_assume(len(v) == 2 and len(lo) == 2 and len(hi) == 2 and len(f) == 2)
    parameters('a, b', value=v2, min=l2, max=h2, fixed=f2)
    return v2, l2, h2, f2


def par_want(v: "Seq", lo: "Seq", hi: "Seq", f: "Seq"):
    spec_assume(len(v) == 2 and len(lo) == 2 and len(hi) == 2 and len(f) == 2)
    parameters('a, b', value=list(v), min=list(lo), max=list(hi), fixed=list(f))
    return list(v), list(lo), list(hi), list(f)
'''

KW = dict(raises=True, orders=True)
MK = dict(raises=True, opaque=OPAQUE, intercept=INTERCEPT)
FK = dict(raises=True, orders=True, intercept={'Fit._init_minimizer': 'stop'})
OBLIGATIONS = [
    Obl('Model', 'model_got', 'build_want', 'the definition stays as it was',
        'BaseModel.__init__', **KW),
    Obl('CallableModel', 'callable_got', 'build_want', 'the definition stays as it was',
        'BaseModel.__init__', **KW),
    Obl('derivatives', 'gradient_got', 'gradient_want',
        'the definition stays as it was', 'GradientModel.eval_jacobian', **KW),
    Obl('ordered definitions', 'ordered_got', 'ordered_want',
        'keep their order', 'BaseModel.__init__', **KW),
    Obl('negation of numerical models', 'negnum_got', 'negnum_want',
        'shares nothing with the model', 'CallableNumericalModel.__neg__', **KW),
    Obl('negation', 'neg_got', 'neg_want', 'leaves the model alone',
        'BaseModel.__neg__', **KW),
    Obl('shared definitions', 'two_got', 'two_want',
        'later changes of the definition do not reach the model', 'BaseModel.__init__', **KW),
    Obl('numerical models', 'num_got', 'num_want',
        'the definition and the connectivity mapping stay as they were',
        'BaseNumericalModel.__init__', **KW),
    Obl('partly numerical models', 'mixed_got', 'mixed_want',
        'the definition and the connectivity mapping stay as they were',
        'CallableNumericalModel.__init__', **KW),
    Obl('dependencies of numerical models', 'dep_got', 'dep_want',
        'definition, mapping and dependency stay as they were',
        'BaseModel.with_dependencies', **KW),
    Obl('numerical dependencies', 'depnum_got', 'depnum_want',
        'definition, mapping and dependency stay as they were',
        'BaseModel.with_dependencies', **KW),
    Obl('dependencies', 'expr_got', 'expr_want',
        'definition and dependency stay as they were', 'BaseModel.with_dependencies', **KW),
    Obl('constraints', 'con_got', 'con_want', 'the model stays as it was',
        'BaseModel.as_constraint', **KW),
    Obl('parameters of constraints', 'params_got', 'params_want',
        'the model stays as it was', 'BaseModel.as_constraint', **KW),
    Obl('ODE models, incomplete initial values', 'ode2_got', 'ode2_want',
        'definition and initial values stay as they were', 'ODEModel.__init__', **KW),
    Obl('ODE models', 'ode_got', 'ode_want',
        'definition and initial values stay as they were', 'ODEModel.__init__', **KW),
    Obl('least squares', 'ls_got', 'kept_want', 'the data stays as it was',
        'BaseObjective.__init__', **KW),
    Obl('likelihood', 'll_got', 'kept_want', 'the data stays as it was',
        'BaseObjective.__init__', **KW),
    Obl('minimization', 'mm_got', 'mm_want', 'the data stays as it was',
        'BaseObjective.__init__', **KW),
    Obl('vector least squares', 'vls_got', 'kept_want', 'the data stays as it was',
        'BaseObjective.__init__', **KW),
    Obl('arrays of least squares', 'lscells_got', 'cells_want',
        'keep their contents', 'LeastSquares.__call__', **KW),
    Obl('arrays of vector least squares', 'vlscells_got', 'cells_want',
        'keep their contents', 'VectorLeastSquares.__call__', **KW),
    Obl('arrays of likelihoods', 'llcells_got', 'cells_want',
        'keep their contents', 'LogLikelihood.__call__', **KW),
    Obl('arrays of fits', 'fit_got', 'fit_want',
        'keep their contents', 'TakesData.__init__', **FK),
    Obl('constraints and minimizers of fits', 'lists_got', 'lists_want',
        'lists, constraints and model stay as they were', 'Fit.__init__', **FK),
    Obl('parameters of fits', 'fitpars_got', 'fitpars_want',
        'keep value, bounds and fixed', 'Fit.__init__', **FK),
    Obl('models given to minimizers', 'minmodel_got', 'minmodel_want',
        'stay as they were', 'BaseMinimizer._baseobjective_from_callable', **KW),
    Obl('BFGS', 'bfgs_got', 'pars_want', 'parameters stay as they were',
        'BaseMinimizer.__init__', **MK),
    Obl('SLSQP', 'slsqp_got', 'pars_want', 'parameters stay as they were',
        'BaseMinimizer.__init__', **MK),
    Obl('LBFGSB', 'lbfgsb_got', 'pars_want', 'parameters stay as they were',
        'BaseMinimizer.__init__', **MK),
    Obl('DifferentialEvolution', 'de_got', 'pars_want', 'parameters stay as they were',
        'DifferentialEvolution.execute', **MK),
    Obl('BasinHopping', 'bh_got', 'pars_want', 'parameters stay as they were',
        'BasinHopping.execute', **MK),
    Obl('TrustConstr', 'tc_got', 'pars_want', 'parameters stay as they were',
        'TrustConstr.execute', **MK),
    Obl('MINPACK', 'minpack_got', 'minpack_want', 'parameters stay as they were',
        'MINPACK.execute', **MK),
    Obl('relations', 'rels_got', 'rels_want', 'lists of relations stay as they were',
        'Fit._init_constraints', raises=True, orders=True,
        intercept={'Fit._make_signature': 'unbound'}),
    Obl('lists of constraints', 'cons_got', 'cons_want', 'stay as they were',
        'ConstrainedMinimizer.__init__', **MK),
    Obl('options', 'opt_got', 'opt_want', 'dicts of options stay as they were',
        'ScipyMinimize.execute', **MK),
    Obl('options of BasinHopping', 'bhopt_got', 'bhopt_want',
        'dicts of options stay as they were', 'BasinHopping.execute', **MK),
    Obl('chains', 'chain_got', 'chain_want', 'minimizers and options stay as they were',
        'ChainedMinimizer.execute', **MK),
    Obl('results', 'result_got', 'result_want', 'reading does not change them',
        'FitResults.__init__', **KW),
    Obl('covariance', 'cov_got', 'cov_want', 'the best fit stays as it was',
        'HasCovarianceMatrix.covariance_matrix', raises=True,
        opaque={'HasCovarianceMatrix._covariance_matrix'}),
    Obl('key2str', 'key_got', 'key_want', 'makes a new dict', 'key2str', raises=True),
    Obl('parameters', 'par_got', 'par_want', 'lists stay as they were', 'parameters',
        raises=True),
]
