from ..check import Obl
from .minim import HEAD, fakes, INTERCEPT, OPAQUE

NAMES = {'BFGS': 'BFGS', 'SLSQP': 'SLSQP', 'COBYLA': 'COBYLA', 'LBFGSB': 'L-BFGS-B',
         'NelderMead': 'Nelder-Mead', 'Powell': 'Powell', 'TrustConstr': 'trust-constr'}
DRIVER = HEAD + fakes(
    "spec_note('minimize', method, fun(x), tol, optional(options), callback, args, "
    "sorted(other.items()))",
    "spec_note('evolve', func(x), args, sorted(other.items()))",
    "spec_note('hop', func(x), method, "
    "sorted((k, v) for k, v in minimizer_kwargs.items() if k not in ('method', 'jac', "
    "'constraints', 'bounds')), sorted(other.items()))",
    "spec_note('least', fun(x), method, sorted(other.items()))") + '''
def optional(options):
    """what was chosen by the user"""
    return sorted((k, v) for k, v in options.items() if k != 'sparse_jacobian') if options else []


def result(r, ps):
    """what a result is made of"""
    kw = r.kw
    return (kw['objective'], kw['message'], kw['x'], kw['success'],
            [p for p in kw['model'].params],
            kw['fun'], kw['status'], kw['nit'], kw['nfev'])


def result_want(obj, ps):
    return (obj, spec_sym('ans_message'), spec_sym('ans_x'), spec_sym('ans_success'),
            [p for p in ps], spec_sym('ans_fun'), spec_sym('ans_status'),
            spec_sym('ans_nit'), spec_sym('ans_nfev'))


def list_got(obj: LeastSquares, ps: "Seq", a):
    """scipy hands the message of basinhopping over in a list"""
    r = BasinHopping(obj, ps, local_minimizer=BFGS(obj, ps)).execute()
    return r.kw['message']


def list_want(obj: LeastSquares, ps: "Seq", a):
    m = spec_sym('ans_message')
    return m[0] if isinstance(m, list) else m


# -------------------------------------------------- differential evolution
def de_got(obj: LeastSquares, ps: "Seq"):
    m = DifferentialEvolution(obj, ps)
    r = m.execute()
    return result(r, ps), r.kw['minimizer'] is m


def de_want(obj: LeastSquares, ps: "Seq"):
    spec_note('evolve', obj(spec_sym('x')), (), [
        ('init', 'latinhypercube'), ('mutation', (0.423, 1.053)), ('polish', False),
        ('popsize', 40), ('recombination', 0.95), ('strategy', 'rand1bin')])
    return result_want(obj, ps), True


def deopt_got(obj: LeastSquares, ps: "Seq", a, b, c, d, e, f, g):
    DifferentialEvolution(obj, ps).execute(
        strategy=a, popsize=b, mutation=c, recombination=d, polish=e, init=f, seed=g)


def deopt_want(obj: LeastSquares, ps: "Seq", a, b, c, d, e, f, g):
    spec_note('evolve', obj(spec_sym('x')), (), [
        ('init', f), ('mutation', c), ('polish', e), ('popsize', b),
        ('recombination', d), ('seed', g), ('strategy', a)])


# ---------------------------------------------------------- basin hopping
def bh_got(obj: LeastSquares, ps: "Seq", n, t):
    m = BasinHopping(obj, ps, local_minimizer=NelderMead(obj, ps))
    r = m.execute(niter=n, stepsize=t)
    return result(r, ps)[:1] + result(r, ps)[2:], r.kw['minimizer'] is m


def bh_want(obj: LeastSquares, ps: "Seq", n, t):
    spec_note('hop', obj(spec_sym('x')), 'Nelder-Mead', [], [('niter', n), ('stepsize', t)])
    r = result_want(obj, ps)
    return r[:1] + r[2:], True


def bhd_got(obj: LeastSquares, ps: "Seq"):
    BasinHopping(obj, ps).execute()


def bhd_want(obj: LeastSquares, ps: "Seq"):
    spec_note('hop', obj(spec_sym('x')), 'BFGS', [], [])


def bhc_got(obj: LeastSquares, ps: "Seq"):
    BasinHopping(obj, ps, local_minimizer=LBFGSB).execute()


def bhc_want(obj: LeastSquares, ps: "Seq"):
    spec_note('hop', obj(spec_sym('x')), 'L-BFGS-B', [], [])


def bhu_got(obj: LeastSquares, ps: "Seq", m, t, o):
    BasinHopping(obj, ps, local_minimizer=SLSQP(obj, ps, constraints=[])).execute(
        minimizer_kwargs={'method': m, 'tol': t, 'options': o})


def bhu_want(obj: LeastSquares, ps: "Seq", m, t, o):
    spec_note('hop', obj(spec_sym('x')), m, [('options', o), ('tol', t)], [])


def bhk_got(obj: LeastSquares, ps: "Seq", t):
    BasinHopping(obj, ps, local_minimizer=SLSQP(obj, ps, constraints=[])).execute(
        minimizer_kwargs={'tol': t})


def bhk_want(obj: LeastSquares, ps: "Seq", t):
    spec_note('hop', obj(spec_sym('x')), 'SLSQP', [('tol', t)], [])


class Own(BaseMinimizer):
    def execute(self, **kw):
        return None


def wrong_got(obj: LeastSquares, ps: "Seq"):
    BasinHopping(obj, ps, local_minimizer=ChainedMinimizer)


def wrong2_got(obj: LeastSquares, ps: "Seq"):
    BasinHopping(obj, ps, local_minimizer=Own(obj, ps))


def wrong_want(obj: LeastSquares, ps: "Seq"):
    raise TypeError('not scipy.optimize.minimize')


# ---------------------------------------------------------------- MINPACK
def mp_got(obj: VectorLeastSquares, ps: "Seq"):
    m = MINPACK(obj, ps)
    r = m.execute()
    return result(r, ps), r.kw['minimizer'] is m


def mpn_got(obj: VectorLeastSquares, ps: "Seq"):
    m = MINPACK(obj, ps)
    r = m.execute(method=None)
    return result(r, ps), r.kw['minimizer'] is m


def mp_want(obj: VectorLeastSquares, ps: "Seq"):
    spec_note('least', obj(spec_sym('x')), 'trf', [])
    return result_want(obj, ps), True


def mpo_got(obj: VectorLeastSquares, ps: "Seq", f, n):
    MINPACK(obj, ps).execute(method='dogbox', ftol=f, max_nfev=n)


def mpo_want(obj: VectorLeastSquares, ps: "Seq", f, n):
    spec_note('least', obj(spec_sym('x')), 'dogbox', [('ftol', f), ('max_nfev', n)])


# -------------------------------------------------------------- reporting
def nit_got(obj: LeastSquares, ps: "Seq"):
    return (COBYLA(obj, ps, constraints=[]).execute().minimizer_output['nit'],
            TrustConstr(obj, ps).execute().minimizer_output['nit'],
            BFGS(obj, ps).execute().minimizer_output['nit'])


def nit_want(obj: LeastSquares, ps: "Seq"):
    return spec_sym('nfev'), spec_sym('niter'), spec_sym('nit')


def cons_got(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    spec_assume(c1.model.constraint_type is sympy.Eq and c2.model.constraint_type is sympy.Ge)
    cs = [c1, c2]
    r = [SLSQP(obj, ps, constraints=cs).execute(), COBYLA(obj, ps, constraints=cs).execute(),
         TrustConstr(obj, ps, constraints=cs).execute()]
    return [list(x.constraints) for x in r]


def cons_want(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    spec_assume(c1.model.constraint_type is sympy.Eq and c2.model.constraint_type is sympy.Ge)
    return [[c1, c2], [c1, c2], [c1, c2]]


def bhcons_got(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    spec_assume(c1.model.constraint_type is sympy.Eq and c2.model.constraint_type is sympy.Ge)
    r = BasinHopping(obj, ps, local_minimizer=SLSQP(obj, ps, constraints=[c1, c2])).execute()
    return list(r.constraints)


def bhcons_want(obj: LeastSquares, ps: "Seq", c1: MinimizeModel, c2: MinimizeModel):
    spec_assume(c1.model.constraint_type is sympy.Eq and c2.model.constraint_type is sympy.Ge)
    return [c1, c2]
'''
for c, n in NAMES.items():
    DRIVER += '''
def %(c)s_got(obj: LeastSquares, ps: "Seq"):
    m = %(c)s(obj, ps)
    r = m.execute()
    return result(r, ps), r.kw['minimizer'] is m


def %(c)s_want(obj: LeastSquares, ps: "Seq"):
    spec_note('minimize', %(n)r, obj(spec_sym('x')), 1e-9, [], None, (), [])
    return result_want(obj, ps), True


def %(c)s_opt_got(obj: LeastSquares, ps: "Seq", t, a, b, f):
    %(c)s(obj, ps).execute(tol=t, options={'maxiter': a, 'disp': b}, callback=f)


def %(c)s_opt_want(obj: LeastSquares, ps: "Seq", t, a, b, f):
    spec_note('minimize', %(n)r, obj(spec_sym('x')), t, [('disp', b), ('maxiter', a)], f, (), [])
''' % {'c': c, 'n': n}

KW = dict(opaque=OPAQUE, intercept=dict(
    INTERCEPT, **{'scipy.optimize.NonlinearConstraint': 'FakeNL'}), notes=True, raises=True)
DRIVER += '''

class FakeNL(object):
    def __init__(self, *a, **kw):
        self.kw = kw
'''
OBLIGATIONS = []
E = 'ScipyMinimize.execute'
for c, n in NAMES.items():
    OBLIGATIONS += [
        Obl('algorithm of ' + c, c + '_got', c + '_want',
            'calls %s with a tolerance of 1e-9 and reports all of its answer' % n, E, **KW),
        Obl('options of ' + c, c + '_opt_got', c + '_opt_want',
            'what the user chooses is what scipy gets', E, **KW)]
D, B, M = 'DifferentialEvolution.execute', 'BasinHopping.execute', 'MINPACK.execute'
OBLIGATIONS += [
    Obl('DifferentialEvolution', 'de_got', 'de_want', 'has its documented defaults', D, **KW),
    Obl('options of DifferentialEvolution', 'deopt_got', 'deopt_want',
        'what the user chooses is what scipy gets', D, **KW),
    Obl('BasinHopping', 'bh_got', 'bh_want', 'the algorithm of the local minimizer', B, **KW),
    Obl('default of BasinHopping', 'bhd_got', 'bhd_want', 'is BFGS', B, **KW),
    Obl('local class', 'bhc_got', 'bhc_want', 'the algorithm of the local minimizer', B, **KW),
    Obl('options of BasinHopping', 'bhu_got', 'bhu_want',
        'what the user chooses is what scipy gets', B, **KW),
    Obl('local options of BasinHopping', 'bhk_got', 'bhk_want',
        'are added to the algorithm', B, **KW),
    Obl('message of BasinHopping', 'list_got', 'list_want', 'is unpacked', B, opaque=OPAQUE, intercept=INTERCEPT),
    Obl('foreign local class', 'wrong_got', 'wrong_want', 'is refused', 'BasinHopping.__init__', **KW),
    Obl('foreign local instance', 'wrong2_got', 'wrong_want', 'is refused', 'BasinHopping.__init__', **KW),
    Obl('MINPACK', 'mp_got', 'mp_want', 'is a trust region method', M, **KW),
    Obl('MINPACK without a method', 'mpn_got', 'mp_want', 'is a trust region method', M, **KW),
    Obl('options of MINPACK', 'mpo_got', 'mpo_want',
        'what the user chooses is what scipy gets', M, **KW),
    Obl('iterations', 'nit_got', 'nit_want', 'are reported under one name',
        ['COBYLA.execute', 'TrustConstr.execute'], opaque=OPAQUE, intercept=INTERCEPT),
    Obl('constraints of the result', 'cons_got', 'cons_want', 'are those of the minimizer',
        'ScipyConstrainedMinimize._pack_output', **dict(KW, notes=False)),
    Obl('constraints of BasinHopping', 'bhcons_got', 'bhcons_want',
        'are those of the local minimizer', B, **dict(KW, notes=False)),
]
# shared obligations
ALSO = {'C10': ['bh_none_got', 'bh_cls_got', 'bh_inst_got', 'bh_user_got'],
 'C11': ['bh_got'],
 'C30': ['bh_got', 'bhc_got', 'bhn_got', 'bhu_got']}
