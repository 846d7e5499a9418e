from ..check import Obl
from .minim import HEAD, fakes, INTERCEPT, OPAQUE

NOTE = "spec_note('bounds', pairs(bounds))"
DRIVER = HEAD + '''
def pairs(b):
    if b is None:
        return None
    return [(lo, hi) for lo, hi in b]


def want_pairs(ps):
    return [(p.min, p.max) for p in ps if not p.fixed]


''' + fakes(NOTE, NOTE, NOTE, '''
lo, hi = bounds
spec_note('bounds', values(lo), values(hi))''') + '''
def mp_got(obj: VectorLeastSquares, ps: "Seq"):
    MINPACK(obj, ps).execute()


def mp_want(obj: VectorLeastSquares, ps: "Seq"):
    free = free_of(ps)
    spec_note('bounds', [-np.inf if p.min is None else p.min for p in free],
              [np.inf if p.max is None else p.max for p in free])


def bounded_want(obj: LeastSquares, ps: "Seq"):
    spec_note('bounds', want_pairs(ps))


def none_want(obj: LeastSquares, ps: "Seq"):
    spec_note('bounds', None)


def guess_got(obj: LeastSquares, v, w):
    a, b = spec_par('a'), spec_par('b')
    m, n = NelderMead(obj, [a, b]), BasinHopping(obj, [b, a])
    first = m.initial_guesses, n.initial_guesses
    a.value = v
    second = m.initial_guesses, n.initial_guesses
    m.initial_guesses = w
    return first, second, m.initial_guesses, n.initial_guesses


def guess_want(obj: LeastSquares, v, w):
    a, b = spec_par('a'), spec_par('b')
    ab, ba = free_of([a, b]), free_of([b, a])
    first = [p.value for p in ab], [p.value for p in ba]
    a.value = v
    return (first, ([p.value for p in ab], [p.value for p in ba]), w,
            [p.value for p in ba])


def de_got(obj: LeastSquares, ps: "Seq"):
    DifferentialEvolution(obj, ps).execute()


def bh_none_got(obj: LeastSquares, ps: "Seq"):
    BasinHopping(obj, ps).execute()


def bh_cls_got(obj: LeastSquares, ps: "Seq"):
    BasinHopping(obj, ps, local_minimizer=LBFGSB).execute()


def bh_inst_got(obj: LeastSquares, ps: "Seq"):
    BasinHopping(obj, ps, local_minimizer=SLSQP(obj, ps)).execute()


def bh_user_got(obj: LeastSquares, ps: "Seq", b: "Seq"):
    BasinHopping(obj, ps, local_minimizer=LBFGSB(obj, ps)).execute(
        minimizer_kwargs={'bounds': b})


def bh_user_want(obj: LeastSquares, ps: "Seq", b: "Seq"):
    spec_note('bounds', pairs(b))


def opt_got(obj: LeastSquares, ps: "Seq", opts):
    LBFGSB(obj, ps).execute(tol=1e-3, options=opts)
'''
for c in ('BFGS', 'SLSQP', 'COBYLA', 'LBFGSB', 'NelderMead', 'Powell', 'TrustConstr'):
    DRIVER += '''
def %(c)s_got(obj: LeastSquares, ps: "Seq"):
    %(c)s(obj, ps).execute()
''' % {'c': c}

KW = dict(raises=True, opaque=OPAQUE, intercept=INTERCEPT, notes=True)
OBLIGATIONS = []
for c in ('SLSQP', 'LBFGSB', 'TrustConstr'):
    OBLIGATIONS.append(Obl(
        'bounds of ' + c, c + '_got', 'bounded_want',
        'one (min, max) pair per free parameter, in order',
        'BoundedMinimizer.bounds', **KW))
for c in ('BFGS', 'COBYLA', 'NelderMead', 'Powell'):
    OBLIGATIONS.append(Obl(
        'no bounds for ' + c, c + '_got', 'none_want',
        'algorithms without bounds get none', 'ScipyMinimize.execute', **KW))
OBLIGATIONS += [
    Obl('bounds of DifferentialEvolution', 'de_got', 'bounded_want',
        'one (min, max) pair per free parameter, in order',
        'DifferentialEvolution.execute', **KW),
    Obl('guesses', 'guess_got', 'guess_want',
        'are the values which the parameters have, unless given',
        'BaseMinimizer.initial_guesses', opaque=OPAQUE),
    Obl('bounds of MINPACK', 'mp_got', 'mp_want',
        'lower and upper bounds per free parameter, infinite when absent',
        'MINPACK.bounds', **KW),
    Obl('bounds with options', 'opt_got', 'bounded_want',
        'options do not displace the bounds', 'ScipyBoundedMinimizer.execute', **KW),
    Obl('no bounds for local BFGS', 'bh_none_got', 'none_want',
        'unbounded local minimizer gets none', 'BasinHopping.execute', **KW),
    Obl('bounds of local minimizer class', 'bh_cls_got', 'bounded_want',
        'a bounded local minimizer gets the bounds', 'BasinHopping.execute', **KW),
    Obl('bounds of local minimizer instance', 'bh_inst_got', 'bounded_want',
        'a bounded local minimizer gets the bounds', 'BasinHopping.execute', **KW),
    Obl('bounds of the user', 'bh_user_got', 'bh_user_want',
        'explicit local bounds win', 'BasinHopping.execute', **KW),
]
# shared obligations
ALSO = {'C01': '*'}
