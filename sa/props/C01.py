from ..check import Obl
from .minim import HEAD, fakes, INTERCEPT, OPAQUE, SIMPLE

DRIVER = HEAD + fakes("spec_note('start', values(x0))", "spec_note('de')",
                      "spec_note('start', values(x0))",
                      "spec_note('start', values(x0))") + '''
def start_want(obj: LeastSquares, ps: "Seq"):
    spec_note('start', [p.value for p in free_of(ps)])
    return merged(ps, spec_sym('ans_x')), [p for p in ps]


def given_want(obj: LeastSquares, ps: "Seq", guess: "Seq"):
    spec_note('start', values(guess))
    return merged(ps, spec_sym('ans_x')), [p for p in ps]


def finish(r):
    return values(r.kw['popt']), [p for p in r.kw['model'].params]

def de_got(obj: LeastSquares, ps: "Seq"):
    return finish(DifferentialEvolution(obj, ps).execute())


def de_want(obj: LeastSquares, ps: "Seq"):
    spec_note('de')
    return merged(ps, spec_sym('ans_x')), [p for p in ps]


def bh_got(obj: LeastSquares, ps: "Seq"):
    return finish(BasinHopping(obj, ps).execute())


def mp_got(obj: VectorLeastSquares, ps: "Seq"):
    return finish(MINPACK(obj, ps).execute())


def free_got(obj: LeastSquares, ps: "Seq"):
    m = NelderMead(obj, ps)
    return [p for p in m.params], [p for p in m.parameters]


def free_want(obj: LeastSquares, ps: "Seq"):
    return free_of(ps), [p for p in ps]


'''
for c in SIMPLE:
    DRIVER += '''
def %(c)s_got(obj: LeastSquares, ps: "Seq"):
    return finish(%(c)s(obj, ps).execute())


def %(c)s_given(obj: LeastSquares, ps: "Seq", guess: "Seq"):
    m = %(c)s(obj, ps)
    m.initial_guesses = guess
    return finish(m.execute())

''' % {'c': c}

KW = dict(raises=True, opaque=OPAQUE, intercept=INTERCEPT, notes=True)
OBLIGATIONS = [
    Obl('free parameters', 'free_got', 'free_want',
        'params are the parameters which are not fixed, in order',
        'BaseMinimizer.__init__', **KW)]
for c in SIMPLE:
    OBLIGATIONS.append(Obl(
        'start and result of ' + c, c + '_got', 'start_want',
        'the optimiser starts at the values of the free parameters and only '
        'those are filled in from its answer', 'ScipyMinimize.execute', **KW))
    OBLIGATIONS.append(Obl(
        'given start of ' + c, c + '_given', 'given_want',
        'explicit initial guesses are the start', 'BaseMinimizer.initial_guesses',
        **KW))
OBLIGATIONS += [
    Obl('result of DifferentialEvolution', 'de_got', 'de_want',
        'only free parameters are filled in', 'DifferentialEvolution.execute', **KW),
    Obl('start and result of BasinHopping', 'bh_got', 'start_want',
        'start at the free values; only free parameters are filled in',
        'BasinHopping.execute', **KW),
    Obl('start and result of MINPACK', 'mp_got', 'start_want',
        'start at the free values; only free parameters are filled in',
        'MINPACK.execute', **KW),
]
# shared obligations
ALSO = {'C05': ['call3_got', 'call2_got', 'call1_got', 'jac3_got', 'jac2_got', 'jac1_got',
         'hess3_got', 'hess2_got', 'hess1_got', '*named_got'],
 'C10': '*',
 'C11': ['slsqp_got', 'cobyla_got', 'bh_got', 'tc_got', 'tc2_got'],
 'C13': ['three_got', 'two_got', 'init_got'],
 'C28': ['fixed_got', 'value_got'],
 'C32': ['free_got', 'livefree_got'],
 'C30': ['BFGS_jac', 'SLSQP_jac', 'LBFGSB_jac', 'tcj_got', 'tch_got', 'tchn_got',
         'mpj_got', 'bh_got']}
