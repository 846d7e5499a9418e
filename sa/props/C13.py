from ..check import Obl
from .minim import HEAD

DRIVER = HEAD + '''
from collections import Counter, OrderedDict
from symfit.core.fit import Fit
from symfit.core.fit_results import FitResults


class FakeAnswer(object):
    def __init__(self, who, n):
        self.who = who
        self.n = n
        self.params = spec_sym('params_%s_%s' % (who, n), 'Dict')
        self.iterations = spec_sym('nit_%s_%s' % (who, n))
        self.objective_value = spec_sym('fun_%s_%s' % (who, n))
        self.minimizer_output = {'fun': self.objective_value}
        self.gof_qualifiers = {'objective_value': self.objective_value}

    def value(self, param):
        return self.params[param.name]


class Recorder(BaseMinimizer):
    ran = 0

    def execute(self, **kw):
        self.ran += 1
        who = self.__class__.__name__
        spec_note('run', who, self.n, [g for g in self.initial_guesses],
                  [k for k in kw], [kw[k] for k in kw])
        return FakeAnswer(who, self.n)


class First(Recorder):
    n = 0


class Second(Recorder):
    n = 0


class Third(Recorder):
    n = 0


def make(obj, ps, classes):
    out = []
    for k in range(len(classes)):
        m = classes[k](obj, ps)
        m.n = k
        out.append(m)
    return out


def nxt(ps, who, n):
    a = spec_sym('params_%s_%s' % (who, n), 'Dict')
    return [a[p.name] for p in free_of(ps)]


def total(*names):
    out = 0
    for n in names:
        k = spec_sym('nit_' + n)
        out = out + (k if k is not None else 0)
    return out


def three_got(obj: LeastSquares, ps: "Seq"):
    r = ChainedMinimizer(obj, ps, minimizers=make(obj, ps, [First, Second, Third])).execute()
    return r.who, r.n, r.minimizer_output['nit']


def three_want(obj: LeastSquares, ps: "Seq"):
    spec_note('run', 'First', 0, [p.value for p in free_of(ps)], [], [])
    spec_note('run', 'Second', 1, nxt(ps, 'First', 0), [], [])
    spec_note('run', 'Third', 2, nxt(ps, 'Second', 1), [], [])
    return 'Third', 2, total('First_0', 'Second_1', 'Third_2')


def two_got(obj: LeastSquares, ps: "Seq", guess: "Seq"):
    c = ChainedMinimizer(obj, ps, minimizers=make(obj, ps, [Second, First]))
    c.initial_guesses = guess
    r = c.execute()
    return r.who, r.n, r.minimizer_output['nit']


def two_want(obj: LeastSquares, ps: "Seq", guess: "Seq"):
    spec_note('run', 'Second', 0, [g for g in guess], [], [])
    spec_note('run', 'First', 1, nxt(ps, 'Second', 0), [], [])
    return 'First', 1, total('Second_0', 'First_1')


def one_got(obj: LeastSquares, ps: "Seq"):
    r = ChainedMinimizer(obj, ps, minimizers=make(obj, ps, [First])).execute()
    return r.who, r.n, r.minimizer_output['nit']


def one_want(obj: LeastSquares, ps: "Seq"):
    spec_note('run', 'First', 0, [p.value for p in free_of(ps)], [], [])
    return 'First', 0, total('First_0')


def opts_got(obj: LeastSquares, ps: "Seq", a, b):
    c = ChainedMinimizer(obj, ps, minimizers=make(obj, ps, [First, Second, Third]))
    c.execute(Third={'tol': a}, First={'seed': b, 'maxiter': 3})


def opts_want(obj: LeastSquares, ps: "Seq", a, b):
    spec_note('run', 'First', 0, [p.value for p in free_of(ps)], ['seed', 'maxiter'], [b, 3])
    spec_note('run', 'Second', 1, nxt(ps, 'First', 0), [], [])
    spec_note('run', 'Third', 2, nxt(ps, 'Second', 1), ['tol'], [a])


def same_got(obj: LeastSquares, ps: "Seq", a, b, d):
    c = ChainedMinimizer(obj, ps, minimizers=make(obj, ps, [First, Second, First]))
    c.execute(First_2={'tol': a}, First={'tol': b}, Second={'x': d})


def same_want(obj: LeastSquares, ps: "Seq", a, b, d):
    spec_note('run', 'First', 0, [p.value for p in free_of(ps)], ['tol'], [b])
    spec_note('run', 'Second', 1, nxt(ps, 'First', 0), ['x'], [d])
    spec_note('run', 'First', 2, nxt(ps, 'Second', 1), ['tol'], [a])


def other_got(obj: LeastSquares, ps: "Seq", a):
    c = ChainedMinimizer(obj, ps, minimizers=make(obj, ps, [First, Second]))
    c.execute(Third={'tol': a})


def other_want(obj: LeastSquares, ps: "Seq", a):
    raise TypeError('unexpected keyword')


def twice_got(obj: LeastSquares, ps: "Seq", a):
    c = ChainedMinimizer(obj, ps, minimizers=make(obj, ps, [First, Second]))
    c.execute(First={'tol': a})
    c.execute()


def twice_want(obj: LeastSquares, ps: "Seq", a):
    spec_note('run', 'First', 0, [p.value for p in free_of(ps)], ['tol'], [a])
    spec_note('run', 'Second', 1, nxt(ps, 'First', 0), [], [])
    spec_note('run', 'First', 0, [p.value for p in free_of(ps)], [], [])
    spec_note('run', 'Second', 1, nxt(ps, 'First', 0), [], [])


def init_got(fit: Fit, obj: LeastSquares, ps: "Seq"):
    fit.objective = obj
    made = SLSQP(obj, ps)
    fit.constraints = []
    minis = [First, made, Second]
    c = fit._init_minimizer(ChainedMinimizer, minimizers=[fit._init_minimizer(m) for m in minis])
    return (type(c) is ChainedMinimizer, c.objective, [p for p in c.parameters],
            [type(m) is k for m, k in zip(c.minimizers, [First, SLSQP, Second])],
            [m is made for m in c.minimizers],
            [m.objective for m in c.minimizers])


def init_want(fit: Fit, obj: LeastSquares, ps: "Seq"):
    return (True, obj, [p for p in fit.model.params], [True, True, True],
            [False, True, False], [obj, obj, obj])
'''
KW = dict(opaque={'LeastSquares.__call__', 'LeastSquares.eval_jacobian',
                  'LeastSquares.eval_hessian'}, notes=True, raises=True)
OBLIGATIONS = [
    Obl('three minimizers', 'three_got', 'three_want',
        'every minimizer runs once, in order, from the answer of the previous one; '
        'the last answer is returned with all iterations',
        'ChainedMinimizer.execute', **KW),
    Obl('given initial guesses', 'two_got', 'two_want',
        'the first minimizer starts at the guesses of the chain',
        'ChainedMinimizer.execute', **KW),
    Obl('one minimizer', 'one_got', 'one_want', 'a chain of one is that minimizer',
        'ChainedMinimizer.execute', **KW),
    Obl('options', 'opts_got', 'opts_want',
        'options reach the minimizer they are named after and no other',
        'ChainedMinimizer.execute', **KW),
    Obl('options of identical minimizers', 'same_got', 'same_want',
        'identical minimizers are numbered in order',
        'ChainedMinimizer._make_signature', **KW),
    Obl('unknown options', 'other_got', 'other_want', 'are refused',
        'ChainedMinimizer._make_signature', **KW),
    Obl('repeated execution', 'twice_got', 'twice_want',
        'starts again from the guesses of the chain, without the earlier options',
        'ChainedMinimizer.execute', **KW),
    Obl('initialisation by Fit', 'init_got', 'init_want',
        'classes are instantiated on the objective, instances are kept, in order',
        'Fit._init_minimizer', **KW),
]
