O = 'core/objectives.py'
M = 'core/models.py'
S = 'core/support.py'
A = 'core/argument.py'
R = 'core/fit_results.py'
F = 'core/fit.py'
P = 'core/printing.py'
N = 'core/minimizers.py'
D = 'distributions.py'
HEAD = r"""
import numpy as np
from symfit import *
from symfit.core.objectives import *
from symfit.core.models import *
from symfit.core.minimizers import *
x, y, z, t, w, v = variables('x, y, z, t, w, v')
a, b, c = parameters('a, b, c')
xd = np.linspace(1, 4, 20)
"""
SEEDS = {
 'C02-drop-zero': {'property': 'C02',
  'edits': [(O, "return [component / 2 for component in chi2]", "return [component / 2 for component in chi2 if component]")],
  'needs': 'flatten_components=False where one component agrees exactly with its data',
  'breaks': 'the components that are exactly zero are missing from the list',
  'demo': HEAD + """
m = Model({y: a * x, z: b * x})
f = LeastSquares(m, {x: xd, y: 2 * xd, z: 3 * xd, m.sigmas[y]: np.ones(20), m.sigmas[z]: np.ones(20)})
r = f(flatten_components=False, a=2.0, b=1.0)
assert len(r) == 2 and r[0] == 0 and r[1] > 0, r
"""},
 'C02-ll-drop-component': {'property': 'C02',
  'edits': [(O, "[np.nansum(np.log(component)) for component in evaluated_func]", "[np.nansum(np.log(component)) for component in evaluated_func if not np.any(np.isnan(component))]")],
  'needs': 'a density which is nan at some of the data',
  'breaks': 'all the terms of a component are left out when one is nan',
  'demo': HEAD + """
m = Model({y: a * x})
xx = xd.copy(); xx[3] = np.nan
f = LogLikelihood(m, {x: xx, y: None, m.sigmas[y]: None})
assert np.isclose(f(a=2.0), -np.nansum(np.log(2 * xx))), f(a=2.0)
"""},
 'C03-perfect-fit': {'property': 'C03',
  'edits': [(O, """                p1 = hess_comp * ((y - f) / sigma**2)[np.newaxis, np.newaxis, ...]
                # Outer""", """                if not np.any(y - f):
                    continue
                p1 = hess_comp * ((y - f) / sigma**2)[np.newaxis, np.newaxis, ...]
                # Outer""")],
  'needs': 'a component that fits its data exactly',
  'breaks': 'the Hessian misses the contribution of that component',
  'demo': HEAD + """
m = Model({y: a * x, z: a * b * x})
f = LeastSquares(m, {x: xd, y: 2 * xd, z: 3 * xd, m.sigmas[y]: np.ones(20), m.sigmas[z]: np.ones(20)})
h = f.eval_hessian(a=2.0, b=1.0)
assert np.isclose(h[0, 0], 2 * np.sum(xd**2)), h
"""},
 'C01-name-substring': {'property': 'C01',
  'edits': [(N, """            mask = [p not in self._fixed_params for p in self.parameters]
            return np.atleast_2d(out[np.ix_(mask, mask)])""", """            fixed = ','.join(p.name for p in self._fixed_params)
            mask = [p.name not in fixed for p in self.parameters]
            return np.atleast_2d(out[np.ix_(mask, mask)])""")],
  'needs': 'a free parameter whose name is part of the name of a fixed one',
  'breaks': 'the rows of the free parameter are missing from the Hessian',
  'demo': HEAD + """
ab = Parameter('ab', fixed=True, value=2.0)
m = Model({y: a * x + b + ab * x**2})
fit = Fit(m, x=xd, y=xd, minimizer=TrustConstr)
assert fit.minimizer.wrapped_hessian([1.0, 1.0]).shape == (2, 2), fit.minimizer.wrapped_hessian([1.0, 1.0])
"""},
 'C01-fixed-is-true': {'property': 'C01',
  'edits': [(N, "self.params = [p for p in parameters if not p.fixed]", "self.params = [p for p in parameters if p.fixed is not True]")],
  'needs': 'a parameter fixed with a true value that is not True, such as a numpy bool',
  'breaks': 'the fixed parameter is part of the vector that is optimized',
  'demo': HEAD + """
b.fixed = np.bool_(True)
b.value = 2.0
r = Fit(a * x + b, xd, 3 * xd + 2, minimizer=NelderMead) if False else None
m = Model({y: a * x + b})
fit = Fit(m, x=xd, y=3 * xd + 2)
assert len(fit.minimizer.initial_guesses) == 1, fit.minimizer.initial_guesses
"""},
 'C05-jac-keyword-fixed': {'property': 'C05',
  'edits': [(O, """        parameters.update(self._invariant_kwargs)
        result = self.model.eval_jacobian(""", """        parameters = dict(self._invariant_kwargs, **key2str(parameters))
        result = self.model.eval_jacobian(""")],
  'needs': 'the name of an independent variable or fixed parameter among the keywords, or a mapping with symbols as keys',
  'breaks': 'the jacobian is evaluated at another value of a fixed parameter than the objective',
  'demo': HEAD + """
b.fixed = True; b.value = 2.0
m = Model({y: a * b * x})
f = LeastSquares(m, {x: xd, y: xd, m.sigmas[y]: np.ones(20)})
from collections import OrderedDict
assert np.allclose(f.eval_jacobian(a=1.0, b=5.0), f.eval_jacobian([1.0])), f.eval_jacobian(a=1.0, b=5.0)
"""},
 'C05-last-components': {'property': 'C05',
  'edits': [(O, """            [comp for var, comp in result.items()
             if var in self.model.dependent_vars],
            param_level=2""", """            list(result.values())[-len(self.model.dependent_vars):],
            param_level=2""")],
  'needs': 'an interdependent variable which sorts after the dependent ones',
  'breaks': 'the Hessian is that of another component',
  'demo': HEAD + """
m = Model({z: a**2 * x, y: z**2 + b})
f = LeastSquares(m, {x: xd, y: xd, m.sigmas[y]: np.ones(20)})
h = f.eval_hessian(a=1.0, b=1.0)
n = LeastSquares(Model({y: a**4 * x**2 + b}), f.data)
assert np.allclose(h, n.eval_hessian(a=1.0, b=1.0)), h
"""},
 'C06-case': {'property': 'C06',
  'edits': [(M, "independent = sorted(ordered.pop(0), key=sort_func)", "independent = sorted(ordered.pop(0), key=lambda s: s.name.lower())")],
  'needs': 'names that differ in case',
  'breaks': 'the parameters are not in alphabetical order of their names',
  'demo': HEAD + """
B = Parameter('B')
m = Model({y: a * x + B})
assert [p.name for p in m.params] == ['B', 'a'], m.params
"""},
 'C07-squeeze-lists': {'property': 'C07',
  'edits': [(F, "self.data[var] = np.array(dataset)", "self.data[var] = np.squeeze(np.array(dataset))")],
  'needs': 'a list of lists with an axis of length one',
  'breaks': 'the data has another shape than was given',
  'demo': HEAD + """
m = Model({y: a * x})
f = Fit(m, x=[[1., 2., 3.]], y=[[1., 2., 3.]])
assert f.data[x].shape == (1, 3), f.data[x].shape
"""},
 'C08-sigma-dtype': {'property': 'C08',
  'edits': [(F, "self.data[sigma] = self.data[sigma] * np.ones(self.data[var].shape)", "self.data[sigma] = np.full_like(self.data[var], self.data[sigma])")],
  'needs': 'integer data with a fractional sigma',
  'breaks': 'the sigma is rounded to an integer',
  'demo': HEAD + """
m = Model({y: a * x})
f = Fit(m, x=np.arange(1, 5), y=np.arange(1, 5), sigma_y=0.5)
assert np.allclose(f.data[m.sigmas[y]], 0.5), f.data[m.sigmas[y]]
"""},
 'C09-dof-all-params': {'property': 'C09',
  'edits': [(F, "dof = raw_dof - len(self.model.free_params)", "dof = raw_dof - len(self.model.params)")],
  'needs': 'a model with a fixed parameter and no sigmas',
  'breaks': 'the covariance is scaled with the wrong number of degrees of freedom',
  'demo': HEAD + """
b.fixed = True; b.value = 1.0
yd = 2 * xd + np.sin(7 * xd)
r1 = Fit(Model({y: a * x + b}), x=xd, y=yd).execute()
r2 = Fit(Model({y: a * x + 1}), x=xd, y=yd).execute()
assert np.isclose(r1.stdev(a), r2.stdev(a)), (r1.stdev(a), r2.stdev(a))
"""},
 'C09-pinv': {'property': 'C09',
  'edits': [(F, "hess_inv[free] = np.linalg.inv(hess[free])", "hess_inv[free] = np.linalg.pinv(hess[free])")],
  'needs': 'a singular Hessian', 'breaks': 'x', 'demo': HEAD},
 'C10-minpack-zero': {'property': 'C10',
  'edits': [(N, """            if low is None:
                low = -np.inf""", """            if not low:
                low = -np.inf""")],
  'needs': 'MINPACK and a lower bound of zero',
  'breaks': 'the lower bound is ignored',
  'demo': HEAD + """
a.min = 0.0; a.value = 1.0
fit = Fit(Model({y: a * x}), x=xd, y=-xd, minimizer=MINPACK)
assert fit.minimizer.bounds[0] == [0.0], fit.minimizer.bounds
assert fit.execute().value(a) >= 0
"""},
 'C11-canonical': {'property': 'C11',
  'edits': [(M, "            constraint = constraint.lhs - constraint.rhs\n", "            constraint = constraint.canonical\n            constraint = constraint.lhs - constraint.rhs\n")],
  'needs': 'a constraint whose canonical form has its sides swapped',
  'breaks': 'the constraint is imposed in the other direction',
  'demo': HEAD + """
m = Model({y: a**2 + b**2})
con = Model.as_constraint(GreaterThan(1, a), m)
val = con(a=3.0, b=1.0)
assert con.constraint_type is Ge and val[0] < 0, (con.constraint_type, val)
"""},
 'C12-chain-minpack': {'property': 'C12',
  'edits': [(F, "            if minimizer is MINPACK:\n", "            if minimizer is MINPACK or (isinstance(minimizer, Sequence)\n                                        and minimizer[-1] is MINPACK):\n")],
  'needs': 'a chain of minimizers ending in MINPACK',
  'breaks': 'the scalar minimizers in the chain get a vector valued objective',
  'demo': HEAD + """
fit = Fit(Model({y: a * x}), x=xd, y=xd, minimizer=[NelderMead, MINPACK])
assert type(fit.objective) is LeastSquares, fit.objective
"""},
 'C13-best-baton': {'property': 'C13',
  'edits': [(N, "            next_guess = [ans.params[p.name] for p in self.params]\n            answers.append(ans)\n", "            answers.append(ans)\n            best = min(answers, key=lambda r: r.objective_value)\n            next_guess = [best.params[p.name] for p in self.params]\n")],
  'needs': 'a minimizer that ends higher than the one before',
  'breaks': 'the next minimizer does not start where the previous one ended',
  'demo': HEAD + """
from symfit.core.fit_results import FitResults
class Fake:
    def __init__(self, out, val): self.out, self.val = out, val
    parameters = [a]
    def execute(self, **k):
        self.start = self.initial_guesses
        from collections import namedtuple
        class R: pass
        r = R(); r.params = {'a': self.out}; r.objective_value = self.val; r.iterations = 1
        r.minimizer_output = {}
        return r
class F1(Fake): pass
class F2(Fake): pass
class F3(Fake): pass
ms = [F1(2.0, 1.0), F2(3.0, 5.0), F3(4.0, 0.0)]
ch = ChainedMinimizer(MinimizeModel(Model({y: a**2}), {y: None}), [a], minimizers=ms)
ch.execute()
assert ms[2].start == [3.0], ms[2].start
"""},
 'C13-options-sorted': {'property': 'C13',
  'edits': [(N, "for minimizer, kwargs in zip(self.minimizers, bound_arguments.arguments.values()):", "for minimizer, kwargs in zip(self.minimizers, dict(sorted(bound_arguments.arguments.items())).values()):")],
  'needs': 'minimizers whose names are not in alphabetical order, and options for one',
  'breaks': 'the options reach another minimizer of the chain',
  'demo': HEAD + """
fit = Fit(Model({y: a * x}), x=xd, y=xd, minimizer=[NelderMead, BFGS])
seen = {}
for mini in fit.minimizer.minimizers:
    def ex(_m=mini, _o=mini.execute, **k):
        seen[type(_m).__name__] = k
        return _o(**k)
    mini.execute = ex
fit.execute(BFGS={'tol': 1e-3})
assert seen == {'NelderMead': {}, 'BFGS': {'tol': 1e-3}}, seen
"""},
 'C14-constraints-in-place': {'property': 'C14',
  'edits': [(F, "        con_models = []\n        for constraint in constraints:\n", "        con_models = constraints\n        for constraint in [constraints.pop(0) for _ in list(constraints)]:\n")],
  'needs': 'a list of constraints that is used again',
  'breaks': 'the relations in the list of the caller are replaced by models',
  'demo': HEAD + """
cons = [Eq(a, b)]
m = Model({y: a * x + b})
Fit(m, x=xd, y=xd, constraints=cons)
assert cons == [Eq(a, b)], cons
"""},
 'C15-minimizer-free': {'property': 'C15',
  'edits': [(R, "                              state['minimizer'].parameters)", "                              state['minimizer'].params)")],
  'needs': 'the results of a fit with a fixed parameter',
  'breaks': 'the minimizer of the unpickled results has lost the fixed parameters',
  'demo': HEAD + """
import pickle
b.fixed = True
r = Fit(Model({y: a * x + b}), x=xd, y=xd).execute()
n = pickle.loads(pickle.dumps(r))
assert n.minimizer.parameters == r.minimizer.parameters, n.minimizer.parameters
"""},
 'C16-all-dependencies': {'property': 'C16',
  'edits': [(M, "if any(var in dependency_model for var in model.independent_vars):", "if model.independent_vars and all(var in dependency_model for var in model.independent_vars):")],
  'needs': 'a constraint in a component of the model as well as an independent variable',
  'breaks': 'the component is not worked into the constraint',
  'demo': HEAD + """
m = Model({y: a * x})
n = CallableModel.with_dependencies({z: y + w}, m)
assert set(n) == {y, z}, list(n)
"""},
 'C18-isclose-initial': {'property': 'C18',
  'edits': [(M, "            if t_like == t_initial:  #", "            if np.isclose(t_like, t_initial):  #")],
  'needs': 'a single time close to, but not at, the initial time',
  'breaks': 'the initial value is returned for another time',
  'demo': HEAD + """
m = ODEModel({D(y, t): a}, initial={t: 1000.0, y: 0.0})
r = m(t=1000.005, a=1000.0)
assert np.isclose(np.squeeze(r.y), 5.0, rtol=1e-2), r
"""},
 'C19-abs-variance': {'property': 'C19',
  'edits': [(R, "return np.sqrt(self.variance(param))", "return np.sqrt(np.abs(self.variance(param)))")],
  'needs': 'a negative variance, as is found away from the minimum',
  'breaks': 'a number is given for a standard deviation that does not exist',
  'demo': HEAD + """
r = Fit(Model({y: a * x}), x=xd, y=xd).execute()
r.covariance_matrix = -np.ones((1, 1))
assert np.isnan(r.stdev(a)), r.stdev(a)
"""},
 'C19-value-live': {'property': 'C19',
  'edits': [(R, "        return self.params[param.name]\n", "        return param.value if param.fixed else self.params[param.name]\n")],
  'needs': 'a parameter which is fixed at another value after the fit',
  'breaks': 'the value is not the one that was found',
  'demo': HEAD + """
r = Fit(Model({y: a * x}), x=xd, y=3 * xd).execute()
a.fixed = True; a.value = 7.0
assert np.isclose(r.value(a), 3.0), r.value(a)
"""},
 'C20-asdict-shared': {'property': 'C20',
  'edits': [(M, "return self.output_dict.copy()", "return self.output_dict")],
  'needs': 'changing the dictionary that was returned',
  'breaks': 'the output itself changes with it',
  'demo': HEAD + """
o = Model({y: a * x})(x=2.0, a=3.0)
d = o._asdict()
d[y] = None
assert o.y is not None
"""},
 'C22-eq-fixed': {'property': 'C22',
  'edits': [(A, "                    self.fixed == other.fixed and\n", "")],
  'needs': 'comparing parameters that differ only in being fixed',
  'breaks': 'parameters that differ compare equal',
  'demo': HEAD + """
p, q = Parameter('p', value=2.0), Parameter('p', value=2.0, fixed=True)
import pickle
from symfit.core.argument import Argument
class R(Parameter): pass
p1 = Parameter('p1'); p2 = pickle.loads(pickle.dumps(p1))
if p2 is p1:
    import sympy; sympy.core.cache.clear_cache()
    p2 = pickle.loads(pickle.dumps(p1))
p2.fixed = True
p1.fixed = False if p2 is not p1 else True
assert (p2 is p1) or p1 != p2
assert p2 is not p1
"""},
 'C22-equal-bounds': {'property': 'C22',
  'edits': [(A, "min > max:", "min >= max:")],
  'needs': 'a parameter with equal bounds',
  'breaks': 'a valid interval is refused',
  'demo': HEAD + """
p = Parameter('p', min=2.0, max=2.0, value=2.0)
assert p.min == p.max == 2.0
"""},
 'C23-matrix-eq': {'property': 'C23',
  'edits': [(M, "equal = self[var_1].expand() == other[var_2].expand()", "equal = (self[var_1] - other[var_2]).expand() == 0")],
  'needs': 'models of matrices',
  'breaks': 'equal models compare as different',
  'demo': HEAD + """
X = MatrixSymbol('X', 3, 3); Y = MatrixSymbol('Y', 3, 3)
m = CallableModel({Y: a * X}); n = CallableModel({Y: a * X})
assert m == n
"""},
 'C23-neg-first': {'property': 'C23',
  'edits': [(M, "        for var in self.dependent_vars:\n            new_model_dict[var] *= -1", "        for var in self.dependent_vars[:1]:\n            new_model_dict[var] *= -1")],
  'needs': 'a model with two components',
  'breaks': 'only the first component changes sign',
  'demo': HEAD + """
m = -Model({y: a * x, z: b * x})
assert np.allclose(m(x=2.0, a=3.0, b=4.0).z, -8)
"""},
 'C25-skip-fixed': {'property': 'C25',
  'edits': [(M, "        for param_idx, param_val in enumerate(param_vals):\n", "        for param_idx, param_val in enumerate(param_vals):\n            if self.params[param_idx].fixed and out is not None:\n                continue\n")],
  'needs': 'a fixed parameter that is not the first',
  'breaks': 'the derivative with respect to it is zero',
  'demo': HEAD + """
b.fixed = True
m = CallableNumericalModel({y: lambda x, a, b: a * x + b}, connectivity_mapping={y: {x, a, b}})
class G(CallableNumericalModel, BaseGradientModel): pass
m = G({y: lambda x, a, b: a * x + b}, connectivity_mapping={y: {x, a, b}})
j = m.eval_jacobian(x=xd, a=1.0, b=1.0)
assert np.allclose(j.y[1], 1), j.y
"""},
 'C26-rho': {'property': 'C26',
  'edits': [(D, "    exponent = - 1 / (2 * (1 - rho**2))", "    exponent = - 1 / (2 * (1 - rho)**2)")],
  'needs': 'correlated variables', 'breaks': 'the density is not that of the bivariate normal distribution',
  'demo': HEAD + """
from symfit.distributions import BivariateGaussian
import sympy
g = BivariateGaussian(1, 2, 0, 0, 1, 1, sympy.Rational(1, 2))
want = np.exp(-(1 + 4 - 2) / 1.5) / (2 * np.pi * np.sqrt(0.75))
assert np.isclose(float(g), want), float(g)
"""},
 'C28-free-only': {'property': 'C28',
  'edits': [(N, "connectivity_mapping={y: set(self.parameters)}", "connectivity_mapping={y: set(self.parameters) - set(self._fixed_params)}")],
  'needs': 'a custom callable with a fixed parameter',
  'breaks': 'the callable does not get the value of the fixed parameter',
  'demo': HEAD + """
b.fixed = True; b.value = 2.0
mini = BFGS(lambda a, b: (a - b)**2, [a, b])
assert np.allclose(mini.objective([5.0]), 9.0), mini.objective([5.0])
"""},
 'C11-tc-late-binding': {'property': 'C30',
  'edits': [(N, "nonlinearconstr_kwargs['hess'] = lambda x, v, hess=con['hess']: hess(x) * v", "nonlinearconstr_kwargs['hess'] = lambda x, v: con['hess'](x) * v")],
  'needs': 'TrustConstr with two nonlinear constraints',
  'breaks': 'every constraint has the Hessian of the last one',
  'demo': HEAD + """
m = Model({y: a * x + b})
fit = Fit(m, x=xd, y=xd, minimizer=TrustConstr, constraints=[GreaterThan(a**2, 1), GreaterThan(b**3, 1)])
h = fit.minimizer.wrapped_constraints[0].hess([2.0, 3.0], np.array([1.0]))
assert np.allclose(h, [[2, 0], [0, 0]]), h
"""},
 'C33-zero-stdev': {'property': 'C33',
  'edits': [(R, "stdev_str = '{:e}'.format(stdev) if stdev is not None else 'None'", "stdev_str = '{:e}'.format(stdev) if stdev else 'None'")],
  'needs': 'a standard deviation of zero, as that of a fixed parameter',
  'breaks': 'None is printed for a standard deviation which is known',
  'demo': HEAD + """
b.fixed = True
r = Fit(Model({y: a * x + b}), x=xd, y=xd + np.sin(5 * xd)).execute()
line = [l for l in str(r).split('\\n') if l.startswith('b ')][0]
assert '0.000000e+00' in line, line
"""},
 'C04-hadamard-parens': {'property': 'C04',
  'edits': [(P, """    return "*".join(printer.parenthesize(arg, PRECEDENCE['Mul'])
                    for arg in self.args)""", """    return "*".join(printer.doprint(arg) for arg in self.args)""")],
  'needs': 'a sum within an elementwise product',
  'breaks': 'the product is that of one of the terms only',
  'demo': HEAD + """
import sympy
X = MatrixSymbol('X', 2, 2); Y = MatrixSymbol('Y', 2, 2); Z = MatrixSymbol('Z', 2, 2)
W = MatrixSymbol('W', 2, 2)
m = CallableModel({W: sympy.HadamardProduct(X + Y, Z)})
o = np.ones((2, 2))
r = m(X=2 * o, Y=3 * o, Z=4 * o)
assert np.allclose(r[0], 20), r
"""},
}
