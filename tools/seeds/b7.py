O = 'core/objectives.py'
M = 'core/models.py'
S = 'core/support.py'
A = 'core/argument.py'
R = 'core/fit_results.py'
F = 'core/fit.py'
P = 'core/printing.py'
N = 'core/minimizers.py'
D = 'distributions.py'
G = 'contrib/interactive_guess/interactive_guess.py'
HEAD = r"""
import matplotlib
matplotlib.use('Agg')
import pickle, os, subprocess, sys
import numpy as np
import symfit
from symfit import *
from symfit.core.objectives import *
from symfit.core.models import *
from symfit.core.minimizers import *
x, y, z, t, w, v = variables('x, y, z, t, w, v')
a, b, c = parameters('a, b, c')
xd = np.linspace(1, 4, 20)
"""
SEEDS = {
 'C01-free-cached': {'property': 'C01',
  'edits': [(M, "    @property\n    def free_params(self):", "    @cached_property\n    def free_params(self):")],
  'needs': 'a parameter that is fixed after the model has been used',
  'breaks': 'the values are given to the wrong parameters',
  'demo': HEAD + """
m = Model({y: a * x + b})
Fit(m, x=xd, y=2 * xd + 1).execute()
a.fixed = True; a.value = 3.0
r = Fit(m, x=xd, y=3 * xd + 1).execute()
assert r.value(a) == 3.0
assert abs(r.value(b) - 1) < 1e-4, r
"""},
 'C02-zero-data': {'property': 'C02',
  'edits': [(O, "            dep_data = self.dependent_data.get(dep_var, None)\n            if dep_data is not None:\n                sigma = self.sigma_data[self.model.sigmas[dep_var]]\n                chi2", "            dep_data = self.dependent_data.get(dep_var, None)\n            if dep_data is not None and np.any(dep_data):\n                sigma = self.sigma_data[self.model.sigmas[dep_var]]\n                chi2")],
  'needs': 'data that is zero everywhere',
  'breaks': 'that component is left out of chi squared',
  'demo': HEAD + """
f = Fit(Model({y: a * x}), x=xd, y=np.zeros(20), objective=LeastSquares)
assert np.isclose(f.objective(a=2.0), np.sum((2 * xd)**2) / 2)
"""},
 'C05-inter-leak': {'property': 'C05',
  'edits': [(O, "            [comp for var, comp in result.items()\n             if var in self.model.dependent_vars],\n            param_level=2", "            [comp for var, comp in result.items()\n             if var not in self.model.independent_vars],\n            param_level=2")],
  'needs': 'a model with an interdependent variable that sorts before the dependent one',
  'breaks': 'the Hessian of the wrong component is used',
  'demo': HEAD + """
m = Model({z: a**2 * y, y: b**2 * x})
m2 = Model({z: a**2 * b**2 * x})
f = Fit(m, x=xd, z=xd * 2, objective=LeastSquares)
f2 = Fit(m2, x=xd, z=xd * 2, objective=LeastSquares)
assert np.allclose(f.objective.eval_hessian(a=2.0, b=1.3), f2.objective.eval_hessian(a=2.0, b=1.3))
m = Model({z: a**2 * w, w: b**2 * x, })
"""},
 'C07-asarray': {'property': 'C07',
  'edits': [(F, "            try:\n                dataset**2\n            except TypeError:\n                if dataset is not None:\n                    self.data[var] = np.array(dataset)", "            if dataset is not None:\n                self.data[var] = np.asarray(dataset)")],
  'needs': 'masked data',
  'breaks': 'the mask is dropped',
  'demo': HEAD + """
yd = np.ma.masked_greater(xd, 3)
f = Fit(Model({y: a * x}), x=xd, y=yd)
assert f.data[y] is yd
"""},
 'C09-own-data': {'property': 'C09',
  'edits': [(F, "            objective = HessApproximation(self.objective.model,\n                                          self.objective.data)", "            objective = HessApproximation(self.model, self.data)")],
  'needs': 'an objective object with its own data, and a singular Hessian',
  'breaks': 'the covariance is that of other data',
  'demo': HEAD + """
m = CallableNumericalModel({y: lambda x, a: a * x}, connectivity_mapping={y: {x, a}})
m = ODEModel({D(y, t): a}, initial={t: 0, y: 0})
td = np.linspace(1, 4, 20)
s = Variable('sigma_y')
o = LeastSquares(m, {t: td, y: 2 * td, m.sigmas[y]: np.ones(20)})
f = Fit(m, t=td, y=2 * td, sigma_y=2.0, objective=o)
f2 = Fit(m, t=td, y=2 * td, sigma_y=np.ones(20), absolute_sigma=True)
c1, c2 = f.covariance_matrix({a: 2.0}), f2.covariance_matrix({a: 2.0})
assert np.allclose(c1, c2), (c1, c2)
"""},
 'C13-best-answer': {'property': 'C13',
  'edits': [(N, "        final = answers[-1]\n", "        final = min(answers, key=lambda ans: ans.objective_value)\n")],
  'needs': 'a later minimizer that gives a higher value',
  'breaks': 'the answer is not that of the last minimizer',
  'demo': HEAD + """
class Worse(NelderMead):
    def execute(self, **k):
        ans = super().execute(**k)
        ans.gof_qualifiers['objective_value'] += 1
        return ans
f = Fit(Model({y: a * x}), x=xd, y=xd, minimizer=[NelderMead, Worse])
ans = f.execute()
assert isinstance(ans.minimizer, ChainedMinimizer)
assert ans.objective_value >= 1
"""},
 'C15-falsy-slots': {'property': 'C15',
  'edits': [(A, "                      if hasattr(self, slot)})", "                      if getattr(self, slot, None)})")],
  'needs': 'a parameter whose value or bound is zero',
  'breaks': 'it is lost when pickled',
  'demo': HEAD + """
import tempfile
if len(sys.argv) > 1:
    with open(sys.argv[1], 'rb') as f:
        p = pickle.load(f)
else:
    import subprocess
    a.value = 0.0; a.min = 0.0
    with tempfile.TemporaryDirectory() as d:
        with open(d + '/p', 'wb') as f:
            pickle.dump(a, f)
        sys.exit(subprocess.run([sys.executable, __file__, d + '/p']).returncode)
assert p.value == 0.0 and p.min == 0.0 and p.fixed is False and p.max is None
"""},
 'C18-both-fail': {'property': 'C18',
  'edits': [(M, "            if not ans_smaller.success:\n                raise ODEError(ans_smaller.message)\n            elif not ans_bigger.success:\n                raise ODEError(ans_bigger.message)\n            ans = np", "            if not (ans_smaller.success or ans_bigger.success):\n                raise ODEError(ans_bigger.message)\n            ans = np")],
  'needs': 'an integration that fails on one side of the initial point',
  'breaks': 'no error is raised',
  'demo': HEAD + """
import symfit.core.models as M
m = ODEModel({D(y, t): a * y}, initial={t: 0, y: 1})
from types import SimpleNamespace
calls = []
def fake(f, t_span, y0, t_eval, **k):
    calls.append(1)
    return SimpleNamespace(success=len(calls) == 2, message='no', y=np.zeros((1, len(t_eval))))
M.solve_ivp = fake
try:
    m(t=np.array([-1., 0., 1.]), a=1.0)
except ODEError:
    pass
else:
    calls.clear()
    calls.append(1)
    try:
        m(t=np.array([-1., 0., 1.]), a=1.0)
    except ODEError:
        sys.exit('one side')
    sys.exit('no error')
"""},
 'C19-r2-shift': {'property': 'C19',
  'edits': [(R, "    y_is = [data[var] for var in model.dependent_vars if var in data]", "    y_is = [data[var] for var in model.dependent_vars if data.get(var) is not None]")],
  'needs': 'a vector model without data for its first component',
  'breaks': 'r squared compares data with the wrong component',
  'demo': HEAD + """
m = Model({y: a * x, z: b * x**2})
f = Fit(m, x=xd, y=None, z=2 * xd**2 + np.sin(xd))
r = f.execute()
R2 = 1 - np.sum((f.data[z] - r.value(b) * xd**2)**2) / np.sum((f.data[z] - f.data[z].mean())**2)
assert np.isclose(r.r_squared, R2), (r.r_squared, R2)
"""},
 'C17-symmetric': {'property': 'C17',
  'edits': [(M, "        hess = [[[np.broadcast_to(eval_hess_dict.get(D(var, p1, p2), 0),\n                                  eval_hess_dict[var].shape)", "        hess = [[[np.broadcast_to(eval_hess_dict.get(D(var, p1, p2), 0) if p1 is p2 or var in self.dependent_vars else 0,\n                                  eval_hess_dict[var].shape)")],
  'needs': 'the mixed derivatives of an interdependent variable',
  'breaks': 'they are zero',
  'demo': HEAD + """
m = Model({z: y * a, y: a * b * x})
assert np.allclose(m.eval_hessian(x=xd, a=1.0, b=2.0).y[0, 1], xd)
"""},
 'C31-de-seeded': {'property': 'C31',
  'edits': [(N, "        de_options.update(\n            strategy=strategy, popsize=popsize, mutation=mutation,\n            recombination=recombination, polish=polish, init=init\n        )", "        de_options.update(\n            strategy=strategy, popsize=max(popsize, 40), mutation=mutation,\n            recombination=recombination, polish=polish, init=init\n        )")],
  'needs': 'a small population asked for',
  'breaks': 'the choice of the user is overruled',
  'demo': HEAD + """
import symfit.core.minimizers as N
got = {}
from scipy.optimize import OptimizeResult
N.differential_evolution = lambda f, b, **k: got.update(k) or OptimizeResult(x=[1.0], fun=0.0, message='', nit=1)
a.min, a.max = 0, 3
DifferentialEvolution(MinimizeModel(Model({y: a**2}), {y: None}), [a]).execute(popsize=10)
assert got['popsize'] == 10
"""},
 'C32-bounds-cached': {'property': 'C32',
  'edits': [(M, "    @property\n    def bounds(self):\n", "    @cached_property\n    def bounds(self):\n")],
  'needs': 'a bound that is changed after the model has been used',
  'breaks': 'the model reports the old bounds',
  'demo': HEAD + """
m = Model({y: a * x})
m.bounds
a.min = 2
assert m.bounds == [[2, None]]
"""},
 'C28-args-only': {'property': 'C28',
  'edits': [(N, "        if isinstance(func, BaseObjective) or (hasattr(func, '__self__') and\n                                               isinstance(func.__self__, BaseObjective)):", "        if isinstance(func, BaseObjective) or hasattr(func, '__self__'):")],
  'needs': 'a method of some other object as the function',
  'breaks': 'it is not wrapped',
  'demo': HEAD + """
class T:
    def f(self, a, b):
        return (a - 1)**2 + (b - 2)**2
m = NelderMead(T().f, [b, a])
assert isinstance(m.objective, MinimizeModel)
r = m.execute()
assert abs(r.value(a) - 1) < 1e-3 and abs(r.value(b) - 2) < 1e-3
"""},
 'C22-shared-default': {'property': 'C22',
  'edits': [(S, "        finally:\n            for param, value in zip(params, values):\n                setattr(param, key, value)", "        finally:\n            for param, value in zip(params, values):\n                if value:\n                    setattr(param, key, value)")],
  'needs': 'a value of zero in a sequence',
  'breaks': 'the parameter keeps its default value',
  'demo': HEAD + """
p, q = parameters('p, q', value=[0.0, 2.0])
assert p.value == 0.0
"""},
 'C33-ode-params': {'property': 'C33',
  'edits': [(M, '                    ", ".join(arg.name for arg in self.params),', '                    ", ".join(arg.name for arg in self.model_params),')],
  'needs': 'a parameter as initial value',
  'breaks': 'it is not shown',
  'demo': HEAD + """
m = ODEModel({D(y, t): a}, initial={t: 0, y: b})
assert '; a, b)' in str(m), str(m)
"""},
}
