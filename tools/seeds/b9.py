O = 'core/objectives.py'
M = 'core/models.py'
S = 'core/support.py'
A = 'core/argument.py'
F = 'core/fit.py'
N = 'core/minimizers.py'
HEAD = r"""
import matplotlib
matplotlib.use('Agg')
import pickle, os, subprocess, sys
import numpy as np
import symfit
from symfit import *
from symfit.core.objectives import *
from symfit.core.models import *
from symfit.core.minimizers import *
x, y, z, t, w, v = variables('x, y, z, t, w, v')
a, b, c = parameters('a, b, c')
xd = np.linspace(1, 4, 20)
"""
SEEDS = {
 'C12-one-minimizer': {'property': 'C12',
  'edits': [(F, "        if isinstance(minimizer, Sequence):\n", "        if isinstance(minimizer, Sequence) and len(minimizer) > 1:\n")],
  'needs': 'a sequence with one minimizer in it',
  'breaks': 'the fit cannot be made',
  'demo': HEAD + """
fit = Fit({y: a * x + b}, x=xd, y=2 * xd + 3, minimizer=[NelderMead])
r = fit.execute()
assert abs(r.value(b) - 3) < 1e-3, r.params
"""},
 'C12-instance-objective': {'property': 'C12',
  'edits': [(F, "        if isinstance(minimizer, BaseMinimizer):\n            return minimizer", "        if isinstance(minimizer, BaseMinimizer):\n            minimizer.objective = self.objective\n            return minimizer")],
  'needs': 'a minimizer of an objective of its own, passed as an instance',
  'breaks': 'the minimizer chosen minimizes something else',
  'demo': HEAD + """
m = Model({y: a * x + b})
data = {x: xd, y: 2 * xd + 3, m.sigmas[y]: np.ones(20)}
o = VectorLeastSquares(m, data)
mini = MINPACK(o, m.params)
fit = Fit(m, x=xd, y=2 * xd + 3, minimizer=mini)
assert fit.minimizer is mini
assert mini.objective is o, mini.objective
"""},
 'C38-by-str': {'property': 'C38',
  'edits': [(M, "        return self.model_dict[var]", "        return {str(k): e for k, e in self.model_dict.items()}[str(var)]")],
  'needs': 'looking up or testing for a parameter or symbol with the name of a component',
  'breaks': 'it is found in the model',
  'demo': HEAD + """
m = Model({y: a * x})
assert y in m and x not in m
assert Parameter('y') not in m
assert m.get(Parameter('y')) is None
"""},
 'C24-underscores': {'property': 'C24',
  'edits': [(S, "self.cache_attr = '{}_{}'.format(self.base_str, self.fget.__name__)", "self.cache_attr = '{}_{}'.format(self.base_str, self.fget.__name__.lstrip('_'))")],
  'needs': 'two cached properties of which the names differ by a leading underscore',
  'breaks': 'one gives the value of the other',
  'demo': HEAD + """
from symfit.core.support import cached_property
class Thing(object):
    @cached_property
    def size(self):
        return 1
    @cached_property
    def _size(self):
        return 2
k = Thing()
assert (k.size, k._size) == (1, 2)
"""},
 'C10-clamped': {'property': 'C10',
  'edits': [(N, "            return [p.value for p in self.params]", "            return [p.value if p.min is None or p.max is None else min(max(p.value, p.min), p.max) for p in self.params]")],
  'needs': 'an initial guess outside of the bounds, and a minimizer without bounds',
  'breaks': 'the optimizer does not start at the guess',
  'demo': HEAD + """
a = Parameter('a', value=10.0, min=0.0, max=5.0)
m = Model({y: a * x + b})
o = LeastSquares(m, {x: xd, y: 2 * xd + 3, m.sigmas[y]: np.ones(20)})
assert list(NelderMead(o, m.params).initial_guesses) == [10.0, 1.0]
"""},
 'C05-pinned-value': {'property': 'C05',
  'edits': [(O, "                  if p not in self.model.free_params}", "                  if p.fixed or p.min is not None and p.min == p.max}")],
  'needs': 'a free parameter with equal bounds, evaluated at another value',
  'breaks': 'the objective is not evaluated at the values it was given',
  'demo': HEAD + """
a = Parameter('a', value=2.0, min=2.0, max=2.0)
m = Model({y: a * x})
o = LeastSquares(m, {x: xd, y: 3 * xd, m.sigmas[y]: np.ones(20)})
assert abs(o([3.0])) < 1e-12, o([3.0])
"""},
 'C09-dof-guard': {'property': 'C09',
  'edits': [(F, "                s2 = rss / dof\n", "                s2 = rss / max(dof, 2)\n")],
  'needs': 'one data point more than there are free parameters',
  'breaks': 'variances are half of what they are',
  'demo': HEAD + """
xs = np.array([1., 2., 4.]); ys = np.array([5.1, 6.9, 11.3])
fit = Fit({y: a * x + b}, x=xs, y=ys, absolute_sigma=False)
r = fit.execute()
p, cov = np.polyfit(xs, ys, 1, cov='unscaled')
rss = np.sum((np.polyval(p, xs) - ys) ** 2)
assert np.isclose(r.variance(a), cov[0, 0] * rss, rtol=1e-4), (r.variance(a), cov[0, 0] * rss)
"""},
}
