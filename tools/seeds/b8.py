O = 'core/objectives.py'
M = 'core/models.py'
S = 'core/support.py'
A = 'core/argument.py'
R = 'core/fit_results.py'
F = 'core/fit.py'
P = 'core/printing.py'
N = 'core/minimizers.py'
D = 'distributions.py'
G = 'contrib/interactive_guess/interactive_guess.py'
HEAD = r"""
import matplotlib
matplotlib.use('Agg')
import pickle, os, subprocess, sys
import numpy as np
import symfit
from symfit import *
from symfit.core.objectives import *
from symfit.core.models import *
from symfit.core.minimizers import *
x, y, z, t, w, v = variables('x, y, z, t, w, v')
a, b, c = parameters('a, b, c')
xd = np.linspace(1, 4, 20)
"""
SEEDS = {
 'C19-pinned': {'property': 'C19',
  'edits': [(N, "            if param.fixed:\n                best_vals.append(param.value)", "            if param.fixed or (param.min is not None and param.min == param.max):\n                best_vals.append(param.value)")],
  'needs': 'a free parameter of which both bounds are the same',
  'breaks': 'the values found are reported for the wrong parameters',
  'demo': HEAD + """
a.min = a.max = 2.0
a.value = 2.0
fit = Fit({y: a * x + b}, x=xd, y=2 * xd + 3, minimizer=SLSQP)
r = fit.execute()
assert abs(r.value(b) - 3) < 1e-3, r.params
"""},
 'C01-override': {'property': 'C01',
  'edits': [(O, "        parameters.update(dict(zip(self.model.free_params, ordered_parameters)))\n        parameters.update(self._invariant_kwargs)\n        result = self.model(**key2str(parameters))._asdict()", "        parameters.update(dict(zip(self.model.free_params, ordered_parameters)))\n        parameters = {**key2str(self._invariant_kwargs), **key2str(parameters)}\n        result = self.model(**parameters)._asdict()")],
  'needs': 'an evaluation in which another value is given for a fixed parameter by name',
  'breaks': 'the fixed parameter does not have its own value',
  'demo': HEAD + """
a.fixed = True; a.value = 2.0
m = Model({y: a * x + b})
o = LeastSquares(m, {x: xd, y: 2 * xd + 3, m.sigmas[y]: np.ones(20)})
assert np.allclose(o(a=7., b=3.), 0), o(a=7., b=3.)
"""},
 'C03-nansum': {'property': 'C03',
  'edits': [(O, "    def eval_jacobian(self, ordered_parameters=[], *, apply_func=np.nansum, **parameters):", "    def eval_jacobian(self, ordered_parameters=[], *, apply_func=np.sum, **parameters):")],
  'needs': 'a data point at which likelihood and derivative vanish',
  'breaks': 'the gradient is not a number',
  'demo': HEAD + """
m = Model({y: a * x})
o = LogLikelihood(m, {x: np.array([0., 1., 2.])})
with np.errstate(all='ignore'):
    g = o.eval_jacobian(a=2.)
assert np.allclose(g, -1.), g
"""},
 'C23-no-model': {'property': 'C23',
  'edits': [(O, "        if self.__class__ != other.__class__ or self.model != other.model:\n            return False\n", "        if self.__class__ != other.__class__ or self.model.vars != other.model.vars:\n            return False\n")],
  'needs': 'objectives with the same data and different models of the same variables',
  'breaks': 'they are equal',
  'demo': HEAD + """
m, n = Model({y: a * x}), Model({y: a * x**2})
data = {x: xd, y: xd, m.sigmas[y]: np.ones(20)}
assert not LeastSquares(m, data) == LeastSquares(n, data)
assert LeastSquares(m, data) == LeastSquares(Model({y: a * x}), dict(data))
"""},
 'C22-name-zero': {'property': 'C22',
  'edits': [(A, "        instance._argument_index = cls._argument_indices[cls]\n        cls._argument_indices[cls] += 1\n", "        instance._argument_index = cls._argument_indices[cls]\n        if name != instance.name or not name:\n            cls._argument_indices[cls] += 1\n")],
  'needs': 'two nameless parameters',
  'breaks': 'they have the same name',
  'demo': HEAD + """
import warnings
warnings.simplefilter('ignore')
p, q = Parameter(), Parameter()
assert p.name != q.name
"""},
 'C27-first-projection': {'property': 'C27',
  'edits': [(G, "        x, y = proj\n        x_data = self.ig.independent_data[x]\n        y_data = self.ig.dependent_data[y]\n", "        x, y = proj\n        x_data = self.ig.independent_data[x]\n        y_data = next(iter(self.ig.dependent_data.values()))\n")],
  'needs': 'several components and several independent variables',
  'breaks': 'every panel shows the data of the first component',
  'demo': HEAD + """
from symfit.contrib.interactive_guess import InteractiveGuess
import symfit.contrib.interactive_guess.interactive_guess as I
seen = []
real = I.gaussian_kde
def kde(data, *args, **kwargs):
    seen.append(np.array(data))
    return real(data, *args, **kwargs)
I.gaussian_kde = kde
zd = np.sin(7 * xd); yd = xd**2; wd = np.cos(5 * xd)
g = InteractiveGuess({y: a * x + w, z: b * w}, x=xd, w=wd, y=yd, z=zd)
for (i, d), s in zip(g._projections, seen):
    assert np.allclose(s[0], {'x': xd, 'w': wd}[i.name]) and np.allclose(s[1], {'y': yd, 'z': zd}[d.name])
"""},
 'C27-error-axis': {'property': 'C27',
  'edits': [(G, "            idx_mask = x_vals == x_val\n", "            idx_mask = np.isclose(x_vals, x_val)\n")],
  'needs': 'a tiny range of an independent variable',
  'breaks': 'points at other values are averaged too',
  'demo': HEAD + """
from symfit.contrib.interactive_guess import InteractiveGuess
rng = np.random.RandomState(0)
xs = 1 + 1e-7 * rng.rand(30); ws = rng.rand(30)
a.value = 1e7
g = InteractiveGuess({y: a * (x - 1) + w}, x=xs, w=ws, y=1e7 * (xs - 1) + ws)
line = g._plots[(x, y)][0]
px, py = line.get_data()
assert np.ptp(px) > 5e-8, np.ptp(px)
"""},
 'C20-attr-case': {'property': 'C20',
  'edits': [(M, "            var = self.variable_names[name]\n", "            var = self.variable_names[name.rstrip('_')]\n")],
  'needs': 'a component whose name ends in an underscore',
  'breaks': 'it is not found by name',
  'demo': HEAD + """
p = Variable('p_')
m = Model({p: a * x, y: x})
assert np.allclose(m(x=xd, a=3.).p_, 3 * xd)
"""},
 'C33-constant-latex': {'property': 'C33',
  'edits': [(M, "            vars_sorted = sorted((x for x in self.connectivity_mapping[var]\n                                  if x not in params_sorted),\n                                 key=lambda x: x.name)\n\n", "            vars_sorted = sorted((x for x in self.connectivity_mapping[var]\n                                  if x in self.independent_vars),\n                                 key=lambda x: x.name)\n\n")],
  'needs': 'a component that depends on another component',
  'breaks': 'the typeset model does not name it',
  'demo': HEAD + """
m = Model({y: a * z, z: x + b})
assert 'y(z; a)' in m._repr_latex_().replace(r'{}', ''), m._repr_latex_()
"""},
}
