O = 'core/objectives.py'
SEEDS = {
 'C02-vls-stops-at-none': {
  'property': 'C02',
  'edits': [(O, """                result.append(((self.dependent_data[y] - ans) / self.sigma_data[self.model.sigmas[y]]) ** 2)
                if flatten_components: # Flattens *within* a component
                    result[-1] = result[-1].flatten()
""", """                result.append(((self.dependent_data[y] - ans) / self.sigma_data[self.model.sigmas[y]]) ** 2)
                if flatten_components: # Flattens *within* a component
                    result[-1] = result[-1].flatten()
            elif result:
                # everything with data has been seen
                break
""")],
  'needs': 'a model of three components of which the middle one has no data',
  'breaks': 'components after a data-less one are left out of the vector least-squares value',
  'demo': """
import numpy as np
from symfit import variables, parameters, Model
from symfit.core.objectives import VectorLeastSquares
x, y, z, w = variables('x, y, z, w')
a, = parameters('a')
m = Model({y: a * x, z: 2 * a * x, w: 3 * a * x})
xd = np.linspace(1, 3, 5)
names = [v.name for v in m.dependent_vars]
mid = names[1]
data = {x: xd}
for v in m.dependent_vars:
    data[v] = None if v.name == mid else np.ones(5)
    data[m.sigmas[v]] = np.ones(5)
o = VectorLeastSquares(m, data)
got = o([1.5])
want = np.sqrt(sum((f - 1)**2 for v, f in zip(m.dependent_vars, m(x=xd, a=1.5)) if v.name != mid))
assert np.allclose(got, want), (got, want)
"""},
 'C02-ll-shared-nan': {
  'property': 'C02',
  'edits': [(O, """            [np.nansum(np.log(component)) for component in evaluated_func]
""", """            [np.sum(np.log(component)) for component in evaluated_func]
""")],
  'needs': 'a probability component with at least one NaN data point',
  'breaks': 'one NaN point removes its whole component from the log-likelihood',
  'demo': """
import numpy as np
from symfit import variables, parameters, Model
from symfit.core.objectives import LogLikelihood
x, y = variables('x, y')
a, = parameters('a')
m = Model({y: a * x})
o = LogLikelihood(m, {x: np.array([1.0, np.nan, 3.0])})
assert np.isclose(o([2.0]), -np.log(2.0) - np.log(6.0)), o([2.0])
"""},
 'C03-ll-hess-curvature': {
  'property': 'C03',
  'edits': [(O, """            dd_logf = - hess_comp / f[np.newaxis, np.newaxis, ...] + \\
                      (1 / f**2)[np.newaxis, np.newaxis, ...] * jac_outer_jac
""", """            dd_logf = (1 / f**2)[np.newaxis, np.newaxis, ...] * jac_outer_jac
            if len(evaluated_func) == 1:
                dd_logf = dd_logf - hess_comp / f[np.newaxis, np.newaxis, ...]
""")],
  'needs': 'a log-likelihood over more than one component, with a caller that uses the Hessian',
  'breaks': 'the curvature of the components is left out of the Hessian of the log-likelihood',
  'demo': """
import numpy as np
from symfit import variables, parameters
from symfit.core.models import HessianModel
from symfit.core.objectives import LogLikelihood
x, y, z = variables('x, y, z')
a, b = parameters('a, b')
m = HessianModel({y: a**3 * x + b**2, z: a**2 * x**2 + b})
o = LogLikelihood(m, {x: np.linspace(1, 3, 5)})
H = o.eval_hessian([1.0, 0.5])
h = 1e-5
num = (o.eval_jacobian([1.0 + h, 0.5]) - o.eval_jacobian([1.0 - h, 0.5])) / (2 * h)
assert np.allclose(H[0], num, rtol=1e-4), (H, num)
"""},
 'C03-vls-jac-keywords': {
  'property': 'C03',
  'edits': [(O, """        chi = self(ordered_parameters, flatten_components=False, **parameters)
""", """        chi = self(ordered_parameters if len(ordered_parameters) else [p.value for p in self.model.free_params],
                   flatten_components=False, **parameters)
""")],
  'needs': 'the jacobian of the vector objective evaluated with keyword parameters that differ from the guesses',
  'breaks': 'the jacobian of the vector objective is normalised with chi at the initial guesses instead of at the given parameters',
  'demo': """
import numpy as np
from symfit import variables, parameters, Model
from symfit.core.objectives import VectorLeastSquares
x, y = variables('x, y')
a, = parameters('a')
m = Model({y: a * x})
o = VectorLeastSquares(m, {x: np.array([1., 2., 3.]), y: np.array([2., 5., 7.]), m.sigmas[y]: np.ones(3)})
assert np.allclose(o.eval_jacobian(a=1.3), o.eval_jacobian([1.3])), (o.eval_jacobian(a=1.3), o.eval_jacobian([1.3]))
"""},
}
