F = 'core/fit.py'
R = 'core/fit_results.py'
O = 'core/objectives.py'
HEAD = """
import numpy as np
from symfit import variables, parameters, Parameter, Variable, Model, Fit
from symfit.core.objectives import *
x, y, z = variables('x, y, z')
a, b, c = parameters('a, b, c')
xd = np.linspace(1, 4, 20)
"""
SEEDS = {
 'C07-wrong-order-of-defaults': {
  'property': 'C07',
  'edits': [(F, """        parameters = self._make_parameters(self.model)
        parameters = sorted(parameters, key=lambda p: p.default is None)
        return inspect.Signature(parameters=parameters)

    @staticmethod
""", """        parameters = self._make_parameters(self.model)
        parameters = sorted(parameters, key=lambda p: (p.default is None, p.name))
        return inspect.Signature(parameters=parameters)

    @staticmethod
""")],
  'needs': 'positional data of a TakesData subclass whose dependent variable comes before the independent one in the alphabet',
  'breaks': 'positional data is bound to other variables',
  'demo': HEAD + """
from symfit.core.fit import HasCovarianceMatrix
h = HasCovarianceMatrix(Model({x: a * z}), xd, 2 * xd)
assert np.all(h.data[z] == xd) and np.all(h.data[x] == 2 * xd)
"""},
 'C08-absolute-any-sigma': {
  'property': 'C08',
  'edits': [(F, """                if original_data[sigma.name] is not None:
                    self.absolute_sigma = True
                    break
            else:
                self.absolute_sigma = False
""", """                self.absolute_sigma = original_data[sigma.name] is not None
""")],
  'needs': 'two components of which only the first has a sigma',
  'breaks': 'absolute_sigma is that of the last component',
  'demo': HEAD + """
m = Model({y: a * x, z: b * x})
fit = Fit(m, x=xd, y=xd, z=xd, sigma_y=0.1)
assert fit.absolute_sigma is True
"""},
 'C09-vector-no-approx': {
  'property': 'C09',
  'edits': [(F, """            objective = HessApproximation(self.objective.model,
                                          self.objective.data)
""", """            objective = HessApproximation(self.objective.model, self.data)
""")],
  'needs': 'an objective instance with data of its own, for a model without a Hessian',
  'breaks': 'the approximate covariance matrix belongs to the data of the fit, not of the objective',
  'demo': """
import numpy as np
from symfit import variables, parameters, Fit, CallableModel
from symfit.core.models import GradientModel
from symfit.core.objectives import LeastSquares
x, y = variables('x, y')
a, = parameters('a')
xd = np.linspace(1, 4, 20)
m = GradientModel({y: a * x})
o = LeastSquares(m, {x: xd, y: 2 * xd, m.sigmas[y]: np.full(20, 0.01)})
fit = Fit(m, x=xd, y=2 * xd, objective=o, absolute_sigma=True)
c = fit.covariance_matrix({a: 2.0})
assert np.allclose(c, 1e-4 / np.sum(xd**2)), c
"""},
 'C19-minpack-chi': {
  'property': 'C19',
  'edits': [(R, """            chi_squared = np.sum(gof_qualifiers['objective_value'] ** 2)
""", """            chi_squared = 2 * self.minimizer_output['cost']
""")],
  'needs': 'MINPACK with a robust loss',
  'breaks': 'chi squared is that of the loss function',
  'demo': """
import numpy as np
from symfit import variables, parameters, Fit
from symfit.core.minimizers import MINPACK
x, y = variables('x, y')
a, b = parameters('a, b')
xd = np.linspace(1, 4, 20)
yd = 2 * xd + np.cos(5 * xd); yd[3] += 40
r = Fit({y: a * x + b}, x=xd, y=yd, minimizer=MINPACK).execute(loss='soft_l1')
assert np.isclose(r.chi_squared, np.sum((yd - r.value(a) * xd - r.value(b))**2)), r.chi_squared
"""},
 'C19-r2-first-bar': {
  'property': 'C19',
  'edits': [(R, """    y_bars = [np.mean(y_i) if y_i is not None else None for y_i in y_is]
""", """    y_bars = [np.mean([np.mean(y_i) for y_i in y_is if y_i is not None]) for _ in y_is]
""")],
  'needs': 'a fit of two components with different means',
  'breaks': 'R squared compares with the overall mean',
  'demo': """
import numpy as np
from symfit import variables, parameters, Fit
x, y, z = variables('x, y, z')
a, b = parameters('a, b')
xd = np.linspace(1, 4, 20)
yd, zd = 2 * xd + np.cos(5 * xd), 30 * xd + np.sin(3 * xd)
r = Fit({y: a * x, z: b * x}, x=xd, y=yd, z=zd).execute()
res = np.sum((yd - r.value(a) * xd)**2) + np.sum((zd - r.value(b) * xd)**2)
tot = np.sum((yd - yd.mean())**2) + np.sum((zd - zd.mean())**2)
assert np.isclose(r.r_squared, 1 - res / tot), r.r_squared
"""},
 'C05-broadcast-only-first': {
  'property': 'C05',
  'edits': [(O, """                if dep_data is None:
""", """                if dep_data is None or not np.ndim(comp):
""")],
  'needs': '',
  'breaks': '',
  'demo': ''},
}
SEEDS = {k: v for k, v in SEEDS.items() if v['demo']}
