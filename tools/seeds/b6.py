O = 'core/objectives.py'
M = 'core/models.py'
S = 'core/support.py'
A = 'core/argument.py'
R = 'core/fit_results.py'
F = 'core/fit.py'
P = 'core/printing.py'
N = 'core/minimizers.py'
D = 'distributions.py'
G = 'contrib/interactive_guess/interactive_guess.py'
HEAD = r"""
import matplotlib
matplotlib.use('Agg')
import numpy as np
from symfit import *
from symfit.core.objectives import *
from symfit.core.models import *
from symfit.core.minimizers import *
x, y, z, t, w, v = variables('x, y, z, t, w, v')
a, b, c = parameters('a, b, c')
xd = np.linspace(1, 4, 20)
"""
SEEDS = {
 'C08-explicit-false': {'property': 'C08',
  'edits': [(F, "        if absolute_sigma is not None:\n            self.absolute_sigma = absolute_sigma", "        if absolute_sigma:\n            self.absolute_sigma = absolute_sigma")],
  'needs': 'sigmas with absolute_sigma=False',
  'breaks': 'the choice of the user is ignored',
  'demo': HEAD + """
f = Fit(Model({y: a * x}), x=xd, y=xd, sigma_y=0.1, absolute_sigma=False)
assert f.absolute_sigma is False, f.absolute_sigma
"""},
 'C10-guess-cached': {'property': 'C10',
  'edits': [(N, "            return [p.value for p in self.params]", "            self._initial_guesses = [p.value for p in self.params]\n            return self._initial_guesses")],
  'needs': 'a value that is changed between two executions',
  'breaks': 'the new initial guess is not used',
  'demo': HEAD + """
m = NelderMead(MinimizeModel(Model({y: (a - 3)**2}), {y: None}), [a])
m.initial_guesses
a.value = 2.5
assert m.initial_guesses == [2.5], m.initial_guesses
"""},
 'C15-chain-reversed': {'property': 'C15',
  'edits': [(R, "minimizers = [cls(objective, parameters) for cls in min_class[1:]]", "minimizers = [cls(objective, parameters) for cls in min_class[:0:-1]]")],
  'needs': 'pickling the results of a chain',
  'breaks': 'the minimizers come back in the wrong order',
  'demo': HEAD + """
import pickle
r = Fit(Model({y: a * x}), x=xd, y=xd, minimizer=[NelderMead, BFGS]).execute()
n = pickle.loads(pickle.dumps(r))
assert [type(k) for k in n.minimizer.minimizers] == [NelderMead, BFGS]
"""},
 'C17-first-shape': {'property': 'C17',
  'edits': [(M, """        jac = [[np.broadcast_to(eval_jac_dict.get(D(var, param), 0),
                                eval_jac_dict[var].shape)""", """        jac = [[np.broadcast_to(eval_jac_dict.get(D(var, param), 0),
                                np.broadcast(eval_jac_dict[var], *kwargs.values()).shape)""")],
  'needs': 'a component that does not depend on all the variables',
  'breaks': 'the jacobian of that component has another shape than the component',
  'demo': HEAD + """
m = Model({y: a * x, z: b * t})
j = m.eval_jacobian(x=xd, t=2.0, a=1.0, b=2.0)
assert j.z.shape == (2, 1), j.z.shape
"""},
 'C18-args-params': {'property': 'C18',
  'edits': [(M, """        ans_smaller = solve_ivp(
            self.system,
            t_span=(t_smaller[0], t_smaller[-1]),
            y0=initial_dependent,
            t_eval=t_smaller,
            args=tuple(
                bound_arguments.arguments[param.name] for param in self.model_params
            ),""", """        ans_smaller = solve_ivp(
            self.system,
            t_span=(t_smaller[0], t_smaller[-1]),
            y0=initial_dependent,
            t_eval=t_smaller,
            args=tuple(
                bound_arguments.arguments[param.name] for param in self.params[-len(self.model_params):]
            ),""")],
  'needs': 'times before the initial time, and an initial parameter which sorts after the others',
  'breaks': 'the parameters reach the wrong place in the equations',
  'demo': HEAD + """
m = ODEModel({D(y, t): a + 0 * y}, initial={t: 0.0, y: b})
r = m(t=np.array([-1.0, 0.0, 1.0]), a=2.0, b=10.0)
assert np.allclose(r.y, [8, 10, 12]), r
"""},
 'C22-float': {'property': 'C22',
  'edits': [(A, "        self.value = value\n        self.fixed", "        self.value = value * 1.0\n        self.fixed")],
  'needs': 'an integer value',
  'breaks': 'the value is not what was given',
  'demo': HEAD + """
import fractions
p = Parameter('p', value=fractions.Fraction(1, 3))
assert type(p.value) is fractions.Fraction
"""},
 'C23-conn-keys': {'property': 'C23',
  'edits': [(M, "        if self.connectivity_mapping != other.connectivity_mapping:", "        if set(self.connectivity_mapping) != set(other.connectivity_mapping):")],
  'needs': 'one callable with different connections',
  'breaks': 'models of different variables compare equal',
  'demo': HEAD + """
f = lambda **k: sum(k.values())
m = CallableNumericalModel({y: f}, connectivity_mapping={y: {x, a}})
n = CallableNumericalModel({y: f}, connectivity_mapping={y: {x, a, b}})
assert not m == n
"""},
 'C23-objective-subset': {'property': 'C23',
  'edits': [(O, "        if set(self.data) != set(other.data):\n            return False\n        for key, value in self.data.items():\n", "        for key, value in self.data.items():\n            if key not in other.data:\n                return False\n")],
  'needs': 'another objective with more data',
  'breaks': 'objectives with different data compare equal',
  'demo': HEAD + """
m = Model({y: a * x})
d = {x: xd, y: xd, m.sigmas[y]: np.ones(20)}
assert not LeastSquares(m, d) == LeastSquares(m, dict(d, **{'extra': xd}))
"""},
 'C24-computes-twice': {'property': 'C24',
  'edits': [(S, "            setattr(obj, self.cache_attr, self.fget(obj))\n            return getattr(obj, self.cache_attr)", "            setattr(obj, self.cache_attr, self.fget(obj))\n            return self.fget(obj)")],
  'needs': 'the first access',
  'breaks': 'the property is computed twice, and the first answer is not the one that is kept',
  'demo': HEAD + """
from symfit.core.support import cached_property
class Q:
    n = 0
    @cached_property
    def p(self):
        self.n += 1
        return [self.n]
q = Q()
assert q.p is q.p and q.n == 1
"""},
 'C25-first-shape': {'property': 'C25',
  'edits': [(M, "                            len(up[comp_idx])\n", "                            len(up[0])\n"),
            (M, "data_shape = up[comp_idx].shape", "data_shape = np.broadcast(*up.output).shape")],
  'needs': 'components of different shapes',
  'breaks': 'the derivative of a component has the shape of another',
  'demo': HEAD + """
class G(CallableNumericalModel, BaseGradientModel): pass
m = G({y: lambda x, a: a * x, z: lambda a: a}, connectivity_mapping={y: {x, a}, z: {a}})
j = m.eval_jacobian(x=xd, a=1.0)
assert j.z.shape == (1, 1), j.z.shape
"""},
 'C27-fixed-not-updated': {'property': 'C27',
  'edits': [(G, "        for param in self.model.params:\n            param.value = self._sliders[param].val", "        for param in self.model.free_params:\n            param.value = self._sliders[param].val")],
  'needs': 'moving the slider of a fixed parameter',
  'breaks': 'the parameter does not follow its slider',
  'demo': HEAD + """
from symfit.contrib.interactive_guess import InteractiveGuess
b.fixed = True
g = InteractiveGuess(Model({y: a * x + b}), x=xd, y=xd)
g._sliders[b].set_val(0.25)
assert b.value == 0.25, b.value
"""},
 'C27-median': {'property': 'C27',
  'edits': [(G, "            y_plot_data.append(np.mean(ys))", "            y_plot_data.append(np.median(ys))")],
  'needs': 'a skewed distribution over the other variables',
  'breaks': 'the line is not at the mean of the model',
  'demo': HEAD + """
from symfit.contrib.interactive_guess import InteractiveGuess
zd = xd**2
g = InteractiveGuess(Model({y: a * exp(x) * exp(t)}), x=xd, t=np.sin(xd), y=zd)
line = g._plots[(x, y)][0].get_ydata()
vals = g._eval_model().y
k = g._x_grid[x] == g._x_points[x][3]
assert np.isclose(line[3], np.mean(vals[k])), (line[3], np.mean(vals[k]))
"""},
 'C30-tc-auto-wins': {'property': 'C30',
  'edits': [(N, "        if hessian is None:\n            hessian = auto_hessian\n", "        hessian = auto_hessian or hessian\n")],
  'needs': 'a strategy for the Hessian given for a model without one',
  'breaks': 'the strategy of the user is not used',
  'demo': HEAD + """
import symfit.core.minimizers as n
seen = []
orig = n.minimize
def rec(*args, **k):
    seen.append(k['hess'])
    return orig(*args, **k)
n.minimize = rec
from scipy.optimize import SR1
s = SR1()
fit = Fit(CallableModel({y: a * x}), x=xd, y=xd, minimizer=TrustConstr)
fit.execute(jacobian='3-point', hessian=s)
assert seen[0] is s, seen
"""},
 'C32-fixed-bounds-equal': {'property': 'C32',
  'edits': [(M, "                if p.value >= 0.0:\n", "                if p.value > 0.0:\n")],
  'needs': 'x', 'breaks': 'x', 'demo': HEAD},
 'C33-zero-iterations': {'property': 'C33',
  'edits': [(R, """        if 'nit' in self.minimizer_output:
            return self.minimizer_output['nit']
        else:
            return None
""", """        return self.minimizer_output.get('nit') or None
""")],
  'needs': 'a minimizer that starts in the optimum',
  'breaks': 'no number of iterations is reported where it was zero',
  'demo': HEAD + """
r = Fit(Model({y: a * x}), x=xd, y=xd).execute()
r.minimizer_output['nit'] = 0
assert r.iterations == 0, r.iterations
assert 'Number of iterations   0' in str(r)
"""},
 'C04-power-prec': {'property': 'C04',
  'edits': [(P, "    return \"%s**%s\" % (printer.parenthesize(self.args[0], PRECEDENCE['Pow']),", "    return \"%s**%s\" % (printer.parenthesize(self.args[0], PRECEDENCE['Add']),")],
  'needs': 'x', 'breaks': 'x', 'demo': HEAD + """
import sympy
X = MatrixSymbol('X', 2, 2); Y = MatrixSymbol('Y', 2, 2); W = MatrixSymbol('W', 2, 2)
m = CallableModel({W: sympy.HadamardPower(2 * X, 2)})
r = m(X=np.ones((2, 2)))
assert np.allclose(r[0], 4), r
"""},
 'C04-pinv': {'property': 'C04',
  'edits': [(P, "'numpy.linalg.inv'", "'numpy.linalg.pinv'")],
  'needs': 'x', 'breaks': 'x', 'demo': HEAD + """
import sympy
X = MatrixSymbol('X', 2, 2); W = MatrixSymbol('W', 2, 2)
m = CallableModel({W: X.I})
try:
    m(X=np.ones((2, 2)))
except np.linalg.LinAlgError:
    pass
else:
    assert False
"""},
 'C06-ode-by-str': {'property': 'C06',
  'edits': [(M, "        self.params = sorted(self.model_params | self.initial_params, key=sort_func)\n", "        self.params = sorted(self.model_params, key=sort_func)\n        self.params += sorted(self.initial_params - self.model_params, key=sort_func)\n")],
  'needs': 'an ODE model with an initial parameter that sorts before the others',
  'breaks': 'the parameters are not in alphabetical order',
  'demo': HEAD + """
m = ODEModel({D(y, t): b * y}, initial={t: 0.0, y: a})
assert [p.name for p in m.params] == ['a', 'b'], m.params
"""},
 'C07-con-sigma-optional': {'property': 'C07',
  'edits': [(F, "            none_allowed = constraint.dependent_vars + list(constraint.sigmas.values())\n", "            none_allowed = constraint.vars\n")],
  'needs': 'a constraint with a variable for which no data is given',
  'breaks': 'the missing data is not reported',
  'demo': HEAD + """
m = Model({y: a * x})
try:
    Fit(m, x=xd, y=xd, constraints=[Eq(a * z, 3)])
except Exception as e:
    assert isinstance(e, (TypeError, KeyError)), e
else:
    assert False
"""},
 'C12-hess-any': {'property': 'C12',
  'edits': [(F, "            if hasattr(self.model, 'eval_hessian') and hasattr(self.objective, 'eval_hessian'):", "            if hasattr(self.model, 'eval_hessian') or hasattr(self.objective, 'eval_hessian'):")],
  'needs': 'a Hessian minimizer with a model that has no Hessian',
  'breaks': 'a Hessian that does not exist is handed to the minimizer',
  'demo': HEAD + """
fit = Fit(CallableModel({y: a * x}), x=xd, y=xd, minimizer=TrustConstr)
assert fit.minimizer.hessian is None
"""},
 'C13-guess-of-self': {'property': 'C13',
  'edits': [(N, "        next_guess = self.initial_guesses\n        for minimizer, kwargs", "        next_guess = self.minimizers[0].initial_guesses\n        for minimizer, kwargs")],
  'needs': 'a chain which is given its own initial guess, or is executed twice',
  'breaks': 'the first minimizer does not start at the guess of the chain',
  'demo': HEAD + """
m = MinimizeModel(Model({y: (a - 3)**2}), {y: None})
ms = [NelderMead(m, [a]), BFGS(m, [a])]
ch = ChainedMinimizer(m, [a], minimizers=ms)
ch.execute()
a.value = 9.0
seen = []
orig = ms[0].execute
ms[0].execute = lambda **k: (seen.append(list(ms[0].initial_guesses)), orig(**k))[1]
ch.execute()
assert seen == [[9.0]], seen
"""},
 'C14-neg-alias': {'property': 'C14',
  'edits': [(M, "            connectivity_mapping=self.connectivity_mapping.copy()\n", "            connectivity_mapping=self.connectivity_mapping\n"),
            (M, "            self.connectivity_mapping = connectivity_mapping.copy()\n", "            self.connectivity_mapping = connectivity_mapping\n")],
  'needs': 'extending the connectivity mapping of a model',
  'breaks': 'the mapping of the user, or of another model, changes with it',
  'demo': HEAD + """
cm = {y: {x, a}}
m = CallableNumericalModel({y: lambda x, a: a * x}, connectivity_mapping=cm)
n = -m
n.connectivity_mapping[z] = {b}
assert set(cm) == {y} and set(m.connectivity_mapping) == {y}
"""},
 'C16-kwargs-given': {'property': 'C16',
  'edits': [(M, "                kwargs[symbol.name] = components[symbol](**dependencies_kwargs)", "                kwargs.setdefault(symbol.name.lower(), components[symbol](**dependencies_kwargs))\n                kwargs[symbol.name] = kwargs[symbol.name.lower()]")],
  'needs': 'two components whose names differ in case',
  'breaks': 'a component gets the value of another',
  'demo': HEAD + """
Y, = variables('Y')
m = Model({y: a * x, Y: 2 * y})
r = m(x=3.0, a=1.0)
assert np.allclose(r.Y, 6), r
"""},
 'C19-covariance-diag': {'property': 'C19',
  'edits': [(R, "            return self.covariance_matrix[param_1_number, param_2_number]", "            return np.triu(self.covariance_matrix)[param_1_number, param_2_number]")],
  'needs': 'x', 'breaks': 'the covariance is zero', 'demo': HEAD + """
yd = xd + np.sin(5 * xd)
r = Fit(Model({y: a * x + b}), x=xd, y=yd).execute()
assert np.isclose(r.covariance(b, a), r.covariance(a, b)) and r.covariance(b, a) != 0
"""},
 'C20-first-name': {'property': 'C20',
  'edits': [(M, "        self.variable_names = {var.name: var for var in variables}", "        self.variable_names = {str(var): var for var in variables}")],
  'needs': 'the output of a jacobian model, whose components are derivatives',
  'breaks': 'the derivatives are not found by their name',
  'demo': HEAD + """
m = Model({y: a * x})
r = m.jacobian_model(x=2.0, a=3.0)
assert np.allclose(r.dy_da, 2)
"""},
 'C28-bound-method': {'property': 'C28',
  'edits': [(N, "        if isinstance(func, BaseObjective) or (hasattr(func, '__self__') and\n                                               isinstance(func.__self__, BaseObjective)):", "        if isinstance(func, BaseObjective) or hasattr(func, '__self__'):")],
  'needs': 'a method as custom objective',
  'breaks': 'the method is called without parsing the parameters',
  'demo': HEAD + """
class Q:
    def f(self, a, b):
        return (a - b)**2
m = BFGS(Q().f, [a, b])
assert np.allclose(m.objective([3.0, 1.0]), 4), m.objective
"""},
 'C31-basin-message': {'property': 'C31',
  'edits': [(N, "        if 'method' not in minimize_options['minimizer_kwargs']:\n", "        if not minimize_options['minimizer_kwargs']:\n")],
  'needs': 'minimizer_kwargs without a method',
  'breaks': 'the local minimizer that was chosen is not used',
  'demo': HEAD + """
import symfit.core.minimizers as n
seen = []
orig = n.basinhopping
def rec(*args, **k):
    seen.append(k['minimizer_kwargs'].get('method'))
    return orig(*args, **k)
n.basinhopping = rec
m = MinimizeModel(Model({y: (a - 3)**2}), {y: None})
BasinHopping(m, [a], local_minimizer=NelderMead).execute(niter=2, minimizer_kwargs={'tol': 1e-3})
assert seen == ['Nelder-Mead'], seen
"""},
 'C29-deps-unsorted': {'property': 'C29',
  'edits': [(S, "    vars.sort(key=lambda symbol: symbol.name)\n", "    vars.sort(key=lambda symbol: len(symbol.name))\n")],
  'needs': 'names of the same length',
  'breaks': 'the order of the variables depends on the hash seed',
  'demo': HEAD + """
import subprocess, sys, os
code = "from symfit import *; x, y, z, w, v = variables('x, y, z, w, v'); from symfit.core.support import seperate_symbols; print([s.name for s in seperate_symbols(x * y * z * w * v)[0]])"
out = {subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(k)), capture_output=True, text=True).stdout for k in range(6)}
assert len(out) == 1, out
"""},
 'C26-l': {'property': 'C26',
  'edits': [(D, "    return sympy.exp(exponent) / (2 * sympy.pi * sig_x * sig_y * sympy.sqrt(1 - rho**2))", "    return sympy.exp(exponent) / (2 * sympy.pi * sig_x * sig_y * (1 - rho**2)**2)**1")],
  'needs': 'correlated variables', 'breaks': 'the density is not normalized', 'demo': HEAD + """
from symfit.distributions import BivariateGaussian
import sympy
g = BivariateGaussian(0, 0, 0, 0, 1, 1, sympy.Rational(1, 2))
assert np.isclose(float(g), 1 / (2 * np.pi * np.sqrt(0.75))), float(g)
"""},
 'C03-vls-zero-chi': {'property': 'C03',
  'edits': [(O, "        result *= (1 / chi)\n        result = np.nan_to_num(result)", "        result *= (1 / np.where(chi > 1e-6, chi, np.inf))\n        result = np.nan_to_num(result)")],
  'needs': 'residuals which are small compared to one',
  'breaks': 'the derivative is zero for small residuals', 'demo': HEAD + """
m = Model({y: a * x})
f = VectorLeastSquares(m, {x: xd, y: 2 * xd, m.sigmas[y]: np.ones(20)})
j = f.eval_jacobian([2.0 + 1e-9])
assert np.allclose(np.abs(j[:, 0]), xd), j
"""},
 'C01-tc-hess-rows': {'property': 'C01',
  'edits': [(N, "            return np.atleast_2d(out[np.ix_(mask, mask)])", "            n = sum(mask)\n            return np.atleast_2d(out[:n, :n]) if all(mask[:n]) else np.atleast_2d(out[np.ix_(mask[::-1], mask[::-1])][::-1, ::-1])")],
  'needs': 'a fixed parameter before a free one',
  'breaks': 'x', 'demo': HEAD + """
a.fixed = True
m = Model({y: a * x**2 + b * c * x + c})
fit = Fit(m, x=xd, y=xd, minimizer=TrustConstr)
h = fit.minimizer.wrapped_hessian([1.0, 1.0])
H = fit.objective.eval_hessian([1.0, 1.0])
assert np.allclose(h, H[1:, 1:]), (h, H)
"""},
 'C09-none-hess-model': {'property': 'C09',
  'edits': [(F, "            hess_inv = np.zeros(hess.shape)\n", "            hess_inv = np.full(hess.shape, np.nan)\n")],
  'needs': 'x', 'breaks': 'x', 'demo': HEAD},
 'C02-mm-mean': {'property': 'C02',
  'edits': [(O, "        return evaluated_func[0]\n", "        return np.squeeze(evaluated_func[0])\n")],
  'needs': 'x', 'breaks': 'x', 'demo': HEAD},
 'C21-matrix-args': {'property': 'C21',
  'edits': [(S, "    arg_names = [arg.name for arg in args]\n    conversion", "    arg_names = sorted(arg.name for arg in args)\n    conversion")],
  'needs': 'x', 'breaks': 'x', 'demo': HEAD},
 'C11-le-value': {'property': 'C11',
  'edits': [(N, "                # as_constraint turns Le into Ge, so use the type it settled on\n                constraint_type = constraint.constraint_type\n", "                constraint_type = constraint.constraint_type\n                if constraint_type is sympy.Ge and not constraint.interdependent_vars:\n                    pass\n")],
  'needs': 'x', 'breaks': 'x', 'demo': HEAD},
}
for k in [k for k, s in SEEDS.items() if s['needs'] == 'x' and s['demo'] == HEAD]:
    del SEEDS[k]
