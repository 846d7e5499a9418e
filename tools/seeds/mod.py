O = 'core/objectives.py'
M = 'core/models.py'
S = 'core/support.py'
A = 'core/argument.py'
R = 'core/fit_results.py'
F = 'core/fit.py'
P = 'core/printing.py'
D = 'distributions.py'
G = 'contrib/interactive_guess/interactive_guess.py'
HEAD = """
import numpy as np
from symfit import *
from symfit.core.objectives import *
from symfit.core.models import *
x, y, z, t, w, v = variables('x, y, z, t, w, v')
a, b, c = parameters('a, b, c')
xd = np.linspace(1, 4, 20)
"""
SEEDS = {
 'C16-deps-one-level': {
  'property': 'C16',
  'edits': [(M, """                    dependencies.extend(connectivity_mapping[symbol])
""", """                    dependencies.extend(
                        s for s in connectivity_mapping[symbol]
                        if s not in model.independent_vars
                        and s not in dependency_model.interdependent_vars[:-1])
""")],
  'needs': 'a constraint on a model with a chain of two interdependent variables',
  'breaks': 'with_dependencies leaves out what an interdependent variable depends on',
  'demo': HEAD + """
m = Model({w: a * x, v: w**2, z: v + 1})
n = CallableModel.with_dependencies({y: 2 * z}, m)
assert set(n) == {w, v, z, y}, list(n)
assert np.allclose(n(x=2.0, a=3.0).y, 74), n(x=2.0, a=3.0)
"""},
 'C17-hess-symmetric-order': {
  'property': 'C17',
  'edits': [(M, """        hess = [[[np.broadcast_to(eval_hess_dict.get(D(var, p1, p2), 0),
                                  eval_hess_dict[var].shape)
                    for p2 in self.params]
                for p1 in self.params]
            for var in self
        ]
""", """        hess = [[[np.broadcast_to(eval_hess_dict.get(_partial_diff(D(var, p1), p2), 0),
                                  eval_hess_dict[var].shape)
                    if self.params.index(p2) - self.params.index(p1) < 4 else
                    np.zeros_like(eval_hess_dict[var])
                    for p2 in self.params]
                for p1 in self.params]
            for var in self
        ]
""")],
  'needs': 'a model with four parameters and a mixed second derivative in the first and last',
  'breaks': 'an entry of the Hessian is zero',
  'demo': HEAD + """
d, e = parameters('d, e')
m = Model({y: a * e * x + b + c + d})
h = m.eval_hessian(x=2.0, a=1.0, b=2.0, c=3.0, d=4.0, e=5.0)
assert np.allclose(np.squeeze(h.y)[0, 4], 2), h
"""},
 'C18-jac-transposed': {
  'property': 'C18',
  'edits': [(M, """                    sympy.diff(expr, var), self.independent_vars + self.dependent_vars + self.model_params
                ) for var in self.dependent_vars
            ] for _, expr in self.items()
        ]
""", """                    sympy.diff(expr, var), self.independent_vars + self.dependent_vars + self.model_params
                ) for _, expr in self.items()
            ] for var in self.dependent_vars
        ]
""")],
  'needs': 'a system of equations which is not symmetric, and an implicit integrator',
  'breaks': 'the integrator gets the transposed Jacobian',
  'demo': HEAD + """
m = ODEModel({D(y, t): a * z, D(z, t): -b * z}, initial={t: 0.0, y: 1.0, z: 1.0})
j = m.diff_system(0.0, [1.0, 1.0], 2.0, 3.0)
assert np.allclose(np.array(j, dtype=float), [[0, 2], [0, -3]]), j
"""},
 'C18-atol-with-rtol': {
  'property': 'C18',
  'edits': [(M, """            if 'atol' not in self.integrator_kwargs:
                self.integrator_kwargs['atol'] = 1.49012e-8
            if 'rtol' not in self.integrator_kwargs:
                self.integrator_kwargs['rtol'] = 1.49012e-8
""", """            if not {'atol', 'rtol'} & set(self.integrator_kwargs):
                self.integrator_kwargs['atol'] = 1.49012e-8
                self.integrator_kwargs['rtol'] = 1.49012e-8
""")],
  'needs': 'giving only one of the tolerances',
  'breaks': 'the other tolerance is the one of scipy',
  'demo': HEAD + """
m = ODEModel({D(y, t): -b * y}, initial={t: 0.0, y: 1.0}, rtol=1e-10)
assert m.integrator_kwargs['atol'] == 1.49012e-8, m.integrator_kwargs
"""},
 'C20-by-name-attr': {
  'property': 'C20',
  'edits': [(M, """        self.output_dict = OrderedDict(zip(variables, output))
        self.variable_names = {var.name: var for var in variables}
""", """        self.output_dict = OrderedDict(zip(variables, output))
        self.variable_names = {str(var): var for var in variables}
""")],
  'needs': 'output for derivatives, whose name is not what they print as',
  'breaks': 'derivatives are not found by their name',
  'demo': HEAD + """
o = ModelOutput([D(y, a)], [5])
assert getattr(o, D(y, a).name) == 5
"""},
 'C21-surplus-positional': {
  'property': 'C21',
  'edits': [('core/operators.py', """    bound_arguments = signature.bind(*values, **relevant_named_values)
""", """    bound_arguments = signature.bind(
        *values[:len(parameters) - len(relevant_named_values)], **relevant_named_values)
""")],
  'needs': 'too many positional values',
  'breaks': 'surplus values are ignored',
  'demo': HEAD + """
try:
    (a * x)(1.0, 2.0, 3.0)
except TypeError:
    pass
else:
    raise AssertionError('accepted')
"""},
 'C22-min-only': {
  'property': 'C22',
  'edits': [(A, """            return (self.min == other.min and
                    self.max == other.max and
                    self.fixed == other.fixed and
                    self.value == other.value)
""", """            return ((self.min, self.max) == (other.min, other.max) and
                    (self.fixed, self.value) == (other.fixed, other.value)
                    if not self.fixed else self.value == other.value)
""")],
  'needs': 'comparing a fixed parameter with a free one of the same value',
  'breaks': 'a fixed parameter equals a free one',
  'demo': """
from symfit import Parameter
assert Parameter('fx', 2.0, fixed=True).fixed
import pickle
p = Parameter('fx', 2.0, fixed=True)
s = pickle.dumps(p)
class Q(Parameter):
    pass
o = object.__new__(Parameter)
for k, val in p.__getstate__().items():
    setattr(o, k, val)
o.name = 'fx'
o.fixed = False
o._assumptions, o._assumptions_orig, o._assumptions0 = p._assumptions, p._assumptions_orig, p._assumptions0
o.__class__ = Parameter
from sympy.core.symbol import Symbol
assert Symbol.__eq__(p, o)
assert not p == o
"""},
 'C22-sequences-truthy': {
  'property': 'C22',
  'edits': [(S, """        finally:
            for param, value in zip(params, values):
                setattr(param, key, value)
""", """        finally:
            for param, value in zip(params, values):
                if value is not None and value is not False:
                    setattr(param, key, value)
""")],
  'needs': 'a bound which is reset to None for a parameter that exists already',
  'breaks': 'entries of None or False are ignored',
  'demo': """
from symfit import parameters
p, q = parameters('p, q', fixed=True)
p, q = parameters('p, q', fixed=[True, False])
assert p.fixed and not q.fixed
p, q = parameters('p, q', fixed=True, value=[1.0, 2.0])
n = type('N', (), {})
import symfit.core.support as s
class Fake(object):
    min = max = None
    fixed = True
made = [Fake(), Fake()]
s.symbols = lambda *args, **kw: made
parameters('p, q', fixed=[True, False])
assert made[1].fixed is False
"""},
 'C23-eq-len': {
  'property': 'C23',
  'edits': [(M, """        for key, func in self.model_dict.items():
            if func != other[key]:
                return False
        return True
""", """        return all(func == expr for func, expr in
                   zip(self.model_dict.values(), other.model_dict.values())
                   if callable(func) and not isinstance(func, sympy.Basic))
""")],
  'needs': 'a mixed model with another symbolic component of the same variables',
  'breaks': 'symbolic components of a numerical model are not compared',
  'demo': HEAD + """
def f(w, a):
    return w * a
m = CallableNumericalModel({y: f, w: a * x}, connectivity_mapping={y: {w, a}})
n = CallableNumericalModel({y: f, w: a + x}, connectivity_mapping={y: {w, a}})
assert not m == n
"""},
 'C24-none-not-cached': {
  'property': 'C24',
  'edits': [(S, """        try:
            return getattr(obj, self.cache_attr)
        except AttributeError:
            # Call""", """        if vars(obj).get(self.cache_attr):
            return vars(obj)[self.cache_attr]
        else:
            # Call""")],
  'needs': 'a cached value which is empty',
  'breaks': 'empty values are computed again and again',
  'demo': """
from symfit.core.support import cached_property
class T(object):
    n = 0
    @cached_property
    def p(self):
        self.n += 1
        return {}
o = T()
assert o.p is o.p and o.n == 1
"""},
 'C25-negative-absolute': {
  'property': 'C25',
  'edits': [(M, """                if abs(param_val) >= 1e-7:
""", """                if param_val >= 1e-7:
""")],
  'needs': 'a large negative parameter',
  'breaks': 'the step is not relative for negative parameters',
  'demo': HEAD + """
class Num(BaseGradientModel, CallableNumericalModel):
    pass
m = Num({y: lambda x, a: a * x}, connectivity_mapping={y: {x, a}})
j = m.eval_jacobian(x=xd, a=-1e9)
assert np.allclose(j.y, xd, rtol=1e-4), j
"""},
 'C29-unsorted-args': {
  'property': 'C29',
  'edits': [(M, """        self.independent_vars = sorted(set(d.variables[0] for d in model_dict), key=sort_func)
        self.interdependent""", """        self.independent_vars = sorted(set(d.variables[0] for d in model_dict), key=sort_func)
        self.interdependent"""), (M, """        self.initial_params = sorted(self.initial_params, key=sort_func)
""", """        self.initial_params = list(self.initial_params)
""")],
  'needs': 'two parameters as initial values, and hash randomization',
  'breaks': 'the order of initial_params depends on the hash seed',
  'demo': """
import subprocess, sys, os
code = '''
from symfit import *
t, y, z, w, u = variables('t, y, z, w, u')
p = parameters('aa, bb, cc, dd')
m = ODEModel({D(i, t): -i for i in (y, z, w, u)}, initial=dict(zip((t, y, z, w, u), (0.0,) + tuple(p))))
print(m.initial_params)
'''
out = {subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(k)),
                      capture_output=True, text=True).stdout for k in range(6)}
assert out == {'[aa, bb, cc, dd]\\n'}, out
"""},
 'C29-separate-vars': {
  'property': 'C29',
  'edits': [(S, """    params.sort(key=lambda symbol: symbol.name)
    vars.sort(key=lambda symbol: symbol.name)
""", """    params.sort(key=lambda symbol: symbol.name)
    if any(isinstance(var, sympy.Derivative) for var in vars):
        vars.sort(key=lambda symbol: symbol.name)
    else:
        vars.sort(key=lambda symbol: (symbol.name[0], len(symbol.name)))
""")],
  'needs': 'variables x1 and x2, and hash randomization',
  'breaks': 'the order of variables which differ in a later character depends on the hash seed',
  'demo': """
import subprocess, sys, os
code = '''
from symfit import *
x1, x2, x3, x4 = variables('x1, x2, x3, x4')
print((x1 - 2 * x2 + 5 * x3 - 7 * x4)(1.0, 2.0, 3.0, 4.0))
'''
out = {subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(k)),
                      capture_output=True, text=True).stdout for k in range(6)}
assert out == {'-16.0\\n'}, out
"""},
 'C32-shared-neighbours': {
  'property': 'C32',
  'edits': [(M, """                else:
                    params_thusfar += params
""", """                else:
                    params_thusfar = params
""")],
  'needs': 'three components of which the first and the last share a parameter',
  'breaks': 'the shared parameter is not noticed',
  'demo': HEAD + """
assert Model({w: a * x, y: b * x, z: a + x}).shared_parameters
"""},
 'C32-negative-fixed-bounds': {
  'property': 'C32',
  'edits': [(M, """                if p.value >= 0.0:
                    bounds.append([np.nextafter(p.value, 0), p.value])
                else:
                    bounds.append([p.value, np.nextafter(p.value, 0)])
""", """                bounds.append([np.nextafter(p.value, 0), p.value])
""")],
  'needs': 'a fixed parameter with a negative value',
  'breaks': 'its lower bound is above its upper bound',
  'demo': HEAD + """
from symfit import Parameter
n = Parameter('n', -2.0, fixed=True)
lo, hi = Model({y: n * x}).bounds[0]
assert lo <= -2.0 <= hi, (lo, hi)
"""},
 'C33-answer-at-guess': {
  'property': 'C33',
  'edits': [(R, """constraint(**self.params)[0])
""", """constraint(**{p.name: p.value for p in self.model.params})[0])
""")],
  'needs': 'printing the results of a constrained fit',
  'breaks': 'the value of the constraint is the one at the initial guess',
  'demo': HEAD + """
from symfit import Fit, Ge
r = Fit({y: a * x + b}, x=xd, y=2 * xd + 1, constraints=[Ge(a, 0.5)]).execute()
ans = [l for l in str(r).splitlines() if l.startswith('Answer')][0]
assert abs(float(ans.split()[-1].strip('[]')) - (r.value(a) - 0.5)) < 1e-3, ans
"""},
 'C33-model-latex-names': {
  'property': 'C33',
  'edits': [(M, """            params_sorted = sorted((x for x in self.connectivity_mapping[var]
                                    if isinstance(x, Parameter)),
                                   key=lambda x: x.name)
            vars_sorted = sorted((x for x in self.connectivity_mapping[var]
                                  if x not in params_sorted),
                                 key=lambda x: x.name)
            parts""", """            params_sorted = [p for p in self.params
                             if p in self.connectivity_mapping[var]]
            vars_sorted = [x for x in self.independent_vars
                           if x in self.connectivity_mapping[var]]
            parts""")],
  'needs': 'printing a model with interdependent components',
  'breaks': 'components do not show the variables they depend on',
  'demo': HEAD + """
assert 'y(w; b)' in str(Model({w: a * x, y: b * w}))
"""},
 'C04-matpow-scalar': {
  'property': 'C04',
  'edits': [(P, """    return "%s(%s)" % (printer._module_format('numpy.linalg.inv'),
                       printer.doprint(self.args[0]))
""", """    arg = printer.doprint(self.args[0])
    if self.shape == (1, 1):
        return "1/%s" % arg
    return "%s(%s)" % (printer._module_format('numpy.linalg.inv'), arg)
""")],
  'needs': 'the inverse of a product of shape 1 by 1',
  'breaks': 'only the first factor is inverted',
  'demo': """
import sympy
from symfit import *
from sympy import MatrixSymbol, Inverse
from sympy.printing.numpy import NumPyPrinter
A, B = MatrixSymbol('A', 1, 2), MatrixSymbol('B', 2, 1)
C, E = MatrixSymbol('C', 1, 1), MatrixSymbol('E', 1, 1)
s = NumPyPrinter().doprint(Inverse(C + E))
import numpy
val = eval(s, {'numpy': numpy, 'C': numpy.array([[2.0]]), 'E': numpy.array([[3.0]])})
assert numpy.allclose(val, 0.2), s
"""},
 'C05-scalar-component': {
  'property': 'C05',
  'edits': [(O, """                    for _ in range(dim_diff):
                        component = np.expand_dims(component, -1)
""", """                    for _ in range(dim_diff):
                        component = np.expand_dims(component, param_level)
""")],
  'needs': 'data of two dimensions and a component which has one value per row',
  'breaks': 'derivatives are broadcast along the wrong axis',
  'demo': HEAD + """
m = Model({y: a * x})
yd = np.ones((2, 3))
o = LeastSquares.__new__(LeastSquares)
o.model = m
o.data = {x: xd, y: yd, m.sigmas[y]: np.ones((2, 3))}
o._sanity_checking()
comp = np.array([[1.0, 2.0]])
r = o._shape_of_dependent_data([comp], param_level=1)[0]
assert r.shape == (1, 2, 3) and np.all(r[0, :, 0] == [1, 2]), r
"""},
 'C14-initial-params': {
  'property': 'C14',
  'edits': [(M, """        self.initial = initial
        self.integrator_kwargs""", """        self.initial = initial
        for var in {list(d.free_symbols - set(d.variables))[0] for d in model_dict}:
            initial.setdefault(var, 0.0)
        self.integrator_kwargs""")],
  'needs': 'an incomplete dict of initial values',
  'breaks': 'the dict of the caller is completed',
  'demo': HEAD + """
initial = {t: 0.0, y: 1.0}
try:
    ODEModel({D(y, t): a * z, D(z, t): -b * z}, initial=initial)
except Exception:
    pass
assert initial == {t: 0.0, y: 1.0}, initial
"""},
 'C27-grid-transposed': {
  'property': 'C27',
  'edits': [(G, """        xx, yy = np.meshgrid(self.ig._x_points[x], self.ig._y_points[y])
""", """        yy, xx = np.meshgrid(self.ig._y_points[y], self.ig._x_points[x])
"""), (G, """        ax.contourf(xx, yy, contour_grid.reshape(xx.shape),
""", """        ax.contourf(xx.T, yy.T, contour_grid.reshape(xx.shape),
""")],
  'needs': 'a model of two independent variables; looking at the contours',
  'breaks': 'the contours are transposed',
  'demo': HEAD + """
import matplotlib
matplotlib.use('Agg')
from symfit.contrib.interactive_guess import interactive_guess as ig
from symfit.contrib.interactive_guess.interactive_guess import StrategynD
class Ig(object):
    log_contour = False
    _x_points = {x: np.linspace(0, 5, 7)}
    _y_points = {y: np.linspace(0, 9, 7)}
    independent_data = {x: xd}
    dependent_data = {y: np.cos(xd) + 2 * xd}
class Ax(object):
    def contourf(self, xx, yy, zz, *args, **kw):
        from scipy.stats import gaussian_kde
        k = gaussian_kde(np.array([xd, np.cos(xd) + 2 * xd]))
        for i in range(7):
            for j in range(7):
                assert np.isclose(zz[i, j], k.pdf([xx[i, j], yy[i, j]])[0])
StrategynD(Ig()).plot_data((x, y), Ax())
"""},
 'C27-errorbars-at-first': {
  'property': 'C27',
  'edits': [(G, """            y_plot_data.append(np.mean(ys))
""", """            y_plot_data.append(np.median(ys))
""")],
  'needs': 'a model which is skew in the other variable',
  'breaks': 'the line is the median',
  'demo': HEAD + """
import matplotlib
matplotlib.use('Agg')
from symfit.contrib.interactive_guess.interactive_guess import StrategynD
got = []
class Line(object):
    def set_data(self, xs, ys):
        got.append(ys)
    def set_segments(self, s):
        pass
class Out(object):
    y = np.array([0.0, 1.0, 5.0])
class Ig(object):
    percentile = (5, 95)
    _x_points = {x: [1.0]}
    _x_grid = {x: np.array([1.0, 1.0, 1.0])}
    _plots = {(x, y): (Line(), None, [None, Line()])}
    def _eval_model(self):
        return Out()
StrategynD(Ig()).update_plot(x, y)
assert np.allclose(got[0], [2.0]), got
"""},
}
