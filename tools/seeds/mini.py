M = 'core/minimizers.py'
F = 'core/fit.py'
SEEDS = {
 'C01-minpack-mask-tail': {
  'property': 'C01',
  'edits': [(M, """            out = np.atleast_2d(out)
            mask = [p not in self._fixed_params for p in self.parameters]
            return out[:, mask]
""", """            out = np.atleast_2d(out)
            # the free parameters only
            return out[:, :len(self.params)]
""")],
  'needs': 'MINPACK with a fixed parameter which is not the last one in the order of names',
  'breaks': 'the columns of the residual jacobian belong to other parameters than the optimizer varies',
  'demo': """
import numpy as np
from symfit import variables, Parameter, Fit
from symfit.core.minimizers import MINPACK
x, y = variables('x, y')
a, b = Parameter('a', value=2.0, fixed=True), Parameter('b', value=1.0)
xd = np.linspace(1, 4, 20)
fit = Fit({y: a * x**2 + b * x}, x=xd, y=2 * xd**2 + 5 * xd, minimizer=MINPACK)
J = fit.minimizer.wrapped_jacobian([1.0])
full = fit.objective.eval_jacobian([1.0])
assert J.shape == (20, 1) and np.allclose(J[:, 0], full[:, 1]), J[:3]
"""},
 'C13-chain-leaves-guess': {
  'property': 'C13',
  'edits': [(M, """            answers.append(ans)
        final = answers[-1]
""", """            answers.append(ans)
        # a second execution polishes the result of the first
        self.initial_guesses = next_guess
        final = answers[-1]
""")],
  'needs': 'executing one chained fit twice',
  'breaks': 'the second execution starts where the first one ended',
  'demo': """
import numpy as np
from symfit import parameters
from symfit.core.minimizers import ChainedMinimizer, NelderMead, BFGS
a, b = parameters('a, b')
a.value = 4.0; b.value = 3.0
f = lambda a, b: (a - 1)**2 + (b - 2)**2
mini = ChainedMinimizer(f, [a, b], minimizers=[NelderMead(f, [a, b]), BFGS(f, [a, b])])
mini.execute()
assert list(mini.initial_guesses) == [4.0, 3.0], mini.initial_guesses
"""},
 'C13-chain-number-forward': {
  'property': 'C13',
  'edits': [(M, """            count[name(minimizer)] -= 1

""", """                count[name(minimizer)] -= 1

""")],
  'needs': 'a chain with the same minimizer three times',
  'breaks': 'nothing visible',
  'demo': ''},
 'C10-bounds-of-bounded-only': {
  'property': 'C10',
  'edits': [(M, """            if low is None:
                low = -np.inf
            if high is None:
                high = np.inf
""", """            low, high = low or -np.inf, high or np.inf
""")],
  'needs': 'MINPACK with a bound which is exactly zero',
  'breaks': 'a bound of zero is not handed to the optimizer',
  'demo': """
import numpy as np
from symfit import variables, Parameter, Fit
from symfit.core.minimizers import MINPACK
x, y = variables('x, y')
a, b = Parameter('a', value=1.0, min=0), Parameter('b', value=-1.0, max=0)
xd = np.linspace(1, 4, 20)
fit = Fit({y: a * x + b}, x=xd, y=-xd + 1, minimizer=MINPACK)
lo, hi = fit.minimizer.bounds
assert list(lo) == [0, -np.inf] and list(hi) == [np.inf, 0], (lo, hi)
"""},
 'C31-basin-bounds-local': {
  'property': 'C31',
  'edits': [(M, """        if 'bounds' not in minimize_options['minimizer_kwargs'] and isinstance(self.local_minimizer, BoundedMinimizer):
            # Assign bounds
            minimize_options['minimizer_kwargs']['bounds'] = self.local_minimizer.bounds
""", """        if 'bounds' not in minimize_options['minimizer_kwargs'] and isinstance(self.local_minimizer, BoundedMinimizer) \\
                and not isinstance(self.local_minimizer, ConstrainedMinimizer):
            # Assign bounds
            minimize_options['minimizer_kwargs']['bounds'] = self.local_minimizer.bounds
""")],
  'needs': 'basin hopping with bounds and constraints, which uses SLSQP locally',
  'breaks': 'the local minimizer does not know the bounds',
  'demo': """
import numpy as np
import symfit.core.minimizers as mm
from symfit import Parameter, variables, Fit, Ge
from symfit.core.minimizers import BasinHopping
seen = {}
real = mm.basinhopping
def spy(f, x0, **kw):
    seen.update(kw['minimizer_kwargs'])
    return real(f, x0, **dict(kw, niter=1))
mm.basinhopping = spy
x, y = variables('x, y')
a, b = Parameter('a', value=1.0, min=0.5, max=3), Parameter('b', value=1.0)
xd = np.linspace(1, 4, 20)
fit = Fit({y: a * x + b}, x=xd, y=xd + 1, minimizer=BasinHopping, constraints=[Ge(a + b, 1)])
fit.execute()
assert seen.get('bounds') == [(0.5, 3), (None, None)], seen.get('bounds')
"""},
 'C31-tol-falsy': {
  'property': 'C31',
  'edits': [(M, """        minimize_options.update(tol=tol)
""", """        minimize_options.update(tol=tol or 1e-9)
""")],
  'needs': 'a tolerance of None, which leaves the tolerances of the algorithm alone',
  'breaks': 'the documented default replaces the tolerance the user chose',
  'demo': """
import symfit.core.minimizers as mm
from symfit import parameters
from symfit.core.minimizers import NelderMead
seen = {}
real = mm.minimize
def spy(f, x0, **kw):
    seen.update(kw)
    return real(f, x0, **kw)
mm.minimize = spy
a, = parameters('a')
NelderMead(lambda a: (a - 1)**2, [a]).execute(tol=None)
assert seen['tol'] is None, seen['tol']
"""},
 'C30-hess-only-with-jac': {
  'property': 'C30',
  'edits': [(M, """        if self.hessian is not None:
            self.hessian = self._baseobjective_from_callable(self.hessian)
""", """        if self.hessian is not None and self.jacobian is not None:
            self.hessian = self._baseobjective_from_callable(self.hessian)
""")],
  'needs': 'a Hessian minimizer given a Hessian but no jacobian',
  'breaks': 'the Hessian is not handed to scipy',
  'demo': """
import numpy as np
from symfit import parameters
from symfit.core.minimizers import TrustConstr
a, b = parameters('a, b')
f = lambda a, b: (a - 1)**2 + (b - 2)**2
h = lambda a, b: np.array([[2., 0], [0, 2.]])
m = TrustConstr(f, [a, b], hessian=h)
assert m.wrapped_hessian is not None
assert np.allclose(m.wrapped_hessian([1., 2.]), 2 * np.eye(2))
"""},
 'C28-wrap-sorted': {
  'property': 'C28',
  'edits': [(M, """            if isinstance(func, BaseModel):
                model = func
            else:
""", """            if isinstance(func, BaseModel):
                model = func
            elif hasattr(func, '__self__') and isinstance(func.__self__, BaseModel):
                # a method of a model
                model = func.__self__
            else:
""")],
  'needs': 'the bound method of a model as objective',
  'breaks': 'the model itself is minimized instead of the method that was given',
  'demo': """
import numpy as np
from symfit import parameters, variables, Model
from symfit.core.minimizers import NelderMead
y, = variables('y')
a, = parameters('a')
class Scaled(Model):
    def score(self, a):
        return (a - 7)**2
m = Scaled({y: (a - 1)**2})
r = NelderMead(m.score, [a]).execute()
assert abs(r.value(a) - 7) < 1e-3, r.value(a)
"""},
 'C11-tc-lb-strict': {
  'property': 'C11',
  'edits': [(M, """            if con['type'] == 'eq':
                ub = 0
            else:
                ub = np.inf
""", """            if con['type'] == 'eq' or not out and len(cons) > 1 and cons[-1]['type'] == 'eq':
                ub = 0
            else:
                ub = np.inf
""")],
  'needs': 'trust-constr with an inequality first and an equality last',
  'breaks': 'the first inequality is enforced as an equality',
  'demo': """
import numpy as np
from symfit import variables, parameters, Fit, Ge, Eq
from symfit.core.minimizers import TrustConstr
x, y = variables('x, y')
a, b, c = parameters('a, b, c')
xd = np.linspace(1, 4, 20)
fit = Fit({y: a * x**2 + b * x + c}, x=xd, y=2 * xd**2 + 5 * xd + 1, minimizer=TrustConstr,
          constraints=[Ge(a, 1), Eq(b + c, 6)])
p, q = fit.minimizer.wrapped_constraints
assert (p.lb, p.ub, q.lb, q.ub) == (0, np.inf, 0, 0), (p.ub, q.ub)
"""},
 'C11-con-data-copy': {
  'property': 'C11',
  'edits': [(F, """                data = self.data  # No copy, share state
                constraint_objectives.append(MinimizeModel(constraint, data))
""", """                data = {v: self.data[v] for v in constraint.vars if v in self.data}
                data.update((v, d) for v, d in self.data.items()
                            if v in self.model.independent_vars)
                constraint_objectives.append(MinimizeModel(constraint, data))
""")],
  'needs': 'nothing',
  'breaks': 'equivalent',
  'demo': ''},
 'C12-upper-bound-only': {
  'property': 'C12',
  'edits': [(F, """        elif any([bound is not None for pair in self.model.bounds for bound in pair]):
""", """        elif any([pair[0] is not None for pair in self.model.bounds]):
""")],
  'needs': 'a model which only has upper bounds',
  'breaks': 'a minimizer without bounds is chosen',
  'demo': """
import numpy as np
from symfit import variables, Parameter, Fit
from symfit.core.minimizers import LBFGSB
x, y = variables('x, y')
a, b = Parameter('a', value=-1.0, max=0), Parameter('b')
xd = np.linspace(1, 4, 20)
fit = Fit({y: a * x + b}, x=xd, y=xd)
assert type(fit.minimizer) is LBFGSB, fit.minimizer
"""},
 'C12-minpack-subclass': {
  'property': 'C12',
  'edits': [(F, """            if hasattr(self.model, 'eval_hessian') and hasattr(self.objective, 'eval_hessian'):
                minimizer_options['hessian'] = self.objective.eval_hessian
""", """            if hasattr(self.model, 'eval_hessian') and hasattr(self.objective, 'eval_hessian') \\
                    and not self.constraints:
                minimizer_options['hessian'] = self.objective.eval_hessian
""")],
  'needs': 'a Hessian minimizer with constraints',
  'breaks': 'the Hessian of the objective is not handed over',
  'demo': """
import numpy as np
from symfit import variables, parameters, Fit, Ge
from symfit.core.minimizers import TrustConstr
x, y = variables('x, y')
a, b = parameters('a, b')
xd = np.linspace(1, 4, 20)
fit = Fit({y: a * x + b}, x=xd, y=xd, minimizer=TrustConstr, constraints=[Ge(a, 0)])
assert fit.minimizer.wrapped_hessian is not None
"""},
 'C15-jac-wrapped': {
  'property': 'C15',
  'edits': [(M, """        self._pickle_kwargs['jacobian'] = self.jacobian
        if self.jacobian is not None:
""", """        if self.jacobian is not None:
            self._pickle_kwargs['jacobian'] = self.objective.eval_jacobian \\
                if hasattr(self.objective, 'eval_jacobian') else None
""")],
  'needs': 'a minimizer with a custom jacobian on an objective which has one of its own',
  'breaks': 'the copy uses the jacobian of the objective',
  'demo': """
import pickle, copy
import numpy as np
from symfit import Parameter, variables, Model
from symfit.core.objectives import MinimizeModel
from symfit.core.minimizers import BFGS
def jac(a):
    return np.array([42.0])
a = Parameter('a', value=2.0)
y, = variables('y')
o = MinimizeModel(Model({y: (a - 1)**2}), data={})
m = BFGS(o, [a], jacobian=jac)
n = pickle.loads(pickle.dumps(m))
assert np.allclose(n.wrapped_jacobian([3.0]), [42.0]), n.wrapped_jacobian([3.0])
"""},
}
for k in [k for k, v in SEEDS.items() if not v['demo']]:
    del SEEDS[k]
