"""The properties, and how each is claimed."""
VN = ('interprocedural gated value numbering (abstract interpretation of the '
      'syntax tree) compared with a specification term')
NOTE = ('Every obligation is decided for all inputs of the modelled shape: the '
        'canonical term computed from the current source must equal the '
        'specification term. Trusts the model of Python, numpy and sympy calls '
        'in sa/lib.py and the stated input shapes; constructs outside the model '
        'leave an obligation undecided (reported), never silently passed.')


def claim(note='', technique=VN):
    return {'technique': technique, 'note': (note + ' ' + NOTE).strip()}


def P(id, title, statement, over, text, why, files, mech, c, observe=()):
    return {
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': list(observe)},
        'claim': c}


PRINT = 'symfit/core/printing.py'
OBJ = 'symfit/core/objectives.py'
MIN = 'symfit/core/minimizers.py'
MOD = 'symfit/core/models.py'
FIT = 'symfit/core/fit.py'
RES = 'symfit/core/fit_results.py'
ARG = 'symfit/core/argument.py'
SUP = 'symfit/core/support.py'
GUESS = 'symfit/contrib/interactive_guess/interactive_guess.py'
PROPERTIES = [
    P('C02', 'Objective values are the documented statistics',
      'For every model, data set and parameter vector, LeastSquares evaluates to '
      'half the sum, over all components that have data, of squared residuals '
      'divided by squared sigma (per component when asked not to flatten), '
      'VectorLeastSquares to the square root of the per-point sum of the same '
      'weighted squares, LogLikelihood to minus the NaN-ignoring sum of the '
      'logarithms of all components, and MinimizeModel to the only component. '
      'Components whose data is None contribute nothing, and no component with '
      'data is skipped.',
      ['inputs', 'programs'],
      'all models with any number of components, all data including None for some '
      'components, all parameter values',
      'Tests evaluate a few models at a few points; they cannot cover every '
      'combination of components with and without data and every sigma.',
      [OBJ], [('LeastSquares.__call__', OBJ), ('VectorLeastSquares.__call__', OBJ),
              ('LogLikelihood.__call__', OBJ), ('MinimizeModel.__call__', OBJ)],
      claim()),
    P('C03', 'Objective gradients and Hessians are the exact derivatives',
      'The gradient and Hessian that an objective offers to the minimizers are '
      'the exact first and second derivatives of the value it returns, assembled '
      'from the model components, their jacobian and their Hessian, with one entry '
      'per model parameter in order. Components without data contribute nothing; '
      'the model objective offers None when the model has no such derivative.',
      ['inputs', 'programs'],
      'all models, data (including None), sigmas and parameter values',
      'A wrong derivative usually still converges on the sampled problems.',
      [OBJ], [('eval_jacobian of the objectives', OBJ),
              ('eval_hessian of the objectives', OBJ)],
      claim()),

    P('C01', 'Fixed parameters never vary',
      'A parameter with fixed=True is never handed to an optimizer: it has no '
      'entry in the vector, the initial guess, the bounds, the gradient, the '
      'Hessian or the constraint derivatives, and every evaluation, including '
      'those by chained and global minimizers, uses its own value. The answer '
      'reports exactly that value for it.',
      ['inputs', 'programs', 'histories'],
      'every pattern of free and fixed parameters, every minimizer',
      'Tests fix one parameter in a few models; masking errors only show for '
      'particular positions of the fixed parameters.',
      [MIN, OBJ], [('BaseMinimizer', MIN), ('resize_jac, resize_hess', MIN),
                   ('BaseObjective.__call__', OBJ)],
      claim()),
    P('C05', 'Objectives evaluate the model on the bound data',
      'An objective called with a vector of free parameter values evaluates its '
      'model on the independent data and those values by name, with fixed '
      'parameters at their own value and keyword values otherwise; the number '
      'of values has to match. Independent, dependent and sigma data are looked '
      'up by the variables of the model, missing dependent data and sigmas '
      'become None, and results are broadcast to the shape of the data.',
      ['inputs', 'programs'],
      'every model, every data mapping, every vector of parameter values',
      'Only a few combinations of positional and keyword values, fixed '
      'parameters and missing data are sampled.',
      [OBJ], [('BaseObjective', OBJ), ('BaseIndependentObjective', OBJ)],
      claim()),
    P('C07', 'Data is bound to the variables it was given for',
      'Positional data goes to the independent, then the dependent variables, '
      'then the sigmas, each group in alphabetical order, and named data to the '
      'variable of that name, also for variables of constraints; lists become '
      'arrays and None stays None. Missing, surplus, duplicate and unknown data is '
      'refused with a TypeError, and the objective sees exactly the data of the fit.',
      ['inputs', 'programs'],
      'every model and every mixture of positional and named data',
      'Tests pass data in a few ways to a few models with distinct shapes.',
      [FIT], [('TakesData', FIT), ('Fit.__init__', FIT)],
      claim('Decided for models of one and two components and zero to two constraints.')),
    P('C08', 'Default sigmas and absolute_sigma',
      'A dependent variable without a given sigma gets ones of the shape of its data '
      '(none if it has no data), a constant sigma is broadcast to that shape, and '
      'given arrays are kept. absolute_sigma is what was passed explicitly, and '
      'otherwise true exactly when at least one sigma was given.',
      ['inputs'], 'all data, all subsets of sigmas, all values of absolute_sigma',
      'Tests use constant sigmas of one shape.',
      [FIT], [('TakesData.__init__', FIT), ('TakesData.sigma_data', FIT)],
      claim('Decided for models of one and two components.')),
    P('C09', 'Covariance matrices',
      'The covariance matrix of a fit is the inverse of the Hessian of the objective '
      'at the best fit, over the free parameters only (fixed parameters have zero '
      'rows and columns), multiplied for least squares with relative sigmas by the '
      'residual sum of squares over (data points minus free parameters). When the '
      'exact Hessian is unavailable or singular the Jacobian approximation of the same '
      'objective is used, and there is no covariance when that is singular too.',
      ['inputs', 'programs'],
      'all Hessians, data, values of absolute_sigma and choices of fixed parameters',
      'Tests compare a few fits, with tolerances, to reference implementations.',
      [FIT], [('HasCovarianceMatrix', FIT), ('Fit.execute', FIT)],
      claim('Decided for up to three parameters; the inverse itself is numpy.')),
    P('C10', 'Bounds and guesses of the parameters reach the optimizer',
      'Every bounded minimizer hands the optimizer the (min, max) of every free '
      'parameter, in parameter order, with None for a missing bound, and starts '
      'from the value of each free parameter. Global minimizers get the same '
      'bounds and pass them to their local minimizer.',
      ['inputs', 'programs'],
      'every list of parameters with any mixture of bounds and fixed ones',
      'A shift between bounds and parameters needs specific mixtures to show.',
      [MIN], [('BoundedMinimizer.bounds', MIN), ('DifferentialEvolution', MIN),
              ('BasinHopping', MIN)],
      claim()),
    P('C11', 'Constraints keep their direction',
      'Every constraint, given as a relation, an expression or a model, is '
      'handed to the optimizer with the same kind (equality or inequality) and '
      'direction as written: Eq is zero, Ge/Le/Gt/Lt are satisfied when the '
      'function handed over is non-negative, and its derivatives are those of '
      'that function restricted to the free parameters. Constraints see the '
      'data and parameters of the objective.',
      ['inputs', 'programs'],
      'every list of constraints of every kind',
      'Tests use few constraint types per minimizer; a flipped direction is '
      'invisible when the constraint is inactive at the optimum.',
      [MIN, FIT], [('scipy_constraints', MIN), ('TrustConstr', MIN),
                   ('COBYLA', MIN), ('Fit._init_constraints', FIT)],
      claim()),
    P('C12', 'The minimizer and objective fit the problem and explicit choices are honoured',
      'Without an explicit choice Fit picks a constrained minimizer when there '
      'are constraints, a bounded one when there are bounds, a gradient one '
      'otherwise, and the objective fits the model: minimization without data, '
      'likelihood for likelihood fits, least squares otherwise. An explicit '
      'minimizer or objective is used as given. Jacobians, Hessians and '
      'constraints are handed to exactly the minimizers that take them.',
      ['inputs', 'programs', 'configurations'],
      'every combination of bounds, constraints, data, model kind and explicit '
      'choice',
      'The combinations are far more than the tests construct.',
      [FIT, MIN], [('Fit._determine_minimizer', FIT), ('Fit._determine_objective', FIT),
                   ('Fit._init_minimizer', FIT)],
      claim()),
    P('C13', 'Chained minimization passes the baton',
      'A chained minimizer runs its minimizers in the order given, each starting '
      'from the free parameter values the previous one found, hands each its '
      'own options only (by name, numbered when repeated), leaves nothing '
      'behind for the next execution, and returns the answer of the last one '
      'with the iterations of all.',
      ['inputs', 'histories'],
      'every chain of minimizers, options and repeated executions',
      'Tests use one chain of two minimizers whose answers agree anyway.',
      [MIN], [('ChainedMinimizer.execute', MIN)],
      claim()),
    P('C14', 'What the caller passes in stays as it was',
      'Nothing the library is given is changed by using it: definitions and '
      'connectivity mappings of models, the models a constraint, negation or '
      'dependency is made from, initial values, data sets and the arrays in '
      'them, lists of constraints, minimizers and parameters, dicts of options, '
      'the parameters themselves (value, bounds, fixed), best fits and '
      'covariance matrices. Two models made from one definition do not affect '
      'each other.',
      ['inputs', 'histories'],
      'every definition, data set, option and parameter state',
      'Tests look at the results, hardly ever at what they passed in.',
      [MOD, OBJ, FIT, MIN, RES, SUP],
      [('BaseModel.__init__', MOD), ('BaseModel.with_dependencies', MOD),
       ('BaseObjective.__init__', OBJ), ('TakesData.__init__', FIT),
       ('Fit.__init__', FIT), ('ScipyMinimize.execute', MIN),
       ('BasinHopping.execute', MIN), ('ChainedMinimizer.execute', MIN)],
      claim('Containers are followed through every store; arrays entry by entry '
            'for arrays of two points.')),
    P('C15', 'Pickling preserves objects',
      'Pickling and unpickling a parameter, variable, model, objective, '
      'minimizer or set of fit results gives an object of the same class '
      'constructed from the same ingredients, with the same state: names, '
      'values, bounds, fixedness, data, constraints, options, results. Lazily '
      'computed attributes are recomputed, not lost.',
      ['inputs', 'programs'],
      'every picklable object of the package',
      'Tests pickle a few instances and compare a few attributes.',
      [ARG, MOD, OBJ, MIN, RES], [('__getstate__, __setstate__, __reduce__', MOD)],
      claim('Decided on the state that travels: what __getstate__/__reduce__ emit '
            'and what __setstate__/__init__ make of it.')),
    P('C28', 'Custom callables are wrapped faithfully',
      'A plain function given to a minimizer is minimized as a function of all '
      'given parameters by name, whatever their order, a model is minimized '
      'itself, and symfit objectives and their bound methods are used as they '
      'are. A custom gradient is treated the same way.',
      ['inputs', 'programs'],
      'every callable and every order of the parameters',
      'Tests wrap one or two functions.',
      [MIN], [('BaseMinimizer._baseobjective_from_callable', MIN)],
      claim('Decided for two parameters with both orders of every set.')),
    P('C30', 'Optimizers get the derivatives of their objective',
      'Every gradient or Hessian minimizer hands scipy the jacobian (and '
      'Hessian) it was given, or the one of its objective, restricted to the '
      'free parameters; minimizers that do not use them do not; each execution '
      'passes its options, tolerance and keywords through unchanged.',
      ['inputs', 'programs', 'configurations'],
      'every minimizer class and every option',
      'A derivative that is silently replaced by finite differences still '
      'converges.',
      [MIN], [('ScipyMinimize.execute', MIN), ('ScipyGradientMinimize', MIN),
              ('ScipyHessianMinimize', MIN)],
      claim()),

    P('C06', 'Parameters and variables follow the documented order',
      'Parameters, independent variables, dependent variables and sigmas of every '
      'model are sorted by name, and everything positional (calls of the model, '
      'evaluated components, jacobians, data arguments of Fit, vectors of '
      'parameter values) uses that same order, however the model was written '
      'down. The components of a model given as a list keep the order of the list.',
      ['inputs', 'programs'],
      'every model and every order in which its symbols are written',
      'Tests use models with few symbols whose order often coincides.',
      [MOD, FIT, SUP], [('BaseModel._init_from_dict', MOD), ('seperate_symbols', SUP),
                        ('CallableNumericalModel', MOD)],
      claim('Decided for symbol names chosen so that different orders differ.')),
    P('C16', 'Models are evaluated in dependency order',
      'A model whose components depend on each other evaluates every component '
      'with the evaluated values of the components it depends on, whatever the '
      'order they were written in, and refuses cyclic models. with_dependencies '
      'and as_constraint produce models that contain exactly the components '
      'needed and evaluate to the same values.',
      ['inputs', 'programs'],
      'every dependency graph between components',
      'Tests contain two or three small graphs.',
      [MOD], [('BaseModel.connectivity_mapping', MOD), ('ordered_symbols', MOD),
              ('BaseModel.with_dependencies', MOD), ('BaseModel.as_constraint', MOD)],
      claim('Decided on graphs of up to four components.')),
    P('C17', 'Model jacobians and Hessians are complete',
      'The jacobian of a model has one row per component and one column per '
      'parameter, the Hessian one matrix per component, each entry the exact '
      'derivative of the component, including through components it depends on '
      '(chain rule, at every depth), and evaluation substitutes the values of '
      'the call and broadcasts each entry to the shape of the component.',
      ['inputs', 'programs'],
      'all models, including interdependent ones',
      'Tests use a few models; missing terms vanish when derivatives are constant.',
      [MOD], [('jacobian_from_model', MOD), ('hessian_from_model', MOD),
              ('GradientModel.eval_jacobian', MOD), ('HessianModel.eval_hessian', MOD)],
      claim('Decided on graphs of up to four components and three levels.')),
    P('C21', 'Expressions and models are called by name',
      'Calling an expression or a model substitutes every argument for the symbol '
      'of its name, positionally in the documented order or by keyword, even when '
      'sympy replaces names in the generated code; missing and surplus '
      'arguments are refused. Derivatives and sums of components are '
      'represented by the documented variable names.',
      ['inputs', 'programs'],
      'every expression, every mixture of positional and keyword arguments',
      'Tests call a few expressions.',
      [ARG, SUP, MOD], [('Argument', ARG), ('sympy_to_py', SUP),
                        ('Expr.__call__', ARG), ('BaseCallableModel.__call__', MOD)],
      claim()),
    P('C29', 'Results do not depend on hash order',
      'No order in which Python happens to iterate over a set, which differs '
      'between runs because of hash randomization, changes the order of '
      'parameters, variables or components, the evaluated values, the '
      'derivatives, the constraints or the choices of minimizer.',
      ['inputs', 'schedules'],
      'every model and every iteration order of every set',
      'A test run sees one hash seed per process.',
      [MOD, FIT, SUP], [('BaseModel', MOD), ('seperate_symbols', SUP)],
      claim('Every permutation of every set is covered by treating set iteration '
            'as an unknown order.')),
    P('C18', 'Differential equations follow the documented conventions',
      'Evaluating an ODEModel integrates exactly the given equations, with the '
      'given parameters, from the given initial values (which may be parameters) '
      'at the initial time to the requested times, and returns one array per '
      'dependent variable, in the order of the variables. The integrator, its '
      'options and the Jacobian are those of the model; a failed integration is '
      'an error, and evaluation leaves the model as it was.',
      ['inputs', 'programs'],
      'every system of equations, parameter vector, initial value and grid of times',
      'Tests integrate a few systems with one or two components.',
      [MOD], [('ODEModel.eval_components', MOD), ('ODEModel.__init__', MOD),
              ('ODEModel.__call__', MOD)],
      claim('Decided on a system of two components; the numbers returned by scipy '
            'are opaque.')),
    P('C19', 'FitResults reports each number for the right parameter',
      'value, variance, stdev and covariance of a FitResults give the entries '
      'that belong to the requested parameters, in the order of the parameters of '
      'the model, None when there is no covariance matrix, and an error for a '
      'parameter that is not in the model. R squared, chi squared, the '
      'likelihood and the objective value are those of the objective that was '
      'minimized, and are absent when they have no meaning for it.',
      ['inputs', 'programs'],
      'every model, parameter order, covariance matrix and objective',
      'Tests look at fits with one or two parameters in alphabetical order.',
      [RES], [('FitResults.variance', RES), ('FitResults.covariance', RES),
                   ('FitResults.stdev', RES), ('FitResults._gof_qualifiers', RES),
                   ('r_squared', RES)],
      claim()),
    P('C20', 'Model output is found by index and by name',
      'The output of a model gives the value of each component by its index, by '
      'the name of its variable and when unpacked, in the order of the '
      'components; unknown names are an AttributeError and indices out of range '
      'an IndexError. Copies and pickles have the same contents, and the '
      'dictionary form is a copy.',
      ['inputs', 'programs'],
      'every set of components and every value',
      'Tests look at outputs of one or two components.',
      [MOD], [('ModelOutput', MOD)],
      claim()),
    P('C38', 'Models are mappings of their components',
      'A symbolic, numerical or differential equation model is a mapping from the '
      'variables of its components to their expressions or callables: iteration, '
      'keys, values and items give them in documented order, their number is the '
      'length, and looking up, testing membership and get agree with that. Any '
      'other symbol, such as a parameter or independent variable, is not in the '
      'model, and looking it up is a KeyError.',
      ['inputs', 'programs'],
      'every model and every symbol',
      'Tests look up components which exist, and in symbolic models.',
      [MOD], [('BaseModel.__getitem__', MOD), ('ODEModel.__getitem__', MOD)],
      claim()),
    P('C22', 'Parameters keep what they are given',
      'A Parameter keeps its name, value, bounds, fixedness and assumptions, a '
      'lower bound above the upper bound is refused unless the parameter is '
      'fixed, and parameters are equal only when all of these are. parameters() '
      'gives the n-th entry of a sequence, or a single value, to the n-th '
      'parameter and refuses sequences of another length. Nameless arguments '
      'get names of their own, and the state survives pickling.',
      ['inputs'],
      'every value, bound and combination of sequences and single values',
      'Tests use a few parameters with plain numbers.',
      [ARG, SUP], [('Parameter', ARG), ('Argument', ARG), ('parameters', SUP),
                   ('variables', SUP)],
      claim('The interning of symbols in sympy is outside of the model: the '
            'parameters of one obligation have different names.')),
    P('C31', 'Optimizers are called as chosen and report back',
      'Every minimizer calls the algorithm it is named after, with the objective '
      'it was given, the options, tolerance and callbacks the user chooses and '
      'the documented defaults otherwise (a tolerance of 1e-9 for '
      'scipy.optimize.minimize; rand1bin, popsize 40, mutation (0.423, 1.053), '
      'recombination 0.95, no polishing and latinhypercube for differential '
      'evolution; trf for MINPACK). Basin hopping uses the algorithm of its '
      'local minimizer unless the user says otherwise. The result carries the '
      'full answer: message, objective, minimizer, constraints, and the number of '
      'iterations under one name.',
      ['inputs'],
      'every minimizer, objective, parameter list and choice of options',
      'Tests look at the optimum, which most algorithms and options reach anyway.',
      [MIN], [('ScipyMinimize.execute', MIN), ('ScipyMinimize._pack_output', MIN),
              ('DifferentialEvolution.execute', MIN), ('BasinHopping.execute', MIN),
              ('MINPACK.execute', MIN), ('ScipyConstrainedMinimize._pack_output', MIN)],
      claim('scipy is seen through what it is called with and answers.')),
    P('C32', 'Models report what they consist of',
      'The symbols of an expression are its variables and parameters in '
      'alphabetical order; indices and array entries are neither, other symbols '
      'are refused, and derivatives with respect to parameters count as '
      'variables. A model is a mapping in alphabetical order; it has a sigma for '
      'each dependent variable, its free parameters are those which are not '
      'fixed, its bounds are those of its parameters (tight around fixed values), '
      'and it shares parameters when any occurs in more than one component. The '
      'deprecated lists of variables and parameters of callables connect '
      'everything.',
      ['inputs', 'programs'],
      'models of the given shapes, over all symbols, parameters and callables',
      'Tests never look at bounds or shared parameters of more than a few models.',
      [MOD, SUP], [('seperate_symbols', SUP), ('BaseModel.shared_parameters', MOD),
                   ('BaseModel.bounds', MOD), ('BaseModel.free_params', MOD),
                   ('BaseNumericalModel.__init__', MOD)],
      claim()),
    P('C04', 'Printed matrix code computes the expression',
      'The numpy code of element-wise products and powers, inverses, indices and '
      'matrix powers computes what the expression says: no factor is lost, and '
      'factors, bases and exponents are parenthesised when they bind looser.',
      ['inputs', 'programs'],
      'every number of factors and every precedence of the parts',
      'Tests contain one product of two plain symbols.',
      [PRINT], [('_print_HadamardProduct', PRINT), ('_print_HadamardPower', PRINT),
                ('_print_Inverse', PRINT), ('_print_Idx', PRINT), ('_print_MatPow', PRINT)],
      claim('Code is compared by its syntax tree, so that parentheses which '
            'change nothing do not matter.')),
    P('C23', 'Equality and negation of models and objectives',
      'Models are equal exactly when they have the same components with, after '
      'multiplying out, the same expressions (the same callables and connections '
      'for numerical models; the same equations and initial conditions for ODE '
      'models), whatever the order in which the components were given; a model '
      'of expressions never equals one of callables and an ODE model never '
      'equals an explicit one. Objectives are equal when type, model and all '
      'data agree. Minus a model is a new model of the same class in which the '
      'dependent components, and their derivatives, have the opposite sign and '
      'everything else is the same, and leaves the model as it was.',
      ['inputs'],
      'every set of component expressions or callables, initial condition and '
      'data set',
      'Tests compare a handful of models with themselves and their negation.',
      [MOD, OBJ], [('BaseModel.__eq__', MOD), ('BaseNumericalModel.__eq__', MOD),
                   ('BaseModel.__neg__', MOD), ('BaseNumericalModel.__neg__', MOD),
                   ('ODEModel.__neg__', MOD), ('BaseObjective.__eq__', OBJ)],
      claim('Opaque expressions with different names are different expressions; '
            'multiplying out is an opaque operation on them.')),
    P('C24', 'Cached properties are computed once',
      'A cached property computes its value at the first access, returns the same '
      'value from then on and computes it again only after it was deleted. '
      'Values are kept per object and per property; an exception is not kept, and '
      'deleting a value which was never computed does nothing.',
      ['inputs', 'histories'],
      'every sequence of reads and deletions',
      'Tests delete and read one property once.',
      [SUP], [('cached_property.__get__', SUP), ('cached_property.__delete__', SUP)],
      claim('Decided on histories of up to nine accesses.')),
    P('C25', 'Numerical derivatives are sixth order central differences',
      'The finite difference Jacobian of a model is, for each component and each '
      'parameter, the sixth order central difference of that component in that '
      'parameter alone, with a step which is relative to parameters that are not '
      'close to zero; it is exact for polynomials up to the sixth degree. Its '
      'shape is parameters by data points of the component.',
      ['inputs'],
      'every model, parameter vector and step size',
      'Tests compare with analytical derivatives to a tolerance for a few models.',
      [MOD], [('BaseGradientModel.finite_difference', MOD),
              ('BaseGradientModel.eval_jacobian', MOD)],
      claim('Decided on models of two components and two parameters, over real '
            'numbers: rounding errors are outside of the model.')),
    P('C26', 'Distributions have their documented densities',
      'Gaussian, BivariateGaussian and Exp are the densities of the normal, the '
      'bivariate normal with correlation and the exponential distribution in the '
      'given symbols.',
      ['inputs'],
      'every choice of symbols',
      'Tests fit samples, which tolerates errors in the normalization.',
      ['symfit/distributions.py'],
      [('Gaussian', 'symfit/distributions.py'),
       ('BivariateGaussian', 'symfit/distributions.py'),
       ('Exp', 'symfit/distributions.py')],
      claim()),
    P('C27', 'The interactive guess shows and sets the right parameters',
      'Every slider of an InteractiveGuess spans the bounds of its own parameter, '
      'or the range between zero and twice its value, and moving it sets that parameter and no other. '
      'Every panel shows the data and the model of its own projection, evaluated '
      'by name with the current values on a grid that covers the data, with error '
      'bars at the requested percentiles.',
      ['inputs', 'histories'],
      'every model, data set and sequence of slider movements',
      'Tests inspect a few figures; nobody looks at the screen.',
      [GUESS], [('InteractiveGuess', GUESS), ('Strategy2D', GUESS), ('StrategynD', GUESS)],
      claim('matplotlib is represented by recording stand-ins.')),
    P('C33', 'What is printed is what was found',
      'Printing fit results gives a row for every parameter, in order, with its '
      'own value and standard deviation (None without a covariance matrix), the '
      'status message, iterations, objective and minimizer, every goodness of fit '
      'qualifier with its value, and every constraint with its relation and its '
      'value at the best fit. Printing or typesetting a model gives every '
      'component, in order, with exactly the variables and parameters it depends '
      'on and its own expression.',
      ['inputs'],
      'every model, result and set of constraints',
      'Tests compare the text of a few models and results, if at all.',
      [RES, MOD], [('FitResults.__str__', RES), ('BaseModel.__str__', MOD),
                   ('BaseModel._repr_latex_', MOD), ('ODEModel.__str__', MOD)],
      claim('White space and the formats of numbers are not compared.')),
    P('C34', 'Fits find the optimum',
      'For data which a model describes up to noise, and a guess in the basin of '
      'attraction, executing a Fit returns parameter values at which the objective '
      'is minimal within the tolerance asked for, with every minimizer that '
      'supports the problem.',
      ['inputs'],
      'every model, data set, guess and minimizer',
      'Tests fit a few dozen data sets from guesses which are known to work.',
      [FIT, MIN], [('Fit.execute', FIT), ('ScipyMinimize.execute', MIN)],
      'Whether an iteration converges, and to what, depends on floating point '
      'values at run time inside scipy; no bound on them follows from the source. '
      'The part which symfit contributes (what is handed to scipy and what is '
      'made of its answer) is decided by C01-C03, C05, C10-C13, C30 and C31.'),
    P('C35', 'Answers satisfy bounds and constraints',
      'The values a fit with bounds or constraints returns lie within the bounds '
      'and satisfy every constraint up to the tolerance, or the status message '
      'says that the minimizer failed.',
      ['inputs'],
      'every set of bounds and constraints, guess and minimizer',
      'Tests try a handful of constrained problems.',
      [MIN], [('BoundedMinimizer', MIN), ('ConstrainedMinimizer', MIN)],
      'Satisfying them is up to the iterates of scipy at run time. That bounds '
      'and constraints are handed over unchanged is decided by C10 and C11.'),
    P('C36', 'ODE solutions are accurate',
      'Evaluating an ODEModel gives the solution of the initial value problem at '
      'the requested times up to the tolerances of the integrator, also for times '
      'before the initial time and for stiff systems.',
      ['inputs'],
      'every system of equations, initial value and set of times',
      'Tests compare a few systems with known solutions.',
      [MOD], [('ODEModel.eval_components', MOD)],
      'The error of an adaptive integration is a run time quantity of LSODA. That '
      'the right equations, initial values, times and options are integrated is '
      'decided by C18.'),
    P('C37', 'Generated code agrees numerically with the expressions',
      'Evaluating the function generated for an expression gives the value of the '
      'expression, up to rounding, wherever that is defined, for every function '
      'sympy can print to numpy.',
      ['inputs'],
      'every expression and every point',
      'Tests evaluate a few expressions at a few points.',
      [SUP, PRINT], [('sympy_to_py', SUP), ('SymfitNumPyPrinter', PRINT)],
      'The printing of functions is sympy\'s, rounding, overflow and cancellation '
      'are run time quantities. What symfit adds (names, order of arguments, '
      'printing of matrix expressions) is decided by C04 and C21.'),
]
